package main

import (
	"bufio"
	"fmt"
	"os"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

// parse1 parses a text that must be one statement and returns its observation.
func parse1(c *Case, text string) (query.Statement, string, bool) {
	c.Step(1)
	stmts, err := parse(text)
	if err != nil {
		c.Failf("rejected: %v", err)
		return nil, "", false
	}
	if len(stmts) != 1 {
		c.Failf("%d statements instead of one: %s", len(stmts), obsParse(stmts, nil))
		return nil, "", false
	}
	return stmts[0], obsStmt(stmts[0]), true
}

func observeLines() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		stmts, err := parse(sc.Text())
		fmt.Println(sc.Text())
		fmt.Println("   ", obsParse(stmts, err), err)
		for _, s := range stmts {
			fmt.Println("   ", s.String())
		}
	}
}
