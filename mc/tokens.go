package main

import "strings"

// tok is one token of a written statement.
type tok struct {
	s string
	k byte // 'k' keyword, 'f' function name, 'i' identifier, 'p' punctuation, 'l' literal; 'K' and 'F' as written
}

type toks []tok

func kw(s string) toks {
	out := toks{}
	for _, w := range strings.Fields(s) {
		out = append(out, tok{w, 'k'})
	}
	return out
}
func id(s string) toks { return toks{{s, 'i'}} }
func pu(s string) toks { return toks{{s, 'p'}} }
func li(s string) toks { return toks{{s, 'l'}} }

func cat(ts ...toks) toks {
	out := toks{}
	for _, t := range ts {
		out = append(out, t...)
	}
	return out
}

// tight reports whether no space is written between two tokens in the usual style.
func tight(a, b tok) bool {
	return b.s == "," || b.s == ")" || b.s == ";" || a.s == "(" || a.s == "." || b.s == "." ||
		(b.s == "(" && (a.k == 'f' || a.k == 'F'))
}

// String writes the tokens in the usual style.
func (ts toks) String() string {
	sb := strings.Builder{}
	for n, t := range ts {
		if n > 0 && !tight(ts[n-1], t) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t.s)
	}
	return sb.String()
}

// tokenize splits SQL text into tokens outside of quotes; comments are dropped.
func tokenize(s string) []string {
	out := []string{}
	isWord := func(c byte) bool {
		return c == '_' || c == '$' || c == '.' || c >= 0x80 || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f':
			i++
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(s) {
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			j = min(j+1, len(s))
			out = append(out, s[i:j])
			i = j
		case strings.HasPrefix(s[i:], "--"):
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				i = len(s)
			} else {
				i += j + 1
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				i = len(s)
			} else {
				i += j + 4
			}
		case isWord(c):
			j := i
			for j < len(s) && isWord(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			l := 1
			for _, op := range []string{"<=", ">=", "<>", "!=", "==", "||", "<<", ">>"} {
				if strings.HasPrefix(s[i:], op) {
					l = 2
				}
			}
			out = append(out, s[i:i+l])
			i += l
		}
	}
	return out
}

// norm is the text of an expression up to whitespace between its tokens.
func norm(s string) string { return strings.Join(tokenize(s), " ") }
