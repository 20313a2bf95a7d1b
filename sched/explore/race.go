//go:build race

package explore

import "runtime"

func init() {
	Races = true
	raceErrors = runtime.RaceErrors
}
