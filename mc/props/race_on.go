//go:build mcsched && race

package props

import "runtime"

func raceErrors() func() int { return runtime.RaceErrors }
