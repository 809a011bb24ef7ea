//go:build mcsched && !race

package props

func raceErrors() func() int { return nil }
