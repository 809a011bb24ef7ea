//go:build !race

package sched

func raceLeave()   {}
func raceAbandon() {}
