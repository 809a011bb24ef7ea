//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

var raceToken [64]byte

// raceLeave and raceAbandon order the deferred functions which run when an execution is abandoned after everything
// else: they run without the synchronisation of the program, so that nothing they do is an access of the program.
func raceLeave()   { runtime.RaceReleaseMerge(unsafe.Pointer(&raceToken)) }
func raceAbandon() { runtime.RaceAcquire(unsafe.Pointer(&raceToken)) }
