//go:build race

package selftest

import "runtime"

var races = runtime.RaceErrors
