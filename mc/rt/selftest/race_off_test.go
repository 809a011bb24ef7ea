//go:build !race

package selftest

var races func() int
