package props

import (
	"gkr-mimc/common"
	"verif/mc/ev"
)

func init() {
	ev.Register("C13/ranges", c13ranges)
	ev.Register("C13/integers", c13ints)
}

func c13check(t *ev.T, nCore, n int) {
	cs := common.IntoChunkRanges(nCore, n)
	pos := 0
	for i, c := range cs {
		if c.Begin != pos {
			t.Failf("cores=%d items=%d: unit %d begins at %d, expected %d", nCore, n, i, c.Begin, pos)
		}
		if c.End <= c.Begin {
			t.Failf("cores=%d items=%d: unit %d is empty or reversed: [%d,%d)", nCore, n, i, c.Begin, c.End)
		}
		if i+1 < len(cs) && c.End-c.Begin < common.MinChunkSize {
			t.Failf("cores=%d items=%d: unit %d of %d has %d items, fewer than the minimum", nCore, n, i, len(cs), c.End-c.Begin)
		}
		pos = c.End
	}
	if pos != n {
		t.Failf("cores=%d items=%d: units cover %d items", nCore, n, pos)
	}
	t.Step(ev.Mix(1, uint64(nCore), uint64(n)))
	t.Max("units", int64(len(cs)))
}

func c13ranges(x *ev.X) {
	maxN, maxC := 45000, 33
	if x.Thorough {
		maxN, maxC = 150000, 66
	}
	for c := 1; c <= maxC; c++ {
		for lo := 0; lo <= maxN; lo += 5000 {
			c, lo := c, lo
			x.Case(func(t *ev.T) {
				for n := lo; n < lo+5000; n++ {
					c13check(t, c, n)
				}
			}, "cores=%d items=%d..%d (all)", c, lo, lo+4999)
		}
	}
	// around multiples of the unit size and of the number of cores
	cores := []int{1, 2, 3, 5, 7, 8, 12, 16, 31, 32, 48, 63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 1000, 1024, 4095, 4096, 4097, 100000, 1 << 20, 1 << 40}
	for _, c := range cores {
		c := c
		x.Case(func(t *ev.T) {
			for k := 1; k <= 300; k++ {
				for d := -3; d <= 3; d++ {
					c13check(t, c, k*4096+d)
					if k < 64 && c <= 4097 {
						c13check(t, c, k*4096*c+d)
						c13check(t, c, k*5000*c+d)
						c13check(t, c, k*c+4*4096+d+3)
					}
				}
			}
			for e := 0; e < 26; e++ {
				for d := -3; d <= 3; d++ {
					if n := 1<<e + d; n >= 0 {
						c13check(t, c, n)
						c13check(t, c, 3*n)
						c13check(t, c, 5*n)
					}
				}
			}
		}, "cores=%d items around multiples of 4096, of 4096*cores and powers of two", c)
		// very large numbers of items, in a moderate number of units
		x.Case(func(t *ev.T) {
			for e := 26; e <= 60; e++ {
				for d := -4097; d <= 4097; d++ {
					if d > 5 && d < 4090 || d < -5 && d > -4090 {
						continue
					}
					n := 1<<uint(e) + d
					if c <= 4097 && n/c > 1<<12 {
						c13check(t, c, n)
						if e < 59 {
							c13check(t, c, 3*n)
						}
					}
				}
			}
		}, "cores=%d items around 2^26..2^60", c)
	}
}

func c13ints(x *ev.X) {
	floor := func(a int) int {
		r := 0
		for a>>1 != 0 {
			a >>= 1
			r++
		}
		return r
	}
	chk := func(t *ev.T, a int) {
		f := floor(a)
		c := f
		if a&(a-1) != 0 {
			c++
		}
		if g := common.Log2Floor(a); g != f {
			t.Failf("Log2Floor(%d)=%d, expected %d", a, g, f)
		}
		if g := common.Log2Ceil(a); g != c {
			t.Failf("Log2Ceil(%d)=%d, expected %d", a, g, c)
		}
		t.State(ev.Mix(2, uint64(a)))
		t.Trans(2)
		t.Trace()
	}
	max := 1 << 20
	if x.Thorough {
		max = 1 << 23
	}
	for lo := 0; lo < max; lo += 1 << 15 {
		lo := lo
		x.Case(func(t *ev.T) {
			for a := lo; a < lo+1<<15; a++ {
				if a > 0 {
					chk(t, a)
				}
			}
		}, "logarithms of all integers in [%d,%d)", lo, lo+1<<15)
	}
	x.Case(func(t *ev.T) {
		for e := 1; e < 62; e++ {
			for d := -5; d <= 5; d++ {
				if a := 1<<uint(e) + d; a > 0 {
					chk(t, a)
				}
			}
			chk(t, 1<<uint(e)+1<<uint(e-1))
		}
	}, "logarithms around powers of two up to 2^61")
	x.Case(func(t *ev.T) {
		var al []int
		for e := 0; e < 63; e += 1 {
			for d := -1; d <= 1; d++ {
				al = append(al, 1<<uint(e)+d, -(1<<uint(e) + d))
			}
		}
		for _, a := range al {
			for _, b := range al {
				mn, mx := a, b
				if b < a {
					mn, mx = b, a
				}
				if common.Min(a, b) != mn || common.Max(a, b) != mx {
					t.Failf("Min/Max(%d,%d)=%d/%d", a, b, common.Min(a, b), common.Max(a, b))
				}
				t.Trans(2)
				t.Trace()
				t.State(ev.Mix(3, uint64(a), uint64(b)))
			}
		}
	}, "minimum and maximum of all pairs of boundary integers")
}
