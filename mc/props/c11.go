package props

import (
	"gkr-mimc/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C11/eq", c11eq)
	ev.Register("C11/chunked", c11chunked)
	ev.Register("C11/large", c11large)
	ev.Register("C11/complete", c11complete)
}

// EqTableFast is the doubling construction, for large sizes.
func eqTableFast(q []E) []E {
	t := []E{U(1)}
	for _, x := range q {
		n := make([]E, 2*len(t))
		for i, v := range t {
			n[2*i] = Mul(v, Sub(U(1), x))
			n[2*i+1] = Mul(v, x)
		}
		t = n
	}
	return t
}

func c11point(t *ev.T, q []E, cores []int, others [][]E) {
	n := len(q)
	want := EqTable(q)
	in, ok := guarded(q)
	e := polynomial.GetFoldedEqTable(in)
	if !Eq1(e.Table, want) {
		t.Failf("equality table at %s is %s, expected %s", str(q...), str(e.Table...), str(want...))
	}
	t.Trans(1)
	for _, nc := range pow2s(1 << n) {
		wc := Chunk(want, nc)
		for _, core := range cores {
			c := polynomial.GetChunkedEqTable(in, nc, core)
			if len(c) != nc {
				t.Failf("equality table in %d chunks has %d chunks", nc, len(c))
			}
			for i := range c {
				if !Eq1(c[i].Table, wc[i]) {
					t.Failf("equality table at %s, chunk %d of %d, %d cores: %s, expected %s", str(q...), i, nc, core, str(c[i].Table...), str(wc[i]...))
				}
			}
			t.Trans(1)
		}
	}
	for _, h := range others {
		h := h[:n]
		we, wm := EqEval(q, h), MLE(want, h)
		layouts([][]E{q, h}, func(name string, v [][]E, intact func() bool) {
			if g := polynomial.EvalEq(v[0], v[1]); g != we || g != wm {
				t.Failf("equality of %s and %s is %s", str(q...), str(h...), str(g))
			}
			if !intact() {
				t.Failf("equality evaluation modified a point (points: %s)", name)
			}
		})
		t.Trans(1)
	}
	if !ok() {
		t.Failf("an equality function modified the point %s", str(q...))
	}
	t.State(hashE(uint64(n), q...))
	t.Trace()
}

func c11eq(x *ev.X) {
	al := []E{U(0), U(1), I(-1), U(2), gen(0)}
	top := 4
	if x.Thorough {
		top = 5
	}
	var others [][]E
	for _, p := range patterns(16, 40) {
		others = append(others, p)
	}
	cores := []int{1, 2, 3, 8}
	for n := 0; n <= top; n++ {
		first := 1
		if n > 0 {
			first = len(al)
		}
		for a := 0; a < first; a++ {
			n, a := n, a
			x.Case(func(t *ev.T) {
				k := n - 1
				if n == 0 {
					c11point(t, nil, cores, others)
					return
				}
				product(len(al), k, func(ix []int) {
					c11point(t, append([]E{al[a]}, pick(al, ix)...), cores, others)
				})
			}, "all points with %d coordinates over {0,1,-1,2,generic}, first %s", n, str(al[a]))
		}
	}
	for n := 1; n <= 8; n++ {
		for i := 0; i < n; i++ {
			n, i := n, i
			x.Case(func(t *ev.T) {
				for _, e := range rich() {
					q := gens(50, n)
					q[i] = e
					c11point(t, q, []int{1, 2, 5, 16}, others)
				}
			}, "points with %d coordinates, rich value at %d", n, i)
		}
	}
}

func c11eval(t *ev.T, tab []E, bg, nc int, point []E, hL, hR, hP []E) {
	ch := Chunk(tab, nc)
	cb := bkts(ch)
	if point != nil {
		in, ok := guarded(point)
		if g := polynomial.EvaluateChunked(cb, in); g != FixAll(tab, point)[0] {
			t.Failf("evaluation of a table of size %d in %d chunks at %s is %s, expected %s", len(tab), nc, str(point...), str(g), str(FixAll(tab, point)[0]))
		}
		if !ok() {
			t.Failf("chunked evaluation modified the point")
		}
		t.Trans(1)
	}
	if hP != nil || hL != nil {
		wl, wr := FixAll(tab, append(Copy(hL), hP...))[0], FixAll(tab, append(Copy(hR), hP...))[0]
		layouts([][]E{hP, hL, hR}, func(name string, v [][]E, intact func() bool) {
			if len(tab) > 16 && name != "separate, spare capacity" {
				return
			}
			l, r := polynomial.EvaluateMixedChunked(cb, v[0], v[1], v[2])
			if l != wl || r != wr {
				t.Failf("left/right evaluation of a table of size %d in %d chunks, %d left variables (points: %s): %s, expected %s", len(tab), nc, len(hL), name, str(l, r), str(wl, wr))
			}
			if !intact() {
				t.Failf("chunked left/right evaluation modified the point (points: %s)", name)
			}
			t.Trans(1)
		})
	}
	// the chunks may be consecutive parts of one array
	flat, intact := guarded(Flat(ch))
	pb := make([]polynomial.BookKeepingTable, nc)
	for i := range pb {
		pb[i].Table = flat[i*len(tab)/nc : (i+1)*len(tab)/nc]
	}
	if point != nil {
		if g := polynomial.EvaluateChunked(pb, point); g != FixAll(tab, point)[0] {
			t.Failf("evaluation of a table of size %d in %d chunks lying in one array at %s is %s", len(tab), nc, str(point...), str(g))
		}
	}
	if hP != nil || hL != nil {
		l, r := polynomial.EvaluateMixedChunked(pb, hP, hL, hR)
		if l != FixAll(tab, append(Copy(hL), hP...))[0] || r != FixAll(tab, append(Copy(hR), hP...))[0] {
			t.Failf("left/right evaluation of a table of size %d in %d chunks lying in one array", len(tab), nc)
		}
	}
	if !intact() {
		t.Failf("chunked evaluation disturbed a table of size %d in %d chunks lying in one array", len(tab), nc)
	}
	for i := range ch {
		if !Eq1(cb[i].Table, ch[i]) {
			t.Failf("chunked evaluation disturbed chunk %d of %d", i, nc)
		}
	}
	v := polynomial.AsChunkedBookKeepingTable(ch)
	for i := range ch {
		if !Eq1(v[i].Table, ch[i]) {
			t.Failf("chunk view %d of %d has the wrong content", i, nc)
		}
	}
}

func c11chunked(x *ev.X) {
	for n := 0; n <= 7; n++ {
		for bg := 0; bg <= n && bg <= 3; bg++ {
			for _, nc := range pow2s(1 << (n - bg)) {
				n, bg, nc := n, bg, nc
				x.Case(func(t *ev.T) {
					for pi, tab := range patterns(1<<n, 60) {
						pts := patterns(n, 70)
						if n > 0 {
							for i := 0; i < n; i++ {
								q := gens(75, n)
								q[i] = U(uint64(i & 1))
								pts = append(pts, q)
							}
						}
						for _, p := range pts {
							hL, hP := p[:bg], p[bg:]
							for _, hR := range [][]E{gens(80, bg), patterns(bg, 3)[5]} {
								c11eval(t, tab, bg, nc, p, hL, hR, hP)
							}
						}
						t.State(ev.Mix(uint64(pi), uint64(n), uint64(bg), uint64(nc)))
					}
					t.Trace()
				}, "table of size %d, %d left variables, %d chunks", 1<<n, bg, nc)
			}
		}
	}
	al := tiny()
	for a := range al {
		for b := range al {
			a, b := a, b
			x.Case(func(t *ev.T) {
				product(len(al), 2, func(ix []int) {
					tab := append([]E{al[a], al[b]}, pick(al, ix)...)
					product(len(al), 2, func(iy []int) {
						p := pick(al, iy)
						for _, nc := range []int{1, 2, 4} {
							c11eval(t, tab, 0, nc, p, nil, nil, p)
						}
						for _, nc := range []int{1, 2} {
							c11eval(t, tab, 1, nc, p, p[:1], []E{gen(90)}, p[1:])
						}
					})
					t.State(hashE(4, tab...))
				})
				t.Trace()
			}, "all tables of size 4 over the tiny alphabet starting with %s, at all points, all chunkings", str(al[a], al[b]))
		}
	}
}

// tables spanning several work units
func c11large(x *ev.X) {
	top := 15
	if x.Thorough {
		top = 17
	}
	for n := 10; n <= top; n++ {
		for _, nc := range []int{1, 2, 4, 8, 64, 1 << (n - 1), 1 << n} {
			for _, core := range []int{1, 2, 3, 4, 7, 8, 20} {
				n, nc, core := n, nc, core
				if nc >= 1<<(n-1) && (n > 12 || core > 3) {
					continue
				}
				x.Case(func(t *ev.T) {
					q := gens(100, n)
					want := Chunk(eqTableFast(q), nc)
					c := polynomial.GetChunkedEqTable(q, nc, core)
					for i := range c {
						if !Eq1(c[i].Table, want[i]) {
							t.Failf("equality table of size 2^%d, chunk %d of %d, %d cores", n, i, nc, core)
						}
					}
					if nc == 1 {
						e := polynomial.GetFoldedEqTable(q)
						if !Eq1(e.Table, want[0]) {
							t.Failf("equality table of size 2^%d", n)
						}
						t.Trans(1)
					}
					t.Step(ev.Mix(5, uint64(n), uint64(nc), uint64(core)))
					if core == 1 {
						tab := gens(110, 1<<n)
						c11eval(t, tab, 1, nc/2+nc%2, gens(120, n), gens(130, 1), gens(131, 1), gens(132, n-1))
					}
				}, "equality table of size 2^%d in %d chunks with %d cores", n, nc, core)
			}
		}
	}
}

func c11complete(x *ev.X) {
	al := all()
	for a := range al {
		for b := range al {
			a, b := a, b
			x.Case(func(t *ev.T) {
				var others [][]E
				product(P, 2, func(ix []int) { others = append(others, pick(al, ix)) })
				c11point(t, []E{al[a], al[b]}, []int{1, 2}, others)
				for _, c := range al {
					c11point(t, []E{al[a], al[b], c}, []int{1}, nil)
				}
				for _, c := range al {
					for _, d := range al {
						tab := []E{al[a], al[b], c, d}
						for _, p := range others {
							for _, nc := range []int{1, 2, 4} {
								if polynomial.EvaluateChunked(bkts(Chunk(tab, nc)), p) != MLE(tab, p) {
									t.Failf("table %s in %d chunks at %s", str(tab...), nc, str(p...))
								}
								t.Trans(1)
							}
						}
						t.State(hashE(6, tab...))
					}
				}
				t.Trace()
			}, "field of %d elements: all points with 2,3 coordinates and tables of size 4 starting with %s", P, str(al[a], al[b]))
		}
	}
}
