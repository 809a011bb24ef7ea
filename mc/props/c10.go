package props

import (
	"fmt"

	"gkr-mimc/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C10/histories", c10histories)
	ev.Register("C10/large", c10large)
	ev.Register("C10/complete", c10complete)
}

// The history machine: two table registers A and B (implementation and reference side by side). Every operation
// checks its result and, at every step, that all live tables still hold the reference content.
type c10m struct {
	t    *ev.T
	a, b polynomial.BookKeepingTable
	ra   []E
	rb   []E
	hist []string
	h    uint64
}

func (m *c10m) fail(format string, a ...interface{}) {
	m.t.Failf("after %v: %s", m.hist, fmt.Sprintf(format, a...))
}

func (m *c10m) check() {
	if !Eq1(m.a.Table, m.ra) {
		m.fail("table A is %s, expected %s", str(m.a.Table...), str(m.ra...))
	}
	if !Eq1(m.b.Table, m.rb) {
		m.fail("table B is %s, expected %s", str(m.b.Table...), str(m.rb...))
	}
	m.t.Trans(1)
}

type c10op struct {
	name string
	ok   func(m *c10m) bool // defined in this state
	run  func(m *c10m)
}

func c10ops(deep bool) []c10op {
	var ops []c10op
	add := func(name string, ok func(m *c10m) bool, run func(m *c10m)) { ops = append(ops, c10op{name, ok, run}) }
	always := func(m *c10m) bool { return true }
	aBig := func(m *c10m) bool { return len(m.ra) > 1 }
	fr := []E{gen(200), U(0), U(1)}
	if deep {
		fr = append(fr, I(-1), gen(201))
	}
	for _, r := range fr {
		r := r
		add("foldA("+str(r)+")", aBig, func(m *c10m) { m.a.Fold(r); m.ra = Fix(m.ra, r) })
	}
	add("foldB", func(m *c10m) bool { return len(m.rb) > 1 }, func(m *c10m) { m.b.Fold(gen(202)); m.rb = Fix(m.rb, gen(202)) })
	add("B=copy(A)", always, func(m *c10m) { m.b = m.a.DeepCopy(); m.rb = Copy(m.ra) })
	add("swap", always, func(m *c10m) { m.a, m.b = m.b, m.a; m.ra, m.rb = m.rb, m.ra })
	add("evalA", always, func(m *c10m) {
		k := Log2(len(m.ra))
		for _, p := range patterns(k, 210)[:3] {
			in, g := guarded(p)
			if got := m.a.Evaluate(in); got != MLE(m.ra, p) {
				m.fail("evaluation at %s is %s", str(p...), str(got))
			}
			if !g() {
				m.fail("evaluation modified the point")
			}
		}
	})
	add("evalLR(A)", always, func(m *c10m) {
		k := Log2(len(m.ra))
		for bg := 0; bg <= k; bg++ {
			// the three coordinate lists may share one array, in any order
			all := gens(220, k+bg)
			hL, hR, hP := all[:bg], all[bg:2*bg], all[2*bg:]
			wl, wr := MLE(m.ra, append(Copy(hL), hP...)), MLE(m.ra, append(Copy(hR), hP...))
			layouts([][]E{hP, hL, hR}, func(name string, v [][]E, intact func() bool) {
				l, r := m.a.EvaluateLeftAndRight(v[0], v[1], v[2])
				if l != wl || r != wr {
					m.fail("left and right evaluations with %d left variables are wrong (points: %s)", bg, name)
				}
				if !intact() {
					m.fail("left and right evaluations modified the point (points: %s)", name)
				}
			})
		}
	})
	add("evalsA", aBig, func(m *c10m) {
		got := m.a.FunctionEvals()
		mid := len(m.ra) / 2
		want := make([]E, mid)
		for i := range want {
			want[i] = Sub(m.ra[i+mid], m.ra[i])
		}
		if !Eq1(got, want) {
			m.fail("differences are %s, expected %s", str(got...), str(want...))
		}
		for i := range got { // the caller owns the result
			got[i] = gen(230)
		}
	})
	for _, n := range []int{1, 2, 4} {
		n := n
		add(fmt.Sprintf("B=chunk(A,%d)", n), func(m *c10m) bool { return len(m.ra) >= n }, func(m *c10m) {
			for on := 0; on < n; on++ {
				c := m.a.InterleavedChunk(on, n)
				want := Chunk(m.ra, n)[on]
				if !Eq1(c.Table, want) {
					m.fail("interleaved chunk %d of %d is %s, expected %s", on, n, str(c.Table...), str(want...))
				}
				m.b, m.rb = c, want
			}
		})
	}
	add("B=a0*A+a1*B", func(m *c10m) bool { return len(m.ra) == len(m.rb) }, func(m *c10m) {
		a0, a1 := gen(240), I(-1)
		a, b := m.a.DeepCopy(), m.b.DeepCopy()
		r := polynomial.LinearCombinationOfBookKeepingTables(a, b, a0, a1)
		m.b = r
		w := make([]E, len(m.ra))
		for i := range w {
			w[i] = Add(Mul(a0, m.ra[i]), Mul(a1, m.rb[i]))
		}
		m.rb = w
	})
	add("A=A-B", func(m *c10m) bool { return len(m.ra) == len(m.rb) }, func(m *c10m) {
		m.a.Sub(m.a, m.b, 1)
		w := make([]E, len(m.ra))
		for i := range w {
			w[i] = Sub(m.ra[i], m.rb[i])
		}
		m.ra = w
	})
	add("B=B+A", func(m *c10m) bool { return len(m.ra) == len(m.rb) }, func(m *c10m) {
		m.b.Add(m.b, m.a)
		w := make([]E, len(m.ra))
		for i := range w {
			w[i] = Add(m.ra[i], m.rb[i])
		}
		m.rb = w
	})
	for _, l := range []E{gen(250), U(1)} {
		l := l
		add("B="+str(l)+"*A", always, func(m *c10m) {
			var dst polynomial.BookKeepingTable
			dst.Mul(l, m.a, 2)
			m.b = dst
			w := make([]E, len(m.ra))
			for i := range w {
				w[i] = Mul(l, m.ra[i])
			}
			m.rb = w
		})
	}
	return ops
}

func c10histories(x *ev.X) {
	depth := 4
	ops := c10ops(x.Thorough)
	if x.Thorough {
		depth = 5
	}
	for n := 0; n <= 3; n++ {
		for pi, p := range [][]E{gens(260, 1<<n), patterns(1<<n, 0)[1], patterns(1<<n, 0)[5]} {
			if pi > 0 && n > 2 && !x.Thorough {
				continue
			}
			for i1 := range ops {
				for i2 := range ops {
					n, p, i1, i2 := n, p, i1, i2
					x.Case(func(t *ev.T) {
						var rec func(seq []int)
						run := func(seq []int) bool {
							m := &c10m{t: t, a: bkt(p), ra: Copy(p), b: bkt(gens(270, 1<<n)), rb: gens(270, 1<<n)}
							for _, o := range seq {
								if !ops[o].ok(m) {
									return false
								}
								m.hist = append(m.hist, ops[o].name)
								ops[o].run(m)
								m.check()
							}
							t.State(hashE(hashE(ev.Mix(1, uint64(len(m.ra))), m.ra...), m.rb...))
							return true
						}
						rec = func(seq []int) {
							if len(seq) == depth {
								if run(seq) {
									t.Trace()
								}
								return
							}
							for o := range ops {
								rec(append(append([]int{}, seq...), o))
							}
						}
						if run([]int{i1, i2}) {
							rec([]int{i1, i2})
						}
					}, "table of size %d, all histories of %d operations starting with %s, %s", 1<<n, depth, ops[i1].name, ops[i2].name)
				}
			}
		}
	}
}

func c10large(x *ev.X) {
	for n := 0; n <= 14; n++ {
		for pi := range patternNames {
			n, pi := n, pi
			if n > 11 && pi > 1 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				p := patterns(1<<n, 17)[pi]
				for _, pt := range [][]E{gens(280, n), patterns(n, 0)[5], patterns(n, 0)[3], patterns(n, 0)[4]} {
					b := bkt(p)
					r := Copy(p)
					want := FixAll(p, pt)[0]
					in, ok := guarded(pt)
					if b.Evaluate(in) != want || !ok() {
						t.Failf("evaluation of a table of size %d (%s) at %s", 1<<n, patternNames[pi], str(pt...))
					}
					if !Eq1(b.Table, p) {
						t.Failf("evaluation disturbed a table of size %d", 1<<n)
					}
					for bg := 0; bg <= 3 && bg <= n; bg++ {
						hP, hL, hR := gens(290, n-bg), gens(300, bg), gens(310, bg)
						l, rr := b.EvaluateLeftAndRight(hP, hL, hR)
						if l != FixAll(p, append(Copy(hL), hP...))[0] || rr != FixAll(p, append(Copy(hR), hP...))[0] {
							t.Failf("left/right evaluation of a table of size %d with %d left variables", 1<<n, bg)
						}
						t.Trans(1)
					}
					c := b.DeepCopy()
					for _, q := range pt {
						b.Fold(q)
						r = Fix(r, q)
						if !Eq1(b.Table, r) {
							t.Failf("fixing a variable of a table of size %d (%s) at %s", 2*len(r), patternNames[pi], str(q))
						}
						t.Trans(1)
					}
					if !Eq1(c.Table, p) {
						t.Failf("folding a table of size %d disturbed its copy", 1<<n)
					}
					for nc := 1; nc <= 1<<n && nc <= 64; nc *= 2 {
						ch := Chunk(p, nc)
						for on := 0; on < nc; on++ {
							k := c.InterleavedChunk(on, nc)
							if !Eq1(k.Table, ch[on]) {
								t.Failf("interleaved chunk %d of %d of a table of size %d", on, nc, 1<<n)
							}
							t.Trans(1)
						}
					}
				}
				t.State(hashE(uint64(n), p...))
				t.Trace()
			}, "table of size %d, values %s", 1<<n, patternNames[pi])
		}
	}
	// every rich value as table entry, its neighbour and fold point
	r := rich()
	for i := range r {
		i := i
		x.Case(func(t *ev.T) {
			for _, v := range r {
				for _, q := range r {
					b := bkt([]E{r[i], v})
					b.Fold(q)
					if !Eq1(b.Table, Fix([]E{r[i], v}, q)) {
						t.Failf("table %s fixed at %s gives %s", str(r[i], v), str(q), str(b.Table...))
					}
					t.Step(hashE(3, r[i], v, q))
				}
			}
		}, "tables {%s, v} for all rich v fixed at all rich points", str(r[i]))
	}
}

// small field: every table of sizes 2 and 4 at every point
func c10complete(x *ev.X) {
	al := all()
	for a := range al {
		for b := range al {
			a, b := a, b
			x.Case(func(t *ev.T) {
				for _, q := range al {
					k := bkt([]E{al[a], al[b]})
					k.Fold(q)
					if !Eq1(k.Table, Fix([]E{al[a], al[b]}, q)) {
						t.Failf("table %s at %s", str(al[a], al[b]), str(q))
					}
					t.Step(hashE(1, al[a], al[b], q))
				}
				for c := range al {
					for d := range al {
						tab := []E{al[a], al[b], al[c], al[d]}
						k := bkt(tab)
						fe := k.FunctionEvals()
						if fe[0] != Sub(tab[2], tab[0]) || fe[1] != Sub(tab[3], tab[1]) {
							t.Failf("differences of %s", str(tab...))
						}
						t.State(hashE(2, tab...))
						for _, q := range al {
							f := k.DeepCopy()
							f.Fold(q)
							w := Fix(tab, q)
							if !Eq1(f.Table, w) {
								t.Failf("table %s fixed at %s", str(tab...), str(q))
							}
							t.Trans(1)
							for _, q2 := range al {
								if k.Evaluate([]E{q, q2}) != Fix(w, q2)[0] {
									t.Failf("table %s at %s", str(tab...), str(q, q2))
								}
								l, r := k.EvaluateLeftAndRight([]E{q2}, []E{q}, []E{w[0]})
								if l != Fix(w, q2)[0] || r != Fix(Fix(tab, w[0]), q2)[0] {
									t.Failf("table %s left/right at %s", str(tab...), str(q, q2))
								}
								t.Trans(2)
							}
						}
						if !Eq1(k.Table, tab) {
							t.Failf("evaluation disturbed the table %s", str(tab...))
						}
						t.Trace()
					}
				}
			}, "field of %d elements: all tables of size 2 and 4 starting with %s, at every point", P, str(al[a], al[b]))
		}
	}
}
