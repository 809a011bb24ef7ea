package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

// Batches, tables and messages in which values repeat in runs or periodically: what an implementation which skips or
// shares work between neighbours would get wrong.

func init() {
	ev.Register("C01/runs", c01runs)
	ev.Register("C05/runs", c05runs)
	ev.Register("C06/runs", c06runs)
	ev.Register("C08/runs", c08runs)
	ev.Register("C10/runs", c10runs)
	ev.Register("C11/runs", c11runs)
	ev.Register("C12/runs", c12runs)
	ev.Register("C15/runs", c15runs)
	ev.Register("C16/runs", c16runs)
	ev.Register("C17/runs", c17runs)
}

type runTab struct {
	name string
	v    []E
}

// runTables are 2^k values: constant, all different, in runs of 2^j equal values, shifted by one, repeating every 2^j.
func runTables(k, off int) (r []runTab) {
	n := 1 << uint(k)
	vals := spread(off, n+1)
	mk := func(name string, f func(i int) int) {
		t := runTab{name, make([]E, n)}
		for i := range t.v {
			t.v[i] = vals[f(i)]
		}
		r = append(r, t)
	}
	mk("all different", func(i int) int { return i })
	mk("constant", func(i int) int { return 0 })
	r = append(r, runTab{"zeros", make([]E, n)})
	for j := 1; j < k; j++ {
		j := uint(j)
		mk(fmt.Sprintf("runs of %d", 1<<j), func(i int) int { return i >> j })
		mk(fmt.Sprintf("runs of %d, shifted", 1<<j), func(i int) int { return (i + 1) >> j })
		mk(fmt.Sprintf("period %d", 1<<j), func(i int) int { return i & (1<<j - 1) })
		mk(fmt.Sprintf("change at multiples of %d", 1<<j), func(i int) int {
			if i&(1<<j-1) == 0 {
				return i
			}
			return 1
		})
	}
	return
}

func runCount(k int) int {
	if k < 1 {
		return 3
	}
	return 3 + 4*(k-1)
}

func runName(k, i int) string {
	if i < 3 {
		return []string{"all different", "constant", "zeros"}[i]
	}
	i -= 3
	return fmt.Sprintf([]string{"runs of %d", "runs of %d, shifted", "period %d", "change at multiples of %d"}[i%4], 2<<uint(i/4))
}

// c06runs: every pair of such columns as left and right inputs.
func c06runs(x *ev.X) {
	top := 13
	if x.Thorough {
		top = 14
	}
	gs := []Gate{gMul(), gAdd(), gCopy(), gCipher(gen(63))}
	for k := 2; k <= top; k++ {
		for a := 0; a < runCount(k); a++ {
			k, a := k, a
			x.Case(func(t *ev.T) {
				n := 1 << uint(k)
				ls, rs := runTables(k, 0), runTables(k, 50)
				for b := range rs {
					if k > 8 && a > 2 && b > 2 && a != b && (a+b)%9 != 0 && !x.Thorough {
						continue
					}
					g := gs[(a+b)%len(gs)]
					l := Layer{w(g, 0, 1, 0), w(gs[0], 1, 0, 1)}
					if a < 2 || b < 2 {
						l = Layer{w(gs[0], 0, 1, 0), w(gs[1], 1, 0, 1), w(gs[2], 0, 1, 2), w(gs[3], 1, 0, 3), w(gs[3], 0, 1, 3)}
					}
					in := cat2(ls[a].v, rs[b].v)
					want := l.EvalLayer(in)
					cl := circuit.NewLayer(wiresOf(l))
					for _, nc := range []int{1, 2, 8, n / 4, n} {
						if nc > n || nc > 2 && nc != n && k < 5 || nc > 2 && (a+b)%3 != 0 {
							continue
						}
						if got := cl.Evaluate(Chunk(in, nc), 3); !Eq2(got, Chunk(want, nc)) {
							t.Failf("values of a layer are wrong, 2^%d instances in %d chunks, left inputs %s, right inputs %s, %s", k, nc, ls[a].name, rs[b].name, layerName(l))
						}
						t.Trans(1)
					}
					t.State(ev.Mix(uint64(k), uint64(a), uint64(b)))
				}
				t.Trace()
			}, "2^%d instances, left inputs %s, every right inputs", k, runName(k, a))
		}
	}
}

func c08runsInst(k, a, b int) (*Instance, string) {
	ls, rs := runTables(k, 0), runTables(k, 50)
	gs := []Gate{gCipher(gen(64))}
	if (a+b)%2 == 0 {
		gs = []Gate{gMul(), gCopy()}
	}
	s := &Instance{VL: ls[a].v, VR: rs[b].v, EQ: EqTable(gens(100, k)), Gates: gs}
	if a%4 == 3 {
		s.EQ = runTables(k, 100)[b].v
	}
	for i := range gs {
		s.ST = append(s.ST, gens(900+i, 1))
	}
	return s, fmt.Sprintf("2^%d instances, left %s, right %s", k, ls[a].name, rs[b].name)
}

func runPairs(k int, all bool, f func(a, b int)) {
	n := runCount(k)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if all || a < 2 || b < 2 || a == b || (a+b)%7 == 0 {
				f(a, b)
			}
		}
	}
}

func c08runs(x *ev.X) {
	top := 10
	if x.Thorough {
		top = 11
	}
	for k := 3; k <= top; k++ {
		runPairs(k, k < 6, func(a, b int) {
			if k > 7 && a != 1 && b != 1 && !x.Thorough {
				return
			}
			k := k
			x.Case(func(t *ev.T) {
				s, _ := c08runsInst(k, a, b)
				c08prove(t, s, 0, 1)
				c08prove(t, s, 1, 1)
				c08prove(t, s, 1<<uint((a+b)%k+1), 3)
			}, "2^%d instances, left %s, right %s", k, runName(k, a), runName(k, b))
		})
	}
}

func c05runs(x *ev.X) {
	top := 11
	if x.Thorough {
		top = 13
	}
	for k := 3; k <= top; k++ {
		runPairs(k, k < 6, func(a, b int) {
			if k > 8 && a != 1 && b != 1 && !x.Thorough {
				return
			}
			k := k
			x.Case(func(t *ev.T) {
				s, name := c08runsInst(k, a, b)
				sp := singleOf(s)
				claim := sp.GetClaim()
				pr, qP, qL, qR, fin := sp.Prove()
				tr := &SCTranscript{Proof: pr.PolyCoeffs, QL: qL, QR: qR, QP: qP, VL: fin[0], VR: fin[1], EQ: fin[2], ST: fin[3:]}
				for _, n := range pow2s(1 << uint(k)) {
					if k > 6 && n != 1 && n != 1<<uint(k) && n%3 != (a+b)%3 {
						continue
					}
					mp := multiOf(s, n)
					if c := mp.GetClaim(3); c != claim {
						t.Failf("claim with %d chunks is %s, the sequential prover says %s: %s", n, str(c), str(claim), name)
					}
					pr2, qP2, qL2, qR2, f := mp.Prove(3)
					if why := sumTranscript(s, tr, pr2, qP2, qL2, qR2, f); why != "" {
						t.Failf("%d chunks: %s: %s", n, why, name)
					}
					t.Step(ev.Mix(hashInst(s), uint64(n)))
				}
				t.Trace()
			}, "pair %d, %d of columns of 2^%d instances: every chunking against the sequential prover", a, b, k)
		})
	}
}

func c01runs(x *ev.X) {
	l := chainLayers()
	for ci, c := range []Circuit{{l[0]}, {l[7]}, {l[2], l[5]}} {
		top := 7
		if x.Thorough {
			top = 9
		}
		for k := 3; k <= top; k++ {
			runPairs(k, k < 6, func(a, b int) {
				if k > 6 && a > 1 && b > 1 && !x.Thorough {
					return
				}
				c, k, ci := c, k, ci
				x.Case(func(t *ev.T) {
					cc := circuitOf(c)
					ts := runTables(k, 7)
					var in []E
					for i := 0; i < 1<<uint(c[0].BGIn()); i++ {
						in = append(in, [][]E{ts[a].v, ts[b].v}[i%2]...)
					}
					var first gkr.Proof
					for i, n := range []int{1, 1 << uint((a+b)%k+1)} {
						p := c01run(t, c, cc, k, in, n, 2, 1+2*i)
						if i == 0 {
							first = p
						} else if !eqProof(refProof(first), refProof(p)) {
							t.Failf("the proof in %d chunks is another one: %s, 2^%d instances", n, circuitName(c), k)
						}
					}
				}, "circuit %d, 2^%d instances, inputs %s and %s", ci, k, runName(k, a), runName(k, b))
			})
		}
	}
}

func c10runs(x *ev.X) {
	top := 13
	if x.Thorough {
		top = 16
	}
	for k := 2; k <= top; k++ {
		for a := 0; a < runCount(k); a++ {
			k, a := k, a
			x.Case(func(t *ev.T) {
				tb := runTables(k, 0)[a]
				for pi, pt := range [][]E{gens(280, k), patterns(k, 0)[5], patterns(k, 0)[3], runTables(k, 9)[a].v[:k]} {
					b := bkt(tb.v)
					if b.Evaluate(Copy(pt)) != FixAll(tb.v, pt)[0] {
						t.Failf("evaluation of a table of size 2^%d, %s, at point %d", k, tb.name, pi)
					}
					for bg := 0; bg <= 2 && bg <= k; bg++ {
						hR := gens(310, bg)
						l, rr := b.EvaluateLeftAndRight(pt[bg:], pt[:bg], hR)
						if l != FixAll(tb.v, pt)[0] || rr != FixAll(tb.v, append(Copy(hR), pt[bg:]...))[0] {
							t.Failf("left/right evaluation of a table of size 2^%d, %s, with %d left variables", k, tb.name, bg)
						}
						t.Trans(1)
					}
					if !Eq1(b.Table, tb.v) {
						t.Failf("evaluation disturbed a table of size 2^%d, %s", k, tb.name)
					}
					r := tb.v
					for i, q := range pt {
						b.Fold(q)
						r = Fix(r, q)
						if !Eq1(b.Table, r) {
							t.Failf("fixing variable %d of a table of size 2^%d, %s, point %d", i, k, tb.name, pi)
						}
						t.Trans(1)
					}
				}
				for _, nc := range []int{1, 2, 1 << uint(k-1), 1 << uint(k)} {
					ch := Chunk(tb.v, nc)
					b := bkt(tb.v)
					for on := 0; on < nc && on < 64; on++ {
						if c := b.InterleavedChunk(on, nc); !Eq1(c.Table, ch[on]) {
							t.Failf("interleaved chunk %d of %d of a table of size 2^%d, %s", on, nc, k, tb.name)
						}
					}
				}
				o := runTables(k, 50)
				for b := range o {
					if k > 8 && b > 2 && b != a && (a+b)%5 != 0 {
						continue
					}
					c0, c1 := gen(330), gen(331)
					w := make([]E, len(tb.v))
					for i := range w {
						w[i] = Add(Mul(c0, tb.v[i]), Mul(c1, o[b].v[i]))
					}
					lc := polynomial.LinearCombinationOfBookKeepingTables(bkt(tb.v), bkt(o[b].v), c0, c1)
					if !Eq1(lc.Table, w) {
						t.Failf("combination of tables of size 2^%d, %s and %s", k, tb.name, o[b].name)
					}
					t.Trans(1)
				}
				t.State(hashE(uint64(k), tb.v...))
				t.Trace()
			}, "table of size 2^%d, %s", k, runName(k, a))
		}
	}
}

func c11runs(x *ev.X) {
	top := 11
	if x.Thorough {
		top = 14
	}
	for k := 2; k <= top; k++ {
		for a := 0; a < runCount(k); a++ {
			k, a := k, a
			x.Case(func(t *ev.T) {
				tb := runTables(k, 0)[a].v
				for _, bg := range []int{0, 1, 2} {
					for _, nc := range pow2s(1 << uint(k-bg)) {
						if k > 7 && nc > 2 && nc != 1<<uint(k-bg) && (a+nc)%3 > 0 {
							continue
						}
						pt := gens(40, k)
						c11eval(t, tb, bg, nc, pt, gens(200, bg), gens(240, bg), pt[bg:])
					}
				}
				t.State(hashE(uint64(k), tb...))
				t.Trace()
			}, "table of size 2^%d, %s, chunked", k, runName(k, a))
		}
		// points in which coordinates repeat
		for j := uint(0); j < 4; j++ {
			k, j := k, j
			x.Case(func(t *ev.T) {
				vals := gens(5, k)
				run, per := make([]E, k), make([]E, k)
				for i := range run {
					run[i], per[i] = vals[i>>j], vals[i&(1<<j-1)]
				}
				c11point(t, run, []int{1, 3}, [][]E{per, run, gens(70, k)})
				c11point(t, per, []int{1, 3}, [][]E{per, run, gens(70, k)})
			}, "points of %d coordinates in runs of %d or repeating every %d", k, 1<<j, 1<<j)
		}
	}
}

func c12runs(x *ev.X) {
	top := 11
	if x.Thorough {
		top = 14
	}
	for k := 2; k <= top; k++ {
		for a := 0; a < runCount(k); a++ {
			k, a := k, a
			x.Case(func(t *ev.T) {
				ls, rs := runTables(k, 0), runTables(k, 50)
				n := 1 << uint(k)
				for b := range rs {
					for _, same := range []bool{false, true} {
						r := rs[b].v
						if same {
							r = ls[b].v
						}
						for i, op := range []string{"add", "sub", "mul"} {
							if k > 7 && b > 1 && a != b && (a+b+i)%6 != 0 {
								continue
							}
							c12one(t, op, n, 1+(a+b)%5, []string{"fresh", "left", "right"}[(a+b)%3], ls[a].v, r)
						}
					}
				}
				t.Trace()
			}, "tables of size 2^%d, %s and every other", k, runName(k, a))
		}
	}
}

func c15runs(x *ev.X) {
	top := 8
	if x.Thorough {
		top = 11
	}
	for k := 1; k <= top; k++ {
		for a := 0; a < runCount(k); a++ {
			k, a := k, a
			x.Case(func(t *ev.T) {
				tb := runTables(k, 0)[a]
				m := tb.v
				for _, n := range []int{1 << uint(k), 1<<uint(k) - 1, 1<<uint(k-1) + 1} {
					if d := hash.MimcHash(Copy(m[:n])); d != Mimc(m[:n]) {
						t.Failf("digest of a message of %d values, %s, is %s", n, tb.name, str(d))
					}
					t.Step(hashE(uint64(n), m[:n]...))
				}
				t.Trace()
			}, "messages of 2^%d values, %s", k, runName(k, a))
		}
	}
}

func c16runs(x *ev.X) {
	for _, h := range hashers() {
		for k := 1; k <= 7; k++ {
			for a := 0; a < runCount(k); a++ {
				h, k, a := h, k, a
				x.Case(func(t *ev.T) {
					m := runTables(k, 0)[a].v
					c16digest(t, h, Copy(m))
					c16digest(t, h, Copy(m[1:]))
				}, "%s t=%d, messages of 2^%d values, %s", h.name, h.t, k, runName(k, a))
			}
		}
	}
}

func c17runs(x *ev.X) {
	for _, g := range allGates() {
		for k := 1; k <= 12; k++ {
			g, k := g, k
			x.Case(func(t *ev.T) {
				cg := gateOf(g)
				for _, tb := range runTables(k, 0) {
					for _, o := range []E{gen(9), tb.v[0], tb.v[len(tb.v)-1]} {
						c17many(t, g, cg, tb.v, o)
						if k > 1 {
							c17many(t, g, cg, tb.v[1:], o)
						}
					}
				}
				t.Trace()
			}, "%s on 2^%d values in runs", gateName(g), k)
		}
	}
}
