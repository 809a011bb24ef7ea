package props

import (
	"fmt"
	"strings"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	sp "gkr-mimc/snark/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
)

func init() {
	ev.Register("C21/multilinear", c21multilinear)
	ev.Register("C21/mixed", c21mixed)
	ev.Register("C21/eq", c21eq)
	ev.Register("C21/univariate", c21univariate)
	ev.Register("C21/assign", c21assign)
}

// points returns points of n coordinates.
func c21points(n int, thorough bool) [][]E {
	var r [][]E
	for _, p := range patterns(n, 300) {
		r = append(r, p)
	}
	for i := 0; i < n; i++ {
		for _, v := range []E{U(0), U(1), I(-1)} {
			p := gens(310, n)
			p[i] = v
			r = append(r, p)
		}
	}
	if n <= 2 || thorough && n <= 3 {
		product(4, n, func(ix []int) { r = append(r, pick(tiny(), ix)) })
	}
	return r
}

func c21multilinear(x *ev.X) {
	maxN := 5
	if x.Thorough {
		maxN = 8
	}
	for n := 0; n <= maxN; n++ {
		for mode := 0; mode < 4; mode++ {
			for pat := range patternNames {
				if mode&1 == 1 && !x.Thorough && pat > 1 && n > 2 {
					continue
				}
				n, mode, pat := n, mode, pat
				x.Case(func(t *ev.T) {
					size := 1 << uint(n)
					pts := c21points(n, x.Thorough)
					tabs := patterns(size, 5)[pat : pat+1]
					if pat == 0 && n <= 1 {
						product(4, size, func(ix []int) { tabs = append(tabs, pick(tiny(), ix)) })
					}
					// mode 1: constant table, mode 2: constant point
					for ti, tab := range tabs {
						var g *r1
						mk := func(p []E) *r1 {
							return compileGad(t, size+n, 2, func(cs csys, in vars) vars {
								tv, pv := in[:size:size], in[size:]
								if mode&1 == 1 {
									tv = mixIn(cs, tv, tab, -1)
								}
								if mode&2 == 2 {
									pv = mixIn(cs, pv, p, -1)
								}
								m := sp.NewMultilinearByValues(tv)
								a := m.Eval(cs, pv)
								// the table and the point must still be usable
								b := m.Eval(cs, pv)
								return vars{a, b}
							})
						}
						for i, p := range pts {
							if mode&2 == 2 && (ti > 0 || i > 6 && !x.Thorough) {
								break
							}
							if g == nil || mode&2 == 2 {
								g = mk(p)
							}
							b := bkt(tab)
							v := b.Evaluate(Copy(p))
							if v != MLE(tab, p) {
								t.Failf("native evaluation of %s at %s is %s, not %s", str(tab...), str(p...), str(v), str(MLE(tab, p)))
							}
							g.judge(t, cat2(tab, p), []E{v, v}, c21otherEvals(tab, p), "multilinear of %d variables, constants mode %d", n, mode)
						}
					}
				}, "multilinear of %d variables, mode %d (1: constant table, 2: constant point), tables %s", n, mode, patternNames[pat])
			}
		}
	}
}

// c21otherEvals: results of likely mistakes.
func c21otherEvals(tab, p []E) []E {
	rev := Copy(p)
	for i := range rev {
		rev[i] = p[len(p)-1-i]
	}
	r := []E{MLE(tab, rev), tab[0], tab[len(tab)-1]}
	c := Copy(p)
	for i := range c {
		c[i] = Sub(U(1), p[i])
	}
	return append(r, MLE(tab, c))
}

func c21mixed(x *ev.X) {
	maxG, maxN := 2, 3
	if x.Thorough {
		maxG, maxN = 3, 5
	}
	for bG := 0; bG <= maxG; bG++ {
		for bN := 0; bN <= maxN; bN++ {
			for pat := range patternNames {
				bG, bN, pat := bG, bN, pat
				x.Case(func(t *ev.T) {
					size := 1 << uint(bG+bN)
					g := compileGad(t, size+2*bG+bN, 4, func(cs csys, in vars) vars {
						m := sp.NewMultilinearByValues(in[:size:size])
						p := in[size:]
						a, b := m.EvalMixed(cs, p[:bG:bG], p[bG:2*bG:2*bG], p[2*bG:])
						c, d := m.EvalMixed(cs, p[:bG], p[bG:2*bG], p[2*bG:])
						return vars{a, b, c, d}
					})
					tab := patterns(size, 17)[pat]
					for _, pl := range c21points(bG, x.Thorough) {
						for pi, pp := range c21points(bN, x.Thorough) {
							if !x.Thorough && bN > 1 && pi > 8 {
								break
							}
							pr := gens(330, bG)
							if pi%2 == 1 && bN > 0 {
								for i := range pr {
									pr[i] = pp[i%len(pp)]
								}
							}
							for _, lr := range [][2][]E{{pl, pr}, {pr, pl}} {
								b := bkt(tab)
								vl, vr := b.EvaluateLeftAndRight(Copy(pp), Copy(lr[0]), Copy(lr[1]))
								if vl != MLE(tab, cat2(lr[0], pp)) || vr != MLE(tab, cat2(lr[1], pp)) {
									t.Failf("native two-point evaluation wrong")
								}
								g.judge(t, append(cat2(cat2(tab, lr[0]), lr[1]), pp...), []E{vl, vr, vl, vr}, []E{vl, vr}, "two-point evaluation, bG=%d bN=%d", bG, bN)
							}
						}
					}
				}, "two-point evaluation, %d left/right and %d instance variables, table %s", bG, bN, patternNames[pat])
			}
		}
	}
}

func c21eq(x *ev.X) {
	maxN := 6
	if x.Thorough {
		maxN = 12
	}
	for n := 0; n <= maxN; n++ {
		for _, mask := range []int{0, -1, 0x555555, 0x0f0f0f} {
			if n == 0 && mask != 0 {
				continue
			}
			n, mask := n, mask
			x.Case(func(t *ev.T) {
				var g *r1
				for pi, p := range c21points(n, x.Thorough) {
					if mask != 0 && pi > 4 {
						break
					}
					for qi, q := range append(c21points(n, x.Thorough), p) {
						if qi > 8 && !x.Thorough && n > 2 && qi%5 != 0 {
							continue
						}
						in := cat2(p, q)
						if g == nil || mask != 0 {
							g = compileGad(t, 2*n, 1, func(cs csys, v vars) vars {
								v = mixIn(cs, v, in, mask)
								return vars{sp.EqEval(cs, v[:n], v[n:])}
							})
						}
						v := polynomial.EvalEq(p, q)
						if v != EqEval(p, q) {
							t.Failf("native equality wrong")
						}
						g.judge(t, in, []E{v}, []E{EqEval(p, p), EqEval(q, q), U(1)}, "equality of points of %d coordinates", n)
						if mask != 0 && qi > 6 {
							break
						}
					}
				}
			}, "equality of two points of %d coordinates, constants mask %x", n, mask)
		}
	}
	for mask := 0; mask < 4; mask++ {
		mask := mask
		x.Case(func(t *ev.T) {
			var g *r1
			for i, a := range rich() {
				for j, b := range rich() {
					if mask != 0 && !x.Thorough && (i+j)%3 != 0 {
						continue
					}
					in := []E{a, b}
					if g == nil || mask != 0 {
						g = compileGad(t, 2, 1, func(cs csys, v vars) vars {
							v = mixIn(cs, v, in, mask)
							return vars{sp.UnivariateEqEval(cs, v[0], v[1])}
						})
					}
					g.judge(t, in, []E{EqEval([]E{a}, []E{b})}, []E{U(1)}, "equality of two values")
				}
			}
		}, "equality of two values, constants mask %b", mask)
	}
}

func c21univariate(x *ev.X) {
	maxN := 10
	if x.Thorough {
		maxN = 17
	}
	for n := 1; n <= maxN; n++ {
		for mode := 0; mode < 4; mode++ {
			for pat := range patternNames {
				n, mode, pat := n, mode, pat
				x.Case(func(t *ev.T) {
					polys := patterns(n, 23)[pat : pat+1]
					if n <= 3 && pat == 0 && mode == 0 {
						product(4, n, func(ix []int) { polys = append(polys, pick(tiny(), ix)) })
					}
					var g *r1
					for _, c := range polys {
						for xi, v := range rich() {
							if mode != 0 && !x.Thorough && xi%4 != pat%4 {
								continue
							}
							if g == nil || mode != 0 {
								c, v := c, v
								g = compileGad(t, n+1, 4, func(cs csys, in vars) vars {
									cv, xv := in[:n:n], in[n:]
									if mode&1 == 1 {
										cv = mixIn(cs, cv, c, -1)
									}
									if mode&2 == 2 {
										xv = []frontend.Variable{cs.Constant(v)}
									}
									u := sp.NewUnivariate(cv)
									a := u.Eval(cs, xv[0])
									s := u.ZeroAndOne(cs)
									return vars{a, s, u.Eval(cs, xv[0]), u.ZeroAndOne(cs)}
								})
							}
							val := polynomial.EvaluatePolynomial(Copy(c), v)
							if val != PolyEval(c, v) {
								t.Failf("native polynomial evaluation wrong")
							}
							sum := Add(PolyEval(c, U(0)), PolyEval(c, U(1)))
							rev := Copy(c)
							for i := range c {
								rev[i] = c[n-1-i]
							}
							g.judge(t, append(Copy(c), v), []E{val, sum, val, sum}, []E{PolyEval(rev, v), PolyEval(c, U(1)), c[0], PolyEval(c[:n-1], v), PolyEval(c[1:], v)}, "polynomial of %d coefficients, constants mode %d", n, mode)
						}
					}
				}, "polynomial of %d coefficients, mode %d (1: constant coefficients, 2: constant point), values %s", n, mode, patternNames[pat])
			}
		}
	}
}

// c21tab exposes assigned gadgets.
type c21tab struct {
	M sp.MultilinearByValues
	U sp.Univariate
}

func (c *c21tab) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error { return nil }

func assigned(t *ev.T, c frontend.Circuit, prefix string) map[int]E {
	m, err := frontend.ParseWitness(c)
	if err != nil {
		t.Failf("witness: %v", err)
	}
	r := map[int]E{}
	for k, v := range m {
		if strings.HasPrefix(k, prefix) {
			var i int
			if _, err := fmt.Sscanf(k[len(prefix):], "%d", &i); err != nil {
				t.Failf("witness name %s", k)
			}
			var e E
			e.SetInterface(v)
			r[i] = e
		}
	}
	return r
}

// spoil overwrites lists which the caller uses for something else.
func spoil(v [][]E) {
	for i := range v {
		for j := range v[i] {
			v[i][j] = Add(v[i][j], U(uint64(3+i+j)))
		}
	}
}

func c21assign(x *ev.X) {
	maxN := 6
	if x.Thorough {
		maxN = 10
	}
	for n := 0; n <= maxN; n++ {
		for pat := range patternNames {
			n, pat := n, pat
			x.Case(func(t *ev.T) {
				size := 1 << uint(n)
				tab := patterns(size, 31)[pat]
				check := func(c *c21tab, what string) {
					got := assigned(t, c, "M_Table_")
					if len(got) != size {
						t.Failf("%s: %d values assigned, expected %d", what, len(got), size)
					}
					for i := range tab {
						if got[i] != tab[i] {
							t.Failf("%s: entry %d is %s, expected %s", what, i, str(got[i]), str(tab[i]))
						}
					}
					t.Trans(1)
				}
				c := &c21tab{M: sp.AllocateMultilinear(n), U: sp.AllocateUnivariate(0)}
				flat := common.FrToGenericArray(Copy(tab))
				c.M.Assign(flat)
				for i := range flat {
					flat[i] = 13
				}
				check(c, "assigned flat (the list being used again for something else)")
				for _, k := range pow2s(size) {
					c := &c21tab{M: sp.AllocateMultilinear(n), U: sp.AllocateUnivariate(0)}
					ch := Chunk(tab, k)
					// natively, chunk b of k holds the entries b, b+k, ...
					for b := 0; b < k; b++ {
						bb := bkt(tab)
						if !Eq1(bb.InterleavedChunk(b, k).Table, ch[b]) {
							t.Failf("native interleaving differs")
						}
					}
					in := Copy2(ch)
					c.M.AssignFromChunkedBKT(in)
					if !Eq2(in, ch) {
						t.Failf("assignment modified the chunks")
					}
					check(c, fmt.Sprintf("assigned from %d chunks", k))
					spoil(in)
					check(c, fmt.Sprintf("assigned from %d chunks, folded afterwards", k))
					// a deep copy has its own storage
					d := c.M.DeepCopy()
					for i := range d.Table {
						d.Table[i] = frontend.Variable{}
					}
					check(c, "after overwriting a deep copy")
					t.State(hashE(uint64(k), tab...))
				}
				t.Trace()
			}, "assignment of a table of %d variables, flat and from every chunking, values %s", n, patternNames[pat])
		}
	}
	for d := 0; d <= 9; d++ {
		d := d
		x.Case(func(t *ev.T) {
			for _, p := range patterns(d+1, 37) {
				c := &c21tab{M: sp.AllocateMultilinear(0), U: sp.AllocateUnivariate(d)}
				in := Copy(p)
				c.U.Assign(in)
				if !Eq1(in, p) {
					t.Failf("assignment modified the coefficients")
				}
				spoil([][]E{in})
				got := assigned(t, c, "U_Coefficients_")
				if len(got) != d+1 {
					t.Failf("%d coefficients assigned, expected %d", len(got), d+1)
				}
				for i := range p {
					if got[i] != p[i] {
						t.Failf("coefficient %d is %s, expected %s", i, str(got[i]), str(p[i]))
					}
				}
				t.Step(hashE(uint64(d), p...))
			}
		}, "assignment of a univariate polynomial of degree %d", d)
	}
}
