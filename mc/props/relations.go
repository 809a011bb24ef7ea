package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	gadget "gkr-mimc/snark/hash"
	sp "gkr-mimc/snark/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

// The enumerations of this file cover values standing in a relation to each other: an entry which is null, equal to
// another one, opposite to it, its inverse...; lists equal to each other, agreeing on a prefix, symmetric. Code that
// takes a shortcut when it meets such values is reached by one of them.

func init() {
	ev.Register("C08/relations", c08relations)
	ev.Register("C10/relations", c10relations)
	ev.Register("C11/relations", c11relations)
	ev.Register("C12/sharing", c12sharing)
	ev.Register("C14/relations", c14relations)
	ev.Register("C15/relations", c15relations)
	ev.Register("C16/relations", c16relations)
	ev.Register("C17/relations", c17relations)
	ev.Register("C18/relations", c18relations)
	ev.Register("C06/relations", c06relations)
	ev.Register("C01/relations", c01relations)
	ev.Register("C09/relations", c09relations)
	ev.Register("C02/relations", c02relations)
	ev.Register("C19/relations", c19relations)
	ev.Register("C20/relations", c20relations)
	ev.Register("C21/relations", c21relations)
	ev.Register("C22/degrees", c22degrees)
}

type relation struct {
	name string
	f    func(a, b E) (E, E) // the pair, from two generic values
	sym  bool
}

var pairRelations = []relation{
	{"equal", func(a, b E) (E, E) { return a, a }, true},
	{"opposite", func(a, b E) (E, E) { return a, Sub(E{}, a) }, true},
	{"of sum one", func(a, b E) (E, E) { return a, Sub(U(1), a) }, true},
	{"inverse", func(a, b E) (E, E) { return a, Inv(a) }, true},
	{"both null", func(a, b E) (E, E) { return E{}, E{} }, true},
	{"both one", func(a, b E) (E, E) { return U(1), U(1) }, true},
	{"one more", func(a, b E) (E, E) { return a, Add(a, U(1)) }, false},
	{"double", func(a, b E) (E, E) { return a, Add(a, a) }, false},
	{"0 and 1", func(a, b E) (E, E) { return E{}, U(1) }, false},
	{"the same low limb", func(a, b E) (E, E) { return a, E{a[0], b[1], b[2], b[3]} }, true},
	{"the same high limb", func(a, b E) (E, E) { return a, E{b[0], b[1], b[2], a[3]} }, true},
}

// related calls f on base, with one slot taking each special value, and with each pair of slots in each relation.
func related(base []E, f func(v []E, what string)) {
	f(Copy(base), "generic values")
	for i := range base {
		for _, e := range []E{{}, U(1), I(-1), U(2)} {
			v := Copy(base)
			v[i] = e
			f(v, fmt.Sprintf("slot %d is %s", i, str(e)))
		}
	}
	if !Small {
		// every set of null words of the internal representation
		for i := range base {
			for m := uint64(1); m < 15; m++ {
				v := Copy(base)
				v[i] = raw(5*(m&1), 7*(m>>1&1), 9*(m>>2&1), 11*(m>>3&1))
				f(v, fmt.Sprintf("slot %d has the words %v", i, [4]uint64(v[i])))
			}
		}
	}
	for i := range base {
		for j := range base {
			for _, r := range pairRelations {
				if i == j || r.sym && i > j || Small && r.name[0] == 't' {
					continue
				}
				v := Copy(base)
				v[i], v[j] = r.f(base[i], base[j])
				f(v, fmt.Sprintf("slots %d, %d %s", i, j, r.name))
			}
		}
	}
}

// relatedLists calls f with lists of the given sizes: generic ones, one slot or two slots special, a list constant,
// symmetric, periodic, and two lists equal, opposite, reversed, agreeing on each prefix, suffix or but for one place.
func relatedLists(sizes []int, from int, f func(p [][]E, what string)) {
	total := 0
	for _, n := range sizes {
		total += n
	}
	base := gens(from, total)
	split := func(v []E) [][]E {
		r := make([][]E, len(sizes))
		at := 0
		for i, n := range sizes {
			r[i] = Copy(v[at : at+n])
			at += n
		}
		return r
	}
	related(base, func(v []E, what string) { f(split(v), what) })
	for i, n := range sizes {
		for wi, g := range []func(k int) E{
			func(k int) E { return base[0] },
			func(k int) E { return E{} },
			func(k int) E { return U(1) },
			func(k int) E { return I(-1) },
			func(k int) E { return U(uint64(k & 1)) },
			func(k int) E { return U(uint64(1 - k&1)) },
			func(k int) E { return base[k%2%total] },
			func(k int) E { return base[k/2%total] },
			func(k int) E {
				if k >= n/2 {
					k = n - 1 - k
				}
				return base[k%total]
			},
			func(k int) E { return base[k%((n+1)/2)] },
			func(k int) E {
				if k >= n/2 {
					return Sub(E{}, base[(k-n/2)%total])
				}
				return base[k%total]
			},
			func(k int) E {
				if k >= n/2 {
					return E{}
				}
				return base[k%total]
			},
			func(k int) E {
				if k < n/2 {
					return E{}
				}
				return base[k%total]
			},
		} {
			if n == 0 {
				continue
			}
			p := split(base)
			for k := range p[i] {
				p[i][k] = g(k)
			}
			f(p, fmt.Sprintf("list %d of shape %d", i, wi))
		}
	}
	for i := range sizes {
		for j := range sizes {
			n := sizes[i]
			if i == j || sizes[j] != n || n < 2 {
				continue
			}
			put := func(what string, g func(a []E, k int) (E, bool)) {
				p := split(base)
				for k := range p[j] {
					if v, ok := g(p[i], k); ok {
						p[j][k] = v
					}
				}
				f(p, fmt.Sprintf("lists %d and %d %s", i, j, what))
			}
			put("reversed", func(a []E, k int) (E, bool) { return a[n-1-k], true })
			put("rotated", func(a []E, k int) (E, bool) { return a[(k+1)%n], true })
			if i > j {
				continue
			}
			put("equal", func(a []E, k int) (E, bool) { return a[k], true })
			put("opposite", func(a []E, k int) (E, bool) { return Sub(E{}, a[k]), true })
			put("complementary", func(a []E, k int) (E, bool) { return Sub(U(1), a[k]), true })
			for c := 1; c < n; c++ {
				put(fmt.Sprintf("agreeing on %d first", c), func(a []E, k int) (E, bool) { return a[k], k < c })
				put(fmt.Sprintf("agreeing on %d last", c), func(a []E, k int) (E, bool) { return a[k], k >= n-c })
				if n > 2 {
					put(fmt.Sprintf("agreeing but at %d", c), func(a []E, k int) (E, bool) { return a[k], k != c })
				}
			}
			if n > 2 {
				put("agreeing but at 0", func(a []E, k int) (E, bool) { return a[k], k != 0 })
			}
		}
	}
}

func hashSets() [][]Gate {
	return [][]Gate{{gMul()}, {gCipher(gen(64))}, {gAdd()}, {gCopy()}, {gMul(), gCopy()}, {gCipher(gen(64)), gAdd()}, {gCipher(gen(64)), gCipher(Ark(1))}}
}

// c08relations: every table entry of a prover in relation with every other one.
func c08relations(x *ev.X) {
	shapes := [][2]int{{0, 1}, {0, 2}, {1, 0}, {1, 1}}
	for _, sh := range shapes {
		for gi, gl := range hashSets() {
			bG, bN, gi, gl := sh[0], sh[1], gi, gl
			g, n := 1<<uint(bG), 1<<uint(bN)
			if !x.Thorough && bG+bN == 2 && len(gl) > 1 && gi != 4 {
				continue
			}
			sizes := []int{g * n, g * n, n}
			for range gl {
				sizes = append(sizes, g*g)
			}
			const parts = 4
			for part := 0; part < parts; part++ {
				part := part
				x.Case(func(t *ev.T) {
					k := 0
					relatedLists(sizes, 700, func(p [][]E, what string) {
						if k++; k%parts != part {
							return
						}
						s := &Instance{VL: p[0], VR: p[1], EQ: p[2], Gates: gl, ST: p[3:]}
						c08history(t, s, gens(171, 2*bG+bN))
						if k/parts%3 == 0 || x.Thorough {
							c08prove(t, s, 0, 1)
						}
						if k/parts%3 == 1 || x.Thorough {
							c08prove(t, s, n, 1+k%2)
						}
					})
				}, "bG=%d bN=%d, %v: all pairs of table entries in every relation, part %d", bG, bN, gateNames(gl), part)
			}
		}
	}
	// challenges in relation with table entries: the folded table then has special entries
	for _, sh := range shapes {
		for gi, gl := range hashSets() {
			bG, bN, gl := sh[0], sh[1], gl
			if !x.Thorough && gi > 3 {
				continue
			}
			g, n := 1<<uint(bG), 1<<uint(bN)
			x.Case(func(t *ev.T) {
				s := &Instance{VL: gens(700, g*n), VR: gens(730, g*n), EQ: EqTable(gens(760, bN)), Gates: gl}
				for i := range gl {
					s.ST = append(s.ST, gens(770+20*i, g*g))
				}
				// points where one of the tables vanishes or takes the same value twice once fixed
				zero := func(a, b E) E { return Mul(a, Inv(Sub(a, b))) }
				var cand []E
				for _, tab := range append([][]E{s.VL, s.VR, s.EQ}, s.ST...) {
					h := len(tab) / 2
					for i := 0; i < h; i++ {
						cand = append(cand, zero(tab[i], tab[i+h]))
					}
					if h >= 2 {
						for i := 1; i < h; i++ {
							a, b := Sub(tab[0], tab[i]), Sub(tab[h], tab[h+i])
							cand = append(cand, zero(a, b))
						}
					}
				}
				cand = append(cand, U(0), U(1), Inv(U(2)), U(2), I(-1))
				for i := 0; i < 2*bG+bN; i++ {
					for _, c := range cand {
						rs := gens(171, 2*bG+bN)
						rs[i] = c
						c08history(t, s, rs)
						for j := 0; j < i; j++ {
							r2 := Copy(rs)
							r2[j] = c
							c08history(t, s, r2)
						}
					}
				}
			}, "bG=%d bN=%d, %v: challenges cancelling an entry of a folded table or making two of them equal", bG, bN, gateNames(gl))
		}
	}
}

func c10relations(x *ev.X) {
	// left and right points in relation
	for _, sh := range [][2]int{{0, 1}, {1, 0}, {1, 1}, {2, 0}, {2, 1}, {1, 2}, {0, 3}, {3, 0}, {2, 2}, {3, 1}} {
		bG, bN := sh[0], sh[1]
		if !x.Thorough && bG+bN > 4 {
			continue
		}
		x.Case(func(t *ev.T) {
			tab := gens(800, 1<<uint(bG+bN))
			b := bkt(tab)
			relatedLists([]int{bG, bG, bN}, 840, func(p [][]E, what string) {
				hL, hR, hP := p[0], p[1], p[2]
				l, r := b.EvaluateLeftAndRight(Copy(hP), Copy(hL), Copy(hR))
				if l != MLE(tab, cat2(hL, hP)) || r != MLE(tab, cat2(hR, hP)) {
					t.Failf("left and right evaluations wrong: left %s right %s instance %s (%s), table of size %d", str(hL...), str(hR...), str(hP...), what, len(tab))
				}
				if !Eq1(b.Table, tab) {
					t.Failf("left and right evaluation disturbed the table")
				}
				e := cat2(hL, hP)
				if b.Evaluate(Copy(e)) != MLE(tab, e) {
					t.Failf("evaluation wrong at %s (%s)", str(e...), what)
				}
				t.Step(hash2(8, p))
			})
		}, "%d left/right and %d instance variables: all pairs of coordinates in every relation", bG, bN)
	}
	// table entries in relation, and fold points in relation with them
	for n := 0; n <= 3; n++ {
		n := n
		x.Case(func(t *ev.T) {
			relatedLists([]int{1 << uint(n), n}, 860, func(p [][]E, what string) {
				tab, pt := p[0], p[1]
				b := bkt(tab)
				if b.Evaluate(Copy(pt)) != MLE(tab, pt) {
					t.Failf("table %s evaluated at %s (%s)", str(tab...), str(pt...), what)
				}
				for bg := 0; bg <= n; bg++ {
					hR := gens(870, bg)
					l, r := b.EvaluateLeftAndRight(Copy(pt[bg:]), Copy(pt[:bg]), Copy(hR))
					if l != MLE(tab, pt) || r != MLE(tab, cat2(hR, pt[bg:])) {
						t.Failf("table %s left/right with %d variables at %s (%s)", str(tab...), bg, str(pt...), what)
					}
				}
				ref := Copy(tab)
				for _, q := range pt {
					fe := b.FunctionEvals()
					for i := range fe {
						if fe[i] != Sub(ref[i+len(ref)/2], ref[i]) {
							t.Failf("differences of %s (%s)", str(ref...), what)
						}
					}
					b.Fold(q)
					ref = Fix(ref, q)
					if !Eq1(b.Table, ref) {
						t.Failf("table %s fixed at %s gives %s (%s)", str(tab...), str(q), str(b.Table...), what)
					}
				}
				// every sum, difference, multiple and linear combination
				if n > 0 {
					h := len(tab) / 2
					l0, r0 := tab[:h], tab[h:]
					c := polynomial.LinearCombinationOfBookKeepingTables(bkt(l0), bkt(r0), pt[0], pt[n-1])
					for i := range l0 {
						if c.Table[i] != Add(Mul(pt[0], l0[i]), Mul(pt[n-1], r0[i])) {
							t.Failf("linear combination %s*%s+%s*%s (%s)", str(pt[0]), str(l0...), str(pt[n-1]), str(r0...), what)
						}
					}
				}
				t.Step(hash2(9, p))
			})
		}, "tables of size %d and points: all pairs of entries and coordinates in every relation", 1<<uint(n))
	}
}

func c11relations(x *ev.X) {
	top := 3
	if x.Thorough {
		top = 5
	}
	for n := 1; n <= top; n++ {
		n := n
		x.Case(func(t *ev.T) {
			relatedLists([]int{n, n}, 880, func(p [][]E, what string) {
				c11point(t, p[0], []int{1, 2, 3}, [][]E{p[1], p[0]})
			})
		}, "two points of %d coordinates, all pairs of coordinates in every relation", n)
	}
	for _, sh := range [][2]int{{1, 0}, {1, 1}, {2, 0}, {2, 1}, {1, 2}, {0, 3}} {
		bG, bN := sh[0], sh[1]
		for _, nc := range pow2s(1 << uint(bN)) {
			nc := nc
			x.Case(func(t *ev.T) {
				relatedLists([]int{bG, bG, bN, 1 << uint(bG+bN)}, 900, func(p [][]E, what string) {
					c11eval(t, p[3], bG, nc, cat2(p[0], p[2]), p[0], p[1], p[2])
					t.State(hash2(7, p))
				})
			}, "%d left/right and %d instance variables, %d chunks: coordinates and table entries in every relation", bG, bN, nc)
		}
	}
}

// c12sharing: the results hold the right values for operands in every relation, and share no memory with them.
func c12sharing(x *ev.X) {
	lams := []E{{}, U(1), I(-1), U(2), gen(66)}
	mode := []string{"fresh", "stale larger", "stale same", "spare capacity", "stale smaller"}
	contents := func(n int) [][2][]E {
		a, b := make([]E, n), make([]E, n)
		z := make([]E, n)
		neg := make([]E, n)
		for i := range a {
			a[i], b[i] = gen(i&15), gen(20+i&15)
			neg[i] = Sub(E{}, a[i])
		}
		return [][2][]E{{a, b}, {a, z}, {z, a}, {z, z}, {a, a}, {a, neg}}
	}
	for _, n := range []int{0, 1, 2, 3, 5, 8, 4095, 4096, 4097, 8193} {
		for _, cores := range []int{1, 2, 3, 8} {
			n, cores := n, cores
			x.Case(func(t *ev.T) {
				for ci, c := range contents(n) {
					for _, op := range []string{"add", "sub", "mul"} {
						if op == "add" && cores > 1 {
							continue
						}
						ls := lams
						if op != "mul" {
							ls = lams[:1]
						}
						for _, lam := range ls {
							for _, m := range mode {
								l0, r0 := bkt(c[0]), bkt(c[1])
								d, l, r := c12dst(m, l0, r0)
								want := make([]E, n)
								for i := range want {
									switch op {
									case "add":
										want[i] = Add(c[0][i], c[1][i])
									case "sub":
										want[i] = Sub(c[0][i], c[1][i])
									default:
										want[i] = Mul(lam, c[0][i])
									}
								}
								switch op {
								case "add":
									d.Add(l, r)
								case "sub":
									d.Sub(l, r, cores)
								default:
									d.Mul(lam, l, cores)
								}
								what := fmt.Sprintf("%s by %s of tables of size %d (contents %d), %d cores, destination %s", op, str(lam), n, ci, cores, m)
								if !Eq1(d.Table, want) {
									t.Failf("%s: wrong result", what)
								}
								for i := range d.Table {
									d.Table[i] = gen(99)
								}
								if !Eq1(l0.Table, c[0]) || !Eq1(r0.Table, c[1]) {
									t.Failf("%s: overwriting the result modifies an operand", what)
								}
								// a second operation into the same destination
								d.Sub(r, l, cores)
								for i := range want {
									want[i] = Sub(c[1][i], c[0][i])
								}
								for i := range l.Table {
									l.Table[i] = gen(98)
								}
								for i := range r.Table {
									r.Table[i] = gen(97)
								}
								if !Eq1(d.Table, want) {
									t.Failf("%s, then the difference into the same destination: overwriting the operands modifies the result", what)
								}
								t.Step(hashE(ev.Mix(15, uint64(n), uint64(cores), uint64(ci), uint64(op[0]), uint64(len(m)), uint64(m[0])), lam))
							}
						}
					}
				}
			}, "size %d, %d cores: operands in every relation, every factor, sharing of memory", n, cores)
		}
	}
	x.Case(func(t *ev.T) {
		relatedLists([]int{2, 2, 1}, 950, func(p [][]E, what string) {
			for _, m := range c12modes {
				c12one(t, "add", 2, 1, m, p[0], p[1])
				c12one(t, "sub", 2, 2, m, p[0], p[1])
			}
			var d polynomial.BookKeepingTable
			d.Mul(p[2][0], bkt(p[0]), 1)
			if d.Table[0] != Mul(p[2][0], p[0][0]) || d.Table[1] != Mul(p[2][0], p[0][1]) {
				t.Failf("%s times %s is %s", str(p[2][0]), str(p[0]...), str(d.Table...))
			}
			t.Step(hash2(16, p))
		})
	}, "operands of size 2 and factor: all pairs of entries in every relation")
}

func c14relations(x *ev.X) {
	basis := make([][][]E, maxDomain+1)
	for n := 1; n <= maxDomain; n++ {
		basis[n] = Copy2(polynomial.GetLagrangePolynomial(n))
	}
	for n := 2; n <= maxDomain; n++ {
		n := n
		x.Case(func(t *ev.T) {
			relatedLists([]int{n}, 960, func(p [][]E, what string) { c14one(t, p[0], basis) })
		}, "interpolation on %d points: all pairs of values in every relation", n)
	}
	for n := 1; n <= 12; n++ {
		n := n
		x.Case(func(t *ev.T) {
			relatedLists([]int{n, 1}, 980, func(p [][]E, what string) {
				if g := polynomial.EvaluatePolynomial(Copy(p[0]), p[1][0]); g != PolyEval(p[0], p[1][0]) {
					t.Failf("polynomial %s at %s (%s) gives %s", str(p[0]...), str(p[1]...), what, str(g))
				}
				t.Step(hash2(17, p))
			})
		}, "evaluation of %d coefficients: coefficients and point in every relation", n)
	}
}

// chained lists messages whose blocks are in relation with the state reached before them.
func chained(n int, state func(m []E) E, f func(m []E)) {
	base := gens(1000, n)
	for i := 0; i < n; i++ {
		s := state(base[:i])
		for _, v := range []E{s, Sub(E{}, s), Sub(Ark(0), s), Sub(E{}, Add(s, Ark(0))), Sub(U(1), s), Inv(s), Add(s, s)} {
			m := Copy(base)
			m[i] = v
			f(m)
			if i+1 < n {
				m = Copy(m)
				m[i+1] = state(m[:i+1])
				f(m)
				m = Copy(m)
				m[i+1] = Sub(E{}, m[i+1])
				f(m)
			}
		}
	}
}

func c15relations(x *ev.X) {
	top := 5
	if x.Thorough {
		top = 9
	}
	for n := 1; n <= top; n++ {
		n := n
		x.Case(func(t *ev.T) {
			relatedLists([]int{n}, 1000, func(p [][]E, what string) { c15msg(t, p[0]) })
			chained(n, Mimc, func(m []E) { c15msg(t, m) })
		}, "messages of %d blocks: all pairs of blocks in every relation, blocks in relation with the state", n)
	}
	// blocks cancelling the state plus the key plus each round constant
	x.Case(func(t *ev.T) {
		for i := 0; i < NArk(); i++ {
			for _, v := range []E{Ark(i), Sub(E{}, Ark(i))} {
				c15msg(t, []E{v})
				c15msg(t, []E{gen(1), Sub(v, Mimc([]E{gen(1)}))})
			}
		}
	}, "blocks cancelling each round constant")
}

func c16relations(x *ev.X) {
	for _, h := range hashers() {
		h := h
		top := 2*h.t + 1
		if h.t == 8 && !x.Thorough {
			top = 9
		}
		for n := 1; n <= top; n++ {
			n := n
			x.Case(func(t *ev.T) {
				relatedLists([]int{n}, 1000, func(p [][]E, what string) { c16digest(t, h, p[0]) })
				chained(n, h.ref, func(m []E) { c16digest(t, h, m) })
			}, "%s(t=%d), messages of %d blocks: all pairs of blocks in every relation", h.name, h.t, n)
		}
		x.Case(func(t *ev.T) {
			relatedLists([]int{h.t, h.t}, 1020, func(p [][]E, what string) {
				st, w := Copy(p[0]), h.refS(p[0], p[1])
				h.step(st, Copy(p[1]))
				if !Eq1(st, w) {
					t.Failf("%s(t=%d): state %s, block %s (%s) gives %s", h.name, h.t, str(p[0]...), str(p[1]...), what, str(st...))
				}
				t.Step(hash2(ev.Mix(18, uint64(h.t), uint64(h.name[0])), p))
			})
		}, "%s(t=%d): states and blocks in every relation", h.name, h.t)
	}
}

func c17relations(x *ev.X) {
	for _, g := range allGates() {
		g := g
		x.Case(func(t *ev.T) {
			cg := gateOf(g)
			vals := func(p []E) []E { // also values cancelling the round constant
				a := p[0]
				return []E{a, p[1], Sub(E{}, Add(a, g.Ark)), Sub(U(1), Add(a, g.Ark)), Sub(I(-1), Add(a, g.Ark)), Sub(E{}, g.Ark)}
			}
			related(gens(1030, 2), func(v []E, what string) {
				for _, b := range vals(v) {
					c17pair(t, g, cg, v[0], b)
					c17pair(t, g, cg, b, v[0])
				}
			})
			for n := 1; n <= 4; n++ {
				relatedLists([]int{n, 1}, 1040, func(p [][]E, what string) { c17many(t, g, cg, p[0], p[1][0]) })
				for i := 0; i < n; i++ {
					for _, b := range vals([]E{gen(1050), gen(1051)})[2:] {
						v := gens(1060, n)
						v[i] = b
						c17many(t, g, cg, v, gen(1050))
					}
				}
			}
			t.Trace()
		}, "%s: operands in every relation", gateName(g))
	}
	for gi, gl := range append(hashSets(), []Gate{gAdd(), gMul(), gCopy()}) {
		gi, gl := gi, gl
		x.Case(func(t *ev.T) {
			cgs := gatesOf(gl)
			relatedLists([]int{len(gl), 3}, 1070, func(p [][]E, what string) {
				a, b, c := p[1][0], p[1][1], p[1][2]
				if g, w := circuit.EvaluateCombinator(&a, &b, &c, cgs, Copy(p[0])), relCombine(gl, p[0], c, a, b); g != w {
					t.Failf("combinator of %v with statics %s eq %s at (%s,%s) (%s) is %s, expected %s", gateNames(gl), str(p[0]...), str(c), str(a), str(b), what, str(g), str(w))
				}
				t.Step(hash2(uint64(gi), p))
			})
		}, "combinator of %v: statics and values in every relation", gateNames(gl))
	}
}

func c18relations(x *ev.X) {
	for _, nl := range bigLayers() {
		nl, l := nl, nl.l
		if l.BGIn() > 4 || l.BGOut() > 4 {
			continue
		}
		x.Case(func(t *ev.T) {
			c18layer(t, l, func(n int) (r [][]E) {
				if n > 0 {
					relatedLists([]int{n}, 1080, func(p [][]E, what string) { r = append(r, p[0]) })
				}
				return
			})
		}, "%s: points with coordinates in every relation", nl.name)
	}
	for _, l := range append(wideLayers(), chainLayers()...) {
		l := l
		x.Case(func(t *ev.T) {
			c18layer(t, l, func(n int) (r [][]E) {
				if n > 0 {
					relatedLists([]int{n}, 1080, func(p [][]E, what string) { r = append(r, p[0]) })
				}
				return
			})
		}, "%s: points with coordinates in every relation", layerName(l))
	}
}

func relCircuits() []Circuit {
	var cs []Circuit
	for _, l := range append(wideLayers(), chainLayers()...) {
		cs = append(cs, Circuit{l})
	}
	return append(cs, chains(smallChains(), 2)...)
}

func c06relations(x *ev.X) {
	for _, c := range relCircuits() {
		c := c
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			for bN := 0; bN <= 1; bN++ {
				n := 1 << uint(bN+c[0].BGIn())
				if n > 8 && !x.Thorough {
					continue
				}
				relatedLists([]int{n}, 1100, func(p [][]E, what string) { c06one(t, c, cc, p[0], 1<<uint(bN), 1) })
			}
		}, "inputs in every relation for %s", circuitName(c))
	}
}

func c01relations(x *ev.X) {
	for _, c := range relCircuits() {
		c := c
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			for bN := 0; bN <= 1; bN++ {
				n := 1 << uint(bN+c[0].BGIn())
				if n > 4 && !x.Thorough {
					continue
				}
				relatedLists([]int{n}, 1100, func(p [][]E, what string) { c01run(t, c, cc, bN, p[0], 1<<uint(bN), 1, 1) })
			}
		}, "inputs in every relation for %s", circuitName(c))
	}
}

func c09relations(x *ev.X) {
	for _, sh := range [][3]int{{0, 1, 3}, {0, 2, 3}, {1, 0, 3}, {1, 1, 2}, {0, 3, 2}, {0, 1, 9}} {
		bG, bN, d := sh[0], sh[1], sh[2]
		x.Case(func(t *ev.T) {
			sizes := []int{1}
			for i := 0; i < 2*bG+bN; i++ {
				sizes = append(sizes, d)
			}
			relatedLists(sizes, 1200, func(q [][]E, what string) {
				claim := q[0][0]
				p := SCProof(Copy2(q[1:]))
				c09one(t, claim, p, bN, bG)
				// each way of making each subset of the rounds consistent
				for m := 1; m < 1<<uint(len(p)); m++ {
					p = SCProof(Copy2(q[1:]))
					cur := claim
					for i := range p {
						if m>>uint(i)&1 == 1 {
							fixClaim(p, i, cur)
						}
						cur = PolyEval(p[i], Mimc(p[i]))
					}
					c09one(t, claim, p, bN, bG)
				}
			})
		}, "bG=%d bN=%d, %d coefficients: claim and coefficients in every relation, each subset of the rounds consistent", bG, bN, d)
	}
}

// c02relations: each value of a proof put in each relation with each other one.
func c02relations(x *ev.X) {
	var cs []Circuit
	for _, l := range chainLayers() {
		cs = append(cs, Circuit{l})
	}
	cs = append(cs, chains(smallChains(), 2)...)
	for ci, c := range cs {
		for bN := 0; bN <= 1; bN++ {
			if bN == 1 && (ci%5 != 0) && !x.Thorough {
				continue
			}
			c, bN := c, bN
			x.Case(func(t *ev.T) {
				in := patterns(1<<uint(bN+c[0].BGIn()), 0)[0]
				_, p, out := c03setup(c, bN, 1, in)
				k := newC02(t, c, bN, 1, in, out)
				if !k.judge(p, "the honest proof") {
					t.Failf("honest proof rejected")
				}
				var ss []*E
				sites(&p, func(s *E, name string) { ss = append(ss, s) })
				for i := range ss {
					for j := range ss {
						if i == j {
							continue
						}
						vi, vj := *ss[i], *ss[j]
						for ri, r := range []func(a, b E) E{
							func(a, b E) E { return a },
							func(a, b E) E { return Sub(E{}, a) },
							func(a, b E) E { return Add(a, b) },
							func(a, b E) E { return Sub(U(1), a) },
						} {
							if ri > 1 && !x.Thorough {
								break
							}
							*ss[j] = r(vi, vj)
							k.judge(p, "site %d from site %d, relation %d", j, i, ri)
						}
						*ss[j] = vj
						if i < j {
							*ss[i], *ss[j] = vj, vi
							k.judge(p, "sites %d and %d exchanged", i, j)
							*ss[i], *ss[j] = Add(vi, U(1)), Sub(vj, U(1))
							k.judge(p, "one more at site %d, one less at site %d", i, j)
							*ss[i], *ss[j] = vi, vj
						}
					}
				}
			}, "%s, 2^%d instances: each value of the proof in relation with each other one", circuitName(c), bN)
		}
	}
}

func c19relations(x *ev.X) {
	x.Case(func(t *ev.T) {
		c := mimcCircuit()
		relatedLists([]int{2, 2}, 1300, func(p [][]E, what string) { c19check(t, c, p[0], p[1], 2, 1) })
		for i := 0; i < NArk(); i++ {
			// the sum entering the first rounds cancels a round constant
			for _, v := range []E{Ark(i), Sub(E{}, Ark(i))} {
				c19check(t, c, []E{Sub(v, gen(1))}, []E{gen(1)}, 1, 1)
				c19check(t, c, []E{v}, []E{{}}, 1, 1)
				c19check(t, c, []E{{}}, []E{v}, 1, 1)
			}
		}
	}, "states and blocks in every relation, cancelling each round constant")
}

func c20relations(x *ev.X) {
	top := 3
	if x.Thorough {
		top = 6
	}
	for n := 1; n <= top; n++ {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, n, 1, func(cs csys, in vars) vars { return vars{gadget.MimcHash(cs, in...)} })
			one := func(m []E) { g.judge(t, m, []E{Mimc(m)}, c20others(m), "hash of %d variables", n) }
			relatedLists([]int{n}, 1000, func(p [][]E, what string) { one(p[0]) })
			chained(n, Mimc, one)
		}, "hash of %d variables: all pairs of blocks in every relation", n)
	}
}

func c21relations(x *ev.X) {
	for n := 1; n <= 2; n++ {
		n := n
		x.Case(func(t *ev.T) {
			size := 1 << uint(n)
			g := compileGad(t, size+n, 1, func(cs csys, in vars) vars {
				return vars{sp.NewMultilinearByValues(in[:size:size]).Eval(cs, in[size:])}
			})
			relatedLists([]int{size, n}, 1400, func(p [][]E, what string) {
				g.judge(t, cat2(p[0], p[1]), []E{MLE(p[0], p[1])}, c21otherEvals(p[0], p[1]), "multilinear of %d variables (%s)", n, what)
			})
		}, "multilinear of %d variables: table and point in every relation", n)
	}
	for _, sh := range [][2]int{{1, 0}, {1, 1}, {2, 0}, {2, 1}} {
		bG, bN := sh[0], sh[1]
		x.Case(func(t *ev.T) {
			size := 1 << uint(bG+bN)
			g := compileGad(t, size+2*bG+bN, 2, func(cs csys, in vars) vars {
				p := in[size:]
				a, b := sp.NewMultilinearByValues(in[:size:size]).EvalMixed(cs, p[:bG], p[bG:2*bG], p[2*bG:])
				return vars{a, b}
			})
			tab := gens(1410, size)
			relatedLists([]int{bG, bG, bN}, 1430, func(p [][]E, what string) {
				l, r := MLE(tab, cat2(p[0], p[2])), MLE(tab, cat2(p[1], p[2]))
				g.judge(t, cat2(tab, cat2(cat2(p[0], p[1]), p[2])), []E{l, r}, []E{l, r}, "two-point evaluation, bG=%d bN=%d (%s)", bG, bN, what)
			})
		}, "two-point evaluation, %d left/right and %d instance variables: points in every relation", bG, bN)
	}
	for n := 1; n <= 3; n++ {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, 2*n, 1, func(cs csys, v vars) vars { return vars{sp.EqEval(cs, v[:n], v[n:])} })
			relatedLists([]int{n, n}, 1440, func(p [][]E, what string) {
				g.judge(t, cat2(p[0], p[1]), []E{EqEval(p[0], p[1])}, []E{U(1)}, "equality of points of %d coordinates (%s)", n, what)
			})
		}, "equality of points of %d coordinates in every relation", n)
	}
	for n := 1; n <= 9; n++ {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, n+1, 2, func(cs csys, in vars) vars {
				u := sp.NewUnivariate(in[:n:n])
				return vars{u.Eval(cs, in[n]), u.ZeroAndOne(cs)}
			})
			relatedLists([]int{n, 1}, 1450, func(p [][]E, what string) {
				c, q := p[0], p[1][0]
				g.judge(t, cat2(c, p[1]), []E{PolyEval(c, q), Add(PolyEval(c, U(0)), PolyEval(c, U(1)))}, []E{c[0], c[n-1]}, "polynomial of %d coefficients (%s)", n, what)
			})
		}, "polynomials of %d coefficients: coefficients and point in every relation", n)
	}
}

// c22degrees: round polynomials of every number of coefficients, each coefficient altered.
func c22degrees(x *ev.X) {
	top := 24
	if x.Thorough {
		top = 64
	}
	for n := 1; n <= top; n++ {
		for _, sh := range [][2]int{{0, 1}, {0, 2}, {1, 0}, {1, 1}} {
			bG, bN, n := sh[0], sh[1], n
			if !x.Thorough && bG == 1 && bN == 1 && n%4 != 1 {
				continue
			}
			x.Case(func(t *ev.T) {
				k := newC22(t, bN, bG, [3]int{n, n, n}, nil)
				claim := gen(1500)
				p := k.consistent(claim, 0)
				if !k.judge(claim, p) {
					t.Failf("reference error")
				}
				for i := range p {
					for j := range p[i] {
						v := p[i][j]
						for ai, a := range []E{Add(v, U(1)), {}} {
							if ai == 1 && j != n-1 {
								continue
							}
							p[i][j] = a
							k.judge(claim, p)
							// the others adapted
							q := SCProof(Copy2(p))
							cur := claim
							for r := range q {
								fixClaim(q, r, cur)
								cur = PolyEval(q[r], Mimc(q[r]))
							}
							if !k.judge(claim, q) {
								t.Failf("reference error")
							}
						}
						p[i][j] = v
					}
				}
			}, "bG=%d bN=%d, %d coefficients: every coefficient altered, consistently or not", bG, bN, n)
		}
	}
}

func relCombine(gs []Gate, st []E, eq, vl, vr E) (r E) {
	for i := range gs {
		r = Add(r, Mul(st[i], gs[i].Eval(vl, vr)))
	}
	return Mul(r, eq)
}
