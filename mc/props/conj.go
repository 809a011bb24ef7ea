package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	gadget "gkr-mimc/snark/hash"
	sp "gkr-mimc/snark/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

// Conjunctions: several values special at the same time, independently of each other. A shortcut which asks for two
// conditions (two coefficients equal and an entry null, an instance having the same left and right inputs as another
// one) is reached by one of them.

func init() {
	ev.Register("C01/conjunctions", c01conj)
	ev.Register("C06/conjunctions", c06conj)
	ev.Register("C08/conjunctions", c08conj)
	ev.Register("C09/conjunctions", c09conj)
	ev.Register("C10/conjunctions", c10conj)
	ev.Register("C11/conjunctions", c11conj)
	ev.Register("C12/conjunctions", c12conj)
	ev.Register("C14/conjunctions", c14conj)
	ev.Register("C15/conjunctions", c15conj)
	ev.Register("C16/conjunctions", c16conj)
	ev.Register("C17/conjunctions", c17conj)
	ev.Register("C18/conjunctions", c18conj)
	ev.Register("C19/conjunctions", c19conj)
	ev.Register("C20/conjunctions", c20conj)
	ev.Register("C21/conjunctions", c21conj)
}

// A special condition on one or two slots.
type special struct {
	i, j int
	f    func(a, b E) (E, E)
	name string
}

var conjRelations = []relation{pairRelations[0], pairRelations[1], pairRelations[2], pairRelations[9]}

func specials(n int) (r []special) {
	for i := 0; i < n; i++ {
		for _, e := range []E{{}, U(1), I(-1)} {
			e := e
			r = append(r, special{i, i, func(a, b E) (E, E) { return e, e }, fmt.Sprintf("slot %d is %s", i, str(e))})
		}
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for _, rel := range conjRelations {
				r = append(r, special{i, j, rel.f, fmt.Sprintf("slots %d, %d %s", i, j, rel.name)})
			}
		}
	}
	return r
}

// conjunctions calls f with lists where each set of `depth` special conditions on different slots holds; the share
// `part` of `parts`.
func conjunctions(sizes []int, from, depth, part, parts int, f func(p [][]E, what string)) {
	total := 0
	for _, n := range sizes {
		total += n
	}
	base := gens(from, total)
	sp := specials(total)
	k := 0
	var rec func(at, left int, v []E, used uint64, what string)
	rec = func(at, left int, v []E, used uint64, what string) {
		if left == 0 {
			if k++; k%parts != part {
				return
			}
			p := make([][]E, len(sizes))
			o := 0
			for i, n := range sizes {
				p[i] = Copy(v[o : o+n])
				o += n
			}
			f(p, what)
			return
		}
		for a := at; a < len(sp); a++ {
			s := sp[a]
			m := uint64(1)<<uint(s.i) | uint64(1)<<uint(s.j)
			if used&m != 0 {
				continue
			}
			w := Copy(v)
			x, y := s.f(base[s.i], base[s.j])
			w[s.j] = y
			w[s.i] = x
			rec(a+1, left-1, w, used|m, what+", "+s.name)
		}
	}
	rec(0, depth, base, 0, "")
}

// conj registers the cases of conjunctions: two conditions, and three when there are few slots.
func conj(x *ev.X, sizes []int, from, parts int, desc string, f func(t *ev.T, p [][]E, what string)) {
	total := 0
	for _, n := range sizes {
		total += n
	}
	top := 2
	if total <= 8 || x.Thorough && total <= 12 {
		top = 3
	}
	for d := 2; d <= top; d++ {
		for part := 0; part < parts; part++ {
			d, part := d, part
			x.Case(func(t *ev.T) {
				conjunctions(sizes, from, d, part, parts, func(p [][]E, what string) { f(t, p, what) })
			}, "%s: every %d special conditions at once, part %d", desc, d, part)
		}
	}
}

// pairsOf lists instances which code could compare: neighbours, the ones a half or a quarter apart, first and last.
func pairsOf(n int) (r [][2]int) {
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if d := j - i; d == 1 || d == n/2 || d == n/4 || d == n-1 || n <= 8 {
				r = append(r, [2]int{i, j})
			}
		}
	}
	return
}

var colRelations = []struct {
	name string
	f    func(a, b E) (E, E)
}{
	{"generic", func(a, b E) (E, E) { return a, b }},
	{"equal", func(a, b E) (E, E) { return a, a }},
	{"of the same low limb", func(a, b E) (E, E) { return a, E{a[0], b[1], b[2], b[3]} }},
	{"of the same high limb", func(a, b E) (E, E) { return a, E{b[0], b[1], b[2], a[3]} }},
	{"opposite", func(a, b E) (E, E) { return a, Sub(E{}, a) }},
	{"null", func(a, b E) (E, E) { return E{}, E{} }},
}

// twins calls f with columns of n values whose entries i and j are, in each column, in each relation.
func twins(cols, n, from, rels int, f func(p [][]E, what string)) {
	base := make([][]E, cols)
	for c := range base {
		base[c] = gens(from+n*c, n)
	}
	for _, pr := range pairsOf(n) {
		idx := make([]int, cols)
		for {
			p := Copy2(base)
			what := fmt.Sprintf("entries %d and %d are", pr[0], pr[1])
			for c, r := range idx {
				p[c][pr[0]], p[c][pr[1]] = colRelations[r].f(base[c][pr[0]], base[c][pr[1]])
				what += " " + colRelations[r].name
			}
			f(p, what)
			c := 0
			for c < cols {
				if idx[c]++; idx[c] < rels {
					break
				}
				idx[c] = 0
				c++
			}
			if c == cols {
				break
			}
		}
	}
}

func c10conj(x *ev.X) {
	for n := 1; n <= 4; n++ {
		conj(x, []int{1 << uint(n), n}, 3000, 1+n*n, fmt.Sprintf("table of %d variables and point", n), func(t *ev.T, p [][]E, what string) {
			tab, pt := p[0], p[1]
			b := bkt(tab)
			if b.Evaluate(Copy(pt)) != MLE(tab, pt) {
				t.Failf("table %s evaluated at %s%s", str(tab...), str(pt...), what)
			}
			b.Fold(pt[0])
			if !Eq1(b.Table, Fix(tab, pt[0])) {
				t.Failf("table %s fixed at %s gives %s%s", str(tab...), str(pt[0]), str(b.Table...), what)
			}
			t.Step(hash2(30, p))
		})
	}
	for _, n := range []int{1, 2, 4, 8} {
		conj(x, []int{n, n, 2}, 3040, n, fmt.Sprintf("linear combination of tables of size %d", n), func(t *ev.T, p [][]E, what string) {
			c := polynomial.LinearCombinationOfBookKeepingTables(bkt(p[0]), bkt(p[1]), p[2][0], p[2][1])
			for i := range p[0] {
				if len(c.Table) != n || c.Table[i] != Add(Mul(p[2][0], p[0][i]), Mul(p[2][1], p[1][i])) {
					t.Failf("linear combination %s*%s+%s*%s gives %s%s", str(p[2][0]), str(p[0]...), str(p[2][1]), str(p[1]...), str(c.Table...), what)
				}
			}
			t.Step(hash2(31, p))
		})
	}
	for _, sh := range [][2]int{{1, 0}, {1, 1}, {2, 0}, {2, 1}, {1, 2}} {
		bG, bN := sh[0], sh[1]
		tab := gens(3080, 1<<uint(bG+bN))
		conj(x, []int{bG, bG, bN}, 3100, 1, fmt.Sprintf("points of %d left/right and %d instance variables", bG, bN), func(t *ev.T, p [][]E, what string) {
			b := bkt(tab)
			l, r := b.EvaluateLeftAndRight(Copy(p[2]), Copy(p[0]), Copy(p[1]))
			if l != MLE(tab, cat2(p[0], p[2])) || r != MLE(tab, cat2(p[1], p[2])) {
				t.Failf("left and right evaluations at %s, %s, %s%s", str(p[0]...), str(p[1]...), str(p[2]...), what)
			}
			t.Step(hash2(32, p))
		})
	}
	x.Case(func(t *ev.T) {
		for _, n := range []int{4, 8, 16, 32} {
			pt := gens(3110, 5)
			twins(1, n, 3200, 6, func(p [][]E, what string) {
				for ri, r := range []E{pt[0], {}, U(1), I(-1), U(2)} {
					b := bkt(p[0])
					b.Fold(r)
					if !Eq1(b.Table, Fix(p[0], r)) {
						t.Failf("table of size %d fixed at %s, %s", n, str(r), what)
					}
					t.Step(hash2(uint64(33+ri), p))
				}
			})
			twins(2, n, 3200, 6, func(p [][]E, what string) {
				c := polynomial.LinearCombinationOfBookKeepingTables(bkt(p[0]), bkt(p[1]), pt[0], pt[1])
				for i := range p[0] {
					if c.Table[i] != Add(Mul(pt[0], p[0][i]), Mul(pt[1], p[1][i])) {
						t.Failf("linear combination of tables of size %d, %s", n, what)
					}
				}
				t.Step(hash2(40, p))
			})
		}
	}, "larger tables, two entries in relation in each table")
}

func c11conj(x *ev.X) {
	for n := 1; n <= 3; n++ {
		conj(x, []int{n, n}, 3000, 1, fmt.Sprintf("two points of %d coordinates", n), func(t *ev.T, p [][]E, what string) {
			c11point(t, p[0], []int{2}, [][]E{p[1]})
		})
	}
	for _, sh := range [][3]int{{1, 0, 1}, {1, 1, 1}, {1, 1, 2}, {0, 2, 2}} {
		bG, bN, nc := sh[0], sh[1], sh[2]
		conj(x, []int{bG, bG, bN, 1 << uint(bG+bN)}, 3020, 2, fmt.Sprintf("%d left/right and %d instance variables, %d chunks, points and entries", bG, bN, nc), func(t *ev.T, p [][]E, what string) {
			c11eval(t, p[3], bG, nc, cat2(p[0], p[2]), p[0], p[1], p[2])
			t.State(hash2(41, p))
		})
	}
}

func c12conj(x *ev.X) {
	for n := 1; n <= 5; n++ {
		n := n
		for _, m := range c12modes {
			m := m
			conj(x, []int{n, n, 1}, 3000, 1, fmt.Sprintf("operands of size %d, destination %s", n, m), func(t *ev.T, p [][]E, what string) {
				c12one(t, "add", n, 1, m, p[0], p[1])
				c12one(t, "sub", n, 2, m, p[0], p[1])
				var d polynomial.BookKeepingTable
				d.Mul(p[2][0], bkt(p[0]), 1)
				for i := range p[0] {
					if len(d.Table) != n || d.Table[i] != Mul(p[2][0], p[0][i]) {
						t.Failf("%s times %s is %s", str(p[2][0]), str(p[0]...), str(d.Table...))
					}
				}
				t.Step(hash2(42, p))
			})
		}
	}
}

func c14conj(x *ev.X) {
	basis := make([][][]E, maxDomain+1)
	for n := 1; n <= maxDomain; n++ {
		basis[n] = Copy2(polynomial.GetLagrangePolynomial(n))
	}
	for n := 2; n <= maxDomain; n++ {
		conj(x, []int{n}, 3000, 1+n/3, fmt.Sprintf("interpolation on %d points", n), func(t *ev.T, p [][]E, what string) { c14one(t, p[0], basis) })
	}
	for n := 1; n <= 12; n++ {
		conj(x, []int{n, 1}, 3020, 1+n/3, fmt.Sprintf("evaluation of %d coefficients", n), func(t *ev.T, p [][]E, what string) {
			if g := polynomial.EvaluatePolynomial(Copy(p[0]), p[1][0]); g != PolyEval(p[0], p[1][0]) {
				t.Failf("polynomial %s at %s gives %s%s", str(p[0]...), str(p[1]...), str(g), what)
			}
			t.Step(hash2(43, p))
		})
	}
}

func c15conj(x *ev.X) {
	for n := 2; n <= 7; n++ {
		conj(x, []int{n}, 3000, 4, fmt.Sprintf("messages of %d blocks", n), func(t *ev.T, p [][]E, what string) { c15msg(t, p[0]) })
	}
}

func c16conj(x *ev.X) {
	for _, h := range hashers() {
		h := h
		for n := 2; n <= 2*h.t && n <= 6; n++ {
			conj(x, []int{n}, 3000, 2, fmt.Sprintf("%s(t=%d), messages of %d blocks", h.name, h.t, n), func(t *ev.T, p [][]E, what string) { c16digest(t, h, p[0]) })
		}
		if h.t > 4 && !x.Thorough {
			continue
		}
		conj(x, []int{h.t, h.t}, 3020, 4, fmt.Sprintf("%s(t=%d), states and blocks", h.name, h.t), func(t *ev.T, p [][]E, what string) {
			st, w := Copy(p[0]), h.refS(p[0], p[1])
			h.step(st, Copy(p[1]))
			if !Eq1(st, w) {
				t.Failf("%s(t=%d): state %s, block %s%s gives %s", h.name, h.t, str(p[0]...), str(p[1]...), what, str(st...))
			}
			t.Step(hash2(ev.Mix(44, uint64(h.t), uint64(h.name[0])), p))
		})
	}
}

func c17conj(x *ev.X) {
	for _, g := range allGates() {
		g := g
		cg := gateOf(g)
		for n := 1; n <= 4; n++ {
			conj(x, []int{n, 1}, 3000, 1, fmt.Sprintf("%s, batches of %d", gateName(g), n), func(t *ev.T, p [][]E, what string) {
				c17many(t, g, cg, p[0], p[1][0])
				for i := range p[0] {
					p[0][i] = Sub(p[0][i], g.Ark) // what is raised to the power is special
				}
				c17many(t, g, cg, p[0], p[1][0])
				t.Trace()
			})
		}
	}
	for gi, gl := range append(hashSets(), []Gate{gAdd(), gMul(), gCopy()}, []Gate{gAdd(), gCipher(gen(64)), gMul(), gCopy()}, []Gate{gMul(), gMul(), gMul()}) {
		gi, gl := gi, gl
		cgs := gatesOf(gl)
		conj(x, []int{len(gl), 3}, 3020, 1, fmt.Sprintf("combinator of %v", gateNames(gl)), func(t *ev.T, p [][]E, what string) {
			a, b, c := p[1][0], p[1][1], p[1][2]
			if g, w := circuit.EvaluateCombinator(&a, &b, &c, cgs, Copy(p[0])), relCombine(gl, p[0], c, a, b); g != w {
				t.Failf("combinator of %v with statics %s eq %s at (%s,%s)%s is %s, expected %s", gateNames(gl), str(p[0]...), str(c), str(a), str(b), what, str(g), str(w))
			}
			t.Step(hash2(uint64(50+gi), p))
		})
	}
}

func c18conj(x *ev.X) {
	for _, l := range append(wideLayers(), chainLayers()...) {
		l := l
		x.Case(func(t *ev.T) {
			c18layer(t, l, func(n int) (r [][]E) {
				for d := 2; d <= 3 && n > 1; d++ {
					conjunctions([]int{n}, 3000, d, 0, 1, func(p [][]E, what string) { r = append(r, p[0]) })
				}
				return
			})
		}, "%s: points with several special coordinates", layerName(l))
	}
}

func c08conj(x *ev.X) {
	one := func(t *ev.T, k int, bG, bN int, gl []Gate, p [][]E) {
		s := &Instance{VL: p[0], VR: p[1], EQ: p[2], Gates: gl, ST: p[3:]}
		c08history(t, s, gens(171, 2*bG+bN))
		switch k % 8 {
		case 0:
			c08prove(t, s, 0, 1)
		case 4:
			c08prove(t, s, 1<<uint(bN), 1+k/8%2)
		}
	}
	for _, sh := range [][2]int{{0, 1}, {1, 0}, {0, 2}} {
		for gi, gl := range [][]Gate{{gMul(), gCopy()}, {gCipher(gen(64)), gAdd()}, {gMul()}} {
			bG, bN, gl := sh[0], sh[1], gl
			if bN == 2 && gi > 0 && !x.Thorough {
				continue
			}
			g, n := 1<<uint(bG), 1<<uint(bN)
			sizes := []int{g * n, g * n, n}
			for range gl {
				sizes = append(sizes, g*g)
			}
			k := 0
			conj(x, sizes, 3000, 16, fmt.Sprintf("bG=%d bN=%d, %v, table entries", bG, bN, gateNames(gl)), func(t *ev.T, p [][]E, what string) {
				k++
				one(t, k, bG, bN, gl, p)
			})
		}
	}
	for _, gl := range hashSets() {
		for _, bN := range []int{2, 3, 4} {
			for _, bG := range []int{0, 1} {
				gl, bG, bN := gl, bG, bN
				if !x.Thorough && bG == 1 && bN > 2 {
					continue
				}
				x.Case(func(t *ev.T) {
					st := make([][]E, len(gl))
					for i := range st {
						st[i] = gens(3100+16*i, 1<<uint(2*bG))
					}
					k := 0
					// the inputs of the two instances, for all the inputs of the layer at once
					twins(3, 1<<uint(bN), 3200, 6, func(p [][]E, what string) {
						k++
						if !x.Thorough && bN > 2 && len(gl) == 1 && k%3 != 0 {
							return
						}
						q := [][]E{p[0], p[1], p[2]}
						if bG == 1 {
							q[0] = append(gens(3400, 1<<uint(bN)), p[0]...)
							q[1] = append(Copy(p[1]), gens(3430, 1<<uint(bN))...)
						}
						one(t, k, bG, bN, gl, append(q, Copy2(st)...))
					})
				}, "bG=%d bN=%d, %v: two instances in every relation in each table", bG, bN, gateNames(gl))
			}
		}
	}
}

func c06conj(x *ev.X) {
	for _, c := range relCircuits() {
		c := c
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			g := 1 << uint(c[0].BGIn())
			if g <= 4 {
				for d := 2; d <= 3 && g > 1; d++ {
					conjunctions([]int{g}, 3000, d, 0, 1, func(p [][]E, what string) { c06one(t, c, cc, p[0], 1, 1) })
				}
			}
			for _, n := range []int{4, 8} {
				rels := 6
				if g > 2 && !x.Thorough {
					rels = 3
				}
				if g > 4 {
					continue
				}
				twins(g, n, 3020, rels, func(p [][]E, what string) { c06one(t, c, cc, flat(p), 1, 1) })
			}
		}, "%s: several special inputs, two instances in every relation", circuitName(c))
	}
}

func c01conj(x *ev.X) {
	for _, c := range relCircuits() {
		c := c
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			g := 1 << uint(c[0].BGIn())
			if g > 4 {
				return
			}
			twins(g, 4, 3020, 6-g, func(p [][]E, what string) { c01run(t, c, cc, 2, flat(p), 1, 1, 1) })
			k := 0
			twins(g, 8, 3020, 3, func(p [][]E, what string) {
				if k++; k%2 == 0 || x.Thorough {
					c01run(t, c, cc, 3, flat(p), 1, 1, 1)
				}
			})
		}, "%s: two instances in every relation", circuitName(c))
	}
}

func c19conj(x *ev.X) {
	c := mimcCircuit()
	for _, n := range []int{2, 4, 8, 16} {
		n := n
		for _, ch := range []int{1, 2} {
			ch := ch
			x.Case(func(t *ev.T) {
				twins(2, n, 3000, 6, func(p [][]E, what string) { c19check(t, c, p[0], p[1], ch, 2) })
			}, "%d instances in %d chunks: states and blocks of two instances in every relation", n, ch)
		}
	}
	conj(x, []int{2, 2}, 3050, 2, "states and blocks of two instances", func(t *ev.T, p [][]E, what string) { c19check(t, c, p[0], p[1], 1, 1) })
}

func c09conj(x *ev.X) {
	for _, sh := range [][3]int{{0, 1, 3}, {0, 2, 2}, {1, 0, 2}, {0, 1, 5}, {0, 2, 3}} {
		bG, bN, d := sh[0], sh[1], sh[2]
		sizes := []int{1}
		for i := 0; i < 2*bG+bN; i++ {
			sizes = append(sizes, d)
		}
		conj(x, sizes, 3000, 4, fmt.Sprintf("bG=%d bN=%d, %d coefficients, claim and coefficients, each subset of the rounds consistent", bG, bN, d), func(t *ev.T, q [][]E, what string) {
			claim := q[0][0]
			for m := 0; m < 1<<uint(len(q)-1); m++ {
				p := SCProof(Copy2(q[1:]))
				cur := claim
				for i := range p {
					if m>>uint(i)&1 == 1 {
						fixClaim(p, i, cur)
					}
					cur = PolyEval(p[i], Mimc(p[i]))
				}
				c09one(t, claim, p, bN, bG)
			}
		})
	}
}

func c20conj(x *ev.X) {
	for n := 2; n <= 3; n++ {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, n, 1, func(cs csys, in vars) vars { return vars{gadget.MimcHash(cs, in...)} })
			for d := 2; d <= 3; d++ {
				conjunctions([]int{n}, 3000, d, 0, 1, func(p [][]E, what string) {
					g.judge(t, p[0], []E{Mimc(p[0])}, nil, "hash of %d variables%s", n, what)
				})
			}
		}, "hash of %d variables: several special blocks", n)
	}
}

func c21conj(x *ev.X) {
	for n := 1; n <= 2; n++ {
		n := n
		for part := 0; part < 4; part++ {
			part := part
			x.Case(func(t *ev.T) {
				size := 1 << uint(n)
				g := compileGad(t, size+n, 1, func(cs csys, in vars) vars {
					return vars{sp.NewMultilinearByValues(in[:size:size]).Eval(cs, in[size:])}
				})
				conjunctions([]int{size, n}, 3000, 2, part, 4, func(p [][]E, what string) {
					g.judge(t, cat2(p[0], p[1]), []E{MLE(p[0], p[1])}, nil, "multilinear of %d variables%s", n, what)
				})
			}, "multilinear of %d variables, table and point: every 2 special conditions at once, part %d", n, part)
		}
	}
	x.Case(func(t *ev.T) {
		for n := 1; n <= 2; n++ {
			n := n
			g := compileGad(t, 2*n, 1, func(cs csys, in vars) vars { return vars{sp.EqEval(cs, in[:n], in[n:])} })
			conjunctions([]int{n, n}, 3020, 2, 0, 1, func(p [][]E, what string) {
				g.judge(t, flat(p), []E{EqEval(p[0], p[1])}, nil, "equality of %d variables%s", n, what)
			})
		}
		for n := 1; n <= 4; n++ {
			n := n
			g := compileGad(t, n+1, 2, func(cs csys, in vars) vars {
				u := sp.NewUnivariate(in[:n:n])
				return vars{u.Eval(cs, in[n]), u.ZeroAndOne(cs)}
			})
			conjunctions([]int{n, 1}, 3040, 2, 0, 1, func(p [][]E, what string) {
				c, q := p[0], p[1][0]
				g.judge(t, flat(p), []E{PolyEval(c, q), Add(PolyEval(c, U(0)), PolyEval(c, U(1)))}, nil, "polynomial of %d coefficients%s", n, what)
			})
		}
	}, "equality, polynomials: every 2 special conditions at once")
}

func flat(p [][]E) (r []E) {
	for _, l := range p {
		r = append(r, l...)
	}
	return
}
