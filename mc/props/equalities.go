package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	gadget "gkr-mimc/snark/hash"
	sp "gkr-mimc/snark/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

// Equalities: every way in which a few values can be equal to each other (every partition of them, some of the blocks
// being null or one). A shortcut for values which are alike, whatever it looks at to see that they are (the first and
// the last ones, neighbours, the two halves, a sum), is taken for one of these partitions wrongly.

func init() {
	ev.Register("C01/equalities", c01equal)
	ev.Register("C02/equalities", c02equal)
	ev.Register("C03/equalities", c03equal)
	ev.Register("C06/equalities", c06equal)
	ev.Register("C08/equalities", c08equal)
	ev.Register("C09/equalities", c09equal)
	ev.Register("C10/equalities", c10equal)
	ev.Register("C11/equalities", c11equal)
	ev.Register("C12/equalities", c12equal)
	ev.Register("C14/equalities", c14equal)
	ev.Register("C15/equalities", c15equal)
	ev.Register("C16/equalities", c16equal)
	ev.Register("C17/equalities", c17equal)
	ev.Register("C19/equalities", c19equal)
	ev.Register("C20/equalities", c20equal)
	ev.Register("C21/equalities", c21equal)
	ev.Register("C22/equalities", c22equal)
	ev.Register("C23/equalities", c23equal)
}

// equalities calls f with every list of n values up to renaming of the values, `pinned` of which are special: 0, 1.
func equalities(n, from, pinned int, f func(v []E)) {
	names := append([]E{{}, U(1)}[:pinned:pinned], gens(from, n)...)
	v := make([]E, n)
	var rec func(i, used int)
	rec = func(i, used int) {
		if i == n {
			f(Copy(v))
			return
		}
		for k := 0; k < used; k++ {
			v[i] = names[k]
			rec(i+1, used)
		}
		v[i] = names[used]
		rec(i+1, used+1)
	}
	rec(0, pinned)
}

// pinnedFor says how many special values come with n slots: some 4000 lists in all.
func pinnedFor(n int, thorough bool) int {
	p := 2
	if n > 6 {
		p = 8 - n
	}
	if thorough {
		p++
	}
	if p > 2 {
		p = 2
	}
	if p < 0 {
		p = 0
	}
	return p
}

func split(v []E, sizes []int) (p [][]E) {
	for _, n := range sizes {
		p = append(p, Copy(v[:n]))
		v = v[n:]
	}
	return
}

// eqPart calls f with the share `part` of `parts` of the lists.
func eqPart(sizes []int, from, pinned, part, parts int, f func(p [][]E)) {
	total, k := 0, 0
	for _, n := range sizes {
		total += n
	}
	equalities(total, from, pinned, func(v []E) {
		if k++; k%parts == part {
			f(split(v, sizes))
		}
	})
}

func equal(x *ev.X, sizes []int, from, parts int, desc string, f func(t *ev.T, p [][]E)) {
	total := 0
	for _, n := range sizes {
		total += n
	}
	pinned := pinnedFor(total, x.Thorough)
	for part := 0; part < parts; part++ {
		part := part
		x.Case(func(t *ev.T) {
			eqPart(sizes, from, pinned, part, parts, func(p [][]E) { f(t, p) })
		}, "%s: every partition into equal values, %d special ones, part %d", desc, pinned, part)
	}
}

func c10equal(x *ev.X) {
	pt := gens(3900, 3)
	for n := 1; n <= 3; n++ {
		n := n
		equal(x, []int{1 << uint(n)}, 3800, 1+n, fmt.Sprintf("table of %d variables", n), func(t *ev.T, p [][]E) {
			for _, r := range [][]E{pt[:n], {pt[0], pt[0], pt[0]}, {{}, pt[1], U(1)}} {
				r = r[:n]
				b := bkt(p[0])
				if g := b.Evaluate(Copy(r)); g != MLE(p[0], r) {
					t.Failf("table %s evaluated at %s is %s", str(p[0]...), str(r...), str(g))
				}
				b = bkt(p[0])
				b.Fold(r[0])
				if !Eq1(b.Table, Fix(p[0], r[0])) {
					t.Failf("table %s fixed at %s gives %s", str(p[0]...), str(r[0]), str(b.Table...))
				}
			}
			for bG := 0; bG < n; bG++ {
				hL, hR, hP := gens(3910, bG), gens(3920, bG), gens(3930, n-bG)
				b := bkt(p[0])
				if l, r := b.EvaluateLeftAndRight(hP, hL, hR); l != MLE(p[0], cat2(hL, hP)) || r != MLE(p[0], cat2(hR, hP)) {
					t.Failf("left and right evaluations of table %s, %d left variables: %s", str(p[0]...), bG, str(l, r))
				}
			}
			t.Step(hash2(60, p))
		})
	}
	for n := 1; n <= 3; n++ {
		n := n
		equal(x, []int{n, 2}, 3820, 1, fmt.Sprintf("point of %d coordinates, entries repeated", n), func(t *ev.T, p [][]E) {
			tab := make([]E, 1<<uint(n))
			for i := range tab {
				tab[i] = p[1][i%2]
			}
			b := bkt(tab)
			if g := b.Evaluate(Copy(p[0])); g != MLE(tab, p[0]) {
				t.Failf("table %s evaluated at %s is %s", str(tab...), str(p[0]...), str(g))
			}
			t.Step(hash2(61, p))
		})
	}
	for _, sz := range [][]int{{1, 1, 2}, {2, 2, 2}, {4, 4, 0}, {3, 3, 1}} {
		sz := sz
		equal(x, sz, 3840, 4, fmt.Sprintf("linear combination of tables of size %d", sz[0]), func(t *ev.T, p [][]E) {
			a, b := pt[0], pt[1]
			if len(p[2]) > 0 {
				a, b = p[2][0], p[2][len(p[2])-1]
			}
			c := polynomial.LinearCombinationOfBookKeepingTables(bkt(p[0]), bkt(p[1]), a, b)
			for i := range p[0] {
				if len(c.Table) != sz[0] || c.Table[i] != Add(Mul(a, p[0][i]), Mul(b, p[1][i])) {
					t.Failf("linear combination %s*%s+%s*%s gives %s", str(a), str(p[0]...), str(b), str(p[1]...), str(c.Table...))
				}
			}
			t.Step(hash2(62, p))
		})
	}
}

func c11equal(x *ev.X) {
	for n := 1; n <= 3; n++ {
		n := n
		equal(x, []int{n, n}, 3800, 2, fmt.Sprintf("two points of %d coordinates", n), func(t *ev.T, p [][]E) {
			c11point(t, p[0], []int{2}, [][]E{p[1]})
		})
	}
	for n := 1; n <= 3; n++ {
		for _, nc := range pow2s(1 << uint(n)) {
			n, nc := n, nc
			equal(x, []int{1 << uint(n)}, 3820, 2, fmt.Sprintf("table of %d variables in %d chunks", n, nc), func(t *ev.T, p [][]E) {
				c11eval(t, p[0], 0, nc, gens(3900, n), nil, nil, nil)
				for bG := 0; bG < n && nc <= 1<<uint(n-bG); bG++ {
					c11eval(t, p[0], bG, nc, nil, gens(3910, bG), gens(3920, bG), gens(3930, n-bG))
				}
				t.State(hash2(uint64(63+nc), p))
			})
		}
	}
	for _, sh := range [][3]int{{0, 3, 2}, {0, 3, 4}, {1, 2, 2}, {1, 2, 4}, {2, 2, 4}} {
		bG, bN, nc := sh[0], sh[1], sh[2]
		tab := gens(3950, 1<<uint(bG+bN))
		equal(x, []int{bG, bG, bN}, 3840, 1, fmt.Sprintf("points of %d left/right and %d instance variables, %d chunks", bG, bN, nc), func(t *ev.T, p [][]E) {
			c11eval(t, tab, bG, nc, cat2(p[0], p[2]), p[0], p[1], p[2])
			t.State(hash2(64, p))
		})
	}
}

func c12equal(x *ev.X) {
	for _, sz := range [][]int{{2, 2, 1}, {3, 3, 0}, {4, 4, 0}} {
		for _, m := range c12modes {
			sz, m := sz, m
			equal(x, sz, 3800, 1, fmt.Sprintf("operands of size %d, destination %s", sz[0], m), func(t *ev.T, p [][]E) {
				n := sz[0]
				c12one(t, "add", n, 1, m, p[0], p[1])
				c12one(t, "sub", n, 2, m, p[0], p[1])
				f := gen(3990)
				if len(p[2]) > 0 {
					f = p[2][0]
				}
				var d polynomial.BookKeepingTable
				d.Mul(f, bkt(p[0]), 1)
				for i := range p[0] {
					if len(d.Table) != n || d.Table[i] != Mul(f, p[0][i]) {
						t.Failf("%s times %s is %s", str(f), str(p[0]...), str(d.Table...))
					}
				}
				t.Step(hash2(65, p))
			})
		}
	}
}

func c14equal(x *ev.X) {
	basis := make([][][]E, maxDomain+1)
	for n := 1; n <= maxDomain; n++ {
		basis[n] = Copy2(polynomial.GetLagrangePolynomial(n))
	}
	for n := 1; n <= 8 && n <= maxDomain; n++ {
		equal(x, []int{n}, 3800, 2, fmt.Sprintf("interpolation on %d points", n), func(t *ev.T, p [][]E) { c14one(t, p[0], basis) })
	}
	for n := 1; n <= 7; n++ {
		equal(x, []int{n, 1}, 3820, 1, fmt.Sprintf("evaluation of %d coefficients", n), func(t *ev.T, p [][]E) {
			if g := polynomial.EvaluatePolynomial(Copy(p[0]), p[1][0]); g != PolyEval(p[0], p[1][0]) {
				t.Failf("polynomial %s at %s gives %s", str(p[0]...), str(p[1]...), str(g))
			}
			t.Step(hash2(66, p))
		})
	}
}

func c15equal(x *ev.X) {
	for n := 1; n <= 7; n++ {
		equal(x, []int{n}, 3800, 1+n/2, fmt.Sprintf("messages of %d blocks", n), func(t *ev.T, p [][]E) { c15msg(t, p[0]) })
	}
}

func c16equal(x *ev.X) {
	for _, h := range hashers() {
		h := h
		for n := 1; n <= 8; n++ {
			if n > 6 && h.t < 8 && !x.Thorough {
				continue
			}
			parts := 1
			if n > 4 {
				parts = 4
			}
			equal(x, []int{n}, 3800, parts, fmt.Sprintf("%s(t=%d), messages of %d blocks", h.name, h.t, n), func(t *ev.T, p [][]E) { c16digest(t, h, p[0]) })
		}
		if h.t <= 4 {
			equal(x, []int{h.t, h.t}, 3820, 4, fmt.Sprintf("%s(t=%d), states and blocks", h.name, h.t), func(t *ev.T, p [][]E) {
				st, w := Copy(p[0]), h.refS(p[0], p[1])
				h.step(st, Copy(p[1]))
				if !Eq1(st, w) {
					t.Failf("%s(t=%d): state %s, block %s gives %s", h.name, h.t, str(p[0]...), str(p[1]...), str(st...))
				}
				t.Step(hash2(ev.Mix(67, uint64(h.t), uint64(h.name[0])), p))
			})
		}
	}
}

func c17equal(x *ev.X) {
	for _, g := range allGates() {
		g := g
		cg := gateOf(g)
		for _, sz := range [][]int{{3, 1}, {5, 1}, {7, 0}} {
			equal(x, sz, 3800, 1, fmt.Sprintf("%s, batches of %d", gateName(g), sz[0]), func(t *ev.T, p [][]E) {
				o := gen(3990)
				if len(p[1]) > 0 {
					o = p[1][0]
				}
				c17many(t, g, cg, p[0], o)
				t.Trace()
			})
		}
	}
	for gi, gl := range append(hashSets(), []Gate{gAdd(), gMul(), gCopy()}, []Gate{gMul(), gMul(), gMul()}) {
		gi, gl := gi, gl
		cgs := gatesOf(gl)
		equal(x, []int{len(gl), 3}, 3820, 1, fmt.Sprintf("combinator of %v", gateNames(gl)), func(t *ev.T, p [][]E) {
			a, b, c := p[1][0], p[1][1], p[1][2]
			if g, w := circuit.EvaluateCombinator(&a, &b, &c, cgs, Copy(p[0])), relCombine(gl, p[0], c, a, b); g != w {
				t.Failf("combinator of %v with statics %s eq %s at (%s,%s) is %s, expected %s", gateNames(gl), str(p[0]...), str(c), str(a), str(b), str(g), str(w))
			}
			t.Step(hash2(uint64(70+gi), p))
		})
	}
}

func c08equal(x *ev.X) {
	one := func(t *ev.T, k int, bG, bN int, s *Instance) {
		c08history(t, s, gens(171, 2*bG+bN))
		switch k % 8 {
		case 0:
			c08prove(t, s, 0, 1)
		case 4:
			c08prove(t, s, 1<<uint(bN), 1+k/8%2)
		}
	}
	gls := [][]Gate{{gMul(), gCopy()}, {gCipher(gen(64)), gAdd()}, {gCipher(gen(64)), gCipher(gen(65))}}
	for gi, gl := range gls {
		gi, gl := gi, gl
		statics := func(bG int) (st [][]E) {
			for i := range gl {
				st = append(st, gens(3950+16*i, 1<<uint(2*bG)))
			}
			return
		}
		inst := func(bN int, vl, vr, eq []E, st [][]E) *Instance {
			return &Instance{VL: vl, VR: vr, EQ: eq, Gates: gl, ST: st}
		}
		k := 0
		equal(x, []int{2, 2, 2}, 3800, 4, fmt.Sprintf("bG=0 bN=1, %v, entries of all the tables", gateNames(gl)), func(t *ev.T, p [][]E) {
			k++
			one(t, k, 0, 1, inst(1, p[0], p[1], p[2], statics(0)))
		})
		equal(x, []int{2, 2}, 3800, 1, fmt.Sprintf("bG=1 bN=0, %v, entries", gateNames(gl)), func(t *ev.T, p [][]E) {
			k++
			one(t, k, 1, 0, inst(0, p[0], p[1], gens(3940, 1), statics(1)))
		})
		equal(x, []int{4, 4}, 3810, 4, fmt.Sprintf("bG=1 bN=0, %v, static tables", gateNames(gl)), func(t *ev.T, p [][]E) {
			k++
			one(t, k, 1, 0, inst(0, gens(3920, 2), gens(3930, 2), gens(3940, 1), p))
		})
		if gi > 1 && !x.Thorough {
			// the ones of the first list, with the partitions of each table
			for bG := 0; bG <= 1; bG++ {
				bG := bG
				equal(x, []int{4}, 3820, 1, fmt.Sprintf("bG=%d bN=2, %v, each table", bG, gateNames(gl)), func(t *ev.T, p [][]E) {
					for w := 0; w < 3; w++ {
						q := [][]E{gens(3900, 4<<uint(bG)), gens(3910, 4<<uint(bG)), gens(3920, 4)}
						copy(q[w], p[0])
						k++
						one(t, k, bG, 2, inst(2, q[0], q[1], q[2], statics(bG)))
					}
				})
			}
			continue
		}
		equal(x, []int{4, 4}, 3820, 6, fmt.Sprintf("bG=0 bN=2, %v, entries of the two tables", gateNames(gl)), func(t *ev.T, p [][]E) {
			k++
			one(t, k, 0, 2, inst(2, p[0], p[1], gens(3940, 4), statics(0)))
		})
		equal(x, []int{4, 4}, 3830, 6, fmt.Sprintf("bG=1 bN=1, %v, entries of the two tables", gateNames(gl)), func(t *ev.T, p [][]E) {
			k++
			one(t, k, 1, 1, inst(1, p[0], p[1], gens(3940, 2), statics(1)))
		})
	}
	for bG := 0; bG <= 1; bG++ {
		bG := bG
		gl := []Gate{gCipher(gen(64)), gAdd()}
		k := 0
		equal(x, []int{8}, 3850, 4, fmt.Sprintf("bG=%d bN=3, eq table", bG), func(t *ev.T, p [][]E) {
			k++
			one(t, k, bG, 3, &Instance{VL: gens(3900, 8<<uint(bG)), VR: gens(3920, 8<<uint(bG)), EQ: p[0], Gates: gl, ST: [][]E{gens(3950, 1<<uint(2*bG)), gens(3960, 1<<uint(2*bG))}})
		})
	}
}

func c09equal(x *ev.X) {
	for _, sh := range [][3]int{{0, 1, 3}, {0, 2, 2}, {1, 0, 2}, {0, 2, 3}, {0, 3, 2}, {1, 1, 2}, {0, 1, 6}} {
		bG, bN, d := sh[0], sh[1], sh[2]
		sizes := []int{1}
		for i := 0; i < 2*bG+bN; i++ {
			sizes = append(sizes, d)
		}
		equal(x, sizes, 3800, 2, fmt.Sprintf("bG=%d bN=%d, %d coefficients, claim and coefficients, each subset of the rounds consistent", bG, bN, d), func(t *ev.T, q [][]E) {
			claim := q[0][0]
			for m := 0; m < 1<<uint(len(q)-1); m++ {
				p := SCProof(Copy2(q[1:]))
				cur := claim
				for i := range p {
					if m>>uint(i)&1 == 1 {
						fixClaim(p, i, cur)
					}
					cur = PolyEval(p[i], Mimc(p[i]))
				}
				c09one(t, claim, p, bN, bG)
			}
		})
	}
}

func c06equal(x *ev.X) {
	for _, c := range relCircuits() {
		c := c
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			g := 1 << uint(c[0].BGIn())
			for n := g; n <= 8; n *= 2 {
				pinned := pinnedFor(n, x.Thorough)
				k := 0
				equalities(n, 3800, pinned, func(v []E) {
					k++
					c06one(t, c, cc, v, pow2s(n / g)[k%len(pow2s(n/g))], 1)
				})
			}
		}, "%s: every partition of the inputs into equal values", circuitName(c))
	}
}

func c01equal(x *ev.X) {
	for ci, c := range relCircuits() {
		c, ci := c, ci
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			g := 1 << uint(c[0].BGIn())
			for bN := 0; g<<uint(bN) <= 8; bN++ {
				n := g << uint(bN)
				if n == 8 && ci > 3 && !x.Thorough {
					break
				}
				k := 0
				equalities(n, 3800, pinnedFor(n, x.Thorough), func(v []E) {
					cs := pow2s(1 << uint(bN))
					k++
					c01run(t, c, cc, bN, v, cs[k%len(cs)], 1, 1)
				})
			}
		}, "%s: every partition of the inputs into equal values", circuitName(c))
	}
}

// c02equal: honest proofs of statements with equal inputs, and with each place of the proof altered.
func c02equal(x *ev.X) {
	for _, c := range c02circuits(false) {
		for bN := 0; bN <= 2; bN++ {
			c, bN := c, bN
			n := 1 << uint(bN+c[0].BGIn())
			if n > 4 || len(c) > 2 && n > 2 && !x.Thorough {
				continue
			}
			pinned := 1
			if len(c) > 1 && n > 2 && !x.Thorough {
				pinned = 0
			}
			x.Case(func(t *ev.T) {
				k := 0
				equalities(n, 3800, pinned, func(v []E) {
					out := c.Assign(v)[len(c)]
					qP, q := point(bN, c)
					cs := pow2s(1 << uint(bN))
					k++
					j := newC02(t, c, bN, cs[k%len(cs)], v, out)
					p := c.Prove(v, qP, q)
					if !j.judge(p, "honest proof") {
						t.Failf("honest proof rejected")
					}
					w := p.Clone()
					sites(&w, func(s *E, name string) {
						old := *s
						for i, e := range []E{Add(old, U(1)), {}, v[0]} {
							if e != old && (i == k%3 || len(c) == 1 || x.Thorough) {
								*s = e
								j.judge(w, "%s altered, inputs with equal values", name)
							}
						}
						*s = old
					})
				})
			}, "%s, 2^%d instances: every partition of the inputs into equal values, every place of the proof altered", circuitName(c), bN)
		}
	}
}

// c03equal: statements with equal values, each value altered.
func c03equal(x *ev.X) {
	id := func(bG int) Circuit {
		for _, l := range append(wideLayers(), chainLayers()...) {
			if len(l.Gates()) == 1 && l.BGIn() == bG {
				return Circuit{l}
			}
		}
		return nil
	}
	for bG := 0; bG <= 1; bG++ {
		c := id(bG)
		if c == nil {
			continue
		}
		for bN := 1; bN <= 3-bG; bN++ {
			for _, n := range pow2s(1 << uint(bN)) {
				bN, n := bN, n
				total := 1 << uint(bN+c[0].BGIn())
				equal(x, []int{total}, 3800, 4, fmt.Sprintf("%s, 2^%d instances in %d chunks, each input and output altered", circuitName(c), bN, n), func(t *ev.T, q [][]E) {
					in := q[0]
					v, p, out := c03setup(c, bN, n, in)
					for i := range in {
						w := Copy(in)
						w[i] = Add(in[i], U(1))
						if i%2 == 1 && in[i] != in[0] {
							w[i] = in[0] // one more equal value
						}
						c03try(t, v, p, n, w, out, "input %d of %s, circuit %s, 2^%d instances, %d chunks", i, str(in...), circuitName(c), bN, n)
					}
					for i := range out {
						w := Copy(out)
						w[i] = Add(out[i], U(1))
						if i%2 == 1 && out[i] != out[0] {
							w[i] = out[0]
						}
						c03try(t, v, p, n, in, w, "output %d of inputs %s, circuit %s, 2^%d instances, %d chunks", i, str(in...), circuitName(c), bN, n)
					}
				})
			}
		}
	}
}

func c19equal(x *ev.X) {
	c := mimcCircuit()
	for _, n := range []int{1, 2, 3, 4} {
		n := n
		if n == 3 { // a fourth instance as the first one
			continue
		}
		parts := 1
		if n == 4 {
			parts = 8
		}
		k := 0
		equal(x, []int{n, n}, 3800, parts, fmt.Sprintf("states and blocks of %d instances", n), func(t *ev.T, p [][]E) {
			k++
			cs := pow2s(n)
			c19check(t, c, p[0], p[1], cs[k%len(cs)], 1)
		})
	}
}

func c20equal(x *ev.X) {
	for n := 1; n <= 5; n++ {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, n, 1, func(cs csys, in vars) vars { return vars{gadget.MimcHash(cs, in...)} })
			equalities(n, 3800, 2, func(v []E) {
				g.judge(t, v, []E{Mimc(v)}, nil, "hash of %d variables with equal blocks", n)
			})
		}, "hash of %d variables: every partition into equal blocks", n)
		// the same variables in several places
		x.Case(func(t *ev.T) {
			equalities(n, 0, 0, func(v []E) {
				var idx []int
				seen := []E{}
				for _, e := range v {
					at := -1
					for i := range seen {
						if seen[i] == e {
							at = i
						}
					}
					if at < 0 {
						at = len(seen)
						seen = append(seen, e)
					}
					idx = append(idx, at)
				}
				g := compileGad(t, len(seen), 1, func(cs csys, in vars) vars {
					var m vars
					for _, i := range idx {
						m = append(m, in[i])
					}
					return vars{gadget.MimcHash(cs, m...)}
				})
				g.judge(t, seen, []E{Mimc(v)}, nil, "hash of %d blocks being the variables %v", n, idx)
			})
		}, "hash of %d blocks: every partition into the same variables", n)
	}
}

func c21equal(x *ev.X) {
	for n := 1; n <= 3; n++ {
		n := n
		x.Case(func(t *ev.T) {
			size := 1 << uint(n)
			g := compileGad(t, size+n, 1, func(cs csys, in vars) vars {
				return vars{sp.NewMultilinearByValues(in[:size:size]).Eval(cs, in[size:])}
			})
			pt := gens(3900, n)
			equalities(size, 3800, pinnedFor(size, false), func(v []E) {
				g.judge(t, cat2(v, pt), []E{MLE(v, pt)}, nil, "multilinear of %d variables, equal values", n)
			})
			tab := gens(3910, size)
			equalities(n, 3800, 2, func(v []E) {
				g.judge(t, cat2(tab, v), []E{MLE(tab, v)}, nil, "multilinear of %d variables, equal coordinates", n)
			})
		}, "multilinear of %d variables: every partition into equal values", n)
		x.Case(func(t *ev.T) {
			g := compileGad(t, 2*n, 1, func(cs csys, in vars) vars { return vars{sp.EqEval(cs, in[:n], in[n:])} })
			equalities(2*n, 3800, pinnedFor(2*n, x.Thorough), func(v []E) {
				g.judge(t, v, []E{EqEval(v[:n], v[n:])}, nil, "equality of %d variables, equal coordinates", n)
			})
		}, "equality of %d variables: every partition into equal coordinates", n)
	}
	for n := 1; n <= 5; n++ {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, n+1, 2, func(cs csys, in vars) vars {
				u := sp.NewUnivariate(in[:n:n])
				return vars{u.Eval(cs, in[n]), u.ZeroAndOne(cs)}
			})
			equalities(n+1, 3800, 2, func(v []E) {
				c, q := v[:n], v[n]
				g.judge(t, v, []E{PolyEval(c, q), Add(PolyEval(c, U(0)), PolyEval(c, U(1)))}, nil, "polynomial of %d coefficients, equal values", n)
			})
		}, "polynomials of %d coefficients: every partition into equal values", n)
	}
}

func c22equal(x *ev.X) {
	for _, sh := range []struct{ bN, bG, d, rounds int }{{1, 0, 3, 1}, {2, 0, 2, 2}, {0, 1, 2, 2}, {2, 0, 3, 2}, {1, 1, 2, 3}} {
		sh := sh
		for part := 0; part < 4; part++ {
			part := part
			x.Case(func(t *ev.T) {
				k := newC22(t, sh.bN, sh.bG, [3]int{sh.d, sh.d, sh.d}, nil)
				sizes := []int{1}
				for i := 0; i < sh.rounds; i++ {
					sizes = append(sizes, sh.d)
				}
				j := 0
				pinned := pinnedFor(1+sh.d*sh.rounds, false)
				if pinned > 1 {
					pinned = 1
				}
				eqPart(sizes, 3800, pinned, part, 4, func(q [][]E) {
					j++
					for m := 0; m < 1<<uint(sh.rounds); m++ {
						// all the rounds consistent, all but one; the other subsets in turn
						full := 1<<uint(sh.rounds) - 1
						if m != full && j%8 != m && !x.Thorough {
							continue
						}
						if m == full && j%2 != 0 && sh.rounds*sh.d > 5 && !x.Thorough {
							continue
						}
						p := SCProof(Copy2(q[1:]))
						cur := q[0][0]
						for i := range p {
							if m>>uint(i)&1 == 1 {
								fixClaim(p, i, cur)
							}
							cur = PolyEval(p[i], Mimc(p[i]))
						}
						k.judge(q[0][0], p)
					}
				})
			}, "2^%d instances, bG=%d, %d coefficients: every partition of claim and coefficients into equal values, part %d", sh.bN, sh.bG, sh.d, part)
		}
	}
}

func c23equal(x *ev.X) {
	for part := 0; part < 8; part++ {
		part := part
		x.Case(func(t *ev.T) {
			eqPart([]int{4}, 3800, 1, part, 8, func(p [][]E) {
				for _, n := range []int{1, 2} {
					if n == 2 && !x.Thorough {
						continue
					}
					k := newC23(t, 1, n, p[0])
					pr := k.nativeProof()
					if !k.judge(pr, k.in, k.out, true, "equal inputs") {
						t.Failf("honest proof rejected: inputs %s", str(p[0]...))
					}
					// the values of one instance for the other one's
					o := Copy(k.out)
					o[1] = k.out[0]
					if o[1] == k.out[1] {
						o[1] = Add(o[1], U(1))
					}
					k.judge(pr, k.in, o, true, "equal inputs, second output altered")
				}
			})
		}, "two instances: every partition of the states and blocks into equal values, part %d", part)
	}
}
