package props

import (
	"fmt"

	"verif/mc/ev"
	. "verif/mc/ref"
)

// Several relations failing together, by amounts which cancel: every relation has to be checked on its own.

func init() {
	ev.Register("C02/offsets", c02offsets)
	ev.Register("C09/offsets", func(x *ev.X) { scOffsets(x, false) })
	ev.Register("C22/offsets", func(x *ev.X) { scOffsets(x, true) })
	ev.Register("C23/offsets", c23offsets)
}

// offVals are the amounts: sums, differences and some weighted sums of two of them cancel.
func offVals() []E { return []E{{}, gen(7), Sub(E{}, gen(7)), Mul(U(2), gen(7))} }

// scOffsets: every vector of amounts by which the rounds fail.
func scOffsets(x *ev.X, circuit bool) {
	al := offVals()
	for bG := 0; bG <= 2; bG++ {
		for bN := 0; bN <= 4; bN++ {
			n := 2*bG + bN
			if n == 0 || n > 5 || n > 4 && !x.Thorough {
				continue
			}
			for _, d := range [][3]int{{1, 1, 1}, {3, 2, 4}} {
				bG, bN, d := bG, bN, d
				x.Case(func(t *ev.T) {
					var k *c22inst
					if circuit {
						k = newC22(t, bN, bG, d, nil)
					} else {
						k = &c22inst{t: t, bN: bN, bG: bG, degs: d}
					}
					total := 1
					for i := 0; i < n; i++ {
						total *= len(al)
					}
					for code := 0; code < total; code++ {
						claim := gen(90)
						p := k.consistent(claim, 0)
						cur, v := claim, code
						for i := range p {
							fixClaim(p, i, Add(cur, al[v%len(al)]))
							v /= len(al)
							cur = PolyEval(p[i], Mimc(p[i]))
						}
						ok := false
						if circuit {
							ok = k.judge(claim, p)
						} else {
							ok = c09one(t, claim, p, bN, bG)
						}
						if ok != (code == 0) {
							t.Failf("reference error")
						}
					}
				}, "bG=%d bN=%d, %v coefficients: every vector of %d amounts by which the rounds fail", bG, bN, d, n)
			}
		}
	}
}

// offPairs calls f with the amounts by which two relations fail, what follows being consistent.
func offPairs(cs []Check, f func(d Dictate, what string)) {
	al := offVals()
	for i, a := range cs {
		for _, b := range cs[i+1:] {
			for _, o := range [][2]E{{al[1], al[2]}, {al[1], al[1]}, {al[3], al[2]}, {al[2], al[3]}} {
				f(Dictate{Off: map[Check]E{a: o[0], b: o[1]}}, fmt.Sprintf("%v and %v fail by %s and %s", a, b, str(o[0]), str(o[1])))
			}
		}
	}
}

func c02offsets(x *ev.X) {
	for _, c := range c02circuits(x.Thorough) {
		for bN := 0; bN <= maxBN(c, 2); bN++ {
			c, bN := c, bN
			if (len(c) > 2 && bN > 0 || len(c) > 1 && bN > 1) && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				in := gens(0, 1<<uint(bN+c[0].BGIn()))
				out := c.Assign(in)[len(c)]
				qP, q := point(bN, c)
				offPairs(c.Checks(bN), func(d Dictate, what string) {
					p, in2, ok := c.ForgeDictated(in, qP, q, d, false)
					if !ok {
						if p, in2, ok = c.ForgeDictated(in, qP, q, d, true); !ok {
							t.Count("failures that cannot be made up for", 1)
							return
						}
					}
					if newC02(t, c, bN, 1, in2, out).judge(p, "%s", what) {
						t.Failf("reference error: accepted")
					}
				})
			}, "pairs of relations failing by amounts which cancel: %s, 2^%d instances", circuitName(c), bN)
		}
	}
}

func c23offsets(x *ev.X) {
	layers := []int{0, 1, 45, 90}
	if x.Thorough {
		layers = []int{0, 1, 2, 3, 44, 45, 46, 88, 89, 90}
	}
	for bN := 0; bN <= 1; bN++ {
		ref := mimcRef()
		var cs []Check
		for _, at := range ref.Checks(bN) {
			for _, l := range layers {
				if at.Layer == l && (bN == 0 || x.Thorough || l == 0 || l == 90) {
					cs = append(cs, at)
				}
			}
		}
		for i := range cs {
			bN, i := bN, i
			x.Case(func(t *ev.T) {
				k := newC23(t, bN, 1, gens(0, 2<<uint(bN)))
				al := offVals()
				for _, b := range cs[i+1:] {
					for oi, o := range [][2]E{{al[1], al[2]}, {al[1], al[1]}, {al[3], al[2]}, {al[2], al[3]}} {
						if oi > 1 && !x.Thorough {
							break
						}
						d := Dictate{Off: map[Check]E{cs[i]: o[0], b: o[1]}}
						p, in2, ok := ref.ForgeDictated(k.in, k.qP, k.q, d, false)
						if !ok {
							if p, in2, ok = ref.ForgeDictated(k.in, k.qP, k.q, d, true); !ok {
								t.Count("failures that cannot be made up for", 1)
								continue
							}
						}
						if k.judge(p, in2, k.out, true, "%v and %v fail by %s and %s", cs[i], b, str(o[0]), str(o[1])) {
							t.Failf("reference error: accepted")
						}
					}
				}
			}, "2^%d instances: %v and another relation failing by amounts which cancel", bN, cs[i])
		}
	}
}
