package props

import (
	"fmt"

	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C04/gkr", c04gkr)
	ev.Register("C04/sumcheck", c04sumcheck)
}

// c04st is a statement with three ways of filling proofs of any shape.
type c04st struct {
	*c02case
	honest Proof
}

func (k *c04st) try(p gkr.Proof, what string) {
	rp := refProof(p)
	var got bool
	if r := ev.Try(func() { got = k.v.Verify(p, k.inC, k.outC) }); r != nil {
		k.t.Failf("verifier crashed (%v) on a proof with %s; circuit %s, 2^%d instances", r, what, circuitName(k.c), k.bN)
	}
	if !k.c.ShapeOK(k.bN, rp) {
		if got {
			k.t.Failf("verifier accepted a proof with %s; circuit %s, 2^%d instances", what, circuitName(k.c), k.bN)
		}
		k.t.Count("wrong shapes rejected", 1)
	} else if want := k.c.Accepts(k.bN, rp, k.in, k.out, k.qP, k.q); got != want {
		k.t.Failf("verifier says %v on a proof with %s (relations: %v); circuit %s, 2^%d instances", got, what, want, circuitName(k.c), k.bN)
	}
	k.t.Trans(1)
	k.t.Trace()
	h := ev.Mix(hashCircuit(k.c)+uint64(k.bN), uint64(len(p.SumcheckProofs)), uint64(len(p.ClaimsLeft)), uint64(len(p.ClaimsRight)))
	k.t.State(ev.Mix(h, hashProof(rp)))
}

const (
	fillHonest = iota
	fillZero
	fillGeneric
	nFill
)

var fillNames = []string{"honest", "zero", "generic"}

// build makes a proof of the given shape.
func (k *c04st) build(fill, nSC, nCL, nCR int, rounds func(l int) int, plen func(l, r int) int) gkr.Proof {
	var p gkr.Proof
	val := func(h []E, i int) E {
		switch fill {
		case fillHonest:
			if len(h) == 0 {
				return E{}
			}
			return h[i%len(h)]
		case fillZero:
			return E{}
		}
		return gen(i)
	}
	claims := func(n int, h []E) []E {
		if n == 0 {
			return nil
		}
		r := make([]E, n)
		for i := range r {
			r[i] = val(h, i)
		}
		return r
	}
	p.ClaimsLeft, p.ClaimsRight = claims(nCL, k.honest.CL), claims(nCR, k.honest.CR)
	for l := 0; l < nSC; l++ {
		var s sumcheck.Proof
		for r := 0; r < rounds(l); r++ {
			var h []E
			hs := k.honest.SC[l%len(k.honest.SC)]
			if len(hs) > 0 {
				h = hs[r%len(hs)]
			}
			n := plen(l, r)
			if n < 0 {
				n = len(h)
				if n == 0 {
					n = 3
				}
			}
			if n == 0 && fill != fillGeneric {
				s.PolyCoeffs = append(s.PolyCoeffs, nil)
				continue
			}
			q := make([]E, n)
			for i := range q {
				if i < len(h) || fill != fillHonest {
					q[i] = val(h, i)
				}
			}
			s.PolyCoeffs = append(s.PolyCoeffs, q)
		}
		p.SumcheckProofs = append(p.SumcheckProofs, s)
	}
	return p
}

func c04gkr(x *ev.X) {
	cs := []Circuit{{wideLayers()[0]}, {wideLayers()[1]}}
	for _, l := range chainLayers() {
		cs = append(cs, Circuit{l})
	}
	cs = append(cs, chains(chainLayers(), 2)...)
	cs = append(cs, chains(smallChains(), 3)...)
	if x.Thorough {
		cs = append(cs, chains(chainLayers(), 3)...)
	}
	for _, c := range cs {
		for bN := 0; bN <= 2; bN++ {
			if bN == 2 && len(c) > 1 && !x.Thorough {
				continue
			}
			c, bN := c, bN
			x.Case(func(t *ev.T) { c04case(t, c, bN) }, "all shapes around the right one: %s, 2^%d instances", circuitName(c), bN)
		}
	}
}

func c04case(t *ev.T, c Circuit, bN int) {
	L := len(c)
	for fill := 0; fill < nFill; fill++ {
		in := make([]E, 1<<uint(bN+c[0].BGIn()))
		if fill != fillZero {
			in = gens(0, len(in))
		}
		vals := c.Assign(in)
		out := vals[L]
		if fill == fillZero {
			// a statement whose claim is zero, so that a proof full of zeros gets as far as possible
			out = make([]E, len(out))
		}
		n := 1
		if bN > 0 {
			n = 2
		}
		k := &c04st{newC02(t, c, bN, n, in, out), Proof{}}
		k.honest = c.Prove(in, k.qP, k.q)
		want := func(l int) int {
			if l < L {
				return bN + 2*c[l].BGIn()
			}
			return bN + 2*c[L-1].BGIn()
		}
		same := func(l, r int) int { return -1 }
		// numbers of layers and claims
		for a := 0; a <= L+2; a++ {
			for b := 0; b <= L+2; b++ {
				for d := 0; d <= L+2; d++ {
					k.try(k.build(fill, a, b, d, want, same), fmt.Sprintf("%d layers, %d left claims, %d right claims (%s values)", a, b, d, fillNames[fill]))
				}
			}
		}
		// numbers of rounds of every layer
		deltas := []int{-100, -2, -1, 0, 1, 2, 5}
		product(len(deltas), L, func(ix []int) {
			rounds := func(l int) int {
				r := want(l) + deltas[ix[l]]
				if r < 0 {
					r = 0
				}
				return r
			}
			var s []int
			for l := 0; l < L; l++ {
				s = append(s, rounds(l))
			}
			k.try(k.build(fill, L, L, L, rounds, same), fmt.Sprintf("%v rounds per layer (%s values)", s, fillNames[fill]))
		})
		// lengths of the polynomials: one or two sites
		type site struct{ l, r int }
		var ss []site
		for l := 0; l < L; l++ {
			for r := 0; r < want(l); r++ {
				ss = append(ss, site{l, r})
			}
		}
		for _, n1 := range []int{0, 1, 2, 3, 5, 9, 40} {
			for i := range ss {
				k.try(k.build(fill, L, L, L, want, func(l, r int) int {
					if (site{l, r}) == ss[i] {
						return n1
					}
					return -1
				}), fmt.Sprintf("%d coefficients at layer %d round %d (%s values)", n1, ss[i].l, ss[i].r, fillNames[fill]))
				if n1 > 1 {
					continue
				}
				for j := i + 1; j < len(ss); j++ {
					k.try(k.build(fill, L, L, L, want, func(l, r int) int {
						if (site{l, r}) == ss[i] {
							return n1
						}
						if (site{l, r}) == ss[j] {
							return 0
						}
						return -1
					}), fmt.Sprintf("%d and 0 coefficients at layers %d, %d rounds %d, %d (%s values)", n1, ss[i].l, ss[j].l, ss[i].r, ss[j].r, fillNames[fill]))
				}
			}
			k.try(k.build(fill, L, L, L, want, func(l, r int) int { return n1 }), fmt.Sprintf("%d coefficients everywhere (%s values)", n1, fillNames[fill]))
		}
		// degenerate objects
		k.try(gkr.Proof{}, "nothing")
		k.try(gkr.Proof{SumcheckProofs: make([]sumcheck.Proof, L), ClaimsLeft: make([]E, L), ClaimsRight: make([]E, L)}, "no rounds")
		k.try(gkr.Proof{SumcheckProofs: []sumcheck.Proof{}, ClaimsLeft: []E{}, ClaimsRight: []E{}}, "empty lists")
	}
}

func c04sumcheck(x *ev.X) {
	for bG := 0; bG <= 3; bG++ {
		for bN := 0; bN <= 3; bN++ {
			bG, bN := bG, bN
			x.Case(func(t *ev.T) {
				want := bN + 2*bG
				for n := 0; n <= want+4; n++ {
					// all patterns of polynomial lengths over {nil, 1, 4} when short, uniform lengths otherwise
					lens := []int{0, 1, 4}
					m := n
					if m > 5 {
						m = 5
					}
					product(len(lens), m, func(ix []int) {
						for fill := 0; fill < 2; fill++ {
							var p sumcheck.Proof
							for r := 0; r < n; r++ {
								l := lens[ix[r%max1(m)]]
								var q []E
								if l > 0 || fill == 1 {
									q = make([]E, l)
								}
								if fill == 1 {
									for i := range q {
										q[i] = gen(i)
									}
								}
								p.PolyCoeffs = append(p.PolyCoeffs, q)
							}
							claim := E{}
							if fill == 1 && n > 0 && len(p.PolyCoeffs[0]) > 0 {
								claim = Add(PolyEval(p.PolyCoeffs[0], U(0)), PolyEval(p.PolyCoeffs[0], U(1)))
							}
							var ok bool
							var a, b, c []E
							if r := ev.Try(func() { ok, a, b, c, _ = sumcheck.Verifier{}.Verify(claim, p, bN, bG) }); r != nil {
								t.Failf("sumcheck verifier crashed (%v): %d rounds with lengths %v for bN=%d bG=%d", r, n, ix, bN, bG)
							}
							rel, _, _ := SCVerify(claim, p.PolyCoeffs)
							if ok && !rel {
								t.Failf("sumcheck verifier accepted a broken proof: %d rounds with lengths %v for bN=%d bG=%d", n, ix, bN, bG)
							}
							if n == want && ok != rel {
								t.Failf("sumcheck verifier says %v, relation %v: %d rounds with lengths %v for bN=%d bG=%d", ok, rel, n, ix, bN, bG)
							}
							_, _, _ = a, b, c
							t.Step(hash2(ev.Mix(uint64(bG*10+bN), uint64(n)), p.PolyCoeffs))
						}
					})
				}
			}, "sumcheck proofs of every number of rounds and polynomial lengths for bN=%d bG=%d", bN, bG)
		}
	}
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}
