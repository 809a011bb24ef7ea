//go:build mcsched

package props

import (
	"fmt"

	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
	"verif/mc/rt/sched"
)

// Operations alone, with every order of the goroutines they may start.

func init() {
	ev.Register("C01/schedules", c01solo)
	ev.Register("C02/schedules", c02solo)
	ev.Register("C03/schedules", c03solo)
	ev.Register("C04/schedules", c04solo)
	ev.Register("C08/schedules", c08solo)
}

// solo explores the executions of f, which returns what is wrong.
func solo(x *ev.X, t *ev.T, what string, f func() string) {
	explore(t, sched.Opts{Bound: tiers(x, 1, 2), Delays: true}, what, func() (func(), func(e *sched.Exec) string) {
		msg := "not done"
		return func() { msg = f() }, func(e *sched.Exec) string { return msg }
	})
}

func soloCircuits() []Circuit {
	a := Layer{w(gMul(), 0, 0, 0)}
	b := Layer{w(gMul(), 0, 1, 0), w(gAdd(), 1, 0, 0)}
	c := Layer{w(gCopy(), 0, 0, 0), w(gCipher(gen(63)), 0, 1, 1)}
	d := Layer{w(gCipher(gen(64)), 0, 0, 0), w(gAdd(), 0, 0, 1)}
	return []Circuit{{a}, {c, b}, {b, d, c}, {a, a, a, a}, {a, d}}
}

func c01solo(x *ev.X) {
	for _, c := range soloCircuits() {
		for bN := 0; bN <= 2; bN++ {
			for _, n := range pow2s(1 << uint(bN)) {
				for cores := 1; cores <= 3; cores++ {
					if bN == 2 && (len(c) > 2 || cores == 3) {
						continue
					}
					c, bN, n, cores := c, bN, n, cores
					x.Case(func(t *ev.T) {
						in := gens(0, 1<<uint(bN+c[0].BGIn()))
						cc := circuitOf(c)
						solo(x, t, "assigning, proving and verifying", func() string {
							a := cc.Assign(Chunk(in, n), cores)
							p := gkr.NewProver(cc, a)
							pr := p.Prove(cores)
							v := gkr.NewVerifier(bN, cc)
							if !v.Verify(pr, Chunk(in, n), a.Values[len(c)]) {
								return "honest proof rejected"
							}
							return ""
						})
					}, "assigning, proving and verifying %s, 2^%d instances, %d chunks, %d cores", circuitName(c), bN, n, cores)
				}
			}
		}
	}
}

func c02solo(x *ev.X) {
	for _, c := range soloCircuits() {
		for bN := 0; bN <= 1; bN++ {
			c, bN := c, bN
			in := gens(0, 1<<uint(bN+c[0].BGIn()))
			judge := func(t *ev.T, k *c02case, p Proof, what string) {
				want := c.Accepts(bN, p, k.in, k.out, k.qP, k.q)
				solo(x, t, what, func() string {
					if got := k.v.Verify(proofOf(p), k.inC, k.outC); got != want {
						return fmt.Sprintf("verifier says %v, the relations %v", got, want)
					}
					return ""
				})
			}
			x.Case(func(t *ev.T) {
				k := newC02(t, c, bN, 1<<uint(bN), in, c.Assign(in)[len(c)])
				p := c.Prove(in, k.qP, k.q)
				judge(t, k, p, "honest proof")
				sites(&p, func(s *E, name string) {
					v := *s
					*s = Add(v, U(1))
					judge(t, k, p, name+" altered")
					*s = v
				})
			}, "each scalar altered: %s, 2^%d instances", circuitName(c), bN)
			x.Case(func(t *ev.T) {
				lie := c.Assign(in)[len(c)]
				lie[0] = Add(lie[0], gen(90))
				k := newC02(t, c, bN, 1<<uint(bN), in, lie)
				for _, at := range c.Checks(bN) {
					for _, right := range []bool{false, true} {
						if p, ok := c.Forge(in, MLE(lie, cat2(k.q, k.qP)), k.qP, k.q, at, right); ok {
							judge(t, k, p, fmt.Sprintf("proof breaking only %v", at))
						}
					}
				}
			}, "each relation broken alone: %s, 2^%d instances", circuitName(c), bN)
		}
	}
}

func c03solo(x *ev.X) {
	for _, c := range soloCircuits() {
		for bN := 0; bN <= 2; bN++ {
			c, bN := c, bN
			x.Case(func(t *ev.T) {
				in := gens(0, 1<<uint(bN+c[0].BGIn()))
				out := c.Assign(in)[len(c)]
				qP, q := point(bN, c)
				p := proofOf(c.Prove(in, qP, q))
				v := gkr.NewVerifier(bN, circuitOf(c))
				for _, n := range pow2s(1 << uint(bN)) {
					try := func(in, out []E, want bool, what string) {
						solo(x, t, what, func() string {
							if v.Verify(p, Chunk(in, n), Chunk(out, n)) != want {
								return fmt.Sprintf("the verdict is not %v", want)
							}
							return ""
						})
					}
					try(in, out, true, "true statement")
					for i := range in {
						o := Copy(in)
						o[i] = Add(o[i], U(1))
						try(o, out, false, fmt.Sprintf("input %d altered", i))
					}
					for i := range out {
						o := Copy(out)
						o[i] = Add(o[i], U(1))
						try(in, o, false, fmt.Sprintf("output %d altered", i))
					}
				}
			}, "each input and output altered: %s, 2^%d instances, every number of chunks", circuitName(c), bN)
		}
	}
}

func c04solo(x *ev.X) {
	for _, c := range soloCircuits() {
		for bN := 0; bN <= 1; bN++ {
			c, bN := c, bN
			x.Case(func(t *ev.T) {
				in := gens(0, 1<<uint(bN+c[0].BGIn()))
				out := c.Assign(in)[len(c)]
				k := newC02(t, c, bN, 1<<uint(bN), in, out)
				rp := c.Prove(in, k.qP, k.q)
				try := func(p gkr.Proof, i, o [][]E, what string) {
					solo(x, t, what, func() string {
						if k.v.Verify(p, i, o) {
							return "accepted"
						}
						return ""
					})
				}
				for l := range c {
					p := proofOf(rp)
					s := p.SumcheckProofs[l]
					for r := range s.PolyCoeffs {
						for kind, how := range []string{"missing", "twice", "empty", "null"} {
							var pc [][]E
							for i, q := range s.PolyCoeffs {
								switch {
								case i == r && kind == 0:
								case i == r && kind == 1:
									pc = append(pc, q, q)
								case i == r && kind == 2:
									pc = append(pc, []E{})
								case i == r && kind == 3:
									pc = append(pc, nil)
								default:
									pc = append(pc, q)
								}
							}
							p.SumcheckProofs[l] = sumcheck.Proof{PolyCoeffs: pc}
							try(p, k.inC, k.outC, fmt.Sprintf("round %d of layer %d %s", r, l, how))
						}
					}
					p.SumcheckProofs[l] = s
				}
				p := proofOf(rp)
				p.SumcheckProofs = p.SumcheckProofs[1:]
				try(p, k.inC, k.outC, "a layer missing")
				p = proofOf(rp)
				p.SumcheckProofs = append(p.SumcheckProofs, p.SumcheckProofs[0])
				try(p, k.inC, k.outC, "a layer too many")
				p = proofOf(rp)
				p.ClaimsLeft = p.ClaimsLeft[1:]
				try(p, k.inC, k.outC, "a left claim missing")
				p = proofOf(rp)
				p.ClaimsRight = p.ClaimsRight[1:]
				try(p, k.inC, k.outC, "a right claim missing")
				p = proofOf(rp)
				for i := range k.inC {
					o := Copy2(k.inC)
					o[i] = o[i][1:]
					try(p, o, k.outC, "an input missing")
					o[i] = append(Copy(k.inC[i]), gen(3))
					try(p, o, k.outC, "an input too many")
				}
				for i := range k.outC {
					o := Copy2(k.outC)
					o[i] = o[i][1:]
					try(p, k.inC, o, "an output missing")
					o[i] = append(Copy(k.outC[i]), gen(3))
					try(p, k.inC, o, "an output too many")
				}
				try(p, nil, k.outC, "no inputs")
				try(p, k.inC, nil, "no outputs")
			}, "malformed proofs and statements: %s, 2^%d instances", circuitName(c), bN)
		}
	}
}

func c08solo(x *ev.X) {
	for bG := 0; bG <= 2; bG++ {
		for bN := 0; bN <= 2; bN++ {
			for _, gs := range [][]Gate{{gMul()}, {gCipher(gen(63)), gCopy(), gAdd()}} {
				bG, bN, gs := bG, bN, gs
				x.Case(func(t *ev.T) {
					s := schedInstance(bG, bN, gs)
					tr := s.Prove()
					sum := s.Sum()
					solo(x, t, "sequential prover", func() string {
						p := singleOf(s)
						if p.GetClaim() != sum {
							return "wrong claim"
						}
						pr, qP, qL, qR, fin := p.Prove()
						return sumTranscript(s, &tr, pr, qP, qL, qR, fin)
					})
				}, "sequential prover: bG=%d bN=%d, %d gates", bG, bN, len(gs))
			}
		}
	}
}
