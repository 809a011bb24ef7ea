//go:build mcsched

package props

import (
	"fmt"
	"os"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
	"verif/mc/rt/sched"

	"github.com/consensys/gnark/frontend"
)

// Operations used from within a gate, and after one which panicked.

func init() {
	ev.Register("C07/nested", c07nested)
	ev.Register("C07/afterpanic", c07afterpanic)
}

// hookGate multiplies, after calling its hook.
type hookGate struct{ hook func() }

func (hookGate) ID() string { return "HookGate" }
func (g hookGate) Eval(res, vL, vR *E) {
	g.hook()
	*res = Mul(*vL, *vR)
}
func (hookGate) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	return cs.Mul(vL, vR)
}
func (g hookGate) EvalManyVR(res []E, vL *E, vRs []E) {
	g.hook()
	for i := range vRs {
		res[i] = Mul(*vL, vRs[i])
	}
}
func (g hookGate) EvalManyVL(res, vLs []E, vR *E) {
	g.hook()
	for i := range vLs {
		res[i] = Mul(vLs[i], *vR)
	}
}
func (hookGate) Degrees() (degHL, degHR, degHPrime int) { return 1, 1, 2 }

func allParts() [][]cop {
	return [][]cop{c09cops(), c10cops(), c11cops(), c13cops(), c14cops(), c15cops(), c16cops(), c17cops(), c18cops(), c19cops(), c25cops(), proverCops()}
}

// gateUses are the operations which evaluate gates: each is given a gate which multiplies.
func gateUses() (r []struct {
	name string
	f    func(g circuit.Gate) string
}) {
	add := func(name string, f func(g circuit.Gate) string) {
		r = append(r, struct {
			name string
			f    func(g circuit.Gate) string
		}{name, f})
	}
	l := Layer{w(gMul(), 0, 1, 0), w(gAdd(), 1, 0, 1)}
	c := Circuit{l}
	in := gens(5, 8)
	vals := c.Assign(in)
	qP, q := point(2, c)
	want := c.Prove(in, qP, q)
	circ := func(g circuit.Gate) circuit.Circuit {
		return circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: g}, {L: 1, R: 0, O: 1, Gate: circuit.AddGate{}}}})
	}
	for _, k := range [][2]int{{1, 1}, {4, 1}, {4, 2}} {
		k := k
		add(fmt.Sprintf("assignment in %d chunks, %d cores", k[0], k[1]), func(g circuit.Gate) string {
			cc := circ(g)
			a := cc.Assign(Chunk(in, k[0]), k[1])
			if !Eq2(a.Values[1], Chunk(vals[1], k[0])) {
				return "wrong values"
			}
			return ""
		})
		add(fmt.Sprintf("proof in %d chunks, %d cores", k[0], k[1]), func(g circuit.Gate) string {
			cc := circ(g)
			a := circuit.Assignment{Values: [][][]E{Chunk(in, k[0]), Chunk(vals[1], k[0])}}
			p := gkr.NewProver(cc, a)
			if !eqProof(refProof(p.Prove(k[1])), want) {
				return "wrong proof"
			}
			return ""
		})
	}
	add("verification", func(g circuit.Gate) string {
		v := gkr.NewVerifier(2, circ(g))
		if !v.Verify(proofOf(want), Chunk(in, 1), Chunk(vals[1], 2)) {
			return "honest proof rejected"
		}
		return ""
	})
	s := schedInstance(1, 2, []Gate{gMul()})
	tr := s.Prove()
	add("claim and proof, sequential", func(g circuit.Gate) string {
		p := sumcheck.NewSingleThreadedProver(bkt(Copy(s.VL)), bkt(Copy(s.VR)), bkt(Copy(s.EQ)), []circuit.Gate{g}, bkts(Copy2(s.ST)))
		if p.GetClaim() != tr.Claim {
			return "wrong claim"
		}
		if pr, _, _, _, _ := p.Prove(); !samePolys(pr.PolyCoeffs, tr.Proof) {
			return "wrong proof"
		}
		return ""
	})
	add("claim, 1 core", func(g circuit.Gate) string {
		p := sumcheck.NewMultiThreadedProver(bkts(Chunk(s.VL, 2)), bkts(Chunk(s.VR, 2)), bkts(Chunk(s.EQ, 2)), []circuit.Gate{g}, bkts(Copy2(s.ST)))
		if p.GetClaim(1) != tr.Claim {
			return "wrong claim"
		}
		return ""
	})
	return
}

// c07nested: every operation, called by a gate while every other operation evaluates it.
func c07nested(x *ev.X) {
	for ui, u := range gateUses() {
		for pi, p := range allParts() {
			for oi := range p {
				ui, pi, oi := ui, pi, oi
				x.Case(func(t *ev.T) {
					u := gateUses()[ui]
					o := allParts()[pi][oi]
					explore(t, sched.Opts{Bound: 0, Delays: true}, u.name+" calling "+o.name, func() (func(), func(e *sched.Exec) string) {
						calls, msg, inner := 0, "", ""
						g := hookGate{func() {
							calls++
							if calls == 1 || calls == 4 {
								if m := o.f(); m != "" {
									inner = m
								}
							}
						}}
						return func() { msg = u.f(g) }, func(e *sched.Exec) string {
							if inner != "" {
								return o.name + ": " + inner
							}
							if msg != "" {
								return u.name + ": " + msg
							}
							if calls == 0 {
								return "the gate is never evaluated"
							}
							return ""
						}
					})
					t.State(ev.Mix(uint64(ui), uint64(pi), uint64(oi)))
				}, "%s, a gate of which calls: %s", u.name, p[oi].name)
			}
		}
	}
}

// c07afterpanic: every operation after one which panicked and was recovered from.
func c07afterpanic(x *ev.X) {
	type bad struct {
		name string
		f    func()
	}
	var bads []bad
	s := schedInstance(1, 2, []Gate{gMul()})
	for _, k := range []int{1, 3, 9, 13, 17, 20, 23, 26, 29} {
		k := k
		mk := func() hookGate {
			calls := 0
			return hookGate{func() {
				calls++
				if calls == k {
					panic("gate")
				}
			}}
		}
		bads = append(bads, bad{fmt.Sprintf("sequential prover, the gate panics at call %d", k), func() {
			p := sumcheck.NewSingleThreadedProver(bkt(Copy(s.VL)), bkt(Copy(s.VR)), bkt(Copy(s.EQ)), []circuit.Gate{mk()}, bkts(Copy2(s.ST)))
			p.Prove()
		}})
		if k < 13 {
			bads = append(bads, bad{fmt.Sprintf("claim, the gate panics at call %d", k), func() {
				p := sumcheck.NewSingleThreadedProver(bkt(Copy(s.VL)), bkt(Copy(s.VR)), bkt(Copy(s.EQ)), []circuit.Gate{mk()}, bkts(Copy2(s.ST)))
				p.GetClaim()
			}})
		}
	}
	for _, k := range []int{1, 2} {
		k := k
		bads = append(bads, bad{fmt.Sprintf("verification, the gate panics at call %d", k), func() {
			c := Circuit{{w(gMul(), 0, 1, 0), w(gMul(), 1, 0, 1)}, {w(gMul(), 0, 1, 0)}}
			in := gens(5, 4)
			qP, q := point(1, c)
			calls := 0
			g := hookGate{func() {
				calls++
				if calls == k {
					panic("gate")
				}
			}}
			v := gkr.NewVerifier(1, circuit.NewCircuit([][]circuit.Wire{{{L: 0, R: 1, O: 0, Gate: g}, {L: 1, R: 0, O: 1, Gate: g}}, {{L: 0, R: 1, O: 0, Gate: g}}}))
			v.Verify(proofOf(c.Prove(in, qP, q)), Chunk(in, 1), Chunk(c.Assign(in)[2], 1))
		}})
	}
	table := func(n int) polynomial.BookKeepingTable { return bkt(gens(3, n)) }
	bads = append(bads,
		bad{"sum of tables of different sizes", func() { d := table(4); d.Add(table(4), table(2)) }},
		bad{"difference of tables of different sizes", func() { d := table(4); d.Sub(table(4), table(2), 2) }},
		bad{"combination of tables of different sizes", func() {
			polynomial.LinearCombinationOfBookKeepingTables(table(2), table(4), gen(1), gen(2))
		}},
		bad{"evaluation at too many coordinates", func() { b := table(4); b.Evaluate(gens(1, 4)) }},
		bad{"left/right evaluation at too many coordinates", func() { b := table(4); b.EvaluateLeftAndRight(gens(1, 2), gens(3, 2), gens(3, 2)) }},
		bad{"polynomial without coefficients", func() { polynomial.EvaluatePolynomial(nil, gen(1)) }},
		bad{"interpolation of 13 values", func() { polynomial.InterpolateOnRange(gens(1, 13)) }},
		bad{"equality of points of different sizes", func() { polynomial.EvalEq(gens(1, 3), gens(1, 2)) }},
		bad{"chunk of an empty table", func() { b := table(0); b.InterleavedChunk(0, 0) }},
		bad{"layer evaluated on too few inputs", func() { b := bkt(nil); b.Evaluate(nil) }},
		bad{"setting which is missing", func() { os.Unsetenv("BN_GKR"); common.GetBN() }},
		bad{"setting which is malformed", func() { os.Setenv("NCHUNKS_GKR", "x"); defer os.Unsetenv("NCHUNKS_GKR"); common.GetNChunks() }},
		bad{"static tables at too short a point", func() {
			l := circuit.NewLayer(wiresOf(Layer{w(gMul(), 0, 1, 0), w(gAdd(), 0, 1, 1)}))
			_ = l.GetStaticTable(nil)[0].Table[5]
		}},
		bad{"wire without a gate", func() { circuit.NewLayer([]circuit.Wire{{}}) }},
	)
	for _, b := range bads {
		b := b
		for pi := range allParts() {
			pi := pi
			x.Case(func(t *ev.T) {
				ops := allParts()[pi]
				explore(t, sched.Opts{Bound: 0, Delays: true}, "after "+b.name, func() (func(), func(e *sched.Exec) string) {
					msg := ""
					return func() {
							for _, o := range ops {
								for i := 0; i < 2; i++ {
									panicked := func() (r bool) {
										defer func() { r = recover() != nil }()
										b.f()
										return
									}()
									_ = panicked // an operation may also end normally
									if m := o.f(); m != "" && msg == "" {
										msg = o.name + ": " + m
									}
								}
							}
						}, func(e *sched.Exec) string {
							return msg
						}
				})
				t.State(ev.Mix(uint64(pi), uint64(len(b.name))))
			}, "operations of part %d after %s", pi, b.name)
		}
	}
}
