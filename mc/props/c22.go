package props

import (
	"fmt"

	"gkr-mimc/polynomial"
	ss "gkr-mimc/snark/sumcheck"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
)

func init() {
	ev.Register("C22/lists", c22lists)
	ev.Register("C22/honest", c22honest)
	ev.Register("C22/constant", c22constant)
	ev.Register("C22/shapes", c22shapes)
}

type c22circ struct {
	Claim frontend.Variable
	Proof ss.Proof
	Out   []frontend.Variable
	bG    int
	claim interface{} // constant claim
}

func (c *c22circ) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	claim := c.Claim
	if c.claim != nil {
		claim = cs.Constant(c.claim)
	}
	hL, hR, hP, last := c.Proof.AssertValid(cs, claim, c.bG)
	res := append(append(append([]frontend.Variable{}, hL...), hR...), hP...)
	// the three lists must not share their storage
	_ = append(hL, cs.Constant(1), cs.Constant(2))
	_ = append(hR, cs.Constant(1), cs.Constant(2))
	if len(hL) != c.bG || len(hR) != c.bG {
		panic(fmt.Sprintf("%d left and %d right challenges, expected %d", len(hL), len(hR), c.bG))
	}
	for i := range hL {
		cs.AssertIsEqual(hL[i], res[i])
	}
	for i := range hR {
		cs.AssertIsEqual(hR[i], res[c.bG+i])
	}
	for i := range hP {
		cs.AssertIsEqual(hP[i], res[2*c.bG+i])
	}
	res = append(res, last)
	if len(res) != len(c.Out) {
		panic(fmt.Sprintf("%d challenges, expected %d", len(res)-1, len(c.Out)-1))
	}
	for i := range res {
		cs.AssertIsEqual(res[i], c.Out[i])
	}
	return nil
}

type c22inst struct {
	t      *ev.T
	r      r1cs.R1CS
	bN, bG int
	degs   [3]int
	cst    interface{}
}

func newC22(t *ev.T, bN, bG int, degs [3]int, cst interface{}) *c22inst {
	k := &c22inst{t, nil, bN, bG, degs, cst}
	k.r = compile(t, k.alloc())
	return k
}

// alloc allocates the circuit; the polynomials have degs coefficients.
func (k *c22inst) alloc() *c22circ {
	return &c22circ{Proof: ss.AllocateProof(k.bN, k.bG, k.degs[0]-1, k.degs[1]-1, k.degs[2]-1), Out: make([]frontend.Variable, k.bN+2*k.bG+1), bG: k.bG, claim: k.cst}
}

// judge compares the two verifiers on an assignment.
func (k *c22inst) judge(claim E, p SCProof) bool {
	t := k.t
	ok, qP, qL, qR, fin := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: Copy2(p)}, k.bN, k.bG)
	if want, _, _ := SCVerify(claim, p); want != ok {
		t.Failf("native verifier says %v, the relation is %v", ok, want)
	}
	// challenges and last claim do not depend on the verdict
	var out []E
	last := claim
	for i := range p {
		r := Mimc(p[i])
		out = append(out, r)
		last = PolyEval(p[i], r)
	}
	if ok && (!Eq1(out, cat2(cat2(qL, qR), qP)) || fin != last) {
		t.Failf("native challenges differ from the definition")
	}
	out = append(out, last)
	c := k.alloc()
	c.Claim.Assign(claim)
	in := Copy2(p)
	c.Proof.Assign(sumcheck.Proof{PolyCoeffs: in})
	if !Eq2(in, p) {
		t.Failf("assignment modified the proof")
	}
	spoil(in) // the values are assigned
	for i := range out {
		c.Out[i].Assign(out[i])
	}
	w, err := frontend.ParseWitness(c)
	if err != nil {
		t.Failf("witness: %v", err)
	}
	got := isSolved(t, k.r, w)
	if got != ok {
		t.Failf("in-circuit verifier satisfied: %v, native verifier: %v; claim %s, polynomials %s, bN=%d bG=%d", got, ok, str(claim), stStr(p), k.bN, k.bG)
	}
	if ok {
		// no other challenge or last claim
		for i := range out {
			for _, v := range []E{Add(out[i], U(1)), {}, out[(i+1)%len(out)]} {
				if v == out[i] {
					continue
				}
				w[fmt.Sprintf("Out_%d", i)] = v
				if isSolved(t, k.r, w) {
					t.Failf("in-circuit verifier yields also %s for result %d (challenges left, right, instance, last claim), native %s", str(v), i, str(out[i]))
				}
				w[fmt.Sprintf("Out_%d", i)] = out[i]
			}
		}
		t.Count("assignments accepted by both", 1)
	} else {
		t.Count("assignments rejected by both", 1)
	}
	t.Step(hash2(hashE(ev.Mix(1, uint64(k.bN), uint64(k.bG)), claim), p))
	return ok
}

func (k *c22inst) consistent(claim E, pat int) SCProof {
	var p SCProof
	cur := claim
	for i := 0; i < k.bN+2*k.bG; i++ {
		ln := k.degs[2]
		if i < k.bG {
			ln = k.degs[0]
		} else if i < 2*k.bG {
			ln = k.degs[1]
		}
		p = append(p, Copy(patterns(ln, 10*i)[pat]))
		fixClaim(p, i, cur)
		cur = PolyEval(p[i], Mimc(p[i]))
	}
	return p
}

func c22lists(x *ev.X) {
	maxN, maxG := 3, 2
	degs := [][3]int{{1, 1, 1}, {2, 1, 3}, {3, 9, 9}, {3, 2, 4}}
	if x.Thorough {
		maxN, maxG = 5, 3
		degs = append(degs, [3]int{2, 2, 2}, [3]int{4, 5, 6})
	}
	for bG := 0; bG <= maxG; bG++ {
		for bN := 0; bN <= maxN; bN++ {
			for _, d := range degs {
				for pat := range patternNames {
					if bG == 0 && bN == 0 && d[0] > 1 {
						continue
					}
					if !x.Thorough && 2*bG+bN > 4 && pat > 1 {
						continue
					}
					bG, bN, d, pat := bG, bN, d, pat
					x.Case(func(t *ev.T) {
						k := newC22(t, bN, bG, d, nil)
						n := 2*bG + bN
						big := n*d[2] > 20 && !x.Thorough
						for ci, claim := range tiny() {
							if big && ci != pat%4 {
								continue
							}
							p := k.consistent(claim, pat)
							if !k.judge(claim, p) {
								t.Failf("reference error")
							}
							for _, c2 := range []E{Add(claim, U(1)), Sub(E{}, claim), {}} {
								k.judge(c2, p)
							}
							adapt := func(i int) {
								q := SCProof(Copy2(p))
								for j := i + 1; j < n; j++ {
									fixClaim(q, j, PolyEval(q[j-1], Mimc(q[j-1])))
								}
								k.judge(claim, q)
							}
							for i := 0; i < n; i++ {
								for j := range p[i] {
									v := p[i][j]
									for ai, a := range []E{Add(v, U(1)), Sub(E{}, v), {}, Add(v, raw(0, 0, 1, 0))} {
										if ai != (i+j)%4 && (big || ai > 0) {
											continue
										}
										p[i][j] = a
										k.judge(claim, p)
										adapt(i)
									}
									p[i][j] = v
									if m := j + 1; m < len(p[i]) {
										// a pair of alterations keeping the sum at this round
										vm := p[i][m]
										p[i][j] = Add(v, U(5))
										if j == 0 {
											p[i][m] = Sub(vm, U(10))
										} else {
											p[i][m] = Sub(vm, U(5))
										}
										k.judge(claim, p)
										adapt(i)
										p[i][j], p[i][m] = v, vm
									}
								}
								if i+1 < n && len(p[i]) == len(p[i+1]) {
									p[i], p[i+1] = p[i+1], p[i]
									k.judge(claim, p)
									p[i], p[i+1] = p[i+1], p[i]
								}
							}
						}
					}, "bG=%d bN=%d, %v coefficients, pattern %s: consistent assignments and every deviation", bG, bN, d, patternNames[pat])
				}
			}
		}
	}
}

// c22honest: proofs of the native prover, with the degrees imposed by the gates.
func c22honest(x *ev.X) {
	maxN := 3
	if x.Thorough {
		maxN = 5
	}
	for _, gs := range [][]Gate{{gMul()}, {gAdd(), gMul()}, {gCipher(gen(63))}, {gCipher(Ark(0)), gCopy()}, {gCopy()}} {
		for bG := 0; bG <= 2; bG++ {
			for bN := 0; bN <= maxN; bN++ {
				if !x.Thorough && bG == 2 && bN > 2 {
					continue
				}
				for pat := 0; pat < 3; pat++ {
					gs, bG, bN, pat := gs, bG, bN, pat
					x.Case(func(t *ev.T) {
						s := &Instance{VL: patterns(1<<uint(bG+bN), 3)[pat], VR: patterns(1<<uint(bG+bN), 4)[pat], EQ: EqTable(gens(60, bN)), Gates: gs}
						for i := range gs {
							s.ST = append(s.ST, gens(100*i, 1<<uint(2*bG)))
						}
						a, b, c := s.Degs()
						k := newC22(t, bN, bG, [3]int{a + 1, b + 1, c + 1}, nil)
						var st []polynomial.BookKeepingTable
						for _, v := range s.ST {
							st = append(st, bkt(v))
						}
						pr := sumcheck.NewSingleThreadedProver(bkt(s.VL), bkt(s.VR), bkt(s.EQ), gatesOf(gs), st)
						claim := pr.GetClaim()
						proof, _, _, _, _ := pr.Prove()
						p := SCProof(Copy2(proof.PolyCoeffs))
						if !k.judge(claim, p) {
							t.Failf("honest sumcheck proof not accepted: claim %s polynomials %s", str(claim), stStr(p))
						}
						k.judge(Add(claim, U(1)), p)
						for i := range p {
							for j := range p[i] {
								v := p[i][j]
								p[i][j] = Add(v, U(1))
								k.judge(claim, p)
								p[i][j] = v
							}
						}
					}, "native sumcheck proof of gates %v, bG=%d bN=%d, values %s", gateNames(gs), bG, bN, patternNames[pat])
				}
			}
		}
	}
}

func gateNames(gs []Gate) []string {
	var r []string
	for _, g := range gs {
		r = append(r, gateName(g))
	}
	return r
}

// c22constant: the claim is a constant of the circuit.
func c22constant(x *ev.X) {
	for bG := 0; bG <= 1; bG++ {
		for bN := 0; bN <= 2; bN++ {
			for _, claim := range append(tiny(), Ark(1)) {
				bG, bN, claim := bG, bN, claim
				x.Case(func(t *ev.T) {
					k := newC22(t, bN, bG, [3]int{3, 4, 5}, claim)
					for pat := range patternNames {
						p := k.consistent(claim, pat)
						k.judge(claim, p)
						for i := range p {
							for j := range p[i] {
								v := p[i][j]
								p[i][j] = Add(v, U(1))
								k.judge(claim, p)
								p[i][j] = v
							}
						}
					}
				}, "constant claim %s, bG=%d bN=%d", str(claim), bG, bN)
			}
		}
	}
}

// shapeProofs lists deviations of the shape of a list of round polynomials: surplus null and non-null coefficients,
// missing coefficients, null or empty polynomials, surplus and missing rounds at either end.
func shapeProofs(p SCProof, f func(what string, q SCProof)) {
	n := len(p)
	for i := 0; i < n; i++ {
		alt := func(what string, poly []E) {
			q := SCProof(Copy2(p))
			q[i] = poly
			f(fmt.Sprintf("round %d with %s", i, what), q)
		}
		for _, k := range []int{1, 2, 9, 30} {
			alt(fmt.Sprintf("%d surplus coefficients", k), append(Copy(p[i]), gens(7, k)...))
			alt(fmt.Sprintf("%d surplus null coefficients", k), append(Copy(p[i]), make([]E, k)...))
			z := append(Copy(p[i]), make([]E, k)...)
			z[len(z)-1] = U(1)
			alt(fmt.Sprintf("a coefficient %d places above the degree", k), z)
		}
		// coefficients in front
		alt("a null coefficient in front", append([]E{{}}, p[i]...))
		for k := 0; k < len(p[i]); k++ {
			alt(fmt.Sprintf("%d coefficients", k), Copy(p[i][:k]))
		}
		alt("no list", nil)
		q := append(SCProof(Copy2(p[:i])), Copy2(p[i+1:])...)
		f(fmt.Sprintf("round %d missing", i), q)
		q = append(append(SCProof(Copy2(p[:i+1])), Copy(p[i])), Copy2(p[i+1:])...)
		f(fmt.Sprintf("round %d twice", i), q)
	}
	f("a surplus round", append(SCProof(Copy2(p)), gens(11, 3)))
	f("a surplus null round", append(SCProof(Copy2(p)), make([]E, 3)))
	f("a surplus empty round", append(SCProof(Copy2(p)), nil))
	f("no round", nil)
}

// c22shapes: proofs whose shape is not the one allocated either cannot be assigned or are judged as natively.
func c22shapes(x *ev.X) {
	for bG := 0; bG <= 1; bG++ {
		for bN := 0; bN <= 2; bN++ {
			for _, d := range [][3]int{{3, 9, 9}, {2, 3, 4}, {1, 1, 1}} {
				bG, bN, d := bG, bN, d
				x.Case(func(t *ev.T) {
					k := newC22(t, bN, bG, d, nil)
					for pat := 0; pat < 2; pat++ {
						for _, claim := range tiny() {
							p := k.consistent(claim, pat)
							shapeProofs(p, func(what string, q SCProof) {
								// later rounds made consistent again
								for v := 0; v < 2; v++ {
									if v == 1 {
										q = SCProof(Copy2(q))
										cur := claim
										for i := range q {
											if len(q[i]) == 0 {
												return
											}
											fixClaim(q, i, cur)
											cur = PolyEval(q[i], Mimc(q[i]))
										}
									}
									c := k.alloc()
									c.Claim.Assign(claim)
									if ev.Try(func() { c.Proof.Assign(sumcheck.Proof{PolyCoeffs: Copy2(q)}) }) != nil {
										t.Count("shapes refused by the assignment", 1)
										t.Step(hash2(hashE(ev.Mix(5, uint64(bN), uint64(bG)), claim), q))
										continue
									}
									ok, qP, qL, qR, fin := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: Copy2(q)}, bN, bG)
									out := append(cat2(cat2(qL, qR), qP), fin)
									if !ok {
										// whatever the challenges: those of the polynomials as they are, as allocated
										out = nil
										last := claim
										for i := 0; i < bN+2*bG; i++ {
											var f []E
											if i < len(q) {
												f = q[i]
											}
											f = fit(f, []int{d[0], d[1], d[2]}[kindOf(i, bG)])
											r := Mimc(f)
											out = append(out, r)
											last = PolyEval(f, r)
										}
										out = append(out, last)
									}
									if len(out) != len(c.Out) {
										continue
									}
									for i := range out {
										c.Out[i].Assign(out[i])
									}
									var w map[string]interface{}
									var err error
									if ev.Try(func() { w, err = frontend.ParseWitness(c) }) != nil || err != nil {
										t.Count("shapes refused by the assignment", 1)
										continue
									}
									solved := false
									func() {
										// an incomplete witness is refused
										defer func() { _ = recover() }()
										solved = k.r.IsSolved(w) == nil
									}()
									if solved && !ok {
										t.Failf("in-circuit verifier satisfied by a proof that the native verifier rejects: %s; claim %s, polynomials %s, bN=%d bG=%d, %v coefficients", what, str(claim), stStr(q), bN, bG, d)
									}
									t.Count("other shapes assigned", 1)
									t.Step(hash2(hashE(ev.Mix(5, uint64(bN), uint64(bG)), claim), q))
								}
							})
						}
					}
				}, "bG=%d bN=%d, %v coefficients: proofs of every other shape", bG, bN, d)
			}
		}
	}
}

func kindOf(round, bG int) int {
	if round < bG {
		return 0
	}
	if round < 2*bG {
		return 1
	}
	return 2
}

// fit cuts or pads a polynomial.
func fit(p []E, n int) []E {
	r := make([]E, n)
	copy(r, p)
	return r
}
