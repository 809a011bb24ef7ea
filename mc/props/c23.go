package props

import (
	"fmt"

	"gkr-mimc/gkr"
	sg "gkr-mimc/snark/gkr"
	sp "gkr-mimc/snark/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
)

func init() {
	ev.Register("C23/honest", c23honest)
	ev.Register("C23/alter", c23alter)
	ev.Register("C23/forge", c23forge)
	ev.Register("C23/statics", c23statics)
	ev.Register("C23/shapes", c23shapes)
}

type c23circ struct {
	Circuit                 sg.Circuit
	Proof                   sg.Proof
	QInitial, QInitialprime []frontend.Variable
	VInput, VOutput         sp.MultilinearByValues
}

func c23alloc(bN int) *c23circ {
	c := sg.CreateMimcCircuit()
	return &c23circ{
		Circuit:       c,
		Proof:         sg.AllocateProof(bN, c),
		QInitial:      []frontend.Variable{},
		QInitialprime: make([]frontend.Variable, bN),
		VInput:        sp.AllocateMultilinear(bN + 1),
		VOutput:       sp.AllocateMultilinear(bN),
	}
}

// Define builds the constraints.
func (c *c23circ) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	c.Proof.AssertValid(cs, c.Circuit, c.QInitial, c.QInitialprime, c.VInput, c.VOutput)
	return nil
}

var c23cache = map[int]r1cs.R1CS{}

func c23compiled(t *ev.T, bN int) r1cs.R1CS {
	if c23cache[bN] == nil {
		for k := range c23cache {
			delete(c23cache, k)
		}
		c23cache[bN] = compile(t, c23alloc(bN))
	}
	return c23cache[bN]
}

func c23witness(t *ev.T, bN int, p gkr.Proof, in, out [][]E) map[string]interface{} {
	in, out = Copy2(in), Copy2(out)
	p = proofOf(refProof(p))
	c := c23alloc(bN)
	c.Proof.Assign(p)
	qP, _ := gkr.GetInitialQPrimeAndQ(bN, 0)
	for i := range qP {
		c.QInitialprime[i].Assign(qP[i])
	}
	c.VInput.AssignFromChunkedBKT(in)
	c.VOutput.AssignFromChunkedBKT(out)
	// the values are assigned: what becomes of the originals does not matter
	spoil([][]E{p.ClaimsLeft, p.ClaimsRight})
	for _, sc := range p.SumcheckProofs {
		spoil(sc.PolyCoeffs)
	}
	spoil(in)
	spoil(out)
	w, err := frontend.ParseWitness(c)
	if err != nil {
		t.Failf("witness: %v", err)
	}
	return w
}

type c23inst struct {
	t       *ev.T
	bN, n   int
	r       r1cs.R1CS
	in, out []E
	ref     Circuit
	qP, q   []E
}

// judge compares the in-circuit verdict with the native one and the reference.
func (k *c23inst) judge(p Proof, in, out []E, native bool, format string, a ...interface{}) bool {
	t := k.t
	want := k.ref.Accepts(k.bN, p, in, out, k.qP, k.q)
	if native {
		v := gkr.NewVerifier(k.bN, mimcCircuit())
		if got := v.Verify(proofOf(p), Chunk(in, k.n), Chunk(out, k.n)); got != want {
			t.Failf("native verifier %v, relations %v: %s", got, want, fmt.Sprintf(format, a...))
		}
	}
	w := c23witness(t, k.bN, proofOf(p), Chunk(in, k.n), Chunk(out, k.n))
	if got := isSolved(t, k.r, w); got != want {
		t.Failf("in-circuit verifier satisfied: %v, native verifier: %v (2^%d instances, %d chunks): %s", got, want, k.bN, k.n, fmt.Sprintf(format, a...))
	}
	t.Step(ev.Mix(hashProof(p), hashE(1, in...), hashE(2, out...)))
	if want {
		t.Count("accepted by both", 1)
	} else {
		t.Count("rejected by both", 1)
	}
	return want
}

func newC23(t *ev.T, bN, n int, in []E) *c23inst {
	ref := mimcRef()
	qP, q := gkr.GetInitialQPrimeAndQ(bN, 0)
	vals := ref.Assign(in)
	return &c23inst{t, bN, n, c23compiled(t, bN), in, vals[91], ref, qP, q}
}

func (k *c23inst) nativeProof() Proof {
	nc := mimcCircuit()
	a := nc.Assign(Chunk(k.in, k.n), 2)
	if !Eq2(a.Values[91], Chunk(k.out, k.n)) {
		k.t.Failf("native assignment has wrong outputs")
	}
	pr := gkr.NewProver(nc, a)
	return refProof(pr.Prove(2))
}

// c23honest: the native prover's proofs with the true inputs and outputs, every batch size and chunking.
func c23honest(x *ev.X) {
	maxN := 2
	if x.Thorough {
		maxN = 4
	}
	for bN := 0; bN <= maxN; bN++ {
		for _, n := range pow2s(1 << uint(bN)) {
			for pat := range patternNames {
				bN, n, pat := bN, n, pat
				if !x.Thorough && bN > 0 && pat > 2 || bN > 2 && pat > 1 {
					continue
				}
				x.Case(func(t *ev.T) {
					in := patterns(2<<uint(bN), 8)[pat]
					k := newC23(t, bN, n, in)
					p := k.nativeProof()
					if !k.judge(p, k.in, k.out, true, "honest proof") {
						t.Failf("the native proof is rejected by both verifiers")
					}
					for i := range k.in {
						b := Copy(k.in)
						b[i] = Add(b[i], U(1))
						k.judge(p, b, k.out, true, "input %d altered", i)
					}
					for i := range k.out {
						b := Copy(k.out)
						b[i] = Add(b[i], U(1))
						k.judge(p, k.in, b, true, "output %d altered", i)
					}
				}, "2^%d instances, %d chunks, inputs %s: honest proof, altered inputs and outputs", bN, n, patternNames[pat])
			}
		}
	}
}

// c23alter: every single value of the proof altered.
func c23alter(x *ev.X) {
	bNs := []int{0}
	if x.Thorough {
		bNs = []int{0, 1}
	}
	var k *c23inst
	var honest Proof
	for _, bN := range bNs {
		for l := 0; l < 91; l++ {
			for r := -1; r < bN+2; r++ {
				bN, l, r := bN, l, r
				x.Case(func(t *ev.T) {
					if k == nil || k.bN != bN {
						k = newC23(t, bN, 1, gens(0, 2<<uint(bN)))
						honest = k.nativeProof()
					}
					k.t = t
					p := honest.Clone()
					alt := func(e *E, what string, all bool) {
						v := *e
						for i, a := range []E{Add(v, U(1)), {}, Sub(E{}, v), Add(v, raw(0, 0, 1, 0))} {
							if a == v || !all && !x.Thorough && i > 0 {
								continue
							}
							*e = a
							k.judge(p, k.in, k.out, false, "layer %d: %s", l, what)
						}
						*e = v
					}
					edge := l <= 1 || l >= 89
					if r < 0 {
						alt(&p.CL[l], "left claim altered", true)
						alt(&p.CR[l], "right claim altered", true)
						// alterations keeping the combination with the honest challenge, and the sum
						lam := Mimc([]E{p.CL[l], p.CR[l]})
						cl, cr := p.CL[l], p.CR[l]
						p.CR[l], p.CL[l] = Add(cr, U(1)), Sub(cl, lam)
						k.judge(p, k.in, k.out, false, "claims of layer %d altered, keeping their combination", l)
						p.CR[l], p.CL[l] = cl, cr
						k.judge(p, k.in, k.out, false, "claims of layer %d exchanged", l)
						return
					}
					for j := range p.SC[l][r] {
						alt(&p.SC[l][r][j], fmt.Sprintf("coefficient %d of round %d altered", j, r), edge)
					}
					// a pair of coefficients keeping the sum of the round
					n := len(p.SC[l][r])
					p.SC[l][r][n-1] = Add(p.SC[l][r][n-1], U(1))
					p.SC[l][r][n-2] = Sub(p.SC[l][r][n-2], U(1))
					if n == 2 {
						p.SC[l][r][0] = Add(p.SC[l][r][0], Inv(U(2)))
					}
					k.judge(p, k.in, k.out, false, "layer %d round %d: two coefficients altered, keeping the sum", l, r)
				}, "2^%d instances: every value of layer %d round %d (-1: claims) altered", bN, l, r)
			}
		}
	}
}

// c23forge: for every relation, a proof built to break only this one.
func c23forge(x *ev.X) {
	bNs := []int{0, 1}
	if x.Thorough {
		bNs = []int{0, 1, 2}
	}
	for _, bN := range bNs {
		ref := mimcRef()
		for ci, at := range ref.Checks(bN) {
			if !x.Thorough && bN > 0 && at.Layer > 2 && at.Layer < 88 && ci%5 != 0 {
				continue
			}
			bN, at := bN, at
			x.Case(func(t *ev.T) {
				n := 1 << uint(bN)
				k := newC23(t, bN, n, gens(0, 2<<uint(bN)))
				lie := Copy(k.out)
				lie[0] = Add(lie[0], U(1))
				p, ok := k.ref.Forge(k.in, MLE(lie, cat2(k.q, k.qP)), k.qP, k.q, at, false)
				if !ok {
					if at.Kind != CkRight {
						t.Failf("reference error: cannot forge for %v", at)
					}
					return
				}
				if bad := k.ref.Violations(bN, p, k.in, lie, k.qP, k.q); len(bad) == 1 && bad[0] == at {
					t.Count("proofs breaking exactly one relation", 1)
					t.Outcome(ev.Mix(uint64(at.Kind), uint64(at.Layer), uint64(at.Round)))
				}
				if k.judge(p, k.in, lie, true, "proof built to break only %v", at) {
					t.Failf("reference error: forged proof accepted")
				}
			}, "2^%d instances: proof breaking only %v", bN, at)
		}
	}
}

// c23statics: the combined evaluations (static tables, gates) of the in-circuit circuit against the native layers,
// whatever the order of its gates.
func c23statics(x *ev.X) {
	for l := 0; l < 91; l++ {
		l := l
		x.Case(func(t *ev.T) {
			n := len(patternNames)
			if l != 0 && l != 1 && l < 89 && !x.Thorough {
				n = 1
			}
			c23static(t, l, n)
		}, "layer %d: combined evaluations against the native layer", l)
	}
}

// c23static creates the circuit and judges one of its layers on the first patterns.
func c23static(t *ev.T, l, npat int) {
	ref := mimcRef()
	L := ref[l]
	bo := L.BGOut()
	// inputs: qL, qR (bo each), qPrime, hL, hR, hPrime (1 each), lambdaL, lambdaR, vL, vR
	def := func(cs csys, in vars) vars {
		c := sg.CreateMimcCircuit()
		lay := c.Layers[l]
		i := 0
		take := func(n int) vars { i += n; return in[i-n : i : i] }
		qL, qR, qP, hL, hR, hP := take(bo), take(bo), take(2), take(1), take(1), take(2)
		lam, val := take(2), take(2)
		a := lay.Combine(cs, qL, qP, hL, hR, hP, val[0], val[1])
		b := lay.CombineWithLinearComb(cs, qL, qR, qP, hL, hR, hP, lam[0], lam[1], val[0], val[1])
		return vars{a, b}
	}
	gs := L.Gates()
	g := compileGad(t, 2*bo+10, 2, def)
	c := sg.CreateMimcCircuit()
	if len(c.Layers) != 91 || c.Layers[l].BG != 1 {
		t.Failf("layer %d: %d layers, width %d", l, len(c.Layers), c.Layers[l].BG)
	}
	for _, in := range patterns(2*bo+10, l)[:npat] {
		i := 0
		take := func(n int) []E { i += n; return in[i-n : i] }
		qL, qR, qP, hL, hR, hP := take(bo), take(bo), take(2), take(1), take(1), take(2)
		lam, val := take(2), take(2)
		var a, b E
		for _, gt := range gs {
			v := gt.Eval(val[0], val[1])
			sl, sr := L.Static(gt, qL), L.Static(gt, qR)
			el, er := MLE(sl, cat2(hL, hR)), MLE(sr, cat2(hL, hR))
			a = Add(a, Mul(v, el))
			b = Add(b, Mul(v, Add(Mul(lam[0], el), Mul(lam[1], er))))
		}
		e := EqEval(qP, hP)
		g.judge(t, in, []E{Mul(a, e), Mul(b, e)}, nil, "layer %d: combined evaluations", l)
	}
}

// c23shapes: proofs, inputs and outputs whose shape is not the one allocated either cannot be assigned or are judged
// as natively.
func c23shapes(x *ev.X) {
	bNs := []int{0, 1}
	layers := []int{0, 1, 45, 89, 90}
	if x.Thorough {
		layers = nil
		for l := 0; l < 91; l++ {
			layers = append(layers, l)
		}
	}
	try := func(t *ev.T, k *c23inst, p Proof, in, out [][]E, what string) {
		var w map[string]interface{}
		if ev.Try(func() { w = c23witnessMay(k.bN, proofOf(p), in, out) }) != nil || w == nil {
			t.Count("shapes refused by the assignment", 1)
			t.Step(ev.Mix(hashProof(p), hash2(1, in), hash2(2, out)))
			return
		}
		solved := false
		func() {
			defer func() { _ = recover() }()
			solved = k.r.IsSolved(w) == nil
		}()
		native := false
		ev.Try(func() {
			v := gkr.NewVerifier(k.bN, mimcCircuit())
			native = v.Verify(proofOf(p), in, out)
		})
		if solved && !native {
			t.Failf("in-circuit verifier satisfied, native verifier rejects or refuses (2^%d instances): %s", k.bN, what)
		}
		t.Count("other shapes assigned", 1)
		t.Step(ev.Mix(hashProof(p), hash2(1, in), hash2(2, out)))
	}
	for _, bN := range bNs {
		for _, l := range layers {
			bN, l := bN, l
			x.Case(func(t *ev.T) {
				k := newC23(t, bN, 1<<uint(bN), gens(0, 2<<uint(bN)))
				p := k.nativeProof()
				in, out := Chunk(k.in, k.n), Chunk(k.out, k.n)
				ix := 0
				shapeProofs(p.SC[l], func(what string, q SCProof) {
					ix++
					if l > 0 && l < 90 && !x.Thorough && ix%4 != l%4 {
						return
					}
					p2 := p.Clone()
					p2.SC[l] = q
					try(t, k, p2, in, out, fmt.Sprintf("layer %d: %s", l, what))
				})
			}, "2^%d instances: layer %d with round polynomials of every other shape", bN, l)
		}
		bN := bN
		x.Case(func(t *ev.T) {
			k := newC23(t, bN, 1<<uint(bN), gens(0, 2<<uint(bN)))
			p := k.nativeProof()
			in, out := Chunk(k.in, k.n), Chunk(k.out, k.n)
			p2 := p.Clone()
			for _, d := range []int{-91, -2, -1, 1, 2} {
				p2.CL = resize(p.CL, d)
				try(t, k, p2, in, out, fmt.Sprintf("%+d left claims", d))
				p2.CL, p2.CR = p.CL, resize(p.CR, d)
				try(t, k, p2, in, out, fmt.Sprintf("%+d right claims", d))
				p2.CL = resize(p.CL, d)
				try(t, k, p2, in, out, fmt.Sprintf("%+d claims on both sides", d))
				if d < 0 {
					p2.SC = p.SC[:91+d]
				} else {
					p2.SC = append(append([]SCProof{}, p.SC...), p.SC[:d]...)
				}
				try(t, k, p2, in, out, fmt.Sprintf("%+d layers", d))
				p2 = p.Clone()
			}
			// surplus and missing inputs and outputs
			for _, v := range []E{{}, U(1), k.in[0]} {
				for c := range in {
					i2 := Copy2(in)
					i2[c] = append(i2[c], v)
					try(t, k, p, i2, out, fmt.Sprintf("a surplus input in chunk %d", c))
					o2 := Copy2(out)
					o2[c] = append(o2[c], v)
					try(t, k, p, in, o2, fmt.Sprintf("a surplus output in chunk %d", c))
				}
				try(t, k, p, append(Copy2(in), []E{v}), out, "a surplus chunk of inputs")
				try(t, k, p, in, append(Copy2(out), []E{v}), "a surplus chunk of outputs")
			}
			for c := range in {
				i2 := Copy2(in)
				i2[c] = i2[c][:len(i2[c])-1]
				try(t, k, p, i2, out, fmt.Sprintf("a missing input in chunk %d", c))
				o2 := Copy2(out)
				o2[c] = o2[c][:len(o2[c])-1]
				try(t, k, p, in, o2, fmt.Sprintf("a missing output in chunk %d", c))
			}
			try(t, k, p, in[1:], out, "a missing chunk of inputs")
			try(t, k, p, in, out[1:], "a missing chunk of outputs")
		}, "2^%d instances: other numbers of layers, claims, inputs and outputs", bN)
	}
}

func resize(a []E, d int) []E {
	if d <= 0 {
		return Copy(a[:len(a)+d])
	}
	return append(Copy(a), a[:d]...)
}

// c23witnessMay is nil when the witness is refused.
func c23witnessMay(bN int, p gkr.Proof, in, out [][]E) map[string]interface{} {
	c := c23alloc(bN)
	c.Proof.Assign(p)
	qP, _ := gkr.GetInitialQPrimeAndQ(bN, 0)
	for i := range qP {
		c.QInitialprime[i].Assign(qP[i])
	}
	c.VInput.AssignFromChunkedBKT(in)
	c.VOutput.AssignFromChunkedBKT(out)
	w, err := frontend.ParseWitness(c)
	if err != nil {
		return nil
	}
	return w
}
