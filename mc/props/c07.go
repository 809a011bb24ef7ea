package props

import (
	"fmt"
	"strings"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C07/histories", c07histories)
	ev.Register("C07/mimc", c07mimc)
}

// c07world has the shared objects, their snapshots and the results of each operation alone on fresh copies.
type c07world struct {
	t     *ev.T
	c     Circuit
	bN, n int

	cc     circuit.Circuit
	inp    [][]E
	inOK   []func() bool
	a      circuit.Assignment
	outp   [][]E
	prover gkr.Prover
	proof  gkr.Proof
	bad    gkr.Proof
	ver    gkr.Verifier
	qP, q  []E

	// expected
	vals  [][]E
	ref   Proof
	refB  Proof
	names []string // gate ids and wires

	wiring [][]circuit.Wire // as given by the caller
	kept  []gkr.Proof
	keptA []circuit.Assignment
}

func circuitIDs(c circuit.Circuit) []string {
	var r []string
	for _, l := range c.Layers {
		r = append(r, fmt.Sprint(l.BGInputs, l.BGOutputs, len(l.Gates), len(l.Wires)))
		for _, g := range l.Gates {
			r = append(r, g.ID())
		}
		for _, x := range l.Wires {
			r = append(r, fmt.Sprint(x.L, x.R, x.O, x.Gate.ID()))
		}
	}
	return r
}

func newC07(t *ev.T, c Circuit, bN, n int) *c07world {
	k := &c07world{t: t, c: c, bN: bN, n: n}
	for _, l := range c {
		k.wiring = append(k.wiring, wiresOf(l))
	}
	k.cc = circuit.NewCircuit(k.wiring)
	in := gens(0, 1<<uint(bN+c[0].BGIn()))
	k.vals = c.Assign(in)
	k.inp = Chunk(in, n)
	for i := range k.inp {
		var ok func() bool
		k.inp[i], ok = guarded(k.inp[i])
		k.inOK = append(k.inOK, ok)
	}
	// results alone on fresh objects
	fc := circuitOf(c)
	fa := fc.Assign(Chunk(in, n), 1)
	fp := gkr.NewProver(fc, fa)
	k.ref = refProof(fp.Prove(1))
	k.refB = k.ref.Clone()
	k.refB.CL[0] = Add(k.refB.CL[0], U(1))
	// shared objects
	k.a = k.cc.Assign(k.inp, 2)
	k.outp = Chunk(k.vals[len(c)], n)
	for i := range k.outp {
		var ok func() bool
		k.outp[i], ok = guarded(k.outp[i])
		k.inOK = append(k.inOK, ok)
	}
	k.prover = gkr.NewProver(k.cc, k.a)
	k.proof = proofOf(k.ref)
	k.bad = proofOf(k.refB)
	k.ver = gkr.NewVerifier(bN, k.cc)
	k.names = circuitIDs(circuitOf(c))
	k.qP, k.q = point(bN, c)
	return k
}

var c07ops = []struct {
	name string
	f    func(k *c07world) string
}{
	{"assign", func(k *c07world) string {
		a := k.cc.Assign(k.inp, 3)
		k.keptA = append(k.keptA, a)
		return ""
	}},
	{"prove", func(k *c07world) string { return k.keep(k.prover.Prove(2)) }},
	{"new prover, prove", func(k *c07world) string {
		p := gkr.NewProver(k.cc, k.a)
		return k.keep(p.Prove(1))
	}},
	{"verify", func(k *c07world) string {
		if !k.ver.Verify(k.proof, k.inp, k.outp) {
			return "honest proof rejected"
		}
		return ""
	}},
	{"verify wrong proof", func(k *c07world) string {
		if k.ver.Verify(k.bad, k.inp, k.outp) {
			return "wrong proof accepted"
		}
		return ""
	}},
	{"verify against the assignment", func(k *c07world) string {
		v := gkr.NewVerifier(k.bN, k.cc)
		if !v.Verify(k.proof, k.a.Values[0], k.a.Values[len(k.a.Values)-1]) {
			return "honest proof rejected"
		}
		return ""
	}},
	{"fold copies of every layer", func(k *c07world) string {
		for l := range k.a.Values {
			for i, b := range k.a.LayerAsBKTWithCopy(l, 2) {
				if !Eq1(b.Table, Chunk(k.vals[l], k.n)[i]) {
					return "wrong copy"
				}
				for len(b.Table) > 1 {
					b.Fold(gen(3))
				}
			}
		}
		return ""
	}},
	{"evaluate views of every layer", func(k *c07world) string {
		for l := range k.a.Values {
			flat := k.vals[l]
			pt := gens(40, Log2(len(flat)))
			if polynomial.EvaluateChunked(k.a.LayerAsBKTNoCopy(l), pt) != MLE(flat, pt) {
				return "wrong chunked evaluation"
			}
		}
		return ""
	}},
	{"evaluate views of the inputs at two points", func(k *c07world) string {
		flat := k.vals[0]
		bg := k.c[0].BGIn()
		hp, hl, hr := gens(50, k.bN), gens(60, bg), gens(70, bg)
		v := polynomial.AsChunkedBookKeepingTable(k.inp)
		l, r := polynomial.EvaluateMixedChunked(v, hp, hl, hr)
		if l != MLE(flat, cat2(hl, hp)) || r != MLE(flat, cat2(hr, hp)) {
			return "wrong evaluation at two points"
		}
		return ""
	}},
	{"sumcheck of a layer", func(k *c07world) string {
		p := k.prover.InitialRoundSumcheckProver(k.qP, k.q, 2)
		c1 := p.GetClaim(1)
		c2 := p.GetClaim(3)
		if c1 != c2 || c1 != MLE(k.vals[len(k.c)], cat2(k.q, k.qP)) {
			return "wrong claim"
		}
		pr, qP, qL, qR, _ := p.Prove(2)
		if !Eq2(pr.PolyCoeffs, k.ref.SC[len(k.c)-1]) {
			return "wrong sumcheck proof"
		}
		ok, a, b, d, _ := sumcheck.Verifier{}.Verify(c1, pr, k.bN, k.c[len(k.c)-1].BGIn())
		if !ok || !Eq1(a, qP) || !Eq1(b, qL) || !Eq1(d, qR) {
			return "sumcheck proof rejected or other challenges"
		}
		return ""
	}},
}

func (k *c07world) keep(p gkr.Proof) string {
	if !eqProof(refProof(p), k.ref) {
		return "the proof differs from the one made alone on fresh copies"
	}
	k.kept = append(k.kept, p)
	return ""
}

// invariants: nothing shared has changed
func (k *c07world) check() string {
	for i, ok := range k.inOK {
		if !ok() {
			if i < k.n {
				return "the inputs were modified"
			}
			return "the outputs were modified"
		}
	}
	as := append([]circuit.Assignment{k.a}, k.keptA...)
	for i, a := range as {
		if len(a.Values) != len(k.vals) {
			return "wrong number of layers"
		}
		for l := range k.vals {
			if !Eq2(a.Values[l], Chunk(k.vals[l], k.n)) {
				return fmt.Sprintf("assignment %d is wrong or was modified at layer %d", i, l)
			}
		}
	}
	if !eqProof(refProof(k.proof), k.ref) || !eqProof(refProof(k.bad), k.refB) {
		return "a proof was modified"
	}
	for _, p := range k.kept {
		if !eqProof(refProof(p), k.ref) {
			return "a proof returned earlier was modified"
		}
	}
	if strings.Join(circuitIDs(k.cc), ",") != strings.Join(k.names, ",") {
		return "the circuit was modified"
	}
	if len(k.wiring) != len(k.c) {
		return "the wiring of the caller was modified"
	}
	for i, l := range k.c {
		if len(k.wiring[i]) != len(l) {
			return "the wiring of the caller was modified"
		}
		for j, x := range wiresOf(l) {
			if y := k.wiring[i][j]; x.L != y.L || x.R != y.R || x.O != y.O || x.Gate.ID() != y.Gate.ID() {
				return "the wiring of the caller was modified"
			}
		}
	}
	qP, q := point(k.bN, k.c)
	if !Eq1(qP, k.qP) || !Eq1(q, k.q) {
		return "the initial point was modified"
	}
	return ""
}

func (k *c07world) run(seq []int) {
	for s, o := range seq {
		e := c07ops[o].f(k)
		if e == "" {
			e = k.check()
		}
		if e != "" {
			var names []string
			for _, o := range seq[:s+1] {
				names = append(names, c07ops[o].name)
			}
			k.t.Failf("%s after [%s]: circuit %s, 2^%d instances, %d chunks", e, strings.Join(names, "; "), circuitName(k.c), k.bN, k.n)
		}
		k.t.Trans(1)
	}
	k.t.Trace()
}

func c07histories(x *ev.X) {
	a := chainLayers()
	cs := []Circuit{{a[7]}, {a[2], a[7]}, {a[8], a[5]}, {a[11], a[16], a[13]}, {wideLayers()[0], wideLayers()[2]},
		// wires in no particular order, and given twice
		{{w(gMul(), 1, 0, 1), w(gAdd(), 0, 1, 0), w(gCipher(U(3)), 1, 1, 1), w(gMul(), 0, 0, 0), w(gMul(), 1, 0, 1), w(gAdd(), 1, 0, 0)}, {w(gCopy(), 1, 1, 0), w(gAdd(), 0, 1, 0)}}}
	for _, c := range cs {
		for _, k := range []struct{ bN, n int }{{0, 1}, {1, 1}, {1, 2}, {2, 2}} {
			depth := 3
			if x.Thorough {
				depth = 4
			}
			if k.bN == 1 && k.n == 2 && len(c) <= 2 && x.Thorough {
				depth = 5
			}
			m := len(c07ops)
			product(m, 2, func(pre []int) {
				c, k := c, k
				pre = append([]int{}, pre...)
				x.Case(func(t *ev.T) {
					product(m, depth-2, func(ix []int) {
						w := newC07(t, c, k.bN, k.n)
						seq := append(append([]int{}, pre...), ix...)
						w.run(seq)
						h := uint64(k.bN*10 + k.n)
						for _, s := range seq {
							h = ev.Mix(h, uint64(s))
							t.State(ev.Mix(h, hashCircuit(c)))
						}
					})
				}, "every sequence of %d operations starting with %q, %q: %s, 2^%d instances, %d chunks", depth, c07ops[pre[0]].name, c07ops[pre[1]].name, circuitName(c), k.bN, k.n)
			})
		}
	}
}

func c07mimc(x *ev.X) {
	c := mimcRef()
	m := len(c07ops)
	product(m, 2, func(ix []int) {
		ix = append([]int{}, ix...)
		x.Case(func(t *ev.T) {
			w := newC07(t, c, 1, 2)
			w.run(append(append([]int{}, ix...), ix[0]))
			t.State(ev.Mix(5, uint64(ix[0]), uint64(ix[1])))
		}, "MiMC circuit: %q, %q, again", c07ops[ix[0]].name, c07ops[ix[1]].name)
	})
}

// mimcRef is the reference description of the application's circuit.
func mimcRef() Circuit {
	var c Circuit
	for i := 0; i < 91; i++ {
		l := Layer{w(gCipher(Ark(i)), 1, 0, 0)}
		if i < 90 {
			l = append(l, w(gCopy(), 1, 0, 1))
		}
		c = append(c, l)
	}
	return c
}
