package ref

// Gate kinds.
const (
	KAdd = iota
	KMul
	KCopy
	KCipher
	KUser // a gate which the caller defines: l^3 r + 5 r^2 + 2
)

// Gate is a reference gate.
type Gate struct {
	Kind int
	Ark  E
}

// Eval is the definition of the gate.
func (g Gate) Eval(l, r E) E {
	switch g.Kind {
	case KAdd:
		return Add(l, r)
	case KMul:
		return Mul(l, r)
	case KCopy:
		return l
	case KCipher:
		return Add(l, Pow(Add(r, g.Ark), 7))
	case KUser:
		return Add(Add(Mul(Pow(l, 3), r), Mul(U(5), Mul(r, r))), U(2))
	}
	panic("kind")
}

// Deg returns the true degrees in l, in r, and joint.
func (g Gate) Deg() (int, int, int) {
	switch g.Kind {
	case KAdd:
		return 1, 1, 1
	case KMul:
		return 1, 1, 2
	case KCopy:
		return 1, 0, 1
	case KCipher:
		return 1, 7, 7
	case KUser:
		return 3, 2, 4
	}
	panic("kind")
}

// Wire of a layer.
type Wire struct {
	L, R, O int
	G       Gate
}

// Layer is a list of wires.
type Layer []Wire

func ceilLog(n int) int {
	r := 0
	for 1<<uint(r) < n {
		r++
	}
	return r
}

// BGIn is the log-size of the input of the layer.
func (l Layer) BGIn() int {
	m := 0
	for _, w := range l {
		if w.L > m {
			m = w.L
		}
		if w.R > m {
			m = w.R
		}
	}
	return ceilLog(m + 1)
}

// BGOut is the log-size of the output of the layer.
func (l Layer) BGOut() int {
	m := 0
	for _, w := range l {
		if w.O > m {
			m = w.O
		}
	}
	return ceilLog(m + 1)
}

// Circuit is a list of layers, input layer first.
type Circuit []Layer

// WellFormed says that each layer reads exactly the width the previous one produces.
func (c Circuit) WellFormed() bool {
	for i := 1; i < len(c); i++ {
		if c[i].BGIn() != c[i-1].BGOut() {
			return false
		}
	}
	return true
}

// Gates returns the distinct gates in order of first use.
func (l Layer) Gates() []Gate {
	var r []Gate
next:
	for _, w := range l {
		for _, g := range r {
			if g == w.G {
				continue next
			}
		}
		r = append(r, w.G)
	}
	return r
}

// EvalLayer maps a flat table (index g*N+h) to the next one.
func (l Layer) EvalLayer(in []E) []E {
	n := len(in) >> uint(l.BGIn())
	out := make([]E, n<<uint(l.BGOut()))
	for h := 0; h < n; h++ {
		for _, w := range l {
			o := w.O*n + h
			out[o] = Add(out[o], w.G.Eval(in[w.L*n+h], in[w.R*n+h]))
		}
	}
	return out
}

// Assign returns all flat layers.
func (c Circuit) Assign(in []E) [][]E {
	r := [][]E{Copy(in)}
	for _, l := range c {
		r = append(r, l.EvalLayer(r[len(r)-1]))
	}
	return r
}

// Static returns the static table of gate g with the output fixed at q (index L*2^bg+R).
func (l Layer) Static(g Gate, q []E) []E {
	bg := l.BGIn()
	t := make([]E, 1<<uint(2*bg))
	for _, w := range l {
		if w.G == g {
			k := w.L<<uint(bg) + w.R
			t[k] = Add(t[k], chi(w.O, q))
		}
	}
	return t
}

// Instance is a sumcheck instance: tables VL over (hL,h'), VR over (hR,h'), EQ over h', statics over (hL,hR).
type Instance struct {
	VL, VR, EQ []E
	Gates      []Gate
	ST         [][]E
}

// Clone deep copies.
func (s *Instance) Clone() *Instance {
	return &Instance{Copy(s.VL), Copy(s.VR), Copy(s.EQ), s.Gates, Copy2(s.ST)}
}

// Degs returns the degrees of the round polynomials.
func (s *Instance) Degs() (int, int, int) {
	a, b, c := 0, 0, 0
	for _, g := range s.Gates {
		x, y, z := g.Deg()
		if x > a {
			a = x
		}
		if y > b {
			b = y
		}
		if z > c {
			c = z
		}
	}
	return a + 1, b + 1, c + 1
}

// Sum is the sum over the whole hypercube.
func (s *Instance) Sum() E {
	n := len(s.EQ)
	gl, gr := len(s.VL)/n, len(s.VR)/n
	var tot E
	for h := 0; h < n; h++ {
		for l := 0; l < gl; l++ {
			for r := 0; r < gr; r++ {
				var acc E
				for i, g := range s.Gates {
					acc = Add(acc, Mul(s.ST[i][l*gr+r], g.Eval(s.VL[l*n+h], s.VR[r*n+h])))
				}
				tot = Add(tot, Mul(s.EQ[h], acc))
			}
		}
	}
	return tot
}

// FixL, FixR, FixP fix the next left, right, instance variable.
func (s *Instance) FixL(r E) *Instance {
	o := &Instance{Fix(s.VL, r), s.VR, s.EQ, s.Gates, nil}
	for _, t := range s.ST {
		o.ST = append(o.ST, Fix(t, r))
	}
	return o
}

// FixR fixes the next right variable (all left variables being fixed).
func (s *Instance) FixR(r E) *Instance {
	o := &Instance{s.VL, Fix(s.VR, r), s.EQ, s.Gates, nil}
	for _, t := range s.ST {
		o.ST = append(o.ST, Fix(t, r))
	}
	return o
}

// FixP fixes the next instance variable (all left and right variables being fixed).
func (s *Instance) FixP(r E) *Instance {
	return &Instance{Fix(s.VL, r), Fix(s.VR, r), Fix(s.EQ, r), s.Gates, s.ST}
}

// Kind of the rounds.
const (
	RoundL = iota
	RoundR
	RoundP
)

// Round returns the kind of the next round, -1 when finished. It relies on the left, right, instance order.
func (s *Instance) Round(doneL, doneR int, bg int) int {
	if doneL < bg {
		return RoundL
	}
	if doneR < bg {
		return RoundR
	}
	if len(s.EQ) > 1 {
		return RoundP
	}
	return -1
}

// Evals returns the values at 0..deg of the round polynomial.
func (s *Instance) Evals(kind int) []E {
	a, b, c := s.Degs()
	d := []int{a, b, c}[kind]
	var out []E
	for t := 0; t <= d; t++ {
		out = append(out, s.FixKind(kind, I(t)).Sum())
	}
	return out
}

// FixKind fixes the next variable of the given kind.
func (s *Instance) FixKind(kind int, r E) *Instance {
	switch kind {
	case RoundL:
		return s.FixL(r)
	case RoundR:
		return s.FixR(r)
	}
	return s.FixP(r)
}

// SCProof is a list of round polynomials.
type SCProof [][]E

// SCTranscript is the honest run of an instance.
type SCTranscript struct {
	Claim           E
	Proof           SCProof
	QL, QR, QP      []E
	VL, VR, EQ      E
	ST              []E
	Evals           [][]E
	RunningClaimEnd E
}

// BGOf returns the number of left (or right) variables.
func (s *Instance) BGOf() int { return Log2(len(s.VL) / len(s.EQ)) }

// Prove runs the honest prover by definition.
func (s *Instance) Prove() SCTranscript {
	return s.ProveForged(nil)
}

// Tamper may replace the round polynomial; it receives the round number and the honest coefficients.
type Tamper func(round int, honest []E) []E

// ProveForged runs the prover, every polynomial passing through the tamper hook before being hashed.
func (s *Instance) ProveForged(f Tamper) SCTranscript {
	var tr SCTranscript
	tr.Claim = s.Sum()
	bg := s.BGOf()
	cur := s
	dl, dr, i := 0, 0, 0
	for {
		k := cur.Round(dl, dr, bg)
		if k < 0 {
			break
		}
		ev := cur.Evals(k)
		tr.Evals = append(tr.Evals, ev)
		p := Interpolate(ev)
		if f != nil {
			p = f(i, p)
		}
		tr.Proof = append(tr.Proof, p)
		r := Mimc(p)
		tr.RunningClaimEnd = PolyEval(p, r)
		switch k {
		case RoundL:
			tr.QL = append(tr.QL, r)
			dl++
		case RoundR:
			tr.QR = append(tr.QR, r)
			dr++
		default:
			tr.QP = append(tr.QP, r)
		}
		cur = cur.FixKind(k, r)
		i++
	}
	if i == 0 {
		tr.RunningClaimEnd = tr.Claim
	}
	tr.VL, tr.VR, tr.EQ = cur.VL[0], cur.VR[0], cur.EQ[0]
	for _, t := range cur.ST {
		tr.ST = append(tr.ST, t[0])
	}
	return tr
}

// SCVerify is the sumcheck relation: verdict, challenges, last claim.
func SCVerify(claim E, p SCProof) (bool, []E, E) {
	var ch []E
	cur := claim
	for _, c := range p {
		if len(c) == 0 {
			return false, nil, E{}
		}
		if Add(PolyEval(c, U(0)), PolyEval(c, U(1))) != cur {
			return false, nil, E{}
		}
		r := Mimc(c)
		ch = append(ch, r)
		cur = PolyEval(c, r)
	}
	return true, ch, cur
}

// Proof is a GKR proof.
type Proof struct {
	SC     []SCProof
	CL, CR []E
}

// Clone deep copies.
func (p Proof) Clone() Proof {
	var o Proof
	for _, s := range p.SC {
		o.SC = append(o.SC, Copy2(s))
	}
	o.CL, o.CR = Copy(p.CL), Copy(p.CR)
	return o
}

func combine(gates []Gate, st []E, eq, vl, vr E) E {
	var acc E
	for i, g := range gates {
		acc = Add(acc, Mul(st[i], g.Eval(vl, vr)))
	}
	return Mul(eq, acc)
}

func cat(a, b []E) []E { return append(Copy(a), b...) }

// InstanceFor builds the sumcheck instance of layer l from its input table.
// For the last layer qR is nil and lambda unused.
func (c Circuit) InstanceFor(l int, in []E, qL, qR []E, lambda E, qP []E) *Instance {
	gates := c[l].Gates()
	s := &Instance{VL: Copy(in), VR: Copy(in), EQ: EqTable(qP), Gates: gates}
	for _, g := range gates {
		t := c[l].Static(g, qL)
		if qR != nil || l != len(c)-1 {
			t2 := c[l].Static(g, qR)
			for i := range t {
				t[i] = Add(t[i], Mul(lambda, t2[i]))
			}
		}
		s.ST = append(s.ST, t)
	}
	return s
}

// Check identifies one relation of the protocol.
type Check struct {
	Kind  int // CkRound, CkLayer, CkLeft, CkRight, CkNone
	Layer int
	Round int
}

// Check kinds.
const (
	CkNone = iota
	CkRound
	CkLayer
	CkLeft
	CkRight
)

// Checks lists every relation the verifier has to enforce.
func (c Circuit) Checks(bN int) []Check {
	var r []Check
	for l := len(c) - 1; l >= 0; l-- {
		for i := 0; i < bN+2*c[l].BGIn(); i++ {
			r = append(r, Check{CkRound, l, i})
		}
		r = append(r, Check{CkLayer, l, 0})
	}
	return append(r, Check{CkLeft, 0, 0}, Check{CkRight, 0, 0})
}

// Violations returns the relations a proof of the right shape does not satisfy (nil: valid).
func (c Circuit) Violations(bN int, p Proof, in, out []E, qP0, q0 []E) []Check {
	return c.violations(bN, p, in, out, qP0, q0, false)
}

// Accepts is the reference verdict.
func (c Circuit) Accepts(bN int, p Proof, in, out []E, qP0, q0 []E) bool {
	return c.ShapeOK(bN, p) && len(c.violations(bN, p, in, out, qP0, q0, true)) == 0
}

// ShapeOK says that the numbers of layers, rounds and claims are those the circuit imposes.
func (c Circuit) ShapeOK(bN int, p Proof) bool {
	if len(p.SC) != len(c) || len(p.CL) != len(c) || len(p.CR) != len(c) {
		return false
	}
	for l := range c {
		if len(p.SC[l]) != bN+2*c[l].BGIn() {
			return false
		}
		for _, q := range p.SC[l] {
			if len(q) == 0 {
				return false
			}
		}
	}
	return true
}

func (c Circuit) violations(bN int, p Proof, in, out []E, qP0, q0 []E, first bool) []Check {
	var bad []Check
	top := len(c) - 1
	qP, qL := qP0, q0
	var qR []E
	var lambda E
	claim := MLE(out, cat(q0, qP0))
	for l := top; l >= 0; l-- {
		bg := c[l].BGIn()
		var ch []E
		cur := claim
		for i, poly := range p.SC[l] {
			if Add(PolyEval(poly, U(0)), PolyEval(poly, U(1))) != cur {
				bad = append(bad, Check{CkRound, l, i})
				if first {
					return bad
				}
			}
			r := Mimc(poly)
			ch = append(ch, r)
			cur = PolyEval(poly, r)
		}
		hL, hR, hP := ch[:bg], ch[bg:2*bg], ch[2*bg:]
		var st []E
		for _, g := range c[l].Gates() {
			v := MLE(c[l].Static(g, qL), cat(hL, hR))
			if l != top {
				v = Add(v, Mul(lambda, MLE(c[l].Static(g, qR), cat(hL, hR))))
			}
			st = append(st, v)
		}
		if combine(c[l].Gates(), st, EqEval(qP, hP), p.CL[l], p.CR[l]) != cur {
			bad = append(bad, Check{CkLayer, l, 0})
			if first {
				return bad
			}
		}
		lambda = Mimc([]E{p.CL[l], p.CR[l]})
		claim = Add(p.CL[l], Mul(lambda, p.CR[l]))
		qP, qL, qR = hP, hL, hR
	}
	if MLE(in, cat(qL, qP)) != p.CL[0] {
		bad = append(bad, Check{CkLeft, 0, 0})
	}
	if MLE(in, cat(qR, qP)) != p.CR[0] {
		bad = append(bad, Check{CkRight, 0, 0})
	}
	return bad
}

// Prove is the honest reference prover.
func (c Circuit) Prove(in []E, qP0, q0 []E) Proof {
	p, _ := c.Forge(in, MLE(c.Assign(in)[len(c)], cat(q0, qP0)), qP0, q0, Check{Kind: CkNone}, false)
	return p
}

// Forge runs a dishonest prover defending the (usually false) output claim at the initial point. It keeps every
// relation satisfied, with wrong running values, until the relation `at`, which it breaks by going back to the
// honest values; everything after is honest. solveRight says which of the two claimed values absorbs the error
// when a layer's last relation has to be passed with a wrong total. ok is false when the error cannot be carried
// that far (a gate whose value does not depend on the absorbing side with degree one, or a cancellation).
func (c Circuit) Forge(in []E, claim E, qP0, q0 []E, at Check, solveRight bool) (Proof, bool) {
	vals := c.Assign(in)
	top := len(c) - 1
	p := Proof{SC: make([]SCProof, len(c)), CL: make([]E, len(c)), CR: make([]E, len(c))}
	qP, qL := qP0, q0
	var qR []E
	var lambda E
	honest := at.Kind == CkNone
	half := Inv(U(2))
	for l := top; l >= 0; l-- {
		inst := c.InstanceFor(l, vals[l], qL, qR, lambda, qP)
		run := claim
		tr := inst.ProveForged(func(round int, h []E) []E {
			if at.Kind == CkRound && at.Layer == l && at.Round == round {
				honest = true
			}
			q := Copy(h)
			if !honest {
				delta := Sub(run, Add(PolyEval(h, U(0)), PolyEval(h, U(1))))
				q[0] = Add(q[0], Mul(delta, half))
			}
			run = PolyEval(q, Mimc(q))
			return q
		})
		p.SC[l] = tr.Proof
		if len(tr.Proof) == 0 {
			run = claim
		}
		if at.Kind == CkLayer && at.Layer == l {
			honest = true
		}
		vl, vr := tr.VL, tr.VR
		if !honest {
			// the last relation of this layer must hold with the wrong total `run`
			right := solveRight
			if l == 0 && at.Kind == CkRight {
				right = true
			}
			if l == 0 && at.Kind == CkLeft {
				right = false
			}
			f := func(x E) E {
				if right {
					return combine(inst.Gates, tr.ST, tr.EQ, vl, x)
				}
				return combine(inst.Gates, tr.ST, tr.EQ, x, vr)
			}
			// affine in the absorbing side?
			f0, f1, f2 := f(U(0)), f(U(1)), f(U(2))
			a := Sub(f1, f0)
			if a.IsZero() || Sub(f2, f1) != a || f(U(5)) != Add(f0, Mul(U(5), a)) || f(U(9)) != Add(f0, Mul(U(9), a)) {
				return p, false
			}
			x := Mul(Sub(run, f0), Inv(a))
			if right {
				if x == vr {
					return p, false
				}
				vr = x
			} else {
				if x == vl {
					return p, false
				}
				vl = x
			}
		}
		p.CL[l], p.CR[l] = vl, vr
		lambda = Mimc([]E{vl, vr})
		claim = Add(vl, Mul(lambda, vr))
		qP, qL, qR = tr.QP, tr.QL, tr.QR
	}
	return p, true
}

// Dictate is a choice the dishonest prover of ForgeDictated makes instead of computing: it receives what has been
// sent so far and returns false to compute.
type Dictate struct {
	Poly   func(layer, round int, sofar Proof) ([]E, bool)
	Claims func(layer int, sofar Proof) (E, E, bool)
	// One replaces a claim (the right one if told so): the other one is computed so that the layer's relation holds.
	One func(layer int, vl, vr E) (v E, right, ok bool)
	// Lambda replaces the factor of the combination of the claims of the layer.
	Lambda func(layer int, sofar Proof) (E, bool)
	// Off makes relations fail by the given amounts (right side minus left side).
	Off map[Check]E
}

// ForgeDictated runs a prover that is honest until it sends a dictated message; from then on it keeps every other
// relation satisfied and never goes back to the true values: the last claims are carried to the inputs, which are
// changed to fit them. ok is false when that is impossible.
func (c Circuit) ForgeDictated(in []E, qP0, q0 []E, d Dictate, solveRight bool) (Proof, []E, bool) {
	vals := c.Assign(in)
	top := len(c) - 1
	p := Proof{SC: make([]SCProof, len(c)), CL: make([]E, len(c)), CR: make([]E, len(c))}
	qP, qL := qP0, q0
	var qR []E
	var lambda E
	claim := MLE(vals[len(c)], cat(q0, qP0))
	half := Inv(U(2))
	for l := top; l >= 0; l-- {
		inst := c.InstanceFor(l, vals[l], qL, qR, lambda, qP)
		run := claim
		p.SC[l] = SCProof{}
		tr := inst.ProveForged(func(round int, h []E) []E {
			q, ok := []E(nil), false
			if d.Poly != nil {
				q, ok = d.Poly(l, round, p)
			}
			if ok {
				q = Copy(q)
			} else {
				q = Copy(h)
				delta := Sub(Add(run, d.Off[Check{CkRound, l, round}]), Add(PolyEval(h, U(0)), PolyEval(h, U(1))))
				q[0] = Add(q[0], Mul(delta, half))
			}
			p.SC[l] = append(p.SC[l], q)
			run = PolyEval(q, Mimc(q))
			return q
		})
		vl, vr, ok := E{}, E{}, false
		if d.Claims != nil {
			vl, vr, ok = d.Claims(l, p)
		}
		if !ok {
			vl, vr = tr.VL, tr.VR
			solveRight := solveRight
			if d.One != nil {
				if v, right, ok := d.One(l, vl, vr); ok {
					if right {
						vr, solveRight = v, false
					} else {
						vl, solveRight = v, true
					}
				}
			}
			run = Add(run, d.Off[Check{CkLayer, l, 0}])
			same := l == 0 && c[0].BGIn() == 0 && d.Off[Check{CkLeft, 0, 0}] == d.Off[Check{CkRight, 0, 0}]
			f := func(x E) E {
				if same {
					return combine(inst.Gates, tr.ST, tr.EQ, x, x)
				}
				if solveRight {
					return combine(inst.Gates, tr.ST, tr.EQ, vl, x)
				}
				return combine(inst.Gates, tr.ST, tr.EQ, x, vr)
			}
			if combine(inst.Gates, tr.ST, tr.EQ, vl, vr) != run || same && vl != vr {
				f0, f1, f2 := f(U(0)), f(U(1)), f(U(2))
				a := Sub(f1, f0)
				if a.IsZero() || Sub(f2, f1) != a || f(U(5)) != Add(f0, Mul(U(5), a)) || f(U(9)) != Add(f0, Mul(U(9), a)) {
					return p, nil, false
				}
				x := Mul(Sub(run, f0), Inv(a))
				switch {
				case same:
					vl, vr = x, x
				case solveRight:
					vr = x
				default:
					vl = x
				}
			}
		}
		p.CL[l], p.CR[l] = vl, vr
		lambda = Mimc([]E{vl, vr})
		if d.Lambda != nil {
			if v, ok := d.Lambda(l, p); ok {
				lambda = v
			}
		}
		claim = Add(vl, Mul(lambda, vr))
		qP, qL, qR = tr.QP, tr.QL, tr.QR
	}
	in2, ok := fitInputs(in, cat(qL, qP), cat(qR, qP), Add(p.CL[0], d.Off[Check{CkLeft, 0, 0}]), Add(p.CR[0], d.Off[Check{CkRight, 0, 0}]))
	return p, in2, ok
}

// fitInputs changes one or two entries of the table so that its extension has the given values at two points.
func fitInputs(in []E, pl, pr []E, vl, vr E) ([]E, bool) {
	dl, dr := Sub(vl, MLE(in, pl)), Sub(vr, MLE(in, pr))
	for i := range in {
		for j := range in {
			// the weights of the entries i and j at both points
			a, b, e, f := chi(i, pl), chi(j, pl), chi(i, pr), chi(j, pr)
			r := Copy(in)
			if i == j {
				if a.IsZero() {
					continue
				}
				r[i] = Add(r[i], Mul(dl, Inv(a)))
			} else {
				det := Sub(Mul(a, f), Mul(b, e))
				if det.IsZero() {
					continue
				}
				det = Inv(det)
				r[i] = Add(r[i], Mul(det, Sub(Mul(dl, f), Mul(dr, b))))
				r[j] = Add(r[j], Mul(det, Sub(Mul(a, dr), Mul(e, dl))))
			}
			if MLE(r, pl) == vl && MLE(r, pr) == vr {
				return r, true
			}
		}
	}
	return nil, false
}
