//go:build mcsched

package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
	"verif/mc/rt/sched"
)

// Concurrent uses of the operations of one part of the library, on shared read-only data.

func init() {
	ev.Register("C09/race", func(x *ev.X) { opsPairs(x, c09cops()) })
	ev.Register("C10/race", func(x *ev.X) { opsPairs(x, c10cops()) })
	ev.Register("C11/race", func(x *ev.X) { opsPairs(x, c11cops()) })
	ev.Register("C14/race", func(x *ev.X) { opsPairs(x, c14cops()) })
	ev.Register("C15/race", func(x *ev.X) { opsPairs(x, c15cops()) })
	ev.Register("C16/race", func(x *ev.X) { opsPairs(x, c16cops()) })
	ev.Register("C17/race", func(x *ev.X) { opsPairs(x, c17cops()) })
	ev.Register("C18/race", func(x *ev.X) { opsPairs(x, c18cops()) })
}

// cop is an operation; f returns what is wrong.
type cop struct {
	name string
	f    func() string
}

func opsPairs(x *ev.X, ops []cop) { opsPairsBound(x, ops, tiers(x, 1, 2)) }

func opsPairsBound(x *ev.X, ops []cop, bound int) {
	run := func(name string, sel ...cop) {
		x.Case(func(t *ev.T) {
			explore(t, sched.Opts{Bound: bound, Delays: true}, "concurrently "+name, func() (func(), func(e *sched.Exec) string) {
				msgs := make([]string, len(sel))
				fs := make([]func(), len(sel))
				for i := range sel {
					i := i
					fs[i] = func() { msgs[i] = sel[i].f() }
				}
				return func() { conc(fs...) }, func(e *sched.Exec) string {
					for i, m := range msgs {
						if m != "" {
							return sel[i].name + ": " + m
						}
					}
					return ""
				}
			})
		}, "concurrently %s", name)
	}
	for i := range ops {
		for j := i; j < len(ops); j++ {
			run(fmt.Sprintf("[%s] and [%s]", ops[i].name, ops[j].name), ops[i], ops[j])
		}
	}
	run("all the operations", ops...)
}

func c15cops() (r []cop) {
	for n := 0; n <= 3; n++ {
		m := gens(10*n, n)
		want := Mimc(m)
		n := n
		r = append(r, cop{fmt.Sprintf("digest of %d elements", n), func() string {
			if hash.MimcHash(m) != want {
				return "wrong digest"
			}
			return ""
		}}, cop{fmt.Sprintf("challenge of %d elements", n), func() string {
			if common.GetChallenge(m) != want {
				return "wrong challenge"
			}
			return ""
		}})
	}
	s, b := gen(1), gen(2)
	ws, wp := MimcStep(s, b), MimcPerm(s, b)
	return append(r, cop{"one step", func() string {
		u := s
		if hash.MimcUpdateInplace(&u, b); u != ws {
			return "wrong state"
		}
		return ""
	}}, cop{"one permutation", func() string {
		u := s
		if hash.MimcPermutationInPlace(&u, b); u != wp {
			return "wrong value"
		}
		return ""
	}})
}

func c16cops() (r []cop) {
	for _, h := range hashers() {
		h := h
		for k, n := range []int{1, h.t + 1, h.t} {
			m, m2 := gens(3+k, n), gens(50+k, n)
			want, want2 := h.ref(m), h.ref(m2)
			r = append(r, cop{fmt.Sprintf("%s t=%d digests of %d elements", h.name, h.t, n), func() string {
				if h.hash(m) != want || h.hash(m2) != want2 {
					return "wrong digest"
				}
				return ""
			}})
		}
	}
	return r
}

func c14cops() (r []cop) {
	for _, n := range []int{1, 2, 3, 9, maxDomain} {
		n := n
		v := gens(n, n)
		want := Interpolate(v)
		r = append(r, cop{fmt.Sprintf("interpolation of %d points", n), func() string {
			if !samePoly(polynomial.InterpolateOnRange(v), want) {
				return "wrong polynomial"
			}
			return ""
		}})
		x := gen(90)
		wx := PolyEval(v, x)
		r = append(r, cop{fmt.Sprintf("evaluation of %d coefficients", n), func() string {
			if polynomial.EvaluatePolynomial(v, x) != wx {
				return "wrong value"
			}
			return ""
		}})
		var basis [][]E
		for i := 0; i < n; i++ {
			basis = append(basis, Interpolate(unit(n, i)))
		}
		r = append(r, cop{fmt.Sprintf("basis on %d points", n), func() string {
			if !Eq2(polynomial.GetLagrangePolynomial(n), basis) || !Eq2(polynomial.LagrangeCoefficient(n), basis) {
				return "wrong basis"
			}
			return ""
		}})
	}
	return r
}

func c17cops() (r []cop) {
	for _, g := range []Gate{gAdd(), gMul(), gCopy(), gCipher(gen(63)), gCipher(Ark(3))} {
		g := g
		cg := gateOf(g)
		l, rr := gens(1, 3), gens(20, 3)
		var w1 []E
		var w2, w3 []E
		for i := range l {
			w1 = append(w1, g.Eval(l[i], rr[i]))
			w2 = append(w2, g.Eval(l[i], rr[0]))
			w3 = append(w3, g.Eval(l[0], rr[i]))
		}
		r = append(r, cop{gateName(g) + " evaluations", func() string {
			for i := range l {
				var res E
				cg.Eval(&res, &l[i], &rr[i])
				if res != w1[i] {
					return "wrong value"
				}
			}
			return ""
		}}, cop{gateName(g) + " batched evaluations", func() string {
			a, b := make([]E, 3), make([]E, 3)
			cg.EvalManyVL(a, l, &rr[0])
			cg.EvalManyVR(b, &l[0], rr)
			if !Eq1(a, w2) || !Eq1(b, w3) {
				return "wrong values"
			}
			return ""
		}})
		id := cg.ID()
		a, b, c := g.Deg()
		r = append(r, cop{gateName(g) + " identity and degrees", func() string {
			if cg.ID() != id {
				return "the identity changed"
			}
			if x, y, z := cg.Degrees(); x < a || y < b || z < c {
				return "wrong degrees"
			}
			return ""
		}})
	}
	gs := []Gate{gMul(), gCipher(gen(63))}
	cgs := gatesOf(gs)
	st := gens(30, 2)
	vl, vr, eq := gen(1), gen(2), gen(3)
	want := combine2(gs, st, eq, vl, vr)
	return append(r, cop{"combination", func() string {
		if circuit.EvaluateCombinator(&vl, &vr, &eq, cgs, st) != want {
			return "wrong value"
		}
		return ""
	}})
}

func combine2(gs []Gate, st []E, eq, vl, vr E) (r E) {
	for i, g := range gs {
		r = Add(r, Mul(st[i], g.Eval(vl, vr)))
	}
	return Mul(r, eq)
}

func c18cops() (r []cop) {
	l := Layer{w(gMul(), 0, 1, 0), w(gCipher(gen(63)), 1, 0, 1), w(gAdd(), 0, 3, 2), w(gCopy(), 2, 2, 2), w(gMul(), 1, 1, 3)}
	cl := circuit.NewLayer(wiresOf(l))
	q := gens(9, l.BGOut())
	tables := func(c *circuit.Layer) string {
		tabs := c.GetStaticTable(q)
		for _, g := range l.Gates() {
			id, found := gateOf(g).ID(), false
			for i := range c.Gates {
				if c.Gates[i].ID() == id {
					found = true
					if i >= len(tabs) || !Eq1(tabs[i].Table, l.Static(g, q)) {
						return "wrong static table"
					}
				}
			}
			if !found {
				return "missing gate"
			}
		}
		return ""
	}
	return []cop{{"static tables of a shared layer", func() string { return tables(&cl) }},
		{"description and static tables of a new layer", func() string {
			n := circuit.NewLayer(wiresOf(l))
			return tables(&n)
		}},
		{"description of the shared wires", func() string {
			n := circuit.NewLayer(cl.Wires)
			if n.BGInputs != l.BGIn() || n.BGOutputs != l.BGOut() || len(n.Gates) != len(l.Gates()) {
				return "wrong description"
			}
			return tables(&n)
		}},
		{"widths and gates of the shared wires", func() string {
			if circuit.BGInputs(cl.Wires) != l.BGIn() || circuit.BGOutputs(cl.Wires) != l.BGOut() || len(circuit.Gates(cl.Wires)) != len(l.Gates()) {
				return "wrong widths"
			}
			return ""
		}}}
}

func c10cops() (r []cop) {
	tab := gens(0, 8)
	a, b := bkt(tab), bkt(gens(40, 8))
	pt := gens(60, 3)
	want := MLE(tab, pt)
	wl, wr := MLE(tab, pt), MLE(tab, []E{gen(70), pt[1], pt[2]})
	hR := []E{gen(70)}
	return []cop{{"evaluation of a shared table", func() string {
		if a.Evaluate(pt) != want {
			return "wrong value"
		}
		return ""
	}}, {"two-point evaluation of a shared table", func() string {
		if x, y := a.EvaluateLeftAndRight(pt[1:], pt[:1], hR); x != wl || y != wr {
			return "wrong values"
		}
		return ""
	}}, {"differences of a shared table", func() string {
		d := a.FunctionEvals()
		for i := range d {
			if d[i] != Sub(tab[i+4], tab[i]) {
				return "wrong differences"
			}
		}
		return ""
	}}, {"copy of a shared table, folded", func() string {
		c := a.DeepCopy()
		c.Fold(pt[0])
		if !Eq1(c.Table, Fix(tab, pt[0])) {
			return "wrong table"
		}
		return ""
	}}, {"chunks of a shared table", func() string {
		for i := 0; i < 4; i++ {
			c := a.InterleavedChunk(i, 4)
			if !Eq1(c.Table, Chunk(tab, 4)[i]) {
				return "wrong chunk"
			}
			c.Fold(pt[0])
		}
		return ""
	}}, {"linear combination of copies of shared tables", func() string {
		c := polynomial.LinearCombinationOfBookKeepingTables(a.DeepCopy(), b.DeepCopy(), pt[0], pt[1]) // in place
		for i := range c.Table {
			if c.Table[i] != Add(Mul(pt[0], tab[i]), Mul(pt[1], b.Table[i])) {
				return "wrong table"
			}
		}
		return ""
	}}}
}

func c11cops() (r []cop) {
	tab := gens(0, 16)
	ch := bkts(Chunk(tab, 4))
	pt := gens(60, 4)
	want, we := MLE(tab, pt), EqTable(pt)
	hR := []E{gen(70)}
	wr := MLE(tab, append([]E{gen(70)}, pt[1:]...))
	q2 := gens(80, 4)
	wc := EqEval(pt, q2)
	return []cop{{"evaluation of shared chunks", func() string {
		if polynomial.EvaluateChunked(ch, pt) != want {
			return "wrong value"
		}
		return ""
	}}, {"two-point evaluation of shared chunks", func() string {
		if x, y := polynomial.EvaluateMixedChunked(ch, pt[1:], pt[:1], hR); x != want || y != wr {
			return "wrong values"
		}
		return ""
	}}, {"equality table", func() string {
		e := polynomial.GetFoldedEqTable(pt)
		if !Eq1(e.Table, we) {
			return "wrong table"
		}
		return ""
	}}, {"chunked equality table", func() string {
		for i, e := range polynomial.GetChunkedEqTable(pt, 4, 2) {
			if !Eq1(e.Table, Chunk(we, 4)[i]) {
				return "wrong table"
			}
		}
		return ""
	}}, {"equality of two points", func() string {
		if polynomial.EvalEq(pt, q2) != wc {
			return "wrong value"
		}
		return ""
	}}}
}

func c09cops() (r []cop) {
	for k, g := range [][]Gate{{gMul()}, {gCipher(gen(63)), gCopy()}} {
		s := schedInstance(1, 2, g)
		tr := s.Prove()
		p := sumcheck.Proof{PolyCoeffs: tr.Proof}
		bad := sumcheck.Proof{PolyCoeffs: Copy2(tr.Proof)}
		bad.PolyCoeffs[2][1] = gen(5)
		_, want, fin := SCVerify(tr.Claim, tr.Proof)
		r = append(r, cop{fmt.Sprintf("verification of valid proof %d", k), func() string {
			ok, qP, qL, qR, f := sumcheck.Verifier{}.Verify(tr.Claim, p, 2, 1)
			if !ok || f != fin || !Eq1(append(append(Copy(qL), qR...), qP...), want) {
				return "wrong verdict or challenges"
			}
			return ""
		}}, cop{fmt.Sprintf("verification of invalid proof %d", k), func() string {
			if ok, _, _, _, _ := (sumcheck.Verifier{}).Verify(tr.Claim, bad, 2, 1); ok {
				return "accepted"
			}
			return ""
		}})
	}
	return r
}
