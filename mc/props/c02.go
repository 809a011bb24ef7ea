package props

import (
	"fmt"

	"gkr-mimc/gkr"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C02/alter", c02alter)
	ev.Register("C02/forge", c02forge)
	ev.Register("C02/mimc", c02mimc)
	ev.Register("C02/complete", c02complete)
}

// c02case is a statement and a way to judge proofs of it.
type c02case struct {
	t       *ev.T
	c       Circuit
	bN      int
	n       int
	in, out []E
	qP, q   []E
	v       gkr.Verifier
	inC     [][]E
	outC    [][]E
}

func newC02(t *ev.T, c Circuit, bN, n int, in, out []E) *c02case {
	k := &c02case{t: t, c: c, bN: bN, n: n, in: in, out: out}
	k.qP, k.q = point(bN, c)
	k.v = gkr.NewVerifier(bN, circuitOf(c))
	k.inC, k.outC = Chunk(in, n), Chunk(out, n)
	return k
}

// judge compares the verdict of the code with the reference.
func (k *c02case) judge(p Proof, what string, a ...interface{}) bool {
	want := k.c.Accepts(k.bN, p, k.in, k.out, k.qP, k.q)
	got := k.v.Verify(proofOf(p), k.inC, k.outC)
	if got != want {
		bad := k.c.Violations(k.bN, p, k.in, k.out, k.qP, k.q)
		k.t.Failf("%s: verifier says %v, violated relations: %v; circuit %s, 2^%d instances in %d chunks, inputs %s, proof %v", fmt.Sprintf(what, a...), got, bad, circuitName(k.c), k.bN, k.n, str(k.in...), p)
	}
	k.t.Trans(1)
	k.t.Trace()
	k.t.State(ev.Mix(hashProof(p), hashCircuit(k.c), hashE(1, k.in...), hashE(2, k.out...)))
	return got
}

// sites calls f with a pointer to every scalar of the proof.
func sites(p *Proof, f func(s *E, name string)) {
	for l := range p.SC {
		for r := range p.SC[l] {
			for i := range p.SC[l][r] {
				f(&p.SC[l][r][i], fmt.Sprintf("coefficient %d of round %d of layer %d", i, r, l))
			}
		}
	}
	for l := range p.CL {
		f(&p.CL[l], fmt.Sprintf("left claim of layer %d", l))
	}
	for l := range p.CR {
		f(&p.CR[l], fmt.Sprintf("right claim of layer %d", l))
	}
}

func alterations(v E) []E {
	r := []E{Add(v, U(1)), Sub(v, U(1)), Sub(E{}, v), {}, Add(v, v), gen(77)}
	if !Small {
		// single limbs of the representation
		for i := 0; i < 4; i++ {
			x := v
			x[i] ^= 1
			if i < 3 {
				r = append(r, x)
			}
		}
	}
	var o []E
	for _, x := range r {
		if x != v {
			o = append(o, x)
		}
	}
	return o
}

func c02circuits(thorough bool) []Circuit {
	var cs []Circuit
	for _, l := range append(wideLayers()[:9], wideLayers()[11:]...) {
		cs = append(cs, Circuit{l})
	}
	for _, l := range chainLayers() {
		cs = append(cs, Circuit{l})
	}
	cs = append(cs, chains(chainLayers(), 2)...)
	cs = append(cs, chains(userChains()[:5], 2)...)
	if thorough {
		cs = append(cs, chains(chainLayers(), 3)...)
	} else {
		cs = append(cs, chains(smallChains(), 3)...)
	}
	return cs
}

func maxBN(c Circuit, lim int) int {
	m := 0
	for _, l := range c {
		if l.BGIn() > m {
			m = l.BGIn()
		}
	}
	if m >= 2 && lim > 1 {
		return 1
	}
	return lim
}

func c02alter(x *ev.X) {
	for _, c := range c02circuits(x.Thorough) {
		for bN := 0; bN <= maxBN(c, 2); bN++ {
			for _, n := range pow2s(1 << uint(bN)) {
				if n == 2 && bN == 2 && !x.Thorough {
					continue
				}
				for pat := 0; pat < 2; pat++ {
					c, bN, n, pat := c, bN, n, pat
					if (len(c) > 2 && bN > 1 || len(c) > 1 && pat > 0) && !x.Thorough {
						continue
					}
					x.Case(func(t *ev.T) { c02alterCase(t, c, bN, n, pat) }, "every single altered value: %s, 2^%d instances, %d chunks, inputs %s", circuitName(c), bN, n, patternNames[pat])
				}
			}
		}
	}
}

func c02alterCase(t *ev.T, c Circuit, bN, n, pat int) {
	in := patterns(1<<uint(bN+c[0].BGIn()), 0)[pat]
	vals := c.Assign(in)
	k := newC02(t, c, bN, n, in, vals[len(c)])
	honest := c.Prove(in, k.qP, k.q)
	if !k.judge(honest, "honest proof") {
		t.Failf("reference error: honest proof is rejected by the reference")
	}
	p := honest.Clone()
	acc := 0
	sites(&p, func(s *E, name string) {
		v := *s
		for _, a := range alterations(v) {
			*s = a
			if k.judge(p, "%s altered", name) {
				acc++
			}
		}
		*s = v
	})
	// compensating pairs inside a polynomial: the sum of the values at 0 and 1 is preserved
	for l := range p.SC {
		for r := range p.SC[l] {
			q := p.SC[l][r]
			for i := range q {
				for j := i + 1; j < len(q); j++ {
					vi, vj := q[i], q[j]
					d := U(3)
					if i == 0 {
						q[i], q[j] = Add(vi, d), Sub(vj, Add(d, d))
					} else {
						q[i], q[j] = Add(vi, d), Sub(vj, d)
					}
					k.judge(p, "coefficients %d and %d of round %d of layer %d altered, keeping the sum", i, j, r, l)
					q[i], q[j] = vj, vi
					if vi != vj {
						k.judge(p, "coefficients %d and %d of round %d of layer %d exchanged", i, j, r, l)
					}
					q[i], q[j] = vi, vj
				}
			}
			// surplus coefficients
			p.SC[l][r] = append(Copy(q), E{})
			k.judge(p, "round %d of layer %d with a surplus zero coefficient", r, l)
			p.SC[l][r] = append(Copy(q), U(1))
			k.judge(p, "round %d of layer %d with a surplus coefficient", r, l)
			p.SC[l][r] = q[:len(q)-1]
			if len(q) > 1 {
				k.judge(p, "round %d of layer %d without its last coefficient", r, l)
			}
			p.SC[l][r] = q
			if r+1 < len(p.SC[l]) {
				p.SC[l][r], p.SC[l][r+1] = p.SC[l][r+1], p.SC[l][r]
				k.judge(p, "rounds %d and %d of layer %d exchanged", r, r+1, l)
				p.SC[l][r], p.SC[l][r+1] = p.SC[l][r+1], p.SC[l][r]
			}
		}
		p.CL[l], p.CR[l] = p.CR[l], p.CL[l]
		k.judge(p, "left and right claims of layer %d exchanged", l)
		p.CL[l], p.CR[l] = p.CR[l], p.CL[l]
		// claims altered so that their combination with the honest challenge is unchanged
		lam := Mimc([]E{p.CL[l], p.CR[l]})
		cl, cr := p.CL[l], p.CR[l]
		p.CR[l] = Add(cr, U(1))
		p.CL[l] = Sub(cl, lam)
		k.judge(p, "claims of layer %d altered, keeping their combination", l)
		p.CL[l], p.CR[l] = Add(cl, U(1)), Sub(cr, U(1))
		k.judge(p, "claims of layer %d altered, keeping their sum", l)
		p.CL[l], p.CR[l] = cl, cr
		if l+1 < len(p.SC) {
			p.SC[l], p.SC[l+1] = p.SC[l+1], p.SC[l]
			if c.ShapeOK(bN, p) {
				k.judge(p, "proofs of layers %d and %d exchanged", l, l+1)
			}
			p.SC[l], p.SC[l+1] = p.SC[l+1], p.SC[l]
			p.CL[l], p.CL[l+1] = p.CL[l+1], p.CL[l]
			k.judge(p, "left claims of layers %d and %d exchanged", l, l+1)
			p.CL[l], p.CL[l+1] = p.CL[l+1], p.CL[l]
		}
	}
	// proofs of other inputs
	for o, in2 := range patterns(len(in), 40) {
		if o == 1 && pat == 1 {
			continue
		}
		k.judge(c.Prove(in2, k.qP, k.q), "honest proof of other inputs (%s)", patternNames[o])
	}
	if !eqProof(p, honest) {
		t.Failf("harness error: proof not restored")
	}
	t.Count("altered proofs accepted by both", acc)
}

// c02forge: dishonest provers which satisfy every relation except one.
func c02forge(x *ev.X) {
	for _, c := range c02circuits(x.Thorough) {
		for bN := 0; bN <= maxBN(c, 2); bN++ {
			c, bN := c, bN
			x.Case(func(t *ev.T) { c02forgeCase(t, c, bN, x.Thorough) }, "for every relation, a proof breaking only this one: %s, 2^%d instances", circuitName(c), bN)
		}
	}
}

func c02forgeCase(t *ev.T, c Circuit, bN int, thorough bool) {
	in := gens(0, 1<<uint(bN+c[0].BGIn()))
	vals := c.Assign(in)
	out := vals[len(c)]
	qP, q := point(bN, c)
	sts := 1
	if thorough {
		sts = 3
	}
	for st := 0; st < sts; st++ {
		lie := Copy(out)
		i := (len(out) - 1) * st / 2
		lie[i] = Add(lie[i], gen(90+st))
		claim := MLE(lie, cat2(q, qP))
		if claim == MLE(out, cat2(q, qP)) {
			continue
		}
		for _, n := range pow2s(1 << uint(bN)) {
			k := newC02(t, c, bN, n, in, lie)
			c02forgeOne(t, c, bN, k, in, claim, qP, q)
		}
	}
	// a prover lying on the inputs: honest proof of other inputs that give the same outputs
	for i := range in {
		in2 := Copy(in)
		in2[i] = Add(in2[i], U(1))
		k := newC02(t, c, bN, 1, in2, out)
		k.judge(c.Prove(in, qP, q), "input %d altered", i)
	}
}

func c02forgeOne(t *ev.T, c Circuit, bN int, k *c02case, in []E, claim E, qP, q []E) {
	for _, at := range c.Checks(bN) {
		for _, right := range []bool{false, true} {
			p, ok := c.Forge(in, claim, qP, q, at, right)
			if !ok {
				t.Count("relations not reachable by this strategy", 1)
				continue
			}
			bad := c.Violations(bN, p, k.in, k.out, qP, q)
			if len(bad) != 1 || bad[0] != at {
				// the forged proof should break exactly the target
				t.Count("forgeries breaking something else", 1)
			} else {
				t.Count("proofs breaking exactly one relation", 1)
				t.Outcome(ev.Mix(uint64(at.Kind), uint64(at.Layer), uint64(at.Round)))
			}
			if k.judge(p, "proof built to break only %v (error carried by the right claims: %v)", at, right) {
				t.Failf("reference error: forged proof accepted")
			}
		}
	}
}

func cat2(a, b []E) []E { return append(Copy(a), b...) }

// c02mimc: the 91-layer circuit of the application.
func c02mimc(x *ev.X) {
	c := mimcRef()
	bNs := []int{0, 1}
	if x.Thorough {
		bNs = []int{0, 1, 2, 3}
	}
	for _, bN := range bNs {
		checks := c.Checks(bN)
		for ci := range checks {
			bN, at := bN, checks[ci]
			x.Case(func(t *ev.T) {
				in := gens(0, 2<<uint(bN))
				vals := c.Assign(in)
				out := Copy(vals[91])
				out[0] = Add(out[0], U(1))
				qP, q := point(bN, c)
				for _, n := range pow2s(1 << uint(bN)) {
					k := newC02(t, c, bN, n, in, out)
					// the copy gate makes the left claim absorb; the cipher gate alone (last layer) too
					p, ok := c.Forge(in, MLE(out, cat2(q, qP)), qP, q, at, false)
					if !ok {
						if at.Kind != CkRight {
							t.Failf("reference error: cannot forge for %v", at)
						}
						continue
					}
					t.Count("proofs breaking exactly one relation", 1)
					if k.judge(p, "91-layer circuit, proof built to break only %v", at) {
						t.Failf("reference error: forged proof accepted")
					}
				}
			}, "MiMC circuit, 2^%d instances: proof breaking only %v", bN, at)
		}
	}
}

// c02complete: over a small field, every proof of tiny circuits.
func c02complete(x *ev.X) {
	al := all()
	type cfg struct {
		c  Circuit
		bN int
	}
	var cs []cfg
	for _, l := range []Layer{{w(gAdd(), 0, 0, 0)}, {w(gMul(), 0, 0, 0)}, {w(gCopy(), 0, 0, 0)}, {w(gCipher(U(2)), 0, 0, 0)}, {w(gMul(), 0, 0, 0), w(gAdd(), 0, 0, 1)}} {
		cs = append(cs, cfg{Circuit{l}, 0})
	}
	cs = append(cs, cfg{Circuit{{w(gMul(), 0, 0, 0)}, {w(gAdd(), 0, 0, 0)}}, 0}, cfg{Circuit{{w(gCipher(U(2)), 0, 0, 0)}, {w(gMul(), 0, 0, 0)}}, 0})
	for _, g := range cs {
		g := g
		// every input, every output value at this point, every proof
		for i0 := range al {
			for o0 := range al {
				i0, o0 := i0, o0
				x.Case(func(t *ev.T) {
					in := []E{al[i0]}
					out := make([]E, 1<<uint(g.c[len(g.c)-1].BGOut()))
					out[0] = al[o0]
					k := newC02(t, g.c, 0, 1, in, out)
					m := len(g.c)
					acc := 0
					product(P, 2*m, func(ix []int) {
						p := Proof{SC: make([]SCProof, m), CL: pick(al, ix[:m]), CR: pick(al, ix[m:])}
						if k.judge(p, "claims %v", ix) {
							acc++
						}
					})
					t.Outcome(uint64(acc))
				}, "field of %d elements: all proofs of %s for input %d and output %d", P, circuitName(g.c), i0, o0)
			}
		}
	}
	// one round: all polynomials of three coefficients and all claims
	c := Circuit{{w(gMul(), 0, 0, 0)}}
	for a := range al {
		for b := range al {
			a, b := a, b
			if !x.Thorough && (a+b)%3 != 0 {
				continue
			}
			x.Case(func(t *ev.T) {
				in := []E{U(2), U(5)}
				out := []E{U(4), U(25)}
				k := newC02(t, c, 1, 2, in, out)
				acc := 0
				product(P, 2, func(ix []int) {
					poly := []E{al[a], al[b], al[ix[0]], al[ix[1]]}
					product(P, 2, func(jx []int) {
						p := Proof{SC: []SCProof{{poly}}, CL: []E{al[jx[0]]}, CR: []E{al[jx[1]]}}
						if k.judge(p, "poly %s claims %v", str(poly...), jx) {
							acc++
						}
					})
				})
				t.Count("accepted proofs", acc)
			}, "field of %d elements: all one-round proofs of the multiplication circuit with coefficients starting with %d %d", P, a, b)
		}
	}
}
