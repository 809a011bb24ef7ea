package props

import (
	"strings"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
)

// The same gate in several forms: a value, a pointer to it, a type which wraps it, with a content which cannot be
// compared. A gate is what its identifier says, whatever the form in which it is given.

func init() {
	for _, p := range []string{"C01", "C06", "C08", "C18"} {
		p := p
		ev.Register(p+"/forms", func(x *ev.X) { formsPhase(x, p) })
	}
	ev.Register("C06/uneven", c06uneven)
	ev.Register("C01/degrees", c01degrees)
	ev.Register("C06/degenerate", degenerate)
	ev.Register("C18/degenerate", degenerate)
	for _, p := range []string{"C01", "C06", "C18"} {
		p := p
		ev.Register(p+"/names", func(x *ev.X) { names(x, p) })
	}
	for _, p := range []string{"C01", "C03", "C06"} {
		p := p
		ev.Register(p+"/handmade", func(x *ev.X) { handmade(x, p) })
	}
}

type wrappedGate struct{ circuit.Gate }
type taggedGate struct {
	circuit.Gate
	tag int
}
type paddedGate struct {
	circuit.Gate
	pad []int
}
type lazyGate struct {
	circuit.Gate
	name func() string
}

func (g lazyGate) ID() string { return g.name() }

// strictGate overwrites the result before it reads the operands, and wants as many results as operands.
type strictGate struct{ circuit.Gate }

func (g strictGate) Eval(res, vL, vR *E) {
	*res = gen(9)
	var r E
	g.Gate.Eval(&r, vL, vR)
	*res = r
}

func (g strictGate) many(res []E, n int, f func(i int) (*E, *E)) {
	if len(res) != n {
		panic("as many results as operands are wanted")
	}
	for i := range res {
		res[i] = gen(9)
	}
	for i := range res {
		l, r := f(i)
		var v E
		g.Gate.Eval(&v, l, r)
		res[i] = v
	}
}

func (g strictGate) EvalManyVL(res, vLs []E, vR *E) {
	g.many(res, len(vLs), func(i int) (*E, *E) { return &vLs[i], vR })
}

func (g strictGate) EvalManyVR(res []E, vL *E, vRs []E) {
	g.many(res, len(vRs), func(i int) (*E, *E) { return vL, &vRs[i] })
}

// looseGate declares more than its degrees.
type looseGate struct {
	circuit.Gate
	l, r, p int
}

func (g looseGate) Degrees() (int, int, int) {
	l, r, p := g.Gate.Degrees()
	return l + g.l, r + g.r, p + g.p
}

// c01degrees: degrees are bounds; gates which declare more are proved and verified as well.
func c01degrees(x *ev.X) {
	top := 2
	if x.Thorough {
		top = 3
	}
	for _, g := range []Gate{gAdd(), gMul(), gCopy(), gUser(), gCipher(gen(63))} {
		for d := 0; d < (top+1)*(top+1)*(top+1); d++ {
			g, d := g, d
			k := looseGate{gateOf(g), d % (top + 1), d / (top + 1) % (top + 1), d / (top + 1) / (top + 1)}
			x.Case(func(t *ev.T) {
				l := Layer{w(g, 0, 1, 0), w(gMul(), 1, 1, 1)}
				for _, c := range []Circuit{{l}, {l, {w(gAdd(), 0, 1, 0)}}, {{w(gMul(), 0, 1, 0), w(gAdd(), 0, 0, 1)}, l}} {
					var ws [][]circuit.Wire
					for _, v := range c {
						r := wiresOf(v)
						if len(v) == len(l) && &v[0] == &l[0] {
							r[0].Gate = k
						}
						ws = append(ws, r)
					}
					cc := circuit.NewCircuit(ws)
					for bN := 0; bN <= 2; bN++ {
						for _, n := range pow2s(1 << uint(bN)) {
							c01run(t, c, cc, bN, gens(5, 1<<uint(bN+c[0].BGIn())), n, 1, 2)
						}
					}
				}
				t.State(ev.Mix(uint64(g.Kind), uint64(d)))
			}, "%s declaring %d, %d, %d more than its degrees", gateName(g), k.l, k.r, k.p)
		}
	}
}

// formsOf lists the forms of a gate.
func formsOf(g Gate) []circuit.Gate {
	b := gateOf(g)
	var r []circuit.Gate
	switch v := b.(type) {
	case circuit.AddGate:
		r = []circuit.Gate{v, &v}
	case circuit.MulGate:
		r = []circuit.Gate{v, &v}
	case circuit.CopyGate:
		r = []circuit.Gate{v, &v}
	default:
		r = []circuit.Gate{b, gateOf(g)}
	}
	return append(r, strictGate{b}, wrappedGate{b}, &wrappedGate{b}, taggedGate{b, 1}, taggedGate{b, 2}, paddedGate{b, []int{1}},
		lazyGate{b, func() string { return string(append([]byte{}, b.ID()...)) }})
}

type formed struct {
	g Gate
	f int
}

func formedWires(l Layer, f []int) []circuit.Wire {
	ws := wiresOf(l)
	for i := range ws {
		ws[i].Gate = formsOf(l[i].G)[f[i]]
	}
	return ws
}

// formsLayers: pairs of forms of all gates, triples of the forms of two gates.
func formsLayers(x *ev.X, f func(l Layer, forms []int)) {
	var one []formed
	for _, g := range []Gate{gAdd(), gMul(), gCopy(), gCipher(gen(63)), gCipher(U(3)), gUser()} {
		for i := range formsOf(g) {
			one = append(one, formed{g, i})
		}
	}
	for _, a := range one {
		for _, b := range one {
			f(Layer{w(a.g, 0, 1, 0), w(b.g, 1, 1, 0)}, []int{a.f, b.f})
		}
	}
	var two []formed
	for _, g := range []Gate{gMul(), gCipher(gen(63))} {
		for i := range formsOf(g) {
			if x.Thorough || i != 4 && i != 6 {
				two = append(two, formed{g, i})
			}
		}
	}
	for _, a := range two {
		for _, b := range two {
			for _, c := range two {
				f(Layer{w(a.g, 0, 1, 0), w(b.g, 1, 1, 0), w(c.g, 1, 0, 1)}, []int{a.f, b.f, c.f})
			}
		}
	}
}

func formsPhase(x *ev.X, prop string) {
	type item struct {
		l Layer
		f []int
	}
	var all []item
	formsLayers(x, func(l Layer, f []int) { all = append(all, item{l, f}) })
	const step = 24
	for s := 0; s < len(all); s += step {
		s := s
		x.Case(func(t *ev.T) {
			for i := s; i < len(all) && i < s+step; i++ {
				l, f := all[i].l, all[i].f
				formsLayer(t, prop, l, f)
			}
		}, "layers %d.. with gates in several forms, the first one %s", s, layerName(all[s].l))
	}
}

func formsLayer(t *ev.T, prop string, l Layer, f []int) {
	if prop == "C18" {
		c18wires(t, l, formedWires(l, f), func(n int) [][]E { return [][]E{gens(300, n)} })
		t.State(ev.Mix(uint64(f[0]), uint64(f[1]), uint64(len(f)), hashCircuit(Circuit{l})))
		return
	}
	formedLayer(t, prop, l, formedWires(l, f))
	t.State(ev.Mix(uint64(f[0]), uint64(f[1]), uint64(len(f)), hashCircuit(Circuit{l})))
}

// formedLayer looks at the layer l, given as wires, alone and with another one.
func formedLayer(t *ev.T, prop string, l Layer, fw []circuit.Wire) {
	for _, c := range []Circuit{{l}, {l, {w(gMul(), 0, 1, 0), w(gAdd(), 0, 0, 0)}}, {{w(gAdd(), 0, 1, 0), w(gMul(), 0, 1, 1)}, l}} {
		var ws [][]circuit.Wire
		for _, k := range c {
			if len(k) == len(l) && &k[0] == &l[0] {
				ws = append(ws, fw)
			} else {
				ws = append(ws, wiresOf(k))
			}
		}
		if !c.WellFormed() {
			continue
		}
		switch prop {
		case "C06":
			c06one(t, c, circuit.NewCircuit(ws), gens(5, 1<<uint(1+c[0].BGIn())), 2, 1)
		case "C01":
			in := gens(5, 1<<uint(1+c[0].BGIn()))
			proof := c01run(t, c, circuit.NewCircuit(ws), 1, in, 2, 1, 2)
			// the one of the circuit with the usual forms
			qP, q := point(1, c)
			if !eqProof(refProof(proof), c.Prove(in, qP, q)) {
				t.Failf("%s: not the proof of the circuit", circuitName(c))
			}
		}
	}
	if prop == "C08" {
		s := &Instance{VL: gens(10, 4), VR: gens(200, 4), EQ: gens(400, 2)}
		var gs []circuit.Gate
		for i, v := range l {
			s.Gates = append(s.Gates, v.G)
			s.ST = append(s.ST, gens(500+40*i, 4))
			gs = append(gs, fw[i].Gate)
		}
		tr := s.Prove()
		p := sumcheck.NewSingleThreadedProver(bkt(Copy(s.VL)), bkt(Copy(s.VR)), bkt(Copy(s.EQ)), gs, bkts(Copy2(s.ST)))
		m := sumcheck.NewMultiThreadedProver(bkts(Chunk(s.VL, 2)), bkts(Chunk(s.VR, 2)), bkts(Chunk(s.EQ, 2)), gs, bkts(Copy2(s.ST)))
		if p.GetClaim() != tr.Claim || m.GetClaim(2) != tr.Claim {
			t.Failf("%s, the claim of gates in several forms is wrong", layerName(l))
		}
		pr, _, _, _, _ := p.Prove()
		mr, _, _, _, _ := m.Prove(2)
		if len(pr.PolyCoeffs) != len(tr.Proof) || len(mr.PolyCoeffs) != len(tr.Proof) {
			t.Failf("%s, %d and %d polynomials", layerName(l), len(pr.PolyCoeffs), len(mr.PolyCoeffs))
		}
		for i := range tr.Proof {
			if !samePoly(pr.PolyCoeffs[i], tr.Proof[i]) || !samePoly(mr.PolyCoeffs[i], tr.Proof[i]) {
				t.Failf("%s, wrong polynomial %d of gates in several forms", layerName(l), i)
			}
		}
		t.Trans(4)
		t.Trace()
	}
}

type namedGate struct {
	circuit.Gate
	name string
}

func (g namedGate) ID() string { return g.name }

// names: gates are told apart by their identifiers, whatever these are.
func names(x *ev.X, prop string) {
	long := strings.Repeat("gate", 300)
	ids := []string{"", " ", "0", "1", "01", "a", "aa", "aaa", "A", "ab", "b", "a,b", "a b", "b,a", "%d", "%!d", "a\n", "a\x00", "\xff", "é", "e\u0301", "add", "Gate", "Gate2", long + "1", long + "2", "1" + long, "2" + long}
	base := []Gate{gMul(), gAdd(), gCopy(), gCipher(gen(63))}
	for i, a := range ids {
		i, a := i, a
		x.Case(func(t *ev.T) {
			for j, b := range ids {
				if i == j {
					continue
				}
				for k := range base {
					if k != 1 && (i+j)%3 != k%3 && !x.Thorough {
						continue
					}
					g, h := base[k], base[(k+1)%len(base)]
					l := Layer{w(g, 0, 1, 0), w(h, 1, 1, 0), w(g, 1, 0, 1)}
					ws := wiresOf(l)
					ws[0].Gate, ws[1].Gate, ws[2].Gate = namedGate{ws[0].Gate, a}, namedGate{ws[1].Gate, b}, namedGate{ws[2].Gate, a}
					if prop == "C18" {
						namesLayer(t, l, ws)
					} else {
						formedLayer(t, prop, l, ws)
					}
					t.State(ev.Mix(uint64(i), uint64(j), uint64(k)))
				}
			}
		}, "gates with identifier %.20q beside each other one", a)
	}
}

func namesLayer(t *ev.T, l Layer, ws []circuit.Wire) {
	cl := circuit.NewLayer(ws)
	want := map[string]Gate{ws[0].Gate.ID(): l[0].G, ws[1].Gate.ID(): l[1].G}
	ok := len(cl.Gates) == 2 && cl.Gates[0].ID() != cl.Gates[1].ID()
	for _, g := range cl.Gates {
		_, in := want[g.ID()]
		ok = ok && in
	}
	if !ok {
		t.Failf("gates %.20q and %.20q: %d gates listed", ws[0].Gate.ID(), ws[1].Gate.ID(), len(cl.Gates))
	}
	q := gens(300, 1)
	for i, tab := range cl.GetStaticTable(q) {
		if !Eq1(tab.Table, l.Static(want[cl.Gates[i].ID()], q)) {
			t.Failf("gates %.20q and %.20q: wrong static table %d", ws[0].Gate.ID(), ws[1].Gate.ID(), i)
		}
	}
	t.Trans(2)
	t.Trace()
}

// degenerate: circuits without layers, layers without wires.
func degenerate(x *ev.X) {
	for _, n := range []int{1, 2, 5} {
		for _, k := range []int{0, 1, 2, 3, 8} {
			n, k := n, k
			x.Case(func(t *ev.T) {
				in := make([][]E, n)
				for i := range in {
					in[i] = gens(3*i, k)
				}
				for _, ls := range [][][]circuit.Wire{nil, {}} {
					c := circuit.NewCircuit(ls)
					a := c.Assign(Copy2(in), 2)
					if len(c.Layers) != 0 || len(a.Values) != 1 || !Eq2(a.Values[0], in) {
						t.Failf("a circuit without layers: %d layers, values %v", len(c.Layers), a.Values)
					}
				}
				for _, ws := range [][]circuit.Wire{nil, {}} {
					l := circuit.NewLayer(ws)
					if l.BGInputs != 0 || l.BGOutputs != 0 || len(l.Gates) != 0 || len(l.Wires) != 0 || len(l.GetStaticTable(nil)) != 0 {
						t.Failf("a layer without wires: %v", l)
					}
					out := l.Evaluate(Copy2(in), 2)
					want := make([][]E, n)
					for i := range want {
						want[i] = make([]E, k)
					}
					if !Eq2(out, want) {
						t.Failf("a layer without wires gives %v", out)
					}
				}
				t.Trans(6)
				t.Trace()
				t.State(ev.Mix(uint64(n), uint64(k)))
			}, "circuits without layers, layers without wires, %d chunks of %d instances", n, k)
		}
	}
}

// c06uneven: batches cut in chunks of any number of instances each, also none.
func c06uneven(x *ev.X) {
	cs := []Circuit{{{w(gMul(), 0, 1, 0)}}, {{w(gMul(), 0, 1, 0), w(gCipher(gen(63)), 1, 0, 1)}, {w(gAdd(), 0, 1, 0)}},
		{{w(gMul(), 0, 2, 1), w(gAdd(), 1, 0, 2), w(gCopy(), 2, 2, 0)}}, {{w(gCopy(), 0, 0, 0)}, {w(gMul(), 0, 0, 1)}}}
	sizes := []int{0, 1, 2, 3, 4, 5, 8}
	for ci, c := range cs {
		for n := 1; n <= 4; n++ {
			ci, c, n := ci, c, n
			al := sizes
			if n == 4 && !x.Thorough {
				al = []int{0, 1, 2, 3, 5}
			}
			for first := range al {
				first := first
				x.Case(func(t *ev.T) {
					cc := circuitOf(c)
					product(len(al), n-1, func(ix []int) {
						ln := append([]int{al[first]}, pick2(al, ix)...)
						inp := make([][]E, n)
						want := make([][][]E, len(c)+1)
						for l := range want {
							want[l] = make([][]E, n)
						}
						for i, k := range ln {
							inp[i] = gens(7*i, k<<uint(c[0].BGIn()))
							for l, v := range c.Assign(inp[i]) {
								want[l][i] = v
							}
						}
						for _, co := range []int{1, 2} {
							a := cc.Assign(inp, co)
							if len(a.Values) != len(want) {
								t.Failf("%s: %d layers of values", circuitName(c), len(a.Values))
							}
							for l := range want {
								if !Eq2(a.Values[l], want[l]) {
									t.Failf("%s, chunks of %v instances, %d cores: values of layer %d are %v, expected %v", circuitName(c), ln, co, l, a.Values[l], want[l])
								}
								for k := 0; k < 2; k++ {
									b := a.LayerAsBKTNoCopy(l)
									if k == 1 {
										b = a.LayerAsBKTWithCopy(l, co)
									}
									if len(b) != n {
										t.Failf("%s, chunks of %v instances: %d tables", circuitName(c), ln, len(b))
									}
									for i := range b {
										if !Eq1(b[i].Table, want[l][i]) {
											t.Failf("%s, chunks of %v instances, %d cores: wrong view %d of layer %d", circuitName(c), ln, co, k, l)
										}
									}
								}
							}
							t.Trans(3)
						}
						t.Trace()
						h := uint64(ci)
						for _, k := range ln {
							h = ev.Mix(h, uint64(k))
						}
						t.State(h)
					})
				}, "%s, %d chunks of any number of instances, the first one of %d", circuitName(c), n, al[first])
			}
		}
	}
}

func pick2(al []int, ix []int) (r []int) {
	for _, i := range ix {
		r = append(r, al[i])
	}
	return
}

// handmade: layers described by hand, wider than their wires make them (as it takes to stack a layer on a wider one),
// their gates in another order, or with one which is not used.
func handmade(x *ev.X, prop string) {
	type lay struct {
		wires   Layer
		in, out int
	}
	ls := []Layer{{w(gMul(), 0, 0, 0)}, {w(gMul(), 0, 1, 0)}, {w(gAdd(), 0, 1, 1), w(gMul(), 1, 1, 0)}, {w(gCipher(gen(63)), 1, 0, 1), w(gCopy(), 0, 1, 1), w(gMul(), 0, 0, 0)},
		{w(gUser(), 1, 2, 2), w(gMul(), 0, 2, 0)}, {w(gAdd(), 0, 0, 3)}}
	build := func(l lay, order int) circuit.Layer {
		r := circuit.NewLayer(wiresOf(l.wires))
		r.BGInputs, r.BGOutputs = l.in, l.out
		gs := append([]circuit.Gate{}, r.Gates...)
		switch order {
		case 1:
			for i, j := 0, len(gs)-1; i < j; i, j = i+1, j-1 {
				gs[i], gs[j] = gs[j], gs[i]
			}
		case 2:
			gs = append([]circuit.Gate{circuit.NewCipherGate(gen(60))}, gs...)
		}
		r.Gates = gs
		return r
	}
	eval := func(l lay, in []E) []E {
		n := len(in) >> uint(l.in)
		out := make([]E, n<<uint(l.out))
		for _, v := range l.wires {
			for h := 0; h < n; h++ {
				out[v.O*n+h] = Add(out[v.O*n+h], v.G.Eval(in[v.L*n+h], in[v.R*n+h]))
			}
		}
		return out
	}
	run := func(t *ev.T, ls []lay, order int) {
		var cc circuit.Circuit
		for _, l := range ls {
			cc.Layers = append(cc.Layers, build(l, order))
		}
		for bN := 0; bN <= 2; bN++ {
			in := gens(5, 1<<uint(bN+ls[0].in))
			vals := [][]E{in}
			for i, l := range ls {
				vals = append(vals, eval(l, vals[i]))
			}
			for _, n := range pow2s(1 << uint(bN)) {
				a := cc.Assign(Chunk(in, n), 2)
				if len(a.Values) != len(vals) {
					t.Failf("%d layers of values", len(a.Values))
				}
				for i := range vals {
					if !Eq2(a.Values[i], Chunk(vals[i], n)) {
						t.Failf("gates in order %d, 2^%d instances, %d chunks: wrong values of layer %d: %v, expected %v", order, bN, n, i, a.Values[i], Chunk(vals[i], n))
					}
				}
				t.Trans(1)
				if prop == "C06" {
					continue
				}
				p := gkr.NewProver(cc, a)
				proof := p.Prove(2)
				v := gkr.NewVerifier(bN, cc)
				out := Chunk(vals[len(ls)], n)
				if !v.Verify(proof, Chunk(in, n), out) {
					t.Failf("gates in order %d, 2^%d instances, %d chunks: honest proof rejected", order, bN, n)
				}
				t.Trans(2)
				if prop == "C03" {
					for s, tabs := range [][][]E{Chunk(in, n), out} {
						for i := range tabs {
							for j := range tabs[i] {
								io := [][][]E{Chunk(in, n), Copy2(out)}
								io[s][i][j] = Add(io[s][i][j], gen(4))
								if v.Verify(proof, io[0], io[1]) {
									t.Failf("gates in order %d, 2^%d instances, %d chunks: accepted with entry %d of chunk %d of the %s changed", order, bN, n, j, i, []string{"inputs", "outputs"}[s])
								}
								t.Trans(1)
							}
						}
					}
				}
			}
		}
		t.Trace()
	}
	for i, l := range ls {
		for e := 0; e < 4; e++ {
			for order := 0; order < 3; order++ {
				i, order := i, order
				a := lay{l, l.BGIn() + e&1, l.BGOut() + e>>1}
				x.Case(func(t *ev.T) {
					run(t, []lay{a}, order)
					t.State(ev.Mix(1, uint64(i), uint64(a.in), uint64(a.out), uint64(order)))
				}, "%s from 2^%d inputs to 2^%d outputs, gates in order %d", layerName(l), a.in, a.out, order)
				for j, m := range ls {
					j := j
					mid := a.out
					if m.BGIn() > mid {
						mid = m.BGIn()
					}
					a, b := lay{l, a.in, mid}, lay{m, mid, m.BGOut() + e>>1}
					x.Case(func(t *ev.T) {
						run(t, []lay{a, b}, order)
						t.State(ev.Mix(2, uint64(i), uint64(j), uint64(a.in), uint64(mid), uint64(b.out), uint64(order)))
					}, "%s then %s, from 2^%d inputs over 2^%d to 2^%d outputs, gates in order %d", layerName(l), layerName(m), a.in, mid, b.out, order)
				}
			}
		}
	}
}
