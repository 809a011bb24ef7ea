package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	sg "gkr-mimc/snark/gkr"
	sp "gkr-mimc/snark/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gnark/frontend"
)

// In-circuit layers other than those of the MiMC circuit, and a circuit of two outputs.

func init() {
	ev.Register("C23/layers", c23layers)
	ev.Register("C23/outputs", c23outputs)
}

// tableOf generates the static table of a gate in a layer, folded on its output.
func tableOf(l Layer, g Gate) sg.StaticTableGenerator {
	return func(cs csys, q []frontend.Variable) sp.MultilinearByValues {
		b := l.BGIn()
		tab := make([]frontend.Variable, 1<<uint(2*b))
		for i := range tab {
			tab[i] = cs.Constant(0)
		}
		for _, wi := range l {
			if wi.G != g {
				continue
			}
			term := cs.Constant(1)
			for j := range q {
				if wi.O>>uint(len(q)-1-j)&1 == 1 {
					term = cs.Mul(term, q[j])
				} else {
					term = cs.Mul(term, cs.Sub(1, q[j]))
				}
			}
			k := wi.L<<uint(b) + wi.R
			tab[k] = cs.Add(tab[k], term)
		}
		return sp.NewMultilinearByValues(tab)
	}
}

// keepTables makes the generators of a layer give the same table again for the same point, as they may.
func keepTables(l *sg.Layer) {
	for i := range l.StaticTable {
		f := l.StaticTable[i]
		kept := map[string]sp.MultilinearByValues{}
		l.StaticTable[i] = func(cs csys, q []frontend.Variable) sp.MultilinearByValues {
			k := fmt.Sprintf("%p %v", cs, q)
			if _, ok := kept[k]; !ok {
				kept[k] = f(cs, q)
			}
			return kept[k]
		}
	}
}

// snarkGate is the gate in a circuit, by the function of the native package or that of the in-circuit one.
func snarkGate(g Gate, own bool) sg.Gate {
	switch {
	case own && g.Kind == KCopy:
		return sg.CopyGate()
	case own && g.Kind == KCipher:
		return sg.CipherGate(g.Ark)
	case g.Kind == KAdd:
		return circuit.AddGate{}.GnarkEval
	case g.Kind == KMul:
		return circuit.MulGate{}.GnarkEval
	case g.Kind == KCopy:
		return circuit.CopyGate{}.GnarkEval
	case g.Kind == KCipher:
		return circuit.NewCipherGate(g.Ark).GnarkEval
	}
	return userGate{}.GnarkEval
}

func snarkLayer(l Layer, own bool) sg.Layer {
	var r sg.Layer
	r.BG = l.BGIn()
	for _, g := range l.Gates() {
		a, b, c := g.Deg()
		r.DegHL, r.DegHR, r.DegHPrime = maxInt(r.DegHL, a+1), maxInt(r.DegHR, b+1), maxInt(r.DegHPrime, c+1)
		r.Gates = append(r.Gates, snarkGate(g, own))
		r.StaticTable = append(r.StaticTable, tableOf(l, g))
	}
	return r
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// c23layers: combined evaluations of any layer, against their definition.
func c23layers(x *ev.X) {
	ls := append(wideLayers(), chainLayers()...)
	if x.Thorough {
		ls = append(ls, singleLayers()...)
	}
	for li, l := range ls {
		for _, bN := range []int{0, 1, 3} {
			li, l, bN := li, l, bN
			if bN == 3 && li%3 != 0 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				bo, bi := l.BGOut(), l.BGIn()
				sizes := []int{bo, bo, bN, bi, bi, bN, 4}
				nIn := 2*bo + 2*bN + 2*bi + 4
				lay := snarkLayer(l, li%2 == 0)
				if li%5 >= 2 {
					keepTables(&lay)
				}
				// the lists of the caller lie one after the other in one array
				def := func(cs csys, in vars) vars {
					i := 0
					take := func(n int) vars { i += n; return in[i-n : i] }
					qL, qR, qP, hL, hR, hP, s := take(bo), take(bo), take(bN), take(bi), take(bi), take(bN), take(4)
					if li%3 > 0 {
						// in another order
						lists := []*vars{&hL, &hP, &hR, &s, &qP, &qL, &qR}
						if li%3 == 2 {
							lists = []*vars{&qR, &qL, &hR, &hL, &s, &hP, &qP}
						}
						array := make(vars, 0, len(in))
						for _, l := range lists {
							array = append(array, *l...)
							*l = array[len(array)-len(*l):]
						}
						in = array
					}
					before := append(vars{}, in...)
					a := lay.Combine(cs, qL, qP, hL, hR, hP, s[2], s[3])
					b := lay.CombineWithLinearComb(cs, qL, qR, qP, hL, hR, hP, s[0], s[1], s[2], s[3])
					c := lay.Combine(cs, qR, qP, hL, hR, hP, s[2], s[3])
					d := lay.CombineWithLinearComb(cs, qL, qR, qP, hL, hR, hP, cs.Constant(1), s[1], s[2], s[3])
					for j := range in {
						if fmt.Sprint(in[j]) != fmt.Sprint(before[j]) {
							t.Failf("the lists of the caller have changed (%d)", j)
						}
					}
					return vars{a, b, c, d}
				}
				g := compileGad(t, nIn, 4, def)
				count := 0
				relatedLists(sizes, 1300, func(p [][]E, what string) {
					count++
					if !x.Thorough && nIn > 9 && count > 20 && count%7 != 0 {
						return
					}
					qL, qR, qP, hL, hR, hP, s := p[0], p[1], p[2], p[3], p[4], p[5], p[6]
					var a, b, c, d E
					for _, gt := range l.Gates() {
						v := gt.Eval(s[2], s[3])
						el, er := MLE(l.Static(gt, qL), cat2(hL, hR)), MLE(l.Static(gt, qR), cat2(hL, hR))
						a, c = Add(a, Mul(v, el)), Add(c, Mul(v, er))
						b = Add(b, Mul(v, Add(Mul(s[0], el), Mul(s[1], er))))
						d = Add(d, Mul(v, Add(el, Mul(s[1], er))))
					}
					e := EqEval(qP, hP)
					var in []E
					for _, q := range p {
						in = append(in, q...)
					}
					g.judge(t, in, []E{Mul(a, e), Mul(b, e), Mul(c, e), Mul(d, e)}, nil, "%s", what)
				})
			}, "layer %v, 2^%d instances: combined evaluations", l, bN)
		}
	}
}

// c23outputs: the MiMC circuit whose last layer keeps the copy of its input: two outputs.
func c23outputs(x *ev.X) {
	maxN := 1
	if x.Thorough {
		maxN = 2
	}
	for bN := 0; bN <= maxN; bN++ {
		bN := bN
		x.Case(func(t *ev.T) {
			var ref Circuit
			var desc sg.Circuit
			for l := 0; l < hash.MimcRounds; l++ {
				k := gCipher(hash.Arks[l])
				ref = append(ref, Layer{w(k, 1, 0, 0), w(gCopy(), 1, 0, 1)})
				desc.Layers = append(desc.Layers, snarkLayer(ref[l], true))
			}
			desc.BGOut = 1
			nc := circuitOf(ref)
			alloc := func() *c23circ {
				return &c23circ{
					Circuit: desc, Proof: sg.AllocateProof(bN, desc),
					QInitial: make([]frontend.Variable, 1), QInitialprime: make([]frontend.Variable, bN),
					VInput: sp.AllocateMultilinear(bN + 1), VOutput: sp.AllocateMultilinear(bN + 1),
				}
			}
			r := compile(t, alloc())
			qP, q := gkr.GetInitialQPrimeAndQ(bN, 1)
			in := gens(40, 2<<uint(bN))
			vals := ref.Assign(in)
			out := vals[len(vals)-1]
			as := nc.Assign(Chunk(in, 1), 1)
			pr := gkr.NewProver(nc, as)
			honest := refProof(pr.Prove(1))
			judge := func(p Proof, in, out []E, what string) bool {
				v := gkr.NewVerifier(bN, nc)
				want := v.Verify(proofOf(p), Chunk(in, 1), Chunk(out, 1))
				if rel := ref.Accepts(bN, p, in, out, qP, q); rel != want {
					t.Failf("native verifier %v, relations %v: %s", want, rel, what)
				}
				c := alloc()
				c.Proof.Assign(proofOf(p))
				for i := range qP {
					c.QInitialprime[i].Assign(qP[i])
				}
				c.QInitial[0].Assign(q[0])
				c.VInput.AssignFromChunkedBKT(Chunk(in, 1<<uint(bN)))
				c.VOutput.AssignFromChunkedBKT(Chunk(out, 1<<uint(bN)))
				wi, err := frontend.ParseWitness(c)
				if err != nil {
					t.Failf("witness: %v", err)
				}
				if got := isSolved(t, r, wi); got != want {
					t.Failf("in-circuit verifier satisfied: %v, native verifier: %v: %s", got, want, what)
				}
				t.Step(ev.Mix(hashProof(p), hashE(1, in...), hashE(2, out...)))
				return want
			}
			if !judge(honest, in, out, "honest proof") {
				t.Failf("the native proof is rejected by both verifiers")
			}
			alter := func(v []E, f func(what string)) {
				for i := range v {
					o := v[i]
					v[i] = Add(o, U(1))
					f(fmt.Sprintf("%d altered", i))
					v[i] = o
				}
				if len(v) > 1 {
					v[0], v[len(v)-1] = v[len(v)-1], v[0]
					f("exchanged")
					v[0], v[len(v)-1] = v[len(v)-1], v[0]
				}
			}
			alter(in, func(what string) { judge(honest, in, out, "input "+what) })
			alter(out, func(what string) { judge(honest, in, out, "output "+what) })
			for _, l := range []int{0, 1, 45, 89, 90} {
				l := l
				p := honest.Clone()
				alter(p.CL[l:l+1], func(what string) { judge(p, in, out, fmt.Sprintf("left claim %d", l)) })
				alter(p.CR[l:l+1], func(what string) { judge(p, in, out, fmt.Sprintf("right claim %d", l)) })
				for rd := range p.SC[l] {
					alter(p.SC[l][rd], func(what string) { judge(p, in, out, fmt.Sprintf("layer %d round %d: coefficient %s", l, rd, what)) })
				}
			}
			lie := Copy(out)
			lie[len(lie)-1] = Add(lie[len(lie)-1], U(1))
			for ci, at := range ref.Checks(bN) {
				if at.Layer > 0 && at.Layer < 90 && ci%41 != 0 {
					continue
				}
				if p, ok := ref.Forge(in, MLE(lie, cat2(q, qP)), qP, q, at, false); ok {
					if judge(p, in, lie, fmt.Sprintf("proof breaking only %v", at)) {
						t.Failf("reference error: forged proof accepted")
					}
				}
			}
		}, "2^%d instances, the last layer also giving its left input: honest proof, altered values, forged proofs", bN)
	}
}
