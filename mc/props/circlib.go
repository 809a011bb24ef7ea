package props

import (
	"gkr-mimc/gkr"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy/bn256/fr"

	. "verif/mc/ref"
)

func gAdd() Gate                 { return Gate{Kind: KAdd} }
func gMul() Gate                 { return Gate{Kind: KMul} }
func gCopy() Gate                { return Gate{Kind: KCopy} }
func gCipher(a E) Gate           { return Gate{Kind: KCipher, Ark: a} }
func gUser() Gate                { return Gate{Kind: KUser} }
func w(g Gate, l, r, o int) Wire { return Wire{L: l, R: r, O: o, G: g} }

// gates4 is the gate alphabet.
func gates4() []Gate { return []Gate{gAdd(), gMul(), gCopy(), gCipher(gen(63))} }

// wires enumerates all wires with indices in the given ranges.
func wires(gs []Gate, nl, nr, no int) []Wire {
	var r []Wire
	for _, g := range gs {
		for o := 0; o < no; o++ {
			for l := 0; l < nl; l++ {
				for rr := 0; rr < nr; rr++ {
					r = append(r, w(g, l, rr, o))
				}
			}
		}
	}
	return r
}

// singleLayers: every layer of one or two wires with indices in {0,1} and the four gates.
func singleLayers() []Layer {
	ws := wires(gates4(), 2, 2, 2)
	var r []Layer
	for i := range ws {
		r = append(r, Layer{ws[i]})
	}
	for i := range ws {
		for j := i; j < len(ws); j++ {
			r = append(r, Layer{ws[i], ws[j]})
		}
	}
	return r
}

// wideLayers have more wires, widths up to 4, several gates, duplicates, unused indices, fan-in and fan-out.
func wideLayers() []Layer {
	c1, c2 := gCipher(U(3)), gCipher(gen(64))
	return []Layer{
		{w(gAdd(), 0, 3, 0), w(gMul(), 1, 2, 1), w(gAdd(), 2, 2, 2), w(c1, 3, 0, 3)},
		{w(gMul(), 0, 1, 0), w(gMul(), 2, 3, 1)},
		{w(gAdd(), 3, 0, 0), w(gAdd(), 3, 0, 0), w(gMul(), 2, 1, 0)},
		{w(c1, 2, 0, 1), w(c2, 0, 2, 0), w(c1, 1, 0, 1)},
		{w(gCopy(), 3, 0, 0), w(gCopy(), 2, 1, 1), w(gCopy(), 1, 2, 2), w(gCopy(), 0, 3, 3)},
		{w(gMul(), 3, 3, 5), w(gAdd(), 0, 1, 2)},
		{w(gAdd(), 0, 1, 3)},
		{w(gMul(), 0, 0, 3), w(c1, 1, 0, 0)},
		{w(gAdd(), 0, 0, 0), w(gAdd(), 0, 0, 1), w(gMul(), 0, 0, 2), w(c2, 0, 0, 3)},
		{w(gAdd(), 4, 1, 0), w(gMul(), 7, 6, 1), w(c1, 5, 2, 0)},
		{w(c1, 0, 1, 0), w(gMul(), 0, 1, 0), w(gAdd(), 0, 1, 0), w(gCopy(), 0, 1, 0), w(c2, 0, 1, 0)},
		// gates which the caller defines
		{w(gUser(), 0, 0, 0)},
		{w(gUser(), 1, 0, 0), w(gMul(), 0, 1, 1)},
		{w(gCopy(), 1, 0, 0), w(gUser(), 0, 1, 1), w(gUser(), 1, 0, 1), w(c1, 0, 1, 0)},
	}
}

// userGate is a gate of the caller's own, of higher degree on the left than on the right.
type userGate struct{}

func (userGate) ID() string { return "UserGate" }

func (userGate) Eval(res, vL, vR *fr.Element) { *res = gUser().Eval(*vL, *vR) }

func (userGate) GnarkEval(cs *frontend.ConstraintSystem, vL, vR frontend.Variable) frontend.Variable {
	c := cs.Mul(cs.Mul(cs.Mul(vL, vL), vL), vR)
	return cs.Add(c, cs.Mul(5, cs.Mul(vR, vR)), cs.Constant(2))
}

func (g userGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	for i := range vRs {
		g.Eval(&res[i], vL, &vRs[i])
	}
}

func (g userGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	for i := range vLs {
		g.Eval(&res[i], &vLs[i], vR)
	}
}

func (userGate) Degrees() (degHL, degHR, degHPrime int) { return 3, 2, 4 }

// chainLayers is the alphabet of layers used to build deeper circuits.
func chainLayers() []Layer {
	c1, c2 := gCipher(U(3)), gCipher(gen(64))
	return []Layer{
		// 1 -> 1
		{w(gMul(), 0, 0, 0)},
		{w(gAdd(), 0, 0, 0), w(c1, 0, 0, 0)},
		// 1 -> 2
		{w(gAdd(), 0, 0, 0), w(gMul(), 0, 0, 1)},
		{w(c1, 0, 0, 1)},
		// 2 -> 1
		{w(gAdd(), 0, 1, 0)},
		{w(c1, 1, 0, 0)},
		{w(gMul(), 1, 0, 0), w(gMul(), 0, 1, 0), w(gAdd(), 1, 1, 0)},
		// 2 -> 2
		{w(gAdd(), 0, 1, 0), w(gMul(), 0, 1, 1)},
		{w(c1, 1, 0, 0), w(gCopy(), 1, 0, 1)},
		{w(c1, 1, 0, 1), w(c2, 0, 1, 0)},
		{w(gMul(), 1, 1, 0), w(gMul(), 0, 0, 1), w(gMul(), 1, 0, 0)},
		// 2 -> 4
		{w(gAdd(), 0, 1, 0), w(gMul(), 0, 1, 1), w(gCopy(), 1, 0, 2), w(c2, 1, 0, 3)},
		{w(gMul(), 1, 0, 2)},
		// 4 -> 1
		{w(gMul(), 3, 0, 0), w(gAdd(), 1, 2, 0)},
		// 4 -> 2
		{w(gMul(), 0, 3, 0), w(gAdd(), 1, 2, 1)},
		{w(c1, 2, 1, 0), w(c1, 3, 0, 1), w(gCopy(), 0, 3, 1)},
		// 4 -> 4
		{w(gMul(), 0, 1, 0), w(gMul(), 2, 3, 1), w(gAdd(), 0, 2, 2), w(c2, 3, 1, 3)},
	}
}

// userChains is an alphabet of layers with gates which the caller defines.
func userChains() []Layer {
	a, wd := chainLayers(), wideLayers()
	return []Layer{wd[11], wd[12], wd[13], a[2], a[5], a[8]}
}

// chains enumerates every well-formed circuit of the given depth over an alphabet of layers.
func chains(alpha []Layer, depth int) []Circuit {
	cur := []Circuit{{}}
	for d := 0; d < depth; d++ {
		var nxt []Circuit
		for _, c := range cur {
			for _, l := range alpha {
				if d > 0 && c[d-1].BGOut() != l.BGIn() {
					continue
				}
				nxt = append(nxt, append(append(Circuit{}, c...), l))
			}
		}
		cur = nxt
	}
	return cur
}

// smallChains is a subset of layers for depth 3 and 4.
func smallChains() []Layer {
	a := chainLayers()
	return []Layer{a[0], a[2], a[5], a[7], a[8], a[10]}
}

func point(bN int, c Circuit) ([]E, []E) {
	return gkr.GetInitialQPrimeAndQ(bN, c[len(c)-1].BGOut())
}

func hashCircuit(c Circuit) uint64 {
	h := uint64(len(c))
	for _, l := range c {
		for _, x := range l {
			h = hashE(h*31+uint64(x.L+8*x.R+64*x.O+512*x.G.Kind), x.G.Ark)
		}
		h = h*1000003 + 7
	}
	return h
}
