package props

import (
	"gkr-mimc/circuit"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C18/wirings", c18wirings)
	ev.Register("C18/complete", c18complete)
}

func c18layer(t *ev.T, l Layer, points func(n int) [][]E) { c18wires(t, l, wiresOf(l), points) }

// c18wires looks at the layer l, given as wires.
func c18wires(t *ev.T, l Layer, ws []circuit.Wire, points func(n int) [][]E) {
	cl := circuit.NewLayer(ws)
	bgi, bgo := l.BGIn(), l.BGOut()
	if cl.BGInputs != bgi || cl.BGOutputs != bgo {
		t.Failf("%s: widths 2^%d -> 2^%d, expected 2^%d -> 2^%d", layerName(l), cl.BGInputs, cl.BGOutputs, bgi, bgo)
	}
	want := map[string]Gate{}
	for _, g := range l.Gates() {
		want[gateOf(g).ID()] = g
	}
	seen := map[string]bool{}
	for _, g := range cl.Gates {
		if seen[g.ID()] {
			t.Failf("%s: gate %s listed twice", layerName(l), g.ID())
		}
		seen[g.ID()] = true
		if _, ok := want[g.ID()]; !ok {
			t.Failf("%s: unexpected gate %s", layerName(l), g.ID())
		}
	}
	if len(seen) != len(want) {
		t.Failf("%s: %d gates listed, expected %d", layerName(l), len(seen), len(want))
	}
	for i, w := range cl.Wires {
		if w.L != l[i].L || w.R != l[i].R || w.O != l[i].O || w.Gate.ID() != gateOf(l[i].G).ID() {
			t.Failf("%s: wire %d changed", layerName(l), i)
		}
	}
	if len(cl.Wires) != len(l) {
		t.Failf("%s: number of wires changed", layerName(l))
	}
	t.Trans(1)
	for _, q := range points(bgo) {
		in, ok := guarded(q)
		for rep := 0; rep < 2; rep++ {
			tabs := cl.GetStaticTable(in)
			if len(tabs) != len(cl.Gates) {
				t.Failf("%s: %d static tables for %d gates", layerName(l), len(tabs), len(cl.Gates))
			}
			for i, g := range cl.Gates {
				if w := l.Static(want[g.ID()], q); !Eq1(tabs[i].Table, w) {
					t.Failf("%s: static table of %s at q=%s is %s, expected %s", layerName(l), g.ID(), str(q...), str(tabs[i].Table...), str(w...))
				}
				// what the caller does with a table must not affect the next ones
				for k := range tabs[i].Table {
					tabs[i].Table[k] = gen(1)
				}
			}
			t.Trans(1)
		}
		if !ok() {
			t.Failf("%s: building the static tables modified the point", layerName(l))
		}
	}
	t.Trace()
	h := uint64(17)
	for _, w := range l {
		h = hashE(ev.Mix(h, uint64(w.L), uint64(w.R), uint64(w.O), uint64(w.G.Kind)), w.G.Ark)
	}
	t.State(h)
}

func c18points(n int) [][]E {
	var r [][]E
	if n <= 2 {
		product(2, n, func(ix []int) { r = append(r, pick([]E{U(0), U(1)}, ix)) })
	}
	r = append(r, gens(300, n))
	if n > 0 {
		v := gens(310, n)
		v[0] = U(0)
		w := gens(320, n)
		w[n-1] = I(-1)
		r = append(r, v, w)
	}
	return r
}

func c18wirings(x *ev.X) {
	mk := func(li, ri, oi []int, gs []Gate) []Wire {
		var r []Wire
		for _, g := range gs {
			for _, o := range oi {
				for _, l := range li {
					for _, rr := range ri {
						r = append(r, Wire{L: l, R: rr, O: o, G: g})
					}
				}
			}
		}
		return r
	}
	g5 := []Gate{{Kind: KAdd}, {Kind: KMul}, {Kind: KCopy}, {Kind: KCipher, Ark: U(3)}, {Kind: KCipher, Ark: gen(63)}}
	one := mk([]int{0, 1, 2, 3, 4, 5, 7, 8}, []int{0, 1, 2, 3, 4, 5, 7, 8}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, g5)
	for s := 0; s < len(one); s += 100 {
		s := s
		x.Case(func(t *ev.T) {
			for i := s; i < len(one) && i < s+100; i++ {
				c18layer(t, Layer{one[i]}, c18points)
			}
		}, "single wires %d.. (indices up to 8/9, all gates)", s)
	}
	two := mk([]int{0, 1, 2}, []int{0, 1, 3}, []int{0, 1, 2}, []Gate{g5[0], g5[1], g5[3], g5[4]})
	for i := range two {
		i := i
		x.Case(func(t *ev.T) {
			for j := range two {
				c18layer(t, Layer{two[i], two[j]}, c18points)
			}
		}, "all pairs of wires starting with %s", layerName(Layer{two[i]}))
	}
	three := mk([]int{0, 1}, []int{0, 1}, []int{0, 1}, []Gate{g5[0], g5[3], g5[4]})
	if !x.Thorough {
		three = mk([]int{0, 1}, []int{0, 1}, []int{0, 1}, []Gate{g5[0], g5[4]})
	}
	pts := func(n int) [][]E { return [][]E{gens(300, n)} }
	for i := range three {
		for j := range three {
			i, j := i, j
			x.Case(func(t *ev.T) {
				for k := range three {
					c18layer(t, Layer{three[i], three[j], three[k]}, pts)
					if x.Thorough {
						for m := range three {
							c18layer(t, Layer{three[i], three[j], three[k], three[m]}, pts)
						}
					}
				}
			}, "all triples of wires starting with %s", layerName(Layer{three[i], three[j]}))
		}
	}
	// wide layers: every index pattern of fan-in, fan-out
	for w := 1; w <= 12; w++ {
		w := w
		x.Case(func(t *ev.T) {
			for st := 1; st <= 5; st++ {
				for m := 1; m <= w; m++ {
					var l Layer
					for i := 0; i < w; i++ {
						l = append(l, Wire{L: i * st % w, R: (i + st) % m, O: i % m, G: g5[i%5]})
					}
					c18layer(t, l, c18points)
				}
			}
		}, "wide layers of %d wires", w)
	}
}

// small field: every output point
func c18complete(x *ev.X) {
	al := all()
	gs := []Gate{{Kind: KAdd}, {Kind: KCipher, Ark: U(2)}}
	var ws []Wire
	for _, g := range gs {
		for o := 0; o < 3; o++ {
			for l := 0; l < 2; l++ {
				for r := 0; r < 2; r++ {
					ws = append(ws, Wire{L: l, R: r, O: o, G: g})
				}
			}
		}
	}
	pts := func(n int) [][]E {
		var r [][]E
		product(P, n, func(ix []int) { r = append(r, pick(al, ix)) })
		return r
	}
	for i := range ws {
		i := i
		x.Case(func(t *ev.T) {
			for j := range ws {
				c18layer(t, Layer{ws[i], ws[j]}, pts)
			}
		}, "field of %d elements: all pairs of wires starting with %s, at every output point", P, layerName(Layer{ws[i]}))
	}
}
