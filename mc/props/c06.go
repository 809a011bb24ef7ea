package props

import (
	"gkr-mimc/circuit"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C06/assign", c06assign)
	ev.Register("C06/large", c06large)
	ev.Register("C06/complete", c06complete)
}

func c06circuits(thorough bool) []Circuit {
	var cs []Circuit
	for _, l := range singleLayers() {
		cs = append(cs, Circuit{l})
	}
	for _, l := range wideLayers() {
		cs = append(cs, Circuit{l})
	}
	cs = append(cs, chains(chainLayers(), 1)...)
	cs = append(cs, chains(chainLayers(), 2)...)
	cs = append(cs, chains(chainLayers(), 3)...)
	if thorough {
		cs = append(cs, chains(chainLayers(), 4)...)
	} else {
		cs = append(cs, chains(smallChains(), 4)...)
	}
	return cs
}

func c06assign(x *ev.X) {
	for _, c := range c06circuits(x.Thorough) {
		c := c
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			mb := 3
			if len(c) > 2 && !x.Thorough {
				mb = 2
			}
			for bN := 0; bN <= mb; bN++ {
				for ip, in := range patterns(1<<uint(bN+c[0].BGIn()), 0) {
					if ip > 1 && bN > 1 && !x.Thorough {
						continue
					}
					for _, n := range pow2s(1 << uint(bN)) {
						for _, co := range []int{1, 2, 3, 64} {
							if co > 2 && ip > 0 {
								continue
							}
							c06one(t, c, cc, in, n, co)
						}
					}
				}
			}
		}, "assignment and views of %s", circuitName(c))
	}
}

func c06one(t *ev.T, c Circuit, cc circuit.Circuit, in []E, n, co int) {
	want := c.Assign(in)
	inp := Chunk(in, n)
	var oks []func() bool
	for i := range inp {
		var ok func() bool
		inp[i], ok = guarded(inp[i])
		oks = append(oks, ok)
	}
	a := cc.Assign(inp, co)
	check := func(when string) {
		if len(a.Values) != len(c)+1 {
			t.Failf("%s: %d layers of values instead of %d", circuitName(c), len(a.Values), len(c)+1)
		}
		for l := range want {
			if !Eq2(a.Values[l], Chunk(want[l], n)) {
				t.Failf("%s: values of layer %d are wrong %s, %d chunks, %d cores, inputs %s: %v, expected %v", circuitName(c), l, when, n, co, str(in...), a.Values[l], Chunk(want[l], n))
			}
		}
		for i, ok := range oks {
			if !ok() {
				t.Failf("%s: chunk %d of the inputs was modified %s", circuitName(c), i, when)
			}
		}
	}
	check("after Assign")
	for l := range want {
		w := Chunk(want[l], n)
		v := a.LayerAsBKTNoCopy(l)
		if len(v) != n {
			t.Failf("%s: view of layer %d has %d tables, expected %d", circuitName(c), l, len(v), n)
		}
		for i := range v {
			if !Eq1(v[i].Table, w[i]) {
				t.Failf("%s: non-copying view of layer %d, chunk %d is wrong", circuitName(c), l, i)
			}
		}
		v1, v2 := a.LayerAsBKTWithCopy(l, co), a.LayerAsBKTWithCopy(l, co+1)
		if len(v1) != n || len(v2) != n {
			t.Failf("%s: copy of layer %d has %d tables, expected %d", circuitName(c), l, len(v1), n)
		}
		for i := range v1 {
			if !Eq1(v1[i].Table, w[i]) || !Eq1(v2[i].Table, w[i]) {
				t.Failf("%s: copying view of layer %d, chunk %d is wrong (%d chunks, %d cores)", circuitName(c), l, i, n, co)
			}
			// overwrite the whole copy, including what append would reach
			tab := v1[i].Table
			tab = tab[:cap(tab)]
			for k := range tab {
				tab[k] = gen(8)
			}
		}
		check("after writing into the copying view")
		for i := range v2 {
			if !Eq1(v2[i].Table, w[i]) {
				t.Failf("%s: two copying views of layer %d share memory", circuitName(c), l)
			}
		}
		t.Trans(4)
	}
	// a layer alone
	for l := range c {
		layer := cc.Layers[l]
		got := layer.Evaluate(Chunk(want[l], n), co)
		if !Eq2(got, Chunk(want[l+1], n)) {
			t.Failf("%s: Evaluate of layer %d is wrong (%d chunks, %d cores)", circuitName(c), l, n, co)
		}
		// what the caller does with the result must not reach the assignment
		for i := range got {
			for k := range got[i] {
				got[i][k] = gen(9)
			}
		}
		t.Trans(1)
	}
	check("after evaluating layers alone")
	t.Trace()
	t.State(hashE(ev.Mix(hashCircuit(c), uint64(n), uint64(co)), in...))
	t.Outcome(hashE(1, want[len(c)]...))
}

func c06large(x *ev.X) {
	cs := append(chains(smallChains(), 2), Circuit{wideLayers()[9]}, Circuit{wideLayers()[0]})
	for _, c := range cs {
		for _, bN := range []int{5, 8, 13} {
			for _, n := range []int{1, 4, 32, 1 << uint(bN)} {
				for _, co := range []int{1, 3, 8, 1000} {
					if n > 256 && (co != 3 || !x.Thorough) || bN == 13 && (len(c) > 1 || co != 3) {
						continue
					}
					c, bN, n, co := c, bN, n, co
					x.Case(func(t *ev.T) {
						in := make([]E, 1<<uint(bN+c[0].BGIn()))
						g := gen(3)
						for i := range in {
							in[i] = Mul(g, U(uint64(i*i+1)))
						}
						c06one(t, c, circuitOf(c), in, n, co)
					}, "%s, 2^%d instances, %d chunks, %d cores", circuitName(c), bN, n, co)
				}
			}
		}
	}
	// the application's circuit
	c := mimcRef()
	for bN := 0; bN <= 4; bN++ {
		for _, n := range pow2s(1 << uint(bN)) {
			for _, co := range []int{1, 2, 5} {
				bN, n, co := bN, n, co
				x.Case(func(t *ev.T) { c06one(t, c, circuitOf(c), gens(0, 2<<uint(bN)), n, co) }, "MiMC circuit, 2^%d instances, %d chunks, %d cores", bN, n, co)
			}
		}
	}
}

func c06complete(x *ev.X) {
	al := all()
	var ls []Layer
	for _, l := range wires([]Gate{gAdd(), gMul(), gCopy(), gCipher(U(2))}, 2, 2, 2) {
		ls = append(ls, Layer{l})
	}
	ls = append(ls, chainLayers()[9], chainLayers()[6])
	for _, l := range ls {
		c := Circuit{l}
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			product(P, 2<<0, func(ix []int) {
				in := pick(al, ix)
				if c[0].BGIn() == 0 {
					c06one(t, c, cc, in[:1], 1, 1)
				} else {
					c06one(t, c, cc, in, 1, 2)
				}
			})
			if c[0].BGIn() == 0 {
				product(P, 2, func(ix []int) { c06one(t, c, cc, pick(al, ix), 2, 2) })
			}
		}, "field of %d elements: %s on all inputs", P, circuitName(c))
	}
}
