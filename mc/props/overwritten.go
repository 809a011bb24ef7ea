package props

import (
	"strings"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	sg "gkr-mimc/snark/gkr"
	"verif/mc/ev"
	. "verif/mc/ref"
)

// What the caller does with a circuit or a layer it was given must not show in those created later, nor in those
// created before.

func init() {
	ev.Register("C18/overwritten", c18overwritten)
	ev.Register("C19/overwritten", c19overwritten)
	ev.Register("C23/overwritten", c23overwritten)
}

var overwriteLayer = []struct {
	name string
	f    func(l *circuit.Layer)
}{
	{"wires", func(l *circuit.Layer) {
		for i := range l.Wires {
			l.Wires[i].L, l.Wires[i].R, l.Wires[i].O = l.Wires[i].R, l.Wires[i].L, 1-l.Wires[i].O&1
		}
	}},
	{"gates of the wires", func(l *circuit.Layer) {
		for i := range l.Wires {
			l.Wires[i].Gate = circuit.AddGate{}
		}
	}},
	{"constants of the gates", func(l *circuit.Layer) {
		for i := range l.Wires {
			if g, ok := l.Wires[i].Gate.(*circuit.CipherGate); ok {
				g.Ark = gen(77)
			}
		}
	}},
	{"constants of the listed gates", func(l *circuit.Layer) {
		for i := range l.Gates {
			if g, ok := l.Gates[i].(*circuit.CipherGate); ok {
				g.Ark = gen(78)
			}
		}
	}},
	{"listed gates", func(l *circuit.Layer) {
		for i := range l.Gates {
			l.Gates[i] = circuit.MulGate{}
		}
	}},
	{"widths", func(l *circuit.Layer) { l.BGInputs, l.BGOutputs = 2, 2 }},
	{"appended wires and gates", func(l *circuit.Layer) {
		if cap(l.Wires) > len(l.Wires) {
			_ = append(l.Wires, circuit.Wire{Gate: circuit.MulGate{}})
		}
		_ = append(l.Gates, circuit.MulGate{})
	}},
}

// freshLayer: the layer with gates of its own.
func freshLayer(l Layer) circuit.Layer {
	ws := make([]circuit.Wire, len(l))
	for i, y := range wiresOf(l) {
		ws[i] = y
		if c, ok := y.Gate.(*circuit.CipherGate); ok {
			ws[i].Gate = circuit.NewCipherGate(c.Ark)
		}
	}
	return circuit.NewLayer(ws)
}

func c18overwritten(x *ev.X) {
	ls := chainLayers()
	for i := range ls {
		i := i
		x.Case(func(t *ev.T) {
			for j := range ls {
				for _, o := range overwriteLayer {
					kept := freshLayer(ls[j])
					a := freshLayer(ls[i])
					c18layer(t, ls[i], c18points)
					o.f(&a)
					c18layer(t, ls[i], c18points)
					c18layer(t, ls[j], c18points)
					// the one created before
					q := gens(3, ls[j].BGOut())
					if kept.BGInputs != ls[j].BGIn() || kept.BGOutputs != ls[j].BGOut() || len(kept.Gates) != len(ls[j].Gates()) {
						t.Failf("overwriting the %s of %s changed another layer %s", o.name, layerName(ls[i]), layerName(ls[j]))
					}
					tabs := kept.GetStaticTable(q)
					for k, g := range kept.Gates {
						for _, rg := range ls[j].Gates() {
							if gateOf(rg).ID() == g.ID() && !Eq1(tabs[k].Table, ls[j].Static(rg, q)) {
								t.Failf("overwriting the %s of %s changed the tables of another layer %s", o.name, layerName(ls[i]), layerName(ls[j]))
							}
						}
					}
					t.Step(ev.Mix(uint64(i), uint64(j), uint64(len(o.name))))
				}
			}
		}, "layers created before and after overwriting layer %d", i)
	}
}

func c19overwritten(x *ev.X) {
	type op struct {
		name string
		f    func(c *circuit.Circuit)
	}
	ops := []op{
		{"nothing", func(c *circuit.Circuit) {}},
		{"the order of the layers", func(c *circuit.Circuit) {
			for i, j := 0, len(c.Layers)-1; i < j; i, j = i+1, j-1 {
				c.Layers[i], c.Layers[j] = c.Layers[j], c.Layers[i]
			}
		}},
		{"the number of layers", func(c *circuit.Circuit) {
			_ = append(c.Layers[:3], circuit.Layer{}, c.Layers[0])
			c.Layers = c.Layers[:4]
		}},
	}
	for _, o := range overwriteLayer {
		o := o
		if strings.HasPrefix(o.name, "constants") {
			// circuits may share the gates
			continue
		}
		ops = append(ops, op{"the " + o.name, func(c *circuit.Circuit) {
			for i := range c.Layers {
				o.f(&c.Layers[i])
			}
		}})
		ops = append(ops, op{"the " + o.name + " of one layer", func(c *circuit.Circuit) { o.f(&c.Layers[17]) }})
	}
	st, bl := gens(3, 4), gens(20, 4)
	for i := range ops {
		i := i
		x.Case(func(t *ev.T) {
			for j := range ops {
				name := ops[i].name + ", then " + ops[j].name
				kept := examples.CreateMimcCircuit()
				a := examples.CreateMimcCircuit()
				ops[i].f(&a)
				b := examples.CreateMimcCircuit()
				c19check(t, b, st, bl, 2, 2)
				ops[j].f(&b)
				c19check(t, kept, st, bl, 1, 1)
				c := examples.CreateMimcCircuit()
				for l, w := range mimcRef() {
					y := c.Layers[l]
					if y.BGInputs != w.BGIn() || y.BGOutputs != w.BGOut() || len(y.Gates) != len(w.Gates()) || len(y.Wires) != len(w) {
						t.Failf("after overwriting %s of circuits created before, layer %d of a new circuit has another shape", name, l)
					}
				}
				if len(c.Layers) != 91 {
					t.Failf("after overwriting %s of circuits created before, a new circuit has %d layers", name, len(c.Layers))
				}
				in := c19inputs(st, bl)
				v := c.Assign(Chunk(in, 2), 2)
				if !Eq2(v.Values[91], Chunk(c19want(st, bl), 2)) {
					t.Failf("after overwriting %s of circuits created before, a new circuit computes other values", name)
				}
				for l, w := range mimcRef() {
					q := gens(3, w.BGOut())
					tabs := c.Layers[l].GetStaticTable(q)
					for k, g := range c.Layers[l].Gates {
						for _, rg := range w.Gates() {
							if gateOf(rg).ID() == g.ID() && !Eq1(tabs[k].Table, w.Static(rg, q)) {
								t.Failf("after overwriting %s of circuits created before, layer %d of a new circuit has other tables", name, l)
							}
						}
					}
				}
				if j < 3 {
					c01run(t, mimcRef(), c, 1, c19inputs(st[:2], bl[:2]), 2, 2, 2)
				}
				t.Step(ev.Mix(uint64(i), uint64(j)))
			}
			t.Trace()
		}, "circuits created before and after overwriting %s of one and then something of another", ops[i].name)
	}
}

func c23overwritten(x *ev.X) {
	type op struct {
		name string
		f    func(l *sg.Layer)
	}
	ops := []op{
		{"gates", func(l *sg.Layer) {
			for i := range l.Gates {
				l.Gates[i] = sg.CopyGate()
			}
		}},
		{"tables", func(l *sg.Layer) {
			for i := range l.StaticTable {
				l.StaticTable[i] = sg.GetFinalCipherTable
			}
		}},
		{"degrees and width", func(l *sg.Layer) { l.BG, l.DegHL, l.DegHR, l.DegHPrime = 2, 1, 1, 1 }},
		{"appended gates and tables", func(l *sg.Layer) {
			_ = append(l.Gates, sg.CopyGate())
			_ = append(l.StaticTable, sg.GetCopyTable)
		}},
	}
	for oi := range ops {
		for _, l := range []int{0, 1, 45, 89, 90} {
			oi, l := oi, l
			x.Case(func(t *ev.T) {
				kept := sg.CreateMimcCircuit()
				a := sg.CreateMimcCircuit()
				for i := range a.Layers {
					ops[oi].f(&a.Layers[i])
				}
				for i := 0; i < 45; i++ {
					a.Layers[i], a.Layers[90-i] = a.Layers[90-i], a.Layers[i]
				}
				a.Layers = append(a.Layers[:2], sg.Layer{})
				c := sg.CreateMimcCircuit()
				for _, y := range []sg.Circuit{kept, c} {
					if len(y.Layers) != 91 {
						t.Failf("overwriting the %s of a circuit changed another one: %d layers", ops[oi].name, len(y.Layers))
					}
					for i, z := range y.Layers {
						n := 2
						if i == 90 {
							n = 1
						}
						if z.BG != 1 || z.DegHL != 2 || z.DegHR != 8 || z.DegHPrime != 8 || len(z.Gates) != n || len(z.StaticTable) != n {
							t.Failf("overwriting the %s of a circuit changed layer %d of another one", ops[oi].name, i)
						}
					}
				}
				c23static(t, l, 2)
				t.Step(ev.Mix(uint64(oi), uint64(l)))
				t.Trace()
			}, "layer %d of a circuit created after overwriting the %s of another", l, ops[oi].name)
		}
	}
}
