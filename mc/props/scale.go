package props

import (
	"fmt"
	"runtime"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

// The same properties for sizes beyond those the repository itself uses: deep circuits, wide layers, many
// chunks, long messages, many coefficients, large tables; and for every number of processors, where it may matter.

func init() {
	ev.Register("C01/scale", c01scale)
	ev.Register("C02/scale", c02scale)
	ev.Register("C03/scale", c03scale)
	ev.Register("C04/scale", c04scale)
	ev.Register("C05/scale", c05scale)
	ev.Register("C06/scale", c06scale)
	ev.Register("C08/scale", c08scale)
	ev.Register("C09/scale", c09scale)
	ev.Register("C10/scale", c10scale)
	ev.Register("C11/scale", c11scale)
	ev.Register("C12/scale", c12scale)
	ev.Register("C14/scale", c14scale)
	ev.Register("C15/scale", c15scale)
	ev.Register("C16/scale", c16scale)
	ev.Register("C17/scale", c17scale)
	ev.Register("C18/scale", c18scale)
}

var procCounts = []int{1, 2, 3, 4, 5, 6, 7, 8, 16}

// procs runs f with every number of processors.
func procs(ns []int, f func(n int)) {
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	for _, n := range ns {
		runtime.GOMAXPROCS(n)
		f(n)
	}
}

// spread is a table of n different values, fast to make.
func spread(off, n int) []E {
	r := make([]E, n)
	g, h := gen(off), gen(off+1)
	for i := range r {
		r[i] = Add(Mul(g, U(uint64(i)*uint64(i)+7)), h)
	}
	return r
}

// deepCircuits are chains of n layers.
func deepCircuits(ns []int) []namedCircuit {
	a := chainLayers()
	var r []namedCircuit
	mk := func(name string, n int, f func(i int) Layer) {
		var c Circuit
		for i := 0; i < n; i++ {
			c = append(c, f(i))
		}
		if !c.WellFormed() {
			panic(name)
		}
		r = append(r, namedCircuit{fmt.Sprintf("%d layers, %s", n, name), c})
	}
	for _, n := range ns {
		mk("width 1", n, func(i int) Layer { return a[(i+i/7)%2] })
		if n < 200 {
			mk("width 2", n, func(i int) Layer { return a[7+(i+i/5)%4] })
		}
		if n%2 == 0 {
			mk("widths 1, 2", n, func(i int) Layer { return []Layer{a[2], a[5], a[3], a[4]}[i%4] })
		}
	}
	return r
}

var deepSizes = []int{63, 64, 65, 90, 91, 92, 126, 127, 128, 129, 130, 131, 200, 254, 255, 256, 257, 258, 300}

// hugeLayers: more inputs, outputs and wires than bigLayers.
func hugeLayers() []namedLayer {
	mk := func(name string, n int, f func(i int) Wire) namedLayer {
		var l Layer
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return namedLayer{name, l}
	}
	g := manyGates(40)
	return []namedLayer{
		mk("256 to 1", 256, func(i int) Wire { return w(g[i%3], i, 255-i, 0) }),
		mk("1 to 256", 256, func(i int) Wire { return w(g[i%4], 0, 0, i) }),
		mk("128 to 2", 130, func(i int) Wire { return w(g[i%2], i%128, (7*i+3)%128, i%2) }),
		mk("16 to 16, every pair", 256, func(i int) Wire { return w(g[1], i/16, i%16, (i/16+i%16)%16) }),
		mk("4 to 128", 128, func(i int) Wire { return w(g[i%5], i%4, (i/4)%4, i) }),
		mk("2 to 2, 40 gates", 160, func(i int) Wire { return w(g[i%40], i%2, (i/2)%2, (i/4)%2) }),
		mk("2 to 1, 300 wires", 300, func(i int) Wire { return w(g[i%3], i%2, (i/2)%2, 0) }),
	}
}

func c01scale(x *ev.X) {
	for _, nc := range deepCircuits(deepSizes) {
		nc := nc
		x.Case(func(t *ev.T) {
			cc := circuitOf(nc.c)
			for bN := 0; bN <= 1; bN++ {
				in := gens(5, 1<<uint(bN+nc.c[0].BGIn()))
				for _, n := range pow2s(1 << uint(bN)) {
					for _, co := range []int{1, 3} {
						p := c01run(t, nc.c, cc, bN, in, n, co, co)
						if bN == 1 && n == 1 && co == 1 || x.Thorough {
							qP, q := point(bN, nc.c)
							if !eqProof(refProof(p), nc.c.Prove(in, qP, q)) {
								t.Failf("proof of %s differs from the one by definition, 2^%d instances, %d chunks", nc.name, bN, n)
							}
						}
					}
				}
			}
		}, "%s, 2^0..2^1 instances", nc.name)
	}
	for _, nl := range hugeLayers() {
		for bN := 0; bN <= 2; bN++ {
			nl, bN := nl, bN
			x.Case(func(t *ev.T) {
				c := Circuit{nl.l}
				in := spread(5, 1<<uint(bN+c[0].BGIn()))
				for _, n := range pow2s(1 << uint(bN)) {
					c01run(t, c, circuitOf(c), bN, in, n, 2, 3)
				}
			}, "one layer %s, 2^%d instances", nl.name, bN)
		}
	}
	a := chainLayers()
	top := 11
	if x.Thorough {
		top = 13
	}
	for _, c := range []Circuit{{a[0]}, {a[7]}, {a[2], a[5]}} {
		for bN := 7; bN <= top; bN++ {
			for _, n := range pow2s(1 << uint(bN)) {
				c, bN, n := c, bN, n
				if bN > 9 && n > 256 && n < 1<<uint(bN) && !x.Thorough {
					continue
				}
				x.Case(func(t *ev.T) {
					in := spread(9, 1<<uint(bN+c[0].BGIn()))
					for i, co := range []int{1, 3, 8} {
						if i > 0 && bN > 9 && !x.Thorough && (i+n)%2 == 0 {
							continue
						}
						c01run(t, c, circuitOf(c), bN, in, n, co, 9-co)
					}
				}, "%s, 2^%d instances, %d chunks", circuitName(c), bN, n)
			}
		}
	}
}

func c02scale(x *ev.X) {
	sizes := []int{100, 129, 130}
	if x.Thorough {
		sizes = deepSizes
	}
	for _, nc := range deepCircuits(sizes) {
		for part := 0; part < 4; part++ {
			nc, part := nc, part
			x.Case(func(t *ev.T) {
				bN := part % 2
				in := gens(0, 1<<uint(bN+nc.c[0].BGIn()))
				out := nc.c.Assign(in)[len(nc.c)]
				qP, q := point(bN, nc.c)
				k := newC02(t, nc.c, bN, 1, in, out)
				p := nc.c.Prove(in, qP, q)
				k.judge(p, "honest proof")
				i := 0
				sites(&p, func(s *E, name string) {
					i++
					if i%2 != part/2 {
						return
					}
					v := *s
					*s = Add(v, U(1))
					if k.v.Verify(proofOf(p), k.inC, k.outC) && !nc.c.Accepts(bN, p, in, out, qP, q) {
						t.Failf("accepted with %s altered: %s, 2^%d instances", name, nc.name, bN)
					}
					t.Trans(1)
					t.State(ev.Mix(uint64(i), hashCircuit(nc.c)))
					*s = v
				})
				t.Trace()
			}, "every value altered: %s, 2^%d instances, part %d", nc.name, part%2, part/2)
		}
		if len(nc.c) != 130 && !x.Thorough {
			continue
		}
		for part := 0; part < 8; part++ {
			nc, part := nc, part
			x.Case(func(t *ev.T) {
				in := gens(0, 1<<uint(nc.c[0].BGIn()))
				lie := nc.c.Assign(in)[len(nc.c)]
				qP, q := point(0, nc.c)
				lie[0] = Add(lie[0], gen(90))
				k := newC02(t, nc.c, 0, 1, in, lie)
				claim := MLE(lie, cat2(q, qP))
				for i, at := range nc.c.Checks(0) {
					if i%8 != part {
						continue
					}
					if p, ok := nc.c.Forge(in, claim, qP, q, at, i%2 == 0); ok {
						if k.judge(p, "proof built to break only %v", at) {
							t.Failf("reference error: forged proof accepted")
						}
					}
				}
			}, "for every relation, a proof breaking only this one: %s, part %d of 8", nc.name, part)
		}
	}
	for _, nl := range hugeLayers() {
		nl := nl
		if nl.l.BGIn() > 5 && !x.Thorough {
			continue
		}
		x.Case(func(t *ev.T) {
			c := Circuit{nl.l}
			in := gens(0, 1<<uint(c[0].BGIn()))
			lie := c.Assign(in)[1]
			qP, q := point(0, c)
			lie[len(lie)-1] = Add(lie[len(lie)-1], gen(90))
			c02forgeOne(t, c, 0, newC02(t, c, 0, 1, in, lie), in, MLE(lie, cat2(q, qP)), qP, q)
		}, "for every relation, a proof breaking only this one: layer %s", nl.name)
	}
}

// c03scale: statements in many chunks, with one value of one chunk altered; statements of deep circuits.
func c03scale(x *ev.X) {
	a := chainLayers()
	top := 10
	if x.Thorough {
		top = 12
	}
	for _, c := range []Circuit{{a[0]}, {a[7]}, {a[2]}} {
		for bN := 5; bN <= top; bN++ {
			for _, n := range []int{1, 1 << uint(bN-3), 1 << uint(bN-1), 1 << uint(bN)} {
				c, bN, n := c, bN, n
				x.Case(func(t *ev.T) {
					in := spread(1, 1<<uint(bN+c[0].BGIn()))
					v, p, out := c03setup(c, bN, n, in)
					pr := proofOf(p)
					inC, outC := Chunk(in, n), Chunk(out, n)
					if !v.Verify(pr, inC, outC) {
						t.Failf("honest proof rejected: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
					}
					for s, side := range [][][]E{inC, outC} {
						total := n * len(side[0])
						step := 1
						if total > 256 && !x.Thorough {
							step = total/256 + 1 - total/256%2 // odd: all residues
						}
						for k := 0; k < total; k += step {
							at := k
							if k+step >= total {
								at = total - 1
							}
							b, i := at/len(side[0]), at%len(side[0])
							old := side[b][i]
							side[b][i] = Add(old, U(1))
							if v.Verify(pr, inC, outC) {
								t.Failf("accepted with value %d of chunk %d of the %s altered: %s, 2^%d instances, %d chunks", i, b, []string{"inputs", "outputs"}[s], circuitName(c), bN, n)
							}
							side[b][i] = old
							t.Trans(1)
							t.State(ev.Mix(uint64(s), uint64(at), uint64(bN), uint64(n), hashCircuit(c)))
						}
					}
					if !v.Verify(pr, inC, outC) {
						t.Failf("honest proof rejected after the altered ones: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
					}
					t.Trace()
				}, "values of every region altered: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
			}
		}
	}
	for _, nc := range deepCircuits(deepSizes) {
		nc := nc
		x.Case(func(t *ev.T) {
			bN := 1
			in := gens(5, 1<<uint(bN+nc.c[0].BGIn()))
			v, p, out := c03setup(nc.c, bN, 2, in)
			for i := range in {
				in2 := Copy(in)
				in2[i] = Add(in2[i], U(1))
				c03try(t, v, p, 2, in2, out, "input %d altered, %s", i, nc.name)
			}
			for i := range out {
				out2 := Copy(out)
				out2[i] = Add(out2[i], U(1))
				c03try(t, v, p, 2, in, out2, "output %d altered, %s", i, nc.name)
			}
		}, "every input and output altered: %s", nc.name)
	}
	for _, nl := range hugeLayers() {
		nl := nl
		x.Case(func(t *ev.T) {
			c := Circuit{nl.l}
			in := spread(5, 2<<uint(c[0].BGIn()))
			v, p, out := c03setup(c, 1, 2, in)
			used := map[int]bool{}
			for _, w := range nl.l {
				used[w.L], used[w.R] = true, true
			}
			for i := range in {
				if i > 64 && i < len(in)-64 && i%5 > 0 && !x.Thorough || !used[i/2] {
					continue
				}
				in2 := Copy(in)
				in2[i] = Add(in2[i], U(1))
				c03try(t, v, p, 2, in2, out, "input %d altered, layer %s", i, nl.name)
			}
			for i := range out {
				if i > 64 && i < len(out)-64 && i%5 > 0 && !x.Thorough {
					continue
				}
				out2 := Copy(out)
				out2[i] = Add(out2[i], U(1))
				c03try(t, v, p, 2, in, out2, "output %d altered, layer %s", i, nl.name)
			}
		}, "inputs and outputs altered: layer %s", nl.name)
	}
}

// c04scale: one chunk of many, one part of many of the wrong size.
func c04scale(x *ev.X) {
	a := chainLayers()
	for _, c := range []Circuit{{a[0]}, {a[7]}, {a[2]}} {
		for _, bN := range []int{5, 6, 7, 8, 9, 10} {
			for _, n := range []int{16, 1 << uint(bN-1), 1 << uint(bN)} {
				c, bN, n := c, bN, n
				x.Case(func(t *ev.T) {
					in := spread(1, 1<<uint(bN+c[0].BGIn()))
					v, p, out := c03setup(c, bN, n, in)
					pr := proofOf(p)
					inC, outC := Chunk(in, n), Chunk(out, n)
					try := func(what string, s, b int) {
						var got bool
						if r := ev.Try(func() { got = v.Verify(pr, inC, outC) }); r != nil {
							t.Failf("verifier crashed (%v) on %s with chunk %d of %d %s: %s, 2^%d instances", r, []string{"inputs", "outputs"}[s], b, n, what, circuitName(c), bN)
						}
						if got {
							t.Failf("verifier accepted %s with chunk %d of %d %s: %s, 2^%d instances", []string{"inputs", "outputs"}[s], b, n, what, circuitName(c), bN)
						}
						t.Trans(1)
						t.State(ev.Mix(uint64(s), uint64(b), uint64(n), uint64(bN), uint64(len(what)), hashCircuit(c)))
					}
					for s, side := range []*[][]E{&inC, &outC} {
						whole := *side
						step := 1
						if n > 128 && !x.Thorough {
							step = n/128 + 1
						}
						for b := 0; b < n; b += step {
							if b+step >= n {
								b = n - 1
							}
							old := whole[b]
							whole[b] = append(Copy(old), E{})
							try("one value longer", s, b)
							whole[b] = append(Copy(old), old...)
							try("twice as long", s, b)
							whole[b] = old[:len(old)-1]
							try("one value shorter", s, b)
							whole[b] = nil
							try("missing", s, b)
							whole[b] = old
							if b == n-1 {
								break
							}
						}
						*side = whole[:n-1]
						try("left out", s, n-1)
						*side = append(append([][]E{}, whole...), nil)
						try("added", s, n)
						*side = append(append([][]E{}, whole...), whole...)
						try("twice", s, n)
						*side = whole
					}
					if !v.Verify(pr, inC, outC) {
						t.Failf("honest proof rejected after the malformed statements: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
					}
					t.Trace()
				}, "one chunk of many of another size: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
			}
		}
	}
	sizes := []int{65, 91, 128, 130, 257}
	if x.Thorough {
		sizes = deepSizes
	}
	for _, nc := range deepCircuits(sizes) {
		nc := nc
		x.Case(func(t *ev.T) {
			bN := 1
			in := gens(5, 1<<uint(bN+nc.c[0].BGIn()))
			out := nc.c.Assign(in)[len(nc.c)]
			k := &c04st{newC02(t, nc.c, bN, 1, in, out), Proof{}}
			k.honest = nc.c.Prove(in, k.qP, k.q)
			try := func(p Proof, what string, a ...interface{}) {
				var got bool
				if r := ev.Try(func() { got = k.v.Verify(proofOf(p), k.inC, k.outC) }); r != nil {
					t.Failf("verifier crashed (%v) on a proof with %s: %s", r, fmt.Sprintf(what, a...), nc.name)
				}
				if got {
					t.Failf("verifier accepted a proof with %s: %s", fmt.Sprintf(what, a...), nc.name)
				}
				t.Trans(1)
				t.State(ev.Mix(hashProof(p), hashCircuit(nc.c)))
			}
			h := k.honest
			for l := range h.SC {
				p := h.Clone()
				p.SC[l] = p.SC[l][:len(p.SC[l])-1]
				try(p, "one round less in layer %d", l)
				p.SC[l] = nil
				try(p, "no round in layer %d", l)
				p = h.Clone()
				p.SC[l] = append(p.SC[l], nil)
				try(p, "an empty round more in layer %d", l)
				p = h.Clone()
				p.SC[l][0] = nil
				try(p, "an empty first round in layer %d", l)
				p = h.Clone()
				p.SC = append(p.SC[:l:l], p.SC[l+1:]...)
				try(p, "layer %d left out", l)
				p = h.Clone()
				p.SC = append(p.SC[:l+1:l+1], p.SC[l:]...)
				try(p, "layer %d twice", l)
				p = h.Clone()
				p.CL = append(p.CL[:l:l], p.CL[l+1:]...)
				try(p, "left claim %d left out", l)
				p.CR = append(p.CR[:l:l], p.CR[l+1:]...)
				try(p, "claims %d left out", l)
				p = h.Clone()
				p.CR = p.CR[:l]
				try(p, "only %d right claims", l)
			}
			t.Trace()
		}, "one part of many of another size: %s", nc.name)
	}
}

func c05scale(x *ev.X) {
	gl := gateLists()
	top := 12
	if x.Thorough {
		top = 14
	}
	for _, bG := range []int{0, 1} {
		for bN := 7; bN <= top; bN++ {
			for gi, gs := range gl {
				bG, bN, gs := bG, bN, gs
				if (gi+bN+bG)%5 != 0 && !x.Thorough || bG == 1 && bN > 9 {
					continue
				}
				x.Case(func(t *ev.T) {
					g := 1 << uint(bG)
					s := &Instance{VL: spread(0, g<<uint(bN)), VR: spread(500, g<<uint(bN)), EQ: EqTable(gens(100, bN)), Gates: gs, ST: staticPatterns(len(gs), g*g)[0]}
					sp := singleOf(s)
					claim := sp.GetClaim()
					pr, qP, qL, qR, fin := sp.Prove()
					tr := &SCTranscript{Proof: pr.PolyCoeffs, QL: qL, QR: qR, QP: qP, VL: fin[0], VR: fin[1], EQ: fin[2], ST: fin[3:]}
					for _, n := range pow2s(1 << uint(bN)) {
						for ci, co := range []int{1, 2, 3, 5, 8, 64} {
							if ci > 1 && (ci+n)%2 != 0 && !x.Thorough {
								continue
							}
							mp := multiOf(s, n)
							if c := mp.GetClaim(co); c != claim {
								t.Failf("claim with %d chunks and %d cores is %s, the sequential prover says %s: bG=%d bN=%d", n, co, str(c), str(claim), bG, bN)
							}
							pr2, a, b, c, f := mp.Prove(co)
							if why := sumTranscript(s, tr, pr2, a, b, c, f); why != "" {
								t.Failf("%d chunks, %d cores: %s: bG=%d bN=%d, %v", n, co, why, bG, bN, gateNames(gs))
							}
							t.Step(ev.Mix(hashInst(s), uint64(n), uint64(co)))
						}
					}
				}, "sumcheck with bG=%d bN=%d, gates %v: every chunking and number of cores against the sequential prover", bG, bN, gateNames(gs))
			}
		}
	}
	a := chainLayers()
	for _, c := range []Circuit{{a[0]}, {a[7]}, {a[2], a[5]}} {
		for _, bN := range []int{6, 8, 9, 10} {
			c, bN := c, bN
			x.Case(func(t *ev.T) {
				cc := circuitOf(c)
				in := spread(3, 1<<uint(bN+c[0].BGIn()))
				var first gkr.Proof
				for i, n := range pow2s(1 << uint(bN)) {
					for _, co := range []int{1, 3, 8} {
						as := cc.Assign(Chunk(in, n), co)
						pv := gkr.NewProver(cc, as)
						p := pv.Prove(co)
						if i == 0 && co == 1 {
							first = p
						} else if !eqProof(refProof(first), refProof(p)) {
							t.Failf("the proof with %d chunks and %d cores is not the one with 1 and 1: %s, 2^%d instances", n, co, circuitName(c), bN)
						}
						t.Step(ev.Mix(hashCircuit(c), uint64(bN), uint64(n), uint64(co)))
					}
				}
			}, "proofs of %s, 2^%d instances, every chunking, cores 1, 3, 8", circuitName(c), bN)
		}
	}
}

// c06scale: dense layers, deep circuits, many chunks, repeated wires.
func c06scale(x *ev.X) {
	top := 8
	if x.Thorough {
		top = 9
	}
	for k := 0; k <= top; k++ {
		for gi, g := range []Gate{gMul(), gAdd(), gCopy(), gCipher(gen(63))} {
			k, g := k, g
			if k > 6 && gi > 0 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				n := 1 << uint(k)
				// every pair of inputs, each with an output of its own
				var l, m Layer
				for i := 0; i < n*n; i++ {
					l = append(l, w(g, i/n, i%n, i))
					// in another order
					j := (i*(n*n/2+1) + n/2) % (n * n)
					m = append(m, w(g, j%n, j/n, i))
				}
				for _, y := range []Layer{l, m} {
					cl := circuit.NewLayer(wiresOf(y))
					for _, b := range [][2]int{{1, 1}, {2, 1}, {2, 2}} {
						in := spread(0, n*b[0])
						if got := cl.Evaluate(Chunk(in, b[1]), 2); !Eq2(got, Chunk(y.EvalLayer(in), b[1])) {
							t.Failf("values of the layer with every pair of %d inputs through %s are wrong, %d instances, %d chunks", n, gateName(g), b[0], b[1])
						}
						t.Trans(1)
					}
				}
				t.Trace()
				t.State(ev.Mix(uint64(k), uint64(g.Kind)))
			}, "layer with a wire for every pair of 2^%d inputs through %s", k, gateName(g))
		}
	}
	for k := 1; k <= 5; k++ {
		k := k
		x.Case(func(t *ev.T) {
			// every pair of inputs through every gate, all to few outputs
			n := 1 << uint(k)
			gs := manyGates(6)
			var l Layer
			for i := 0; i < n*n; i++ {
				for j, g := range gs {
					l = append(l, w(g, i/n, i%n, (i+j)%4))
				}
			}
			for _, bN := range []int{0, 1, 3} {
				for _, nc := range pow2s(1 << uint(bN)) {
					c06one(t, Circuit{l}, circuitOf(Circuit{l}), spread(0, n<<uint(bN)), nc, 3)
				}
			}
		}, "layer with a wire for every pair of 2^%d inputs and 6 gates, 4 outputs", k)
	}
	for _, m := range []int{2, 3, 5, 16, 17, 255, 256, 257, 1000, 4096, 70000} {
		m := m
		x.Case(func(t *ev.T) {
			for _, g := range []Gate{gMul(), gAdd(), gCipher(gen(63))} {
				var l Layer
				for i := 0; i < m; i++ {
					l = append(l, w(g, 0, 1, i/(m-1)))
				}
				for _, n := range []int{1, 2} {
					in := gens(0, 4)
					cl := circuit.NewLayer(wiresOf(l))
					if got := cl.Evaluate(Chunk(in, n), 2); !Eq2(got, Chunk(l.EvalLayer(in), n)) {
						t.Failf("values of a layer with the same wire %d times through %s are wrong", m, gateName(g))
					}
					t.Trans(1)
				}
			}
			t.Trace()
			t.State(uint64(m))
		}, "the same wire %d times", m)
	}
	for _, nc := range deepCircuits(deepSizes) {
		nc := nc
		x.Case(func(t *ev.T) {
			for bN := 0; bN <= 2; bN++ {
				for _, n := range pow2s(1 << uint(bN)) {
					c06one(t, nc.c, circuitOf(nc.c), gens(5, 1<<uint(bN+nc.c[0].BGIn())), n, 1+n)
				}
			}
		}, "%s, up to 2^2 instances", nc.name)
	}
	a := chainLayers()
	for _, c := range []Circuit{{a[0]}, {a[7]}, {a[2], a[5]}, {a[15]}} {
		for bN := 6; bN <= 12; bN++ {
			c, bN := c, bN
			x.Case(func(t *ev.T) {
				for _, n := range pow2s(1 << uint(bN)) {
					for _, co := range []int{1, 3, 8, 100} {
						if co%3 != n%3 && bN > 7 && !x.Thorough {
							continue
						}
						c06one(t, c, circuitOf(c), spread(5, 1<<uint(bN+c[0].BGIn())), n, co)
					}
				}
			}, "%s, 2^%d instances, every chunking", circuitName(c), bN)
		}
	}
	for _, nl := range hugeLayers() {
		nl := nl
		x.Case(func(t *ev.T) {
			for bN := 0; bN <= 3; bN++ {
				for _, n := range pow2s(1 << uint(bN)) {
					c06one(t, Circuit{nl.l}, circuitOf(Circuit{nl.l}), spread(5, 1<<uint(bN+nl.l.BGIn())), n, 1+n)
				}
			}
		}, "layer %s, up to 2^3 instances", nl.name)
	}
}

func c08scale(x *ev.X) {
	ks := []struct{ bG, bN int }{{5, 0}, {6, 0}, {5, 1}, {4, 3}, {0, 9}, {0, 10}, {0, 11}, {1, 9}, {2, 7}, {3, 5}}
	if x.Thorough {
		ks = append(ks, []struct{ bG, bN int }{{7, 0}, {6, 2}, {0, 13}, {1, 12}, {2, 10}}...)
	}
	for _, k := range ks {
		for gi, gl := range gateLists() {
			k, gl := k, gl
			if !x.Thorough && (gi+k.bG+k.bN)%2 != 0 {
				continue
			}
			x.Case(func(t *ev.T) {
				g := 1 << uint(k.bG)
				s := &Instance{VL: spread(0, g<<uint(k.bN)), VR: spread(500, g<<uint(k.bN)), EQ: EqTable(gens(100, k.bN)), Gates: gl}
				for i := range gl {
					s.ST = append(s.ST, spread(900+10*i, g*g))
				}
				c08prove(t, s, 0, 1)
				c08prove(t, s, 1, 1)
				c08prove(t, s, 1<<uint(k.bN), 3)
			}, "bG=%d bN=%d, gates %v", k.bG, k.bN, gateNames(gl))
		}
	}
	for _, n := range []int{9, 17, 33, 65} {
		n := n
		x.Case(func(t *ev.T) {
			gl := manyGates(n)
			s := &Instance{VL: gens(0, 4), VR: gens(500, 4), EQ: EqTable(gens(100, 1)), Gates: gl}
			for i := range gl {
				s.ST = append(s.ST, gens(900+10*i, 4))
			}
			c08prove(t, s, 0, 1)
			c08prove(t, s, 1, 1)
			c08prove(t, s, 2, 2)
		}, "bG=1 bN=1, %d gates", n)
	}
}

func c09scale(x *ev.X) {
	for _, k := range []struct{ bG, bN int }{{0, 63}, {0, 64}, {0, 65}, {1, 63}, {20, 24}, {32, 0}, {33, 0}, {0, 127}, {0, 128}, {0, 129}, {64, 1}, {0, 255}, {0, 256}, {0, 257}, {100, 100}, {2, 296}} {
		for _, d := range []int{1, 2, 9} {
			k, d := k, d
			n := 2*k.bG + k.bN
			if n*d > 1000 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				claim := gen(1)
				var p SCProof
				cur := claim
				for i := 0; i < n; i++ {
					p = append(p, gens(3*i, d))
					fixClaim(p, i, cur)
					cur = PolyEval(p[i], Mimc(p[i]))
				}
				if !c09one(t, claim, p, k.bN, k.bG) {
					t.Failf("reference error")
				}
				c09one(t, Add(claim, U(1)), p, k.bN, k.bG)
				for i := 0; i < n; i++ {
					if i > 16 && i < n-16 && (i+2)&(i+1) != 0 && i&(i-1) != 0 && (i+1)&i != 0 && i%7 > 0 && !x.Thorough {
						continue
					}
					j := i % d
					v := p[i][j]
					p[i][j] = Add(v, U(1))
					c09one(t, claim, p, k.bN, k.bG)
					q := SCProof(Copy2(p))
					for m := i + 1; m < n; m++ {
						fixClaim(q, m, PolyEval(q[m-1], Mimc(q[m-1])))
					}
					c09one(t, claim, q, k.bN, k.bG)
					p[i][j] = v
				}
			}, "bG=%d bN=%d, polynomials of %d coefficients: rounds altered", k.bG, k.bN, d)
		}
	}
	for _, d := range []int{65, 129, 257, 1025} {
		d := d
		x.Case(func(t *ev.T) {
			claim := gen(1)
			p := SCProof{spread(3, d), spread(5, d+1), spread(7, 2)}
			cur := claim
			for i := range p {
				fixClaim(p, i, cur)
				cur = PolyEval(p[i], Mimc(p[i]))
			}
			if !c09one(t, claim, p, 1, 1) || !c09one(t, claim, p, 3, 0) {
				t.Failf("reference error")
			}
			for i := range p {
				for j := range p[i] {
					v := p[i][j]
					p[i][j] = Add(v, U(1))
					c09one(t, claim, p, 1, 1)
					p[i][j] = v
				}
			}
		}, "3 rounds, polynomials of %d coefficients: every coefficient altered", d)
	}
}

// c10scale: all table sizes with all numbers of processors.
func c10scale(x *ev.X) {
	top := 19
	if x.Thorough {
		top = 22
	}
	for n := 0; n <= top; n++ {
		n := n
		ns := procCounts
		if n >= 18 {
			ns = []int{1, 3, 7, 8}
		}
		for _, np := range ns {
			np := np
			x.Case(func(t *ev.T) {
				procs([]int{np}, func(np int) {
					tab := spread(11, 1<<uint(n))
					pt := gens(280, n)
					fail := func(what string) { t.Failf("%s of a table of 2^%d entries is wrong with %d processors", what, n, np) }
					b := bkt(tab)
					c := b.DeepCopy()
					if !Eq1(c.Table, tab) {
						fail("copy")
					}
					want := FixAll(tab, pt)[0]
					if b.Evaluate(pt) != want {
						fail("evaluation")
					}
					if !Eq1(b.Table, tab) {
						fail("evaluation (disturbance)")
					}
					for _, bg := range []int{0, 1, 2, n / 2} {
						if bg > n {
							continue
						}
						hR := gens(310, bg)
						l, r := b.EvaluateLeftAndRight(pt[bg:], pt[:bg], hR)
						if l != want || r != FixAll(tab, append(Copy(hR), pt[bg:]...))[0] {
							fail("left/right evaluation")
						}
						t.Trans(1)
					}
					e, d := bkt(tab), bkt(spread(21, 1<<uint(n)))
					w := Copy(tab)
					for i := range w {
						w[i] = Sub(w[i], d.Table[i])
					}
					var s polynomial.BookKeepingTable
					s.Sub(e, d, np)
					if !Eq1(s.Table, w) || !Eq1(e.Table, tab) {
						fail("difference")
					}
					c0, c1 := gen(330), gen(331)
					for i := range w {
						w[i] = Add(Mul(c0, tab[i]), Mul(c1, d.Table[i]))
					}
					lc := polynomial.LinearCombinationOfBookKeepingTables(e, d, c0, c1)
					if !Eq1(lc.Table, w) {
						fail("combination")
					}
					for nc := 1; nc <= 1<<uint(n) && nc <= 1024; nc *= 4 {
						ch := Chunk(tab, nc)
						for on := 0; on < nc; on++ {
							if on > 8 && on < nc-8 && on%9 > 0 {
								continue
							}
							if k := b.InterleavedChunk(on, nc); !Eq1(k.Table, ch[on]) {
								fail(fmt.Sprintf("chunk %d of %d", on, nc))
							}
						}
						t.Trans(1)
					}
					r := Copy(tab)
					for i, q := range pt {
						b.Fold(q)
						r = Fix(r, q)
						if !Eq1(b.Table, r) {
							fail(fmt.Sprintf("fixing variable %d", i))
						}
						t.Trans(1)
					}
					if !Eq1(c.Table, tab) {
						fail("copy (after folding the original)")
					}
				})
				t.State(ev.Mix(uint64(n), uint64(np)))
				t.Trace()
			}, "tables of 2^%d entries, %d processors", n, np)
		}
	}
}

func c11scale(x *ev.X) {
	top := 15
	if x.Thorough {
		top = 18
	}
	for n := 0; n <= top; n++ {
		for _, np := range []int{1, 2, 3, 5, 7, 8} {
			n, np := n, np
			if n > 9 && np != 3 && np != 8 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				procs([]int{np}, func(int) {
					q := gens(100, n)
					full := eqTableFast(q)
					h := gens(130, n)
					if polynomial.EvalEq(q, h) != EqEval(q, h) {
						t.Failf("equality of points of %d coordinates", n)
					}
					tab := spread(3, 1<<uint(n))
					pt := gens(140, n)
					want := FixAll(tab, pt)[0]
					for _, nc := range pow2s(1 << uint(n)) {
						for _, co := range []int{1, 3, 8, 100} {
							if (co+nc)%3 == 0 && co > 1 && n > 8 && !x.Thorough {
								continue
							}
							c := polynomial.GetChunkedEqTable(q, nc, co)
							if len(c) != nc {
								t.Failf("equality table of size 2^%d in %d chunks has %d chunks", n, nc, len(c))
							}
							wc := Chunk(full, nc)
							for i := range c {
								if !Eq1(c[i].Table, wc[i]) {
									t.Failf("equality table of size 2^%d, chunk %d of %d, %d cores, %d processors", n, i, nc, co, np)
								}
							}
							t.Trans(1)
						}
						cb := bkts(Chunk(tab, nc))
						if polynomial.EvaluateChunked(cb, pt) != want {
							t.Failf("evaluation of a table of size 2^%d in %d chunks, %d processors", n, nc, np)
						}
						for _, bg := range []int{0, 1, 2} {
							if bg > n || nc > 1<<uint(n-bg) {
								continue
							}
							hR := gens(310, bg)
							l, r := polynomial.EvaluateMixedChunked(cb, pt[bg:], pt[:bg], hR)
							if l != want || r != FixAll(tab, append(Copy(hR), pt[bg:]...))[0] {
								t.Failf("left/right evaluation of a table of size 2^%d in %d chunks, %d left variables, %d processors", n, nc, bg, np)
							}
						}
						t.Trans(2)
					}
				})
				t.State(ev.Mix(uint64(n), uint64(np)))
				t.Trace()
			}, "tables of 2^%d entries in every number of chunks, %d processors", n, np)
		}
	}
	x.Case(func(t *ev.T) {
		for n := 0; n <= 300; n++ {
			for o := 0; o < 2; o++ {
				q, h := gens(100, n), gens(100+40*o, n)
				if polynomial.EvalEq(q, h) != EqEval(q, h) {
					t.Failf("equality of points of %d coordinates", n)
				}
				t.Step(ev.Mix(7, uint64(n), uint64(o)))
			}
			b := make([]E, n)
			for i := range b {
				b[i] = U(uint64(i & 1))
			}
			if polynomial.EvalEq(b, b) != U(1) {
				t.Failf("equality of a boolean point of %d coordinates with itself", n)
			}
		}
	}, "equality of points of up to 300 coordinates")
}

func c12scale(x *ev.X) {
	sizes := []int{4096, 8193, 32769, 65535, 65536, 65537, 70001, 131071, 131072, 131073}
	if x.Thorough {
		sizes = append(sizes, 262144, 262145, 500001, 1<<20)
	}
	for _, n := range sizes {
		for _, op := range []string{"add", "sub", "mul"} {
			for _, np := range procCounts {
				n, op, np := n, op, np
				if n > 70000 && np%2 == 0 && np != 8 && !x.Thorough {
					continue
				}
				x.Case(func(t *ev.T) {
					procs([]int{np}, func(np int) {
						lv, rv := spread(1, n), spread(3, n)
						for _, co := range []int{1, 2, 3, 5, 7, 8, 16, 100} {
							if co > 1 && (op == "add" || (co+np)%3 != 0 && !x.Thorough) {
								continue
							}
							for mi, m := range c12modes {
								if mi > 1 && n > 40000 && !x.Thorough {
									continue
								}
								c12one(t, op, n, co, m, lv, rv)
							}
						}
					})
				}, "%s of tables of %d entries, %d processors", op, n, np)
			}
		}
	}
}

func c14scale(x *ev.X) {
	var ns []int
	for n := 34; n <= 140; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 200, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 65537)
	for _, n := range ns {
		n := n
		x.Case(func(t *ev.T) {
			pts := []E{U(0), U(1), I(-1), U(2), gen(0)}
			one := func(c []E, what string) {
				in, ok := guarded(c)
				for _, p := range pts {
					if g := polynomial.EvaluatePolynomial(in, p); g != PolyEval(c, p) {
						t.Failf("polynomial of %d coefficients, %s, at %s gives %s", n, what, str(p), str(g))
					}
					t.Trans(1)
				}
				if !ok() {
					t.Failf("evaluation modified its argument of %d coefficients", n)
				}
			}
			for i, c := range patterns(n, 5) {
				one(c, patternNames[i])
			}
			// every coefficient alone (up to 140: all of them)
			for i := 0; i < n; i++ {
				if n > 300 && i > 40 && i < n-40 && i%16 != 0 && i%16 != 15 {
					continue
				}
				if n > 5000 && i > 40 && i < n-40 && i%1024 != 0 && i%1024 != 1023 {
					continue
				}
				v := make([]E, n)
				v[i] = gen(2)
				one(v, fmt.Sprintf("only coefficient %d", i))
			}
			t.Trace()
			t.State(uint64(n))
		}, "evaluation of polynomials with %d coefficients", n)
	}
}

func c15scale(x *ev.X) {
	top := 1100
	if x.Thorough {
		top = 4200
	}
	// the state after each block of one long message is the digest of the prefix
	for pi := range patternNames {
		pi := pi
		for from := 0; from < top; from += 100 {
			from := from
			x.Case(func(t *ev.T) {
				m := patterns(top, 3)[pi]
				if pi == 4 {
					m[from] = U(1)
				}
				var st E
				for _, b := range m[:from] {
					st = MimcStep(st, b)
				}
				for n := from; n < from+100 && n <= top; n++ {
					in, ok := guarded(m[:n])
					if g := hash.MimcHash(in); g != st || !ok() {
						t.Failf("digest of a message of length %d (%s) is %s, expected %s", n, patternNames[pi], str(g), str(st))
					}
					t.Step(ev.Mix(uint64(n), uint64(pi)))
					if n < top {
						st = MimcStep(st, m[n])
					}
				}
			}, "messages of every length %d..%d, values %s", from, from+99, patternNames[pi])
		}
	}
	for _, n := range []int{2047, 2048, 2049, 4095, 4096, 4097, 10000} {
		n := n
		x.Case(func(t *ev.T) { c15msg(t, spread(3, n)) }, "message of length %d", n)
	}
	for _, n := range []int{65, 130, 257, 520} {
		n := n
		x.Case(func(t *ev.T) {
			base := gens(3, n)
			d := hash.MimcHash(base)
			seen := map[E]int{d: -1}
			for i := range base {
				v := base[i]
				base[i] = Add(v, U(1))
				g := hash.MimcHash(base)
				if j, ok := seen[g]; ok {
					t.Failf("messages of length %d differing at %d and at %d (-1: not at all) have the same digest", n, i, j)
				}
				seen[g] = i
				base[i] = v
				t.Step(ev.Mix(uint64(n), uint64(i), 3))
			}
		}, "message of length %d, every block altered", n)
	}
}

func c16scale(x *ev.X) {
	bs := []int{30, 31, 32, 33, 34}
	for _, m := range []int{64, 128, 256, 512, 1024} {
		bs = append(bs, m-2, m-1, m, m+1, m+2)
	}
	if x.Thorough {
		bs = append(bs, 2047, 2048, 2049, 4095, 4096, 4097)
	}
	for _, h := range hashers() {
		for _, b := range bs {
			h, b := h, b
			if b > 520 && h.name == "Poseidon" && h.t == 8 && b != 1024 && b != 1025 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				for _, d := range []int{-1, 0, 1} {
					m := spread(20, h.t*b+d)
					if len(m) == 0 {
						continue
					}
					c16digest(t, h, m)
				}
			}, "%s t=%d, messages of %d blocks and one value less and more", h.name, h.t, b)
		}
	}
}

func c17scale(x *ev.X) {
	var ns []int
	for n := 15; n <= 130; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65537)
	for _, g := range allGates() {
		g := g
		x.Case(func(t *ev.T) {
			cg := gateOf(g)
			for _, n := range ns {
				for _, o := range []E{gen(9), U(0), U(1)} {
					c17many(t, g, cg, spread(1, n), o)
				}
			}
			t.Trace()
		}, "%s batched, %d lengths up to 65537", gateName(g), len(ns))
	}
	for _, n := range []int{4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000} {
		n := n
		x.Case(func(t *ev.T) {
			sel := manyGates(n)
			cgs := gatesOf(sel)
			st := gens(7, n)
			try := func(what string) {
				for _, e := range []E{U(1), gen(3)} {
					l, r, ee := gen(1), gen(2), e
					want := relCombine(sel, st, ee, l, r)
					in, ok := guarded(st)
					if g := circuit.EvaluateCombinator(&l, &r, &ee, cgs, in); g != want || !ok() || l != gen(1) || r != gen(2) || ee != e {
						t.Failf("combinator of %d gates, %s, is %s, expected %s", n, what, str(g), str(want))
					}
					t.Trans(1)
				}
			}
			try("generic statics")
			for i := range st {
				if n > 140 && i > 20 && i < n-20 && i%16 != 0 && i%16 != 15 {
					continue
				}
				st = make([]E, n)
				st[i] = gen(7)
				try(fmt.Sprintf("only static %d", i))
			}
			t.State(uint64(n))
			t.Trace()
		}, "combinator of %d gates", n)
	}
}

func c18scale(x *ev.X) {
	pts := func(n int) [][]E { return [][]E{gens(300, n)} }
	for _, nl := range hugeLayers() {
		nl := nl
		x.Case(func(t *ev.T) { c18layer(t, nl.l, c18points) }, "layer %s", nl.name)
	}
	for k := 0; k <= 6; k++ {
		k := k
		x.Case(func(t *ev.T) {
			n := 1 << uint(k)
			for _, g := range []Gate{gMul(), gCipher(gen(63))} {
				var l, m Layer
				for i := 0; i < n*n; i++ {
					l = append(l, w(g, i/n, i%n, i))
					j := (i*(n*n/2+1) + n/2) % (n * n)
					m = append(m, w(g, j%n, j/n, i%8))
				}
				c18layer(t, l, pts)
				c18layer(t, m, pts)
			}
		}, "layer with a wire for every pair of 2^%d inputs", k)
	}
	for _, n := range []int{61, 64, 65, 100, 128, 129, 256, 257, 300} {
		n := n
		x.Case(func(t *ev.T) {
			gs := manyGates(n)
			var l Layer
			for i := 0; i < n; i++ {
				l = append(l, w(gs[(i*7)%n], i%2, (i/2)%2, (i/4)%2))
			}
			c18layer(t, append(l, l...), pts)
		}, "layer of %d gates", n)
	}
	for _, m := range []int{2, 3, 15, 16, 17, 255, 256, 257, 65535, 65536, 65537, 70000} {
		m := m
		x.Case(func(t *ev.T) {
			for _, o := range []int{0, 1, 3} {
				var l Layer
				for i := 0; i < m; i++ {
					l = append(l, w(gMul(), 1, 0, o))
				}
				c18layer(t, append(l, w(gMul(), 0, 1, o), w(gAdd(), 1, 0, o)), pts)
			}
		}, "the same wire %d times", m)
	}
	for bit := 7; bit <= 9; bit++ {
		bit := bit
		x.Case(func(t *ev.T) {
			top := 1 << uint(bit)
			for _, i := range []int{top/2 - 1, top / 2, top - 1} {
				c18layer(t, Layer{w(gMul(), i, top-1-i, 0), w(gAdd(), 0, i, 1)}, pts)
			}
			for _, i := range []int{top, 2 * top, 16*top - 1} {
				c18layer(t, Layer{w(gMul(), 0, 1, i), w(gAdd(), 1, 0, i/2)}, pts)
			}
		}, "indices around 2^%d", bit)
	}
}
