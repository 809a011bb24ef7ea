package props

import (
	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C01/layers", c01layers)
	ev.Register("C01/chains", c01chains)
	ev.Register("C01/large", c01large)
	ev.Register("C01/complete", c01complete)
}

// c01run assigns, proves and verifies with the code under test.
func c01run(t *ev.T, c Circuit, cc circuit.Circuit, bN int, in []E, nChunks, coreA, coreP int) gkr.Proof {
	inp := Chunk(in, nChunks)
	a := cc.Assign(inp, coreA)
	out := a.Values[len(a.Values)-1]
	p := gkr.NewProver(cc, a)
	proof := p.Prove(coreP)
	v := gkr.NewVerifier(bN, cc)
	if !v.Verify(proof, Chunk(in, nChunks), out) {
		t.Failf("honest proof rejected: circuit %s, 2^%d instances, %d chunks, %d/%d cores, inputs %s", circuitName(c), bN, nChunks, coreA, coreP, str(in...))
	}
	t.Trans(3)
	t.Trace()
	t.State(hashE(ev.Mix(hashCircuit(c), uint64(nChunks), uint64(coreA*100+coreP)), in...))
	t.Outcome(hashProof(refProof(proof)))
	return proof
}

func c01circuit(t *ev.T, c Circuit, maxBN int, npat int, cores []int) {
	cc := circuitOf(c)
	for bN := 0; bN <= maxBN; bN++ {
		for ip, in := range patterns(1<<uint(bN+c[0].BGIn()), 0) {
			if ip >= npat {
				break
			}
			for _, n := range pow2s(1 << uint(bN)) {
				for ic, co := range cores {
					if ic > 0 && ip > 0 {
						break
					}
					c01run(t, c, cc, bN, in, n, cores[(ic+1)%len(cores)], co)
				}
			}
		}
	}
}

func c01layers(x *ev.X) {
	ls := singleLayers()
	for i := range ls {
		i := i
		x.Case(func(t *ev.T) {
			if x.Thorough {
				c01circuit(t, Circuit{ls[i]}, 3, 7, []int{1, 2, 3, 8})
			} else {
				c01circuit(t, Circuit{ls[i]}, 2, 4, []int{1, 3})
			}
		}, "one layer %s", layerName(ls[i]))
	}
	wl := wideLayers()
	for i := range wl {
		for bN := 0; bN <= 3; bN++ {
			i, bN := i, bN
			x.Case(func(t *ev.T) { c01circuit(t, Circuit{wl[i]}, bN, 7, []int{1, 2, 5}) }, "one layer %s, up to 2^%d instances", layerName(wl[i]), bN)
		}
	}
}

func c01chains(x *ev.X) {
	for depth := 2; depth <= 3; depth++ {
		for _, c := range chains(chainLayers(), depth) {
			c := c
			np, mb := 2, 2
			if depth == 3 {
				np, mb = 1, 1
			}
			if x.Thorough {
				np, mb = 5, 3
			}
			x.Case(func(t *ev.T) { c01circuit(t, c, mb, np, []int{2, 1}) }, "%s", circuitName(c))
		}
	}
	for depth := 2; depth <= 3; depth++ {
		for _, c := range chains(userChains(), depth) {
			c := c
			x.Case(func(t *ev.T) { c01circuit(t, c, 2, 2, []int{2, 1}) }, "%s", circuitName(c))
		}
	}
	d := 4
	if x.Thorough {
		d = 5
	}
	for _, c := range chains(smallChains(), d) {
		c := c
		x.Case(func(t *ev.T) { c01circuit(t, c, 1, 1, []int{2}) }, "%s", circuitName(c))
	}
}

func c01large(x *ev.X) {
	cs := chains(smallChains(), 2)
	for _, c := range cs {
		for _, bN := range []int{4, 5, 6} {
			for _, n := range pow2s(1 << uint(bN)) {
				for _, co := range []int{1, 2, 3, 7, 64, 1000} {
					c, bN, n, co := c, bN, n, co
					if !x.Thorough && (bN > 5 || (n > 2 && n < 1<<uint(bN) && co != 3) || bN == 5 && co > 7) {
						continue
					}
					x.Case(func(t *ev.T) {
						cc := circuitOf(c)
						c01run(t, c, cc, bN, gens(5, 1<<uint(bN+c[0].BGIn())), n, co, co)
					}, "%s, 2^%d instances, %d chunks, %d cores", circuitName(c), bN, n, co)
				}
			}
		}
	}
	// tables larger than the work unit of the parallel loops
	for _, k := range []struct{ bN, n int }{{13, 1}, {13, 2}, {14, 2}, {13, 64}, {14, 1}} {
		for _, co := range []int{1, 2, 5} {
			k, co := k, co
			if !x.Thorough && (k.bN > 13 || co > 2) && !(k.bN == 14 && k.n == 2 && co == 5) {
				continue
			}
			c := Circuit{smallChains()[3]}
			x.Case(func(t *ev.T) {
				cc := circuitOf(c)
				in := make([]E, 1<<uint(k.bN+1))
				g := gen(3)
				for i := range in {
					in[i] = Mul(g, U(uint64(i*i+1)))
				}
				c01run(t, c, cc, k.bN, in, k.n, co, co)
			}, "%s, 2^%d instances, %d chunks, %d cores", circuitName(c), k.bN, k.n, co)
		}
	}
}

// small field: every input table
func c01complete(x *ev.X) {
	al := all()
	for _, l := range []Layer{{w(gMul(), 0, 0, 0)}, {w(gCipher(U(2)), 0, 0, 0), w(gAdd(), 0, 0, 1)}, {w(gMul(), 0, 0, 0), w(gCopy(), 0, 0, 0)}} {
		c := Circuit{l}
		for first := range al {
			first := first
			x.Case(func(t *ev.T) {
				cc := circuitOf(c)
				product(P, 1, func(ix []int) {
					c01run(t, c, cc, 1, append([]E{al[first]}, pick(al, ix)...), 2, 1, 1)
				})
				if x.Thorough {
					product(P, 3, func(ix []int) {
						c01run(t, c, cc, 2, append([]E{al[first]}, pick(al, ix)...), 2, 1, 1)
					})
				}
			}, "field of %d elements: %s, all inputs starting with %d", P, circuitName(c), first)
		}
	}
	c := Circuit{{w(gMul(), 0, 1, 0), w(gAdd(), 1, 0, 1)}, {w(gCipher(U(2)), 1, 0, 0)}}
	product(P, 2, func(ix []int) {
		in0 := pick(al, ix)
		x.Case(func(t *ev.T) {
			cc := circuitOf(c)
			product(P, 2, func(jx []int) {
				for _, n := range []int{1, 2} {
					c01run(t, c, cc, 1, append(Copy(in0), pick(al, jx)...), n, 1, 1)
				}
			})
		}, "field of %d elements: %s, all inputs starting with %s", P, circuitName(c), str(in0...))
	})
}
