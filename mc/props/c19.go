package props

import (
	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C19/values", c19values)
	ev.Register("C19/proofs", c19proofs)
}

var mimcCircuitCache *circuit.Circuit

func mimcCircuit() circuit.Circuit {
	if mimcCircuitCache == nil {
		c := examples.CreateMimcCircuit()
		mimcCircuitCache = &c
	}
	return *mimcCircuitCache
}

// c19inputs: the circuit takes (state+block, block).
func c19inputs(states, blocks []E) []E {
	n := len(states)
	in := make([]E, 2*n)
	for i := range states {
		in[i] = Add(states[i], blocks[i])
		in[n+i] = blocks[i]
	}
	return in
}

// c19want: the permutation of the native hash, plus the key which the circuit adds as the chaining does.
func c19want(states, blocks []E) []E {
	var r []E
	for i := range states {
		x := states[i]
		hash.MimcPermutationInPlace(&x, blocks[i])
		r = append(r, Add(x, blocks[i]))
	}
	return r
}

func c19check(t *ev.T, c circuit.Circuit, states, blocks []E, n, co int) ([]E, circuit.Assignment, []E) {
	in := c19inputs(states, blocks)
	a := c.Assign(Chunk(in, n), co)
	got, want := a.Values[len(a.Values)-1], c19want(states, blocks)
	if !Eq2(got, Chunk(want, n)) {
		t.Failf("outputs %v, expected %v: states %s blocks %s, %d chunks, %d cores", got, Chunk(want, n), str(states...), str(blocks...), n, co)
	}
	t.Trans(1)
	t.Trace()
	t.State(hashE(uint64(n*100+co), in...))
	t.Outcome(hashE(1, want...))
	return in, a, want
}

func c19values(x *ev.X) {
	r := rich()
	for i := range r {
		i := i
		x.Case(func(t *ev.T) {
			c := examples.CreateMimcCircuit()
			for j := range r {
				c19check(t, c, []E{r[i]}, []E{r[j]}, 1, 1)
				// and with the sum being the edge value
				c19check(t, c, []E{Sub(r[i], r[j])}, []E{r[j]}, 1, 2)
			}
		}, "state %s with every block", str(r[i]))
	}
	for bN := 1; bN <= 7; bN++ {
		for _, n := range pow2s(1 << uint(bN)) {
			bN, n := bN, n
			x.Case(func(t *ev.T) {
				c := examples.CreateMimcCircuit()
				for _, s := range patterns(1<<uint(bN), 0) {
					for _, b := range patterns(1<<uint(bN), 70) {
						for _, co := range []int{1, 2, 3, 8, 1000} {
							if bN > 3 && co > 2 && !x.Thorough {
								continue
							}
							c19check(t, c, s, b, n, co)
						}
					}
				}
			}, "2^%d instances in %d chunks, all pairs of patterns and cores", bN, n)
		}
	}
}

func c19proofs(x *ev.X) {
	for bN := 0; bN <= 5; bN++ {
		for _, n := range pow2s(1 << uint(bN)) {
			for pat := 0; pat < len(patternNames); pat++ {
				bN, n, pat := bN, n, pat
				if (pat > 1 && bN > 1 || pat > 0 && bN > 2) && !x.Thorough {
					continue
				}
				if bN == 5 && n != 1 && n != 8 && n != 32 && !x.Thorough {
					continue
				}
				x.Case(func(t *ev.T) {
					c := examples.CreateMimcCircuit()
					in, a, out := c19check(t, c, patterns(1<<uint(bN), 0)[pat], patterns(1<<uint(bN), 33)[pat], n, 2)
					for _, co := range []int{1, 3} {
						p := gkr.NewProver(c, a)
						proof := p.Prove(co)
						v := gkr.NewVerifier(bN, c)
						if !v.Verify(proof, Chunk(in, n), Chunk(out, n)) {
							t.Failf("honest proof rejected: 2^%d instances, %d chunks, %d cores, %s", bN, n, co, patternNames[pat])
						}
						t.Trans(1)
						if co > 1 {
							continue
						}
						for i := range out {
							for k, y := range []E{Add(out[i], U(1)), {}, Sub(E{}, out[i]), gen(5)} {
								if y == out[i] || k > 0 && bN > 2 {
									continue
								}
								o2 := Copy(out)
								o2[i] = y
								if v.Verify(proof, Chunk(in, n), Chunk(o2, n)) {
									t.Failf("wrong output %d accepted: 2^%d instances, %d chunks", i, bN, n)
								}
								t.Trans(1)
								// the proof of an honest prover on an assignment with a wrong output
								if k == 0 {
									a2 := circuit.Assignment{Values: Copy3(a.Values)}
									a2.Values[91] = Chunk(o2, n)
									p2 := gkr.NewProver(c, a2)
									if v.Verify(p2.Prove(1), Chunk(in, n), Chunk(o2, n)) {
										t.Failf("proof of a wrong output %d accepted: 2^%d instances, %d chunks", i, bN, n)
									}
									t.Trans(1)
									if bN > 3 {
										k = 9
									}
								}
							}
						}
					}
				}, "proofs of 2^%d instances in %d chunks, %s; every output altered", bN, n, patternNames[pat])
			}
		}
	}
}
