package props

import (
	"gkr-mimc/gkr"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C03/single", c03single)
	ev.Register("C03/many", c03many)
	ev.Register("C03/crafted", c03crafted)
	ev.Register("C03/large", c03large)
}

func c03values(v E) []E {
	return []E{Add(v, U(1)), Sub(v, U(1)), Sub(E{}, v), {}, gen(70), U(1), Add(v, raw(0, 1, 0, 0)), Add(v, raw(0, 0, 0, 1))}
}

// c03setup returns an honest proof of the code under test and its statement.
func c03setup(c Circuit, bN, n int, in []E) (gkr.Verifier, Proof, []E) {
	cc := circuitOf(c)
	a := cc.Assign(Chunk(in, n), 2)
	p := gkr.NewProver(cc, a)
	return gkr.NewVerifier(bN, cc), refProof(p.Prove(2)), Unchunk(a.Values[len(a.Values)-1])
}

func c03circuits() []Circuit {
	cs := []Circuit{}
	for _, l := range wideLayers() {
		cs = append(cs, Circuit{l})
	}
	for _, l := range chainLayers() {
		cs = append(cs, Circuit{l})
	}
	cs = append(cs, chains(chainLayers(), 2)...)
	return append(cs, chains(smallChains(), 3)...)
}

// influences says whether the circuit's outputs (as polynomials of the inputs at layer 0) can depend on the claimed
// evaluations of the inputs: used only to describe, never to decide.
func c03try(t *ev.T, v gkr.Verifier, p Proof, n int, in, out []E, format string, a ...interface{}) {
	if v.Verify(proofOf(p), Chunk(in, n), Chunk(out, n)) {
		t.Failf("accepted with a different statement, "+format, a...)
	}
	t.Trans(1)
	t.Trace()
	t.State(hashE(hashE(hashProof(p)^uint64(n), in...), out...))
}

func c03single(x *ev.X) {
	for _, c := range c03circuits() {
		for bN := 0; bN <= 3; bN++ {
			if bN > 1 && len(c) > 1 && !x.Thorough {
				continue
			}
			for _, n := range pow2s(1 << uint(bN)) {
				for pat := 0; pat < 4; pat++ {
					c, bN, n, pat := c, bN, n, pat
					if pat > 0 && (n > 1 || bN > 1 || len(c) > 2) && !x.Thorough {
						continue
					}
					x.Case(func(t *ev.T) {
						in := patterns(1<<uint(bN+c[0].BGIn()), 0)[pat]
						v, p, out := c03setup(c, bN, n, in)
						for i := range in {
							for _, y := range c03values(in[i]) {
								if y != in[i] {
									in2 := Copy(in)
									in2[i] = y
									c03try(t, v, p, n, in2, out, "input %d: %s instead of %s, circuit %s, 2^%d instances, %d chunks", i, str(y), str(in[i]), circuitName(c), bN, n)
								}
							}
						}
						for i := range out {
							for _, y := range c03values(out[i]) {
								if y != out[i] {
									out2 := Copy(out)
									out2[i] = y
									c03try(t, v, p, n, in, out2, "output %d: %s instead of %s, circuit %s, 2^%d instances, %d chunks", i, str(y), str(out[i]), circuitName(c), bN, n)
								}
							}
						}
					}, "every single input and output altered: %s, 2^%d instances, %d chunks, inputs %s", circuitName(c), bN, n, patternNames[pat])
				}
			}
		}
	}
}

// permutations, chunk exchanges, other batches, several values at once
func c03many(x *ev.X) {
	for _, c := range c03circuits() {
		for bN := 0; bN <= 2; bN++ {
			if bN > 1 && len(c) > 1 && !x.Thorough {
				continue
			}
			for _, n := range pow2s(1 << uint(bN)) {
				c, bN, n := c, bN, n
				x.Case(func(t *ev.T) {
					in := gens(0, 1<<uint(bN+c[0].BGIn()))
					v, p, out := c03setup(c, bN, n, in)
					try := func(i2, o2 []E, what string) {
						if Eq1(i2, in) && Eq1(o2, out) {
							return
						}
						c03try(t, v, p, n, i2, o2, "%s, circuit %s, 2^%d instances, %d chunks", what, circuitName(c), bN, n)
					}
					perm := func(tab []E, apply func([]E, string)) {
						for i := range tab {
							for j := i + 1; j < len(tab); j++ {
								y := Copy(tab)
								y[i], y[j] = y[j], y[i]
								apply(y, "exchange of two values")
								// the same difference added to two places, opposite differences
								y = Copy(tab)
								y[i], y[j] = Add(y[i], U(1)), Add(y[j], U(1))
								apply(y, "the same difference on two values")
								y[j] = Sub(tab[j], U(1))
								apply(y, "opposite differences on two values")
							}
						}
						// rotations, reversal, bit reversal of chunk order
						for k := 1; k < len(tab); k++ {
							apply(append(Copy(tab[k:]), tab[:k]...), "rotation")
						}
						y := make([]E, len(tab))
						for i := range tab {
							y[len(tab)-1-i] = tab[i]
						}
						apply(y, "reversal")
						ch := Chunk(tab, n)
						for i := range ch {
							for j := i + 1; j < n; j++ {
								ch[i], ch[j] = ch[j], ch[i]
								apply(Unchunk(ch), "exchange of two chunks")
								ch[i], ch[j] = ch[j], ch[i]
							}
						}
						// the chunks read with the other chunkings of the same flat list
						flat := []E{}
						for _, k := range ch {
							flat = append(flat, k...)
						}
						apply(flat, "chunks concatenated instead of interleaved")
						z := make([]E, len(tab))
						apply(z, "all zero")
						for i := range z {
							z[i] = Add(tab[i], U(1))
						}
						apply(z, "one added everywhere")
						for i := range z {
							z[i] = Mul(tab[i], U(2))
						}
						apply(z, "doubled")
						for m := 1; m < 1<<uint(len(tab)) && len(tab) <= 8; m++ {
							for i := range z {
								z[i] = tab[i]
								if m>>uint(i)&1 == 1 {
									z[i] = Add(z[i], U(uint64(i+1)))
								}
							}
							apply(z, "a subset altered")
						}
					}
					perm(in, func(y []E, what string) { try(y, out, "inputs: "+what) })
					perm(out, func(y []E, what string) { try(in, y, "outputs: "+what) })
					for o, in2 := range patterns(len(in), 50) {
						o2 := c.Assign(in2)[len(c)]
						try(in2, o2, "another correct statement ("+patternNames[o]+")")
						try(in2, out, "other inputs ("+patternNames[o]+")")
						try(in, o2, "other outputs ("+patternNames[o]+")")
					}
				}, "inputs and outputs permuted, exchanged, altered in any subset: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
			}
		}
	}
}

// crafted statements: the statement is not part of the transcript, so a proof fixes only the values of the
// multilinear extensions at its points (known finding); statements that do not have these values must be rejected.
func c03crafted(x *ev.X) {
	for _, c := range c03circuits() {
		for bN := 0; bN <= 2; bN++ {
			for _, n := range pow2s(1 << uint(bN)) {
				if bN == 2 && (n == 2 || len(c) > 1) && !x.Thorough {
					continue
				}
				c, bN, n := c, bN, n
				x.Case(func(t *ev.T) {
					in := gens(0, 1<<uint(bN+c[0].BGIn()))
					v, p, out := c03setup(c, bN, n, in)
					qP, q := point(bN, c)
					pt := cat2(q, qP)
					for i := range out {
						for j := i + 1; j < len(out); j++ {
							// delta_i chi_i + delta_j chi_j = 0
							ci, cj := MLE(unit(len(out), i), pt), MLE(unit(len(out), j), pt)
							if ci.IsZero() || cj.IsZero() {
								continue
							}
							o2 := Copy(out)
							o2[i] = Add(o2[i], U(1))
							o2[j] = Sub(o2[j], Mul(ci, Inv(cj)))
							if v.Verify(proofOf(p), Chunk(in, n), Chunk(o2, n)) {
								t.Known("outputs-not-absorbed", "GKR verifier accepts wrong outputs altered in two positions with differences cancelling at the fixed initial point")
								t.Count("crafted outputs accepted", 1)
							}
							o2[j] = Add(o2[j], U(1))
							c03try(t, v, p, n, in, o2, "nearly crafted outputs %d %d, circuit %s, 2^%d instances, %d chunks", i, j, circuitName(c), bN, n)
							// cancellations at other natural points (all zero, all one, reversed order) must be caught
							for _, op := range otherPoints(pt) {
								a, b := MLE(unit(len(out), i), op), MLE(unit(len(out), j), op)
								o3 := Copy(out)
								if b.IsZero() {
									continue
								}
								o3[i] = Add(o3[i], U(1))
								o3[j] = Sub(o3[j], Mul(a, Inv(b)))
								if MLE(o3, pt) == MLE(out, pt) {
									continue
								}
								c03try(t, v, p, n, in, o3, "outputs %d %d cancelling at another point, circuit %s, 2^%d instances, %d chunks", i, j, circuitName(c), bN, n)
							}
							t.Trans(1)
						}
					}
					// inputs: keep the extension at (hL,h') and (hR,h')
					bg := c[0].BGIn()
					var ch []E
					for _, poly := range p.SC[0] {
						ch = append(ch, Mimc(poly))
					}
					p1, p2 := cat2(ch[:bg], ch[2*bg:]), cat2(ch[bg:2*bg], ch[2*bg:])
					for i := range in {
						for j := i + 1; j < len(in); j++ {
							for k := j + 1; k < len(in); k++ {
								d, ok := kernel(chis(len(in), []int{i, j, k}, p1), chis(len(in), []int{i, j, k}, p2))
								if !ok {
									continue
								}
								i2 := Copy(in)
								for a, ix := range []int{i, j, k} {
									i2[ix] = Add(i2[ix], d[a])
								}
								if Eq1(i2, in) {
									continue
								}
								if MLE(i2, p1) != MLE(in, p1) || MLE(i2, p2) != MLE(in, p2) {
									t.Failf("reference error: kernel")
								}
								if v.Verify(proofOf(p), Chunk(i2, n), Chunk(out, n)) {
									t.Known("inputs-not-absorbed", "GKR verifier accepts wrong inputs altered in three positions with differences cancelling at the two final points of the proof")
									t.Count("crafted inputs accepted", 1)
								}
								i2[k] = Add(i2[k], U(1))
								c03try(t, v, p, n, i2, out, "nearly crafted inputs %d %d %d, circuit %s, 2^%d instances, %d chunks", i, j, k, circuitName(c), bN, n)
							}
							// cancelling at the left point only, at the right point only
							for side, pp := range [][]E{p1, p2} {
								if Eq1(p1, p2) {
									continue
								}
								x := chis(len(in), []int{i, j}, pp)
								if x[1].IsZero() || x[0].IsZero() {
									continue
								}
								i2 := Copy(in)
								i2[i] = Add(i2[i], x[1])
								i2[j] = Sub(i2[j], x[0])
								if MLE(i2, p1) == MLE(in, p1) && MLE(i2, p2) == MLE(in, p2) {
									continue
								}
								c03try(t, v, p, n, i2, out, "inputs %d %d altered so that only the evaluation %d (0 left, 1 right) is unchanged, circuit %s, 2^%d instances, %d chunks", i, j, side, circuitName(c), bN, n)
							}
						}
					}
				}, "statements crafted against the points of the proof: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
			}
		}
	}
}

func unit(n, i int) []E {
	r := make([]E, n)
	r[i] = U(1)
	return r
}

func chis(n int, ix []int, pt []E) []E {
	var r []E
	for _, i := range ix {
		r = append(r, MLE(unit(n, i), pt))
	}
	return r
}

// kernel solves a.d = b.d = 0 in three unknowns (cross product).
func kernel(a, b []E) ([]E, bool) {
	d := make([]E, 3)
	nz := false
	for i := range d {
		j, k := (i+1)%3, (i+2)%3
		d[i] = Sub(Mul(a[j], b[k]), Mul(a[k], b[j]))
		nz = nz || !d[i].IsZero()
	}
	if !nz {
		// parallel constraints: one equation
		d[0], d[1] = a[1], Sub(E{}, a[0])
		nz = !a[0].IsZero() || !a[1].IsZero()
	}
	return d, nz
}

func otherPoints(pt []E) [][]E {
	n := len(pt)
	rev := make([]E, n)
	for i := range pt {
		rev[i] = pt[n-1-i]
	}
	ones, twos := make([]E, n), make([]E, n)
	inc := make([]E, n)
	for i := range ones {
		ones[i], twos[i], inc[i] = I(-1), U(2), U(uint64(i+3))
	}
	return [][]E{rev, ones, twos, inc}
}

// every position of a larger batch
func c03large(x *ev.X) {
	cs := []Circuit{chains(smallChains(), 2)[5], {smallChains()[4]}, {wideLayers()[0]}}
	for ci, c := range cs {
		bN := 5
		if x.Thorough {
			bN = 7
		}
		for _, n := range pow2s(1 << uint(bN)) {
			c, n, ci := c, n, ci
			if !x.Thorough && n != 1 && n != 4 && n != 32 {
				continue
			}
			x.Case(func(t *ev.T) {
				in := gens(0, 1<<uint(bN+c[0].BGIn()))
				v, p, out := c03setup(c, bN, n, in)
				for i := range in {
					in2 := Copy(in)
					in2[i] = Add(in2[i], U(uint64(ci+1)))
					c03try(t, v, p, n, in2, out, "input %d of %d, circuit %s, 2^%d instances, %d chunks", i, len(in), circuitName(c), bN, n)
				}
				for i := range out {
					o2 := Copy(out)
					o2[i] = Add(o2[i], U(uint64(ci+1)))
					c03try(t, v, p, n, in, o2, "output %d of %d, circuit %s, 2^%d instances, %d chunks", i, len(out), circuitName(c), bN, n)
				}
			}, "every single input and output altered: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
		}
	}
}
