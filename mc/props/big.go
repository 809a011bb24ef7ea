package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C01/wide", c01wide)
	ev.Register("C02/wide", c02wide)
	ev.Register("C02/long", c02long)
	ev.Register("C03/points", c03points)
	ev.Register("C03/exchange", c03exchange)
	ev.Register("C05/configs", c05cfgs)
	ev.Register("C06/wide", c06wide)
	ev.Register("C08/wide", c08wide)
	ev.Register("C09/long", c09long)
	ev.Register("C12/overlap", c12overlap)
	ev.Register("C18/wide", c18wide)
}

// manyGates: more gates than any layer of the repository uses.
func manyGates(n int) []Gate {
	r := []Gate{gAdd(), gMul(), gCopy()}
	for i := 0; len(r) < n; i++ {
		r = append(r, gCipher(gen(800+i)))
	}
	return r[:n]
}

type namedLayer struct {
	name string
	l    Layer
}

// bigLayers have widths of 8 to 64, up to 64 wires, fan-in and fan-out above 16, up to 12 gates.
func bigLayers() []namedLayer {
	g12 := manyGates(12)
	mk := func(name string, n int, f func(i int) Wire) namedLayer {
		var l Layer
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return namedLayer{name, l}
	}
	return []namedLayer{
		mk("16 to 16, 4 gates", 16, func(i int) Wire { return w(g12[i%4], i, (5*i+3)%16, (7*i+1)%16) }),
		mk("16 to 1, 40 wires", 40, func(i int) Wire { return w(g12[i%3], i%16, (3*i+i/16)%16, 0) }),
		mk("1 to 32", 32, func(i int) Wire { return w(g12[i%5], 0, 0, i) }),
		mk("32 to 32 copies reversed", 32, func(i int) Wire { return w(g12[2], i, 31-i, 31-i) }),
		mk("32 to 2", 34, func(i int) Wire { return w(g12[(i/2)%2], (i+31)%32, i%32, i%2) }),
		mk("17 to 33", 33, func(i int) Wire { return w(g12[i%2], i%17, 16-i%17, i) }),
		mk("only the last of 32 to the last of 16", 1, func(i int) Wire { return w(g12[1], 31, 30, 15) }),
		mk("8 to 8, 12 gates", 24, func(i int) Wire { return w(g12[i%12], i%8, (i/3)%8, (i*3)%8) }),
		mk("8 to 16, wires 8 times each", 64, func(i int) Wire { return w(g12[1+2*(i%2)], (i/8)%8, 7-(i/8)%8, 2*((i/8)%8)+i%2) }),
		mk("64 to 8", 64, func(i int) Wire { return w(g12[i%2], i, 63-i, i/8) }),
		mk("2 to 64", 64, func(i int) Wire { return w(g12[i%3], i%2, (i/2)%2, i) }),
		mk("16 to 16, identity then rotation", 32, func(i int) Wire { return w(g12[i/16], i%16, (i+i/16)%16, i%16) }),
		mk("8 to 1, 12 gates", 12, func(i int) Wire { return w(g12[i], i%8, 7-i%8, 0) }),
	}
}

type namedCircuit struct {
	name string
	c    Circuit
}

// bigCircuits: the layers alone, combined, and deep chains.
func bigCircuits() []namedCircuit {
	bl := bigLayers()
	var r []namedCircuit
	for _, l := range bl {
		r = append(r, namedCircuit{l.name, Circuit{l.l}})
	}
	for i := range bl {
		for j := range bl {
			if bl[i].l.BGOut() == bl[j].l.BGIn() && (i+j)%2 == 0 {
				r = append(r, namedCircuit{bl[i].name + " | " + bl[j].name, Circuit{bl[i].l, bl[j].l}})
			}
		}
	}
	a := chainLayers()
	deep := func(name string, n int, f func(i int) Layer) {
		var c Circuit
		for i := 0; i < n; i++ {
			c = append(c, f(i))
		}
		if !c.WellFormed() {
			panic(name)
		}
		r = append(r, namedCircuit{name, c})
	}
	deep("7 layers of width 2", 7, func(i int) Layer { return a[7+i%4] })
	deep("12 layers of width 1", 12, func(i int) Layer { return a[i%2] })
	deep("9 layers, widths 1 2 4 1", 9, func(i int) Layer { return []Layer{a[2], a[11], a[13]}[i%3] })
	deep("8 layers, widths 2 1 1 2 alternating", 8, func(i int) Layer { return []Layer{a[4], a[1], a[0], a[2]}[i%4] })
	deep("40 layers of width 1", 40, func(i int) Layer { return a[(i/3)%2] })
	return r
}

func c01wide(x *ev.X) {
	for _, nc := range bigCircuits() {
		for bN := 0; bN <= 3; bN++ {
			nc, bN := nc, bN
			if bN > 1 && nc.c[0].BGIn() > 3 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				cc := circuitOf(nc.c)
				for ip, in := range patterns(1<<uint(bN+nc.c[0].BGIn()), 0) {
					if ip > 1 && !x.Thorough {
						break
					}
					for _, n := range pow2s(1 << uint(bN)) {
						for _, co := range []int{1, 2, 3, 100} {
							if (ip > 0 || co > 3) && n > 1 && !x.Thorough {
								continue
							}
							p := c01run(t, nc.c, cc, bN, in, n, co, co)
							if ip == 0 && co == 1 {
								qP, q := point(bN, nc.c)
								if !eqProof(refProof(p), nc.c.Prove(in, qP, q)) {
									t.Failf("proof of %s differs from the one by definition, 2^%d instances, %d chunks", nc.name, bN, n)
								}
							}
						}
					}
				}
			}, "%s, 2^%d instances", nc.name, bN)
		}
	}
}

func c06wide(x *ev.X) {
	for _, nc := range bigCircuits() {
		for bN := 0; bN <= 3; bN++ {
			nc, bN := nc, bN
			x.Case(func(t *ev.T) {
				cc := circuitOf(nc.c)
				for _, in := range patterns(1<<uint(bN+nc.c[0].BGIn()), 0) {
					for _, n := range pow2s(1 << uint(bN)) {
						for _, co := range []int{1, 3, 100} {
							c06one(t, nc.c, cc, in, n, co)
						}
					}
				}
			}, "%s, 2^%d instances", nc.name, bN)
		}
	}
}

func c18wide(x *ev.X) {
	for _, l := range bigLayers() {
		l := l
		x.Case(func(t *ev.T) { c18layer(t, l.l, c18points) }, "layer %s", l.name)
	}
	// single wires around the powers of two up to 2^6, in every role
	at := []int{0, 1, 6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65}
	pts := func(n int) [][]E { return c18points(n)[:1] }
	for role := 0; role < 3; role++ {
		for _, i := range at {
			role, i := role, i
			x.Case(func(t *ev.T) {
				for _, k := range []int{0, 1, i, i / 2} {
					for _, g := range []Gate{gAdd(), gCipher(gen(63))} {
						l := Layer{w(g, k, 0, 0)}
						switch role {
						case 0:
							l[0].L, l[0].R = i, k
						case 1:
							l[0].R = i
						case 2:
							l[0].L, l[0].R, l[0].O = k%4, 1, i
						}
						c18layer(t, l, pts)
						c18layer(t, append(l, l[0]), pts)
						c18layer(t, append(l, w(gMul(), l[0].R, l[0].L, l[0].O)), pts)
					}
				}
			}, "wires with index %d as %s", i, []string{"left input", "right input", "output"}[role])
		}
	}
	// pairs of wires in one layer, with every pair of indices in every role (the widths are maxima over all the wires)
	for _, i := range at {
		i := i
		x.Case(func(t *ev.T) {
			for _, j := range at {
				c18layer(t, Layer{w(gAdd(), i%8, j%8, i), w(gMul(), j%8, i%8, j)}, pts)
				if i <= 33 && j <= 33 {
					c18layer(t, Layer{w(gAdd(), i, 0, 0), w(gMul(), 0, j, 1)}, pts)
					c18layer(t, Layer{w(gAdd(), i, j, 1), w(gAdd(), j, i, 0)}, pts)
				}
			}
		}, "pairs of wires, first index %d", i)
	}
	// many distinct gates
	for _, n := range []int{9, 16, 33, 60} {
		n := n
		x.Case(func(t *ev.T) {
			gs := manyGates(n)
			var l Layer
			for i := 0; i < 2*n; i++ {
				l = append(l, w(gs[(i*7)%n], i%4, (i/4)%4, i%2))
			}
			c18layer(t, l, pts)
		}, "layer of %d gates", n)
	}
}

// c02wide: every relation of a wide or deep circuit broken, alone.
func c02wide(x *ev.X) {
	for i, nc := range bigCircuits() {
		for bN := 0; bN <= 1; bN++ {
			nc, bN := nc, bN
			if !x.Thorough && (i%2 != bN || len(nc.c) > 20) {
				continue
			}
			x.Case(func(t *ev.T) {
				in := gens(0, 1<<uint(bN+nc.c[0].BGIn()))
				out := nc.c.Assign(in)[len(nc.c)]
				qP, q := point(bN, nc.c)
				lie := Copy(out)
				lie[len(out)-1] = Add(lie[len(out)-1], gen(90))
				n := 1 << uint(bN)
				c02forgeOne(t, nc.c, bN, newC02(t, nc.c, bN, n, in, lie), in, MLE(lie, cat2(q, qP)), qP, q)
				newC02(t, nc.c, bN, n, in, out).judge(nc.c.Prove(in, qP, q), "honest proof")
			}, "for every relation, a proof breaking only this one: %s, 2^%d instances", nc.name, bN)
		}
	}
}

// c02long: many rounds.
func c02long(x *ev.X) {
	cs := []Circuit{{smallChains()[0]}, {smallChains()[4]}, {smallChains()[3], smallChains()[2]}}
	top := 7
	if x.Thorough {
		top = 10
	}
	for _, c := range cs {
		for bN := 4; bN <= top; bN++ {
			for _, n := range []int{1, 4, 1 << uint(bN)} {
				c, bN, n := c, bN, n
				if n != 4 && bN != 4 && !x.Thorough {
					continue
				}
				x.Case(func(t *ev.T) {
					in := gens(0, 1<<uint(bN+c[0].BGIn()))
					out := c.Assign(in)[len(c)]
					qP, q := point(bN, c)
					lie := Copy(out)
					lie[len(out)/3] = Add(lie[len(out)/3], gen(90))
					c02forgeOne(t, c, bN, newC02(t, c, bN, n, in, lie), in, MLE(lie, cat2(q, qP)), qP, q)
					k := newC02(t, c, bN, n, in, out)
					p := c.Prove(in, qP, q)
					k.judge(p, "honest proof")
					sites(&p, func(s *E, name string) {
						v := *s
						*s = Add(v, U(1))
						k.judge(p, "%s altered", name)
						*s = v
					})
				}, "every relation broken alone, every value altered: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
			}
		}
	}
}

// c03points: the fixed initial point separates all outputs: no output is ignored, no two have the same weight, nor
// opposite weights, nor weights whose ratio is a small integer.
func c03points(x *ev.X) {
	top := 12
	if x.Thorough {
		top = 16
	}
	for bN := 0; bN <= top; bN++ {
		for bG := 0; bG <= 5; bG++ {
			bN, bG := bN, bG
			if bN+bG > top {
				continue
			}
			x.Case(func(t *ev.T) {
				qP, q := gkr.GetInitialQPrimeAndQ(bN, bG)
				if len(qP) != bN || len(q) != bG {
					t.Failf("initial point for bN=%d bG=%d has %d and %d coordinates", bN, bG, len(qP), len(q))
				}
				qP2, q2 := gkr.GetInitialQPrimeAndQ(bN, bG)
				if !Eq1(qP, qP2) || !Eq1(q, q2) {
					t.Failf("initial point for bN=%d bG=%d is not the same twice", bN, bG)
				}
				pt := cat2(q, qP)
				w := EqTable(pt)
				seen := map[E]int{}
				for i, v := range w {
					if v.IsZero() {
						t.Failf("output %d has weight zero at the initial point for bN=%d bG=%d (point %s): it is not checked", i, bN, bG, str(pt...))
					}
					for _, m := range []int{1, -1} {
						if j, ok := seen[Mul(v, I(m))]; ok {
							t.Failf("outputs %d and %d have the same weight up to sign at the initial point for bN=%d bG=%d (point %s)", j, i, bN, bG, str(pt...))
						}
					}
					seen[v] = i
				}
				t.Step(hashE(ev.Mix(uint64(bN), uint64(bG)), pt...))
				t.Trans(len(w) * (len(w) - 1) / 2)
			}, "initial point for 2^%d instances of 2^%d outputs: weights of all pairs", bN, bG)
		}
	}
}

// c03exchange: larger batches: every pair of outputs exchanged or shifted in opposite directions (through the verifier
// for a covering family of pairs; all pairs are covered by c03points).
func c03exchange(x *ev.X) {
	cs := []Circuit{{smallChains()[0]}, {smallChains()[3]}}
	bNs := []int{4, 6, 8}
	if x.Thorough {
		bNs = []int{4, 6, 8, 9, 10}
	}
	for _, c := range cs {
		for _, bN := range bNs {
			for _, n := range []int{1, 8} {
				c, bN, n := c, bN, n
				x.Case(func(t *ev.T) {
					in := gens(0, 1<<uint(bN+c[0].BGIn()))
					v, p, out := c03setup(c, bN, n, in)
					m := len(out)
					for d := 1; d < m; d *= 2 {
						for i := 0; i < m; i += 1 + m/64 {
							j := i ^ d
							if j < i {
								j = (i + d + 1) % m
							}
							if i == j {
								continue
							}
							o := Copy(out)
							o[i], o[j] = o[j], o[i]
							if o[i] != o[j] {
								c03try(t, v, p, n, in, o, "outputs %d and %d exchanged, circuit %s, 2^%d instances, %d chunks", i, j, circuitName(c), bN, n)
							}
							o = Copy(out)
							o[i], o[j] = Add(o[i], U(1)), Sub(o[j], U(1))
							c03try(t, v, p, n, in, o, "opposite differences on outputs %d and %d, circuit %s, 2^%d instances, %d chunks", i, j, circuitName(c), bN, n)
						}
					}
					for i := range in {
						j := (i + 1 + len(in)/2) % len(in)
						i2 := Copy(in)
						i2[i], i2[j] = i2[j], i2[i]
						c03try(t, v, p, n, i2, out, "inputs %d and %d exchanged, circuit %s, 2^%d instances, %d chunks", i, j, circuitName(c), bN, n)
					}
				}, "outputs and inputs exchanged: %s, 2^%d instances, %d chunks", circuitName(c), bN, n)
			}
		}
	}
}

// c05cfgs: the parallel provers give the proof of the sequential one for every chunking and number of cores, under
// whatever schedule the runtime picks (the schedules themselves are explored by the other phases).
func c05cfgs(x *ev.X) {
	type cfg struct{ bG, bN int }
	var cs []cfg
	for bG := 0; bG <= 3; bG++ {
		for bN := 0; bN <= 8; bN++ {
			if 2*bG+bN <= 9 {
				cs = append(cs, cfg{bG, bN})
			}
		}
	}
	cores := []int{1, 2, 3, 4, 5, 7, 8, 16, 100, 1000}
	gl := gateLists()
	for _, k := range cs {
		for gi, gs := range gl {
			k, gs := k, gs
			if !x.Thorough && (gi+k.bG+k.bN)%4 != 0 {
				continue
			}
			x.Case(func(t *ev.T) {
				g := 1 << uint(k.bG)
				s := &Instance{VL: gens(0, g<<uint(k.bN)), VR: gens(500, g<<uint(k.bN)), EQ: EqTable(gens(100, k.bN)), Gates: gs, ST: staticPatterns(len(gs), g*g)[0]}
				sp := singleOf(s)
				claim := sp.GetClaim()
				pr, qP, qL, qR, fin := sp.Prove()
				tr := &SCTranscript{Proof: pr.PolyCoeffs, QL: qL, QR: qR, QP: qP, VL: fin[0], VR: fin[1], EQ: fin[2], ST: fin[3:]}
				for _, n := range pow2s(1 << uint(k.bN)) {
					for ci, co := range cores {
						if !x.Thorough && ci > 3 && (ci+n)%3 != 0 {
							continue
						}
						mp := multiOf(s, n)
						if c := mp.GetClaim(co); c != claim {
							t.Failf("claim with %d chunks and %d cores is %s, the sequential prover says %s: %s", n, co, str(c), str(claim), instName(s))
						}
						pr2, a, b, c, f := mp.Prove(co)
						if why := sumTranscript(s, tr, pr2, a, b, c, f); why != "" {
							t.Failf("%d chunks, %d cores: %s: %s", n, co, why, instName(s))
						}
						t.Step(ev.Mix(hashInst(s), uint64(n), uint64(co)))
					}
				}
			}, "sumcheck with bG=%d bN=%d, gates %v: every chunking and number of cores against the sequential prover", k.bG, k.bN, len(gs))
		}
	}
	// whole proofs
	var ncs []namedCircuit
	for _, c := range chains(smallChains(), 2) {
		ncs = append(ncs, namedCircuit{circuitName(c), c})
	}
	ncs = append(ncs, bigCircuits()[:3]...)
	ncs = append(ncs, namedCircuit{"MiMC circuit", mimcRef()})
	for _, nc := range ncs {
		for bN := 0; bN <= 5; bN++ {
			nc, bN := nc, bN
			if bN > 2 && nc.c[0].BGIn()+bN > 6 || len(nc.c) > 50 && bN > 2 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				in := gens(0, 1<<uint(bN+nc.c[0].BGIn()))
				qP, q := point(bN, nc.c)
				want := nc.c.Prove(in, qP, q)
				cc := circuitOf(nc.c)
				if len(nc.c) == 91 {
					cc = examples.CreateMimcCircuit()
				}
				for _, n := range pow2s(1 << uint(bN)) {
					for ci, co := range []int{1, 2, 3, 8, 1000} {
						if len(nc.c) > 50 && (ci+n)%3 != 0 {
							continue
						}
						a := cc.Assign(Chunk(in, n), co)
						p := gkr.NewProver(cc, a)
						if !eqProof(refProof(p.Prove(co)), want) {
							t.Failf("proof of %s with %d chunks and %d cores, 2^%d instances, is not the sequential one", nc.name, n, co, bN)
						}
						t.Step(ev.Mix(hashCircuit(nc.c), uint64(bN), uint64(n), uint64(co)))
					}
				}
			}, "proof of %s, 2^%d instances: every chunking and number of cores", nc.name, bN)
		}
	}
}

func sumTranscript(s *Instance, tr *SCTranscript, pr sumcheck.Proof, qP, qL, qR, fin []E) string {
	if len(pr.PolyCoeffs) != len(tr.Proof) {
		return fmt.Sprintf("%d rounds instead of %d", len(pr.PolyCoeffs), len(tr.Proof))
	}
	for i := range pr.PolyCoeffs {
		if !samePoly(pr.PolyCoeffs[i], tr.Proof[i]) {
			return fmt.Sprintf("round %d: polynomial %s, the sequential prover gives %s", i, str(pr.PolyCoeffs[i]...), str(tr.Proof[i]...))
		}
	}
	if !Eq1(qP, tr.QP) || !Eq1(qL, tr.QL) || !Eq1(qR, tr.QR) {
		return "challenges differ from those of the sequential prover"
	}
	if !Eq1(fin, append([]E{tr.VL, tr.VR, tr.EQ}, tr.ST...)) {
		return fmt.Sprintf("final values %s differ from those of the sequential prover", str(fin...))
	}
	return ""
}

// c08wide: shapes with many left/right variables, many instances, many gates.
func c08wide(x *ev.X) {
	for _, k := range []struct{ bG, bN int }{{3, 0}, {3, 1}, {3, 2}, {4, 0}, {4, 1}, {0, 8}, {0, 10}, {1, 8}, {5, 0}} {
		for gi, gl := range append(gateLists(), manyGates(12)) {
			for _, pat := range []int{0, 1, 2} {
				k, gl, pat := k, gl, pat
				if !x.Thorough && ((gi+k.bG+k.bN)%6 != 0 && gi < 29 || pat > 0 && k.bG > 3) {
					continue
				}
				g := 1 << uint(k.bG)
				x.Case(func(t *ev.T) {
					s := &Instance{VL: patterns(g<<uint(k.bN), 0)[pat], VR: patterns(g<<uint(k.bN), 500)[0], EQ: EqTable(gens(100, k.bN)), Gates: gl, ST: staticPatterns(len(gl), g*g)[pat]}
					c08prove(t, s, 0, 1)
					c08prove(t, s, 1, 2)
					if k.bN > 0 {
						c08prove(t, s, 2, 3)
						c08prove(t, s, 1<<uint(k.bN), 4)
					}
				}, "bG=%d bN=%d, %d gates, pattern %d", k.bG, k.bN, len(gl), pat)
			}
		}
	}
}

// c09long: many rounds and long polynomials.
func c09long(x *ev.X) {
	for _, k := range []struct{ bG, bN int }{{0, 9}, {0, 10}, {0, 11}, {0, 20}, {1, 9}, {4, 0}, {5, 3}, {6, 1}, {3, 30}, {0, 40}, {10, 0}, {16, 32}} {
		for _, d := range []int{1, 3, 9, 17, 40} {
			k, d := k, d
			n := 2*k.bG + k.bN
			if n*d > 420 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				claim := gen(1)
				var p SCProof
				cur := claim
				for i := 0; i < n; i++ {
					p = append(p, gens(10*i, d))
					fixClaim(p, i, cur)
					cur = PolyEval(p[i], Mimc(p[i]))
				}
				if !c09one(t, claim, p, k.bN, k.bG) {
					t.Failf("reference error")
				}
				c09one(t, Add(claim, U(1)), p, k.bN, k.bG)
				for i := 0; i < n; i++ {
					for _, j := range []int{0, d / 2, d - 1} {
						v := p[i][j]
						p[i][j] = Add(v, U(1))
						// this round inconsistent, later ones not adapted, then adapted
						c09one(t, claim, p, k.bN, k.bG)
						q := SCProof(Copy2(p))
						for m := i + 1; m < n; m++ {
							fixClaim(q, m, PolyEval(q[m-1], Mimc(q[m-1])))
						}
						c09one(t, claim, q, k.bN, k.bG)
						if d > 1 {
							// this round consistent, the next ones not
							q = SCProof(Copy2(p))
							fixClaim(q, i, func() E {
								if i == 0 {
									return claim
								}
								return PolyEval(p[i-1], Mimc(p[i-1]))
							}())
							c09one(t, claim, q, k.bN, k.bG)
						}
						p[i][j] = v
					}
				}
			}, "bG=%d bN=%d, polynomials of %d coefficients: every round altered", k.bG, k.bN, d)
		}
	}
}

// c12overlap: the operands and the destination are windows of the same arrays (exactly equal or disjoint).
func c12overlap(x *ev.X) {
	for _, n := range []int{1, 2, 3, 7, 100, 4097, 8193} {
		for _, op := range []string{"add", "sub", "mul"} {
			for _, co := range []int{1, 2, 3, 8} {
				if op == "add" && co > 1 {
					continue
				}
				n, op, co := n, op, co
				x.Case(func(t *ev.T) {
					lv, rv, lam := make([]E, n), make([]E, n), gen(66)
					for i := range lv {
						lv[i], rv[i] = U(uint64(7*i+3)), I(-5*i*i-1)
					}
					want := make([]E, n)
					for i := range want {
						switch op {
						case "add":
							want[i] = Add(lv[i], rv[i])
						case "sub":
							want[i] = Sub(lv[i], rv[i])
						case "mul":
							want[i] = Mul(lam, lv[i])
						}
					}
					do := func(d *polynomial.BookKeepingTable, l, r polynomial.BookKeepingTable) {
						switch op {
						case "add":
							d.Add(l, r)
						case "sub":
							d.Sub(l, r, co)
						case "mul":
							d.Mul(lam, l, co)
						}
					}
					layouts([][]E{lv, rv}, func(name string, p [][]E, intact func() bool) {
						var d polynomial.BookKeepingTable
						do(&d, polynomial.BookKeepingTable{Table: p[0]}, polynomial.BookKeepingTable{Table: p[1]})
						if !Eq1(d.Table, want) || !intact() {
							t.Failf("%s of %d entries, %d cores, operands laid out as %s: result right %v, operands and their surroundings intact %v", op, n, co, name, Eq1(d.Table, want), intact())
						}
						for i := range d.Table {
							d.Table[i] = gen(1)
						}
						if !intact() {
							t.Failf("%s of %d entries, %d cores, operands laid out as %s: the result shares memory with an operand", op, n, co, name)
						}
						t.Step(ev.Mix(121, uint64(op[0]), uint64(n), uint64(co), uint64(len(name))))
					})
					// destination a window of exact length of the same array as the operands, in every order
					stale := gens(900, n)
					k := 0
					layouts([][]E{lv, rv, stale}, func(name string, p [][]E, intact func() bool) {
						k++
						d := polynomial.BookKeepingTable{Table: p[2]}
						do(&d, polynomial.BookKeepingTable{Table: p[0]}, polynomial.BookKeepingTable{Table: p[1]})
						if !Eq1(d.Table, want) || !Eq1(p[0], lv) || !Eq1(p[1], rv) {
							t.Failf("%s of %d entries, %d cores, operands and destination laid out as %s: result right %v, left intact %v, right intact %v", op, n, co, name, Eq1(d.Table, want), Eq1(p[0], lv), Eq1(p[1], rv))
						}
						t.Step(ev.Mix(122, uint64(op[0]), uint64(n), uint64(co), uint64(k)))
					})
				}, "%s of %d entries with %d cores, every memory layout", op, n, co)
			}
		}
	}
}

var _ = circuit.Circuit{}

func init() {
	ev.Register("C04/huge", c04huge)
	ev.Register("C19/large", c19large)
	ev.Register("C22/large", c22large)
}

// c04huge: shapes far from the right one.
func c04huge(x *ev.X) {
	cs := []Circuit{{smallChains()[0]}, {smallChains()[4]}, {smallChains()[1], smallChains()[3], smallChains()[2]}, bigCircuits()[0].c, mimcRef()}
	for ci, c := range cs {
		for bN := 0; bN <= 1; bN++ {
			for fill := 0; fill < nFill; fill++ {
				c, bN, fill := c, bN, fill
				name := circuitName(c)
				if ci == 4 {
					name = "MiMC circuit"
				}
				x.Case(func(t *ev.T) {
					L := len(c)
					in := gens(0, 1<<uint(bN+c[0].BGIn()))
					if fill == fillZero {
						in = make([]E, len(in))
					}
					out := c.Assign(in)[L]
					if fill == fillZero {
						out = make([]E, len(out))
					}
					k := &c04st{newC02(t, c, bN, 1, in, out), Proof{}}
					k.honest = c.Prove(in, k.qP, k.q)
					want := func(l int) int {
						if l >= L {
							l = L - 1
						}
						return bN + 2*c[l].BGIn()
					}
					same := func(l, r int) int { return -1 }
					for _, a := range []int{0, 1, L - 1, L, L + 1, L + 50, 2 * L, 3*L + 7} {
						for _, b := range []int{0, L, L + 50} {
							for _, d := range []int{0, L, L + 50} {
								k.try(k.build(fill, a, b, d, want, same), fmt.Sprintf("%d layers, %d left claims, %d right claims (%s values)", a, b, d, fillNames[fill]))
							}
						}
					}
					for _, at := range []int{0, L / 2, L - 1} {
						for _, more := range []int{1, 2, 3, 63, 64, 65, 1000} {
							k.try(k.build(fill, L, L, L, func(l int) int {
								if l == at {
									return want(l) + more
								}
								return want(l)
							}, same), fmt.Sprintf("%d surplus rounds at layer %d (%s values)", more, at, fillNames[fill]))
						}
						for r := 0; r < want(at); r += 1 + want(at)/3 {
							for _, n := range []int{0, 1, 10, 12, 13, 40, 255, 1000, 5000} {
								k.try(k.build(fill, L, L, L, want, func(l, i int) int {
									if l == at && i == r {
										return n
									}
									return -1
								}), fmt.Sprintf("%d coefficients at layer %d round %d (%s values)", n, at, r, fillNames[fill]))
							}
						}
					}
				}, "shapes far from the right one: %s, 2^%d instances, %s values", name, bN, fillNames[fill])
			}
		}
	}
}

// c19large: larger batches of the MiMC circuit.
func c19large(x *ev.X) {
	for _, bN := range []int{8, 9, 10, 12} {
		for _, n := range []int{1, 8, 1 << uint(bN)} {
			for _, co := range []int{1, 3, 64} {
				bN, n, co := bN, n, co
				if bN > 10 && n != 8 && !x.Thorough {
					continue
				}
				x.Case(func(t *ev.T) {
					c19check(t, examples.CreateMimcCircuit(), gens(0, 1<<uint(bN)), gens(1<<uint(bN), 1<<uint(bN)), n, co)
				}, "2^%d instances in %d chunks, %d cores", bN, n, co)
			}
		}
	}
	for _, bN := range []int{6, 7, 8} {
		for _, n := range []int{1, 16, 1 << uint(bN)} {
			bN, n := bN, n
			if bN > 6 && n != 16 && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) {
				c := examples.CreateMimcCircuit()
				in, a, out := c19check(t, c, gens(0, 1<<uint(bN)), gens(1<<uint(bN), 1<<uint(bN)), n, 4)
				p := gkr.NewProver(c, a)
				proof := p.Prove(4)
				v := gkr.NewVerifier(bN, c)
				if !v.Verify(proof, Chunk(in, n), Chunk(out, n)) {
					t.Failf("honest proof rejected: 2^%d instances, %d chunks", bN, n)
				}
				for i := range out {
					if bN > 6 && i%8 != 3 && i != len(out)-1 {
						continue
					}
					o := Copy(out)
					o[i] = Add(o[i], U(1))
					if v.Verify(proof, Chunk(in, n), Chunk(o, n)) {
						t.Failf("wrong output %d accepted: 2^%d instances, %d chunks", i, bN, n)
					}
					t.Step(ev.Mix(19, uint64(bN), uint64(n), uint64(i)))
				}
			}, "proof of 2^%d instances in %d chunks", bN, n)
		}
	}
}

// c22large: more variables than the applications use.
func c22large(x *ev.X) {
	for _, k := range []struct {
		bG, bN int
		d      [3]int
	}{{0, 9, [3]int{1, 1, 3}}, {0, 6, [3]int{3, 3, 9}}, {3, 2, [3]int{2, 2, 2}}, {4, 0, [3]int{3, 2, 1}}, {1, 8, [3]int{2, 3, 2}}, {0, 16, [3]int{2, 2, 2}}} {
		k := k
		x.Case(func(t *ev.T) {
			g := newC22(t, k.bN, k.bG, k.d, nil)
			claim := gen(4)
			p := g.consistent(claim, 0)
			if !g.judge(claim, p) {
				t.Failf("reference error")
			}
			g.judge(Add(claim, U(1)), p)
			for i := range p {
				j := i % len(p[i])
				v := p[i][j]
				p[i][j] = Add(v, U(1))
				g.judge(claim, p)
				q := SCProof(Copy2(p))
				for m := i + 1; m < len(p); m++ {
					fixClaim(q, m, PolyEval(q[m-1], Mimc(q[m-1])))
				}
				g.judge(claim, q)
				p[i][j] = v
			}
		}, "bG=%d bN=%d, %v coefficients: every round altered", k.bG, k.bN, k.d)
	}
}
