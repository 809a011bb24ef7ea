package props

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C08/steps", c08steps)
	ev.Register("C08/provers", c08provers)
	ev.Register("C08/large", c08large)
	ev.Register("C08/complete", c08complete)
}

func singleOf(s *Instance) sumcheck.SingleThreadedProver {
	return sumcheck.NewSingleThreadedProver(bkt(s.VL), bkt(s.VR), bkt(s.EQ), gatesOf(s.Gates), bkts(s.ST))
}

func multiOf(s *Instance, n int) sumcheck.MultiThreadedProver {
	return sumcheck.NewMultiThreadedProver(bkts(Chunk(s.VL, n)), bkts(Chunk(s.VR, n)), bkts(Chunk(s.EQ, n)), gatesOf(s.Gates), bkts(s.ST))
}

func instName(s *Instance) string {
	r := "gates"
	for _, g := range s.Gates {
		r += " " + gateName(g)
	}
	return r + " vL " + str(s.VL...) + " vR " + str(s.VR...) + " eq " + str(s.EQ...) + " statics " + stStr(s.ST)
}

func stStr(a [][]E) string {
	r := ""
	for _, x := range a {
		r += str(x...)
	}
	return r
}

func hashInst(s *Instance) uint64 {
	h := uint64(8)
	for _, g := range s.Gates {
		h = hashE(ev.Mix(h, uint64(g.Kind)), g.Ark)
	}
	return hash2(hashE(hashE(hashE(h, s.VL...), s.VR...), s.EQ...), s.ST)
}

// samePoly compares coefficient lists up to trailing zeros.
func samePoly(a, b []E) bool {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	at := func(p []E, i int) E {
		if i < len(p) {
			return p[i]
		}
		return E{}
	}
	for i := 0; i < n; i++ {
		if at(a, i) != at(b, i) {
			return false
		}
	}
	return true
}

// c08history folds with an arbitrary sequence of challenges and compares every step.
func c08history(t *ev.T, s *Instance, rs []E) {
	p := singleOf(s)
	cur := s
	bg, dl, dr := s.BGOf(), 0, 0
	for i := 0; ; i++ {
		t.State(hashInst(cur))
		k := cur.Round(dl, dr, bg)
		if k < 0 {
			break
		}
		want := cur.Evals(k)
		var got []E
		switch k {
		case RoundL:
			got = p.GetEvalsOnHL()
		case RoundR:
			got = p.GetEvalsOnHR()
		default:
			got = p.GetEvalsOnHPrime()
		}
		if len(got) < len(want) {
			t.Failf("round %d: %d evaluations, at least %d needed: %s", i, len(got), len(want), instName(s))
		}
		for len(want) < len(got) {
			want = append(want, cur.FixKind(k, I(len(want))).Sum())
		}
		if !Eq1(got, want) {
			t.Failf("round %d (kind %d) after challenges %s: evaluations %s, expected %s: %s", i, k, str(rs[:i]...), str(got...), str(want...), instName(s))
		}
		switch k {
		case RoundL:
			p.FoldHL(rs[i])
			dl++
		case RoundR:
			p.FoldHR(rs[i])
			dr++
		default:
			p.FoldHPrime(rs[i])
		}
		cur = cur.FixKind(k, rs[i])
		t.Trans(2)
	}
	t.Trace()
}

// c08prove runs a complete prover (chunks 0: the sequential one) and compares the transcript.
func c08prove(t *ev.T, s *Instance, chunks, cores int) {
	var claim E
	var pr sumcheck.Proof
	var qP, qL, qR, fin []E
	if chunks == 0 {
		p := singleOf(s)
		claim = p.GetClaim()
		pr, qP, qL, qR, fin = p.Prove()
	} else {
		p := multiOf(s, chunks)
		claim = p.GetClaim(cores)
		pr, qP, qL, qR, fin = p.Prove(cores)
	}
	fail := func(f string, a ...interface{}) {
		t.Failf("%d chunks, %d cores, "+f+": %s", append(append([]interface{}{chunks, cores}, a...), instName(s))...)
	}
	if w := s.Sum(); claim != w {
		fail("claim %s, the sum is %s", str(claim), str(w))
	}
	bg := s.BGOf()
	cur := s
	dl, dr := 0, 0
	var wl, wr, wp []E
	for i := 0; ; i++ {
		k := cur.Round(dl, dr, bg)
		if k < 0 {
			if i != len(pr.PolyCoeffs) {
				fail("%d rounds instead of %d", len(pr.PolyCoeffs), i)
			}
			break
		}
		if i >= len(pr.PolyCoeffs) {
			fail("only %d rounds", len(pr.PolyCoeffs))
		}
		w := Interpolate(cur.Evals(k))
		if !samePoly(pr.PolyCoeffs[i], w) {
			fail("round %d: polynomial %s, expected %s", i, str(pr.PolyCoeffs[i]...), str(w...))
		}
		r := Mimc(pr.PolyCoeffs[i])
		switch k {
		case RoundL:
			wl = append(wl, r)
			dl++
		case RoundR:
			wr = append(wr, r)
			dr++
		default:
			wp = append(wp, r)
		}
		cur = cur.FixKind(k, r)
	}
	if !Eq1(qL, wl) || !Eq1(qR, wr) || !Eq1(qP, wp) {
		fail("challenges %s %s %s, expected %s %s %s", str(qL...), str(qR...), str(qP...), str(wl...), str(wr...), str(wp...))
	}
	// final values by definition
	w := []E{MLE(s.VL, cat2(wl, wp)), MLE(s.VR, cat2(wr, wp)), MLE(s.EQ, wp)}
	for _, st := range s.ST {
		w = append(w, MLE(st, cat2(wl, wr)))
	}
	if !Eq1(fin, w) {
		fail("final values %s, expected %s", str(fin...), str(w...))
	}
	t.Trans(len(pr.PolyCoeffs) + 1)
	t.Trace()
	t.State(ev.Mix(hashInst(s), uint64(chunks)))
	t.Outcome(hash2(hashE(1, fin...), pr.PolyCoeffs))
}

func gateLists() [][]Gate {
	g5 := []Gate{gAdd(), gMul(), gCopy(), gCipher(U(3)), gCipher(gen(64))}
	var r [][]Gate
	for i := range g5 {
		r = append(r, []Gate{g5[i]})
	}
	for i := range g5 {
		for j := range g5 {
			if i != j {
				r = append(r, []Gate{g5[i], g5[j]})
			}
		}
	}
	r = append(r, []Gate{gUser()}, []Gate{gUser(), g5[2]}, []Gate{g5[3], gUser()})
	return append(r, []Gate{g5[0], g5[1], g5[2]}, []Gate{g5[2], g5[3], g5[4]}, []Gate{g5[0], g5[1], g5[2], g5[3], g5[4]}, []Gate{g5[4], g5[3], g5[2], g5[1], g5[0]})
}

// statics for k gates over n entries: patterns including zero entries, indicator tables, arbitrary values.
func staticPatterns(k, n int) [][][]E {
	mk := func(f func(g, i int) E) [][]E {
		r := make([][]E, k)
		for g := range r {
			for i := 0; i < n; i++ {
				r[g] = append(r[g], f(g, i))
			}
		}
		return r
	}
	r := [][][]E{
		mk(func(g, i int) E { return gen(200 + g*n + i) }),
		mk(func(g, i int) E { return U(uint64((i + g) % 2)) }),
		mk(func(g, i int) E {
			if i == (g+n-1)%n {
				return U(1)
			}
			return E{}
		}),
		mk(func(g, i int) E {
			if i == g%n {
				return gen(210 + g)
			}
			return E{}
		}),
		mk(func(g, i int) E { // first gate unused
			if g == 0 {
				return E{}
			}
			return gen(220 + i)
		}),
		mk(func(g, i int) E { return E{} }),
		mk(func(g, i int) E { return U(uint64(g + 1)) }),
	}
	return r
}

func c08instances(bG, bN int, few bool, f func(s *Instance)) {
	n, g := 1<<uint(bN), 1<<uint(bG)
	qs := [][]E{gens(100, bN), make([]E, bN)}
	for _, gl := range gateLists() {
		for is, st := range staticPatterns(len(gl), g*g) {
			vls, vrs := patterns(n*g, 0), patterns(n*g, 30)
			for iv := range vls {
				for iw := range vrs {
					// same pattern on both sides, or generic on one side
					if iv != iw && iv != 0 && iw != 0 {
						continue
					}
					if few && (iv > 1 || iw > 1) && is > 1 {
						continue
					}
					eqs := [][]E{EqTable(qs[0])}
					if iv == 0 && iw == 0 {
						eqs = append(eqs, EqTable(qs[1]), gens(150, n))
						if bN > 0 {
							z := gens(160, n)
							z[0] = E{}
							eqs = append(eqs, z, make([]E, n))
						}
					}
					for _, eq := range eqs {
						f(&Instance{VL: vls[iv], VR: vrs[iw], EQ: eq, Gates: gl, ST: st})
					}
				}
			}
		}
	}
}

func c08steps(x *ev.X) {
	for bG := 0; bG <= 2; bG++ {
		for bN := 0; bN <= 3; bN++ {
			if bG == 2 && bN > 1 && !x.Thorough || 2*bG+bN > 6 {
				continue
			}
			few := bG == 2 || bN == 3
			nr := 2*bG + bN
			// all challenge sequences over {0, 1, generic}; only the unit vectors and uniform ones when long
			var rss [][]E
			al := []E{gen(170), U(0), U(1)}
			if nr <= 3 {
				product(3, nr, func(ix []int) { rss = append(rss, pick(al, ix)) })
			} else {
				rss = append(rss, gens(171, nr), make([]E, nr))
				ones := make([]E, nr)
				for i := range ones {
					ones[i] = U(1)
				}
				rss = append(rss, ones)
			}
			c08instances(bG, bN, few && !x.Thorough, func(s *Instance) {
				h := hashInst(s)
				x.Case(func(t *ev.T) {
					for i, rs := range rss {
						if i > 0 && few && h%4 != 0 {
							break
						}
						c08history(t, s, rs)
					}
				}, "bG=%d bN=%d: every fold sequence over {generic,0,1}, %d gates", bG, bN, len(s.Gates))
			})
			// every 0/1 static table
			if bG == 1 && bN <= 1 {
				for _, gl := range gateLists()[:8] {
					for m := 0; m < 16; m++ {
						for m2 := 0; m2 < 16; m2++ {
							if len(gl) == 1 && m2 > 0 {
								break
							}
							s := &Instance{VL: gens(0, 2<<uint(bN)), VR: gens(30, 2<<uint(bN)), EQ: EqTable(gens(100, bN)), Gates: gl}
							for gi := range gl {
								tab := make([]E, 4)
								for i := range tab {
									tab[i] = U(uint64([]int{m, m2}[gi] >> uint(i) & 1))
								}
								s.ST = append(s.ST, tab)
							}
							x.Case(func(t *ev.T) { c08history(t, s, gens(171, nr)); c08prove(t, s, 0, 1); c08prove(t, s, 1<<uint(bN), 2) }, "every 0/1 static table: masks %d %d, bN=%d", m, m2, bN)
						}
					}
				}
			}
		}
	}
}

func c08provers(x *ev.X) {
	for bG := 0; bG <= 2; bG++ {
		for bN := 0; bN <= 3; bN++ {
			if bG == 2 && bN > 1 && !x.Thorough || 2*bG+bN > 6 {
				continue
			}
			c08instances(bG, bN, !x.Thorough, func(s *Instance) {
				x.Case(func(t *ev.T) {
					c08prove(t, s, 0, 1)
					for _, n := range pow2s(1 << uint(bN)) {
						for _, co := range []int{1, 2, 9} {
							if co == 2 || x.Thorough {
								c08prove(t, s, n, co)
							}
						}
					}
				}, "transcripts: bG=%d bN=%d, %d gates", bG, bN, len(s.Gates))
			})
		}
	}
}

func c08large(x *ev.X) {
	for _, k := range []struct{ bG, bN int }{{0, 6}, {1, 5}, {2, 3}, {1, 7}} {
		for _, gl := range gateLists()[:9] {
			for _, n := range pow2s(1 << uint(k.bN)) {
				for _, co := range []int{1, 2, 3, 100} {
					k, gl, n, co := k, gl, n, co
					if !x.Thorough && (co != 3 && n > 1 && n < 1<<uint(k.bN) || k.bN > 6 && n > 2) {
						continue
					}
					g := 1 << uint(k.bG)
					s := &Instance{VL: gens(0, g<<uint(k.bN)), VR: gens(500, g<<uint(k.bN)), EQ: EqTable(gens(100, k.bN)), Gates: gl, ST: staticPatterns(len(gl), g*g)[0]}
					x.Case(func(t *ev.T) {
						if n == 1 && co == 1 {
							c08prove(t, s, 0, 1)
						}
						c08prove(t, s, n, co)
					}, "bG=%d bN=%d, %d gates, %d chunks, %d cores", k.bG, k.bN, len(gl), n, co)
				}
			}
		}
	}
}

func c08complete(x *ev.X) {
	al := all()
	gl := []Gate{gAdd(), gMul(), gCopy(), gCipher(U(2))}
	for _, g := range gl {
		for a := range al {
			for b := range al {
				g, a, b := g, a, b
				x.Case(func(t *ev.T) {
					product(P, 2, func(ix []int) {
						for q := range al {
							if q%4 != 0 && !x.Thorough {
								continue
							}
							s := &Instance{VL: []E{al[a], al[b]}, VR: pick(al, ix), EQ: EqTable([]E{al[q]}), Gates: []Gate{g}, ST: [][]E{{U(2)}}}
							c08history(t, s, []E{al[(q+a)%P]})
							c08prove(t, s, 2, 1)
						}
					})
				}, "field of %d elements: %s, one instance variable, all tables with vL = %d %d and equality points", P, gateName(g), a, b)
				x.Case(func(t *ev.T) {
					product(P, 2, func(ix []int) {
						product(3, 4, func(jx []int) {
							if !x.Thorough && (jx[0]+jx[1]+jx[2]+jx[3]+ix[0])%4 != 0 {
								return
							}
							s := &Instance{VL: []E{al[a], al[b]}, VR: pick(al, ix), EQ: []E{U(1)}, Gates: []Gate{g}, ST: [][]E{pick([]E{U(0), U(1), U(5)}, jx)}}
							c08history(t, s, []E{al[(a+ix[1])%P], al[(b+ix[0])%P]})
						})
					})
				}, "field of %d elements: %s, two left/right values, all tables with vL = %d %d, statics over {0,1,5}", P, gateName(g), a, b)
			}
		}
	}
	_ = polynomial.BookKeepingTable{}
}
