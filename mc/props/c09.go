package props

import (
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C09/lists", c09lists)
	ev.Register("C09/complete", c09complete)
}

func c09one(t *ev.T, claim E, p SCProof, bN, bG int) bool {
	want, ch, last := SCVerify(claim, p)
	in := make([][]E, len(p))
	var oks []func() bool
	for i := range p {
		var ok func() bool
		in[i], ok = guarded(p[i])
		oks = append(oks, ok)
	}
	got, qP, qL, qR, fin := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: in}, bN, bG)
	if got != want {
		t.Failf("verifier says %v, the relation is %v: claim %s, polynomials %s, bN=%d bG=%d", got, want, str(claim), stStr(p), bN, bG)
	}
	if want {
		if !Eq1(qL, ch[:bG]) || !Eq1(qR, ch[bG:2*bG]) || !Eq1(qP, ch[2*bG:]) {
			t.Failf("challenges are left %s right %s instance %s, expected %s split %d %d %d: claim %s, polynomials %s", str(qL...), str(qR...), str(qP...), str(ch...), bG, bG, bN, str(claim), stStr(p))
		}
		if fin != last {
			t.Failf("last claim %s, expected %s: claim %s, polynomials %s", str(fin), str(last), str(claim), stStr(p))
		}
		// the three lists must be independent of each other
		l0, r0, p0 := Copy(qL), Copy(qR), Copy(qP)
		_ = append(qL, gen(1), gen(2), gen(3))
		if !Eq1(qR, r0) || !Eq1(qP, p0) {
			t.Failf("appending to the left challenges modifies the others (bN=%d bG=%d)", bN, bG)
		}
		_ = append(qR, gen(1), gen(2), gen(3))
		if !Eq1(qL, l0) || !Eq1(qP, p0) {
			t.Failf("appending to the right challenges modifies the others (bN=%d bG=%d)", bN, bG)
		}
	}
	for i, ok := range oks {
		if !ok() {
			t.Failf("verifier modified polynomial %d", i)
		}
	}
	t.Step(hash2(hashE(ev.Mix(1, uint64(bN), uint64(bG)), claim), p))
	return want
}

// fixClaim makes round i consistent by adjusting its constant coefficient.
func fixClaim(p SCProof, i int, claim E) {
	s := Add(PolyEval(p[i], U(0)), PolyEval(p[i], U(1)))
	p[i][0] = Add(p[i][0], Mul(Sub(claim, s), Inv(U(2))))
}

func c09lists(x *ev.X) {
	// all shapes, lengths of polynomials, consistent prefixes; a deviation of every kind at every round
	for bG := 0; bG <= 3; bG++ {
		for bN := 0; bN <= 4; bN++ {
			for _, d := range []int{1, 2, 3, 4, 8, 9, 12, 30} {
				if !x.Thorough && 2*bG+bN > 7 && d > 4 {
					continue
				}
				for pat := 0; pat < len(patternNames); pat++ {
					bG, bN, d, pat := bG, bN, d, pat
					x.Case(func(t *ev.T) {
						n := 2*bG + bN
						big := n*d > 24 && !x.Thorough
						mk := func(claim E) SCProof {
							var p SCProof
							cur := claim
							for i := 0; i < n; i++ {
								ln := d
								if d == 30 {
									ln = 1 + (i*5+bG)%9 // mixed lengths
								}
								p = append(p, Copy(patterns(ln, 10*i)[pat]))
								fixClaim(p, i, cur)
								cur = PolyEval(p[i], Mimc(p[i]))
							}
							return p
						}
						for ci, claim := range tiny() {
							if big && ci != pat%4 {
								continue
							}
							p := mk(claim)
							if !c09one(t, claim, p, bN, bG) {
								t.Failf("reference error")
							}
							if n == 0 {
								continue
							}
							for _, c2 := range []E{Add(claim, U(1)), Sub(E{}, claim), {}, Add(claim, raw(0, 0, 0, 1))} {
								c09one(t, c2, p, bN, bG)
							}
							for i := 0; i < n; i++ {
								for k := range p[i] {
									v := p[i][k]
									for ai, a := range []E{Add(v, U(1)), Sub(E{}, v), {}, Add(v, raw(0, 0, 1, 0))} {
										if big && ai != (i+k)%4 {
											continue
										}
										p[i][k] = a
										c09one(t, claim, p, bN, bG)
										// the later rounds adapted to the new value
										q := SCProof(Copy2(p))
										for j := i + 1; j < n; j++ {
											fixClaim(q, j, PolyEval(q[j-1], Mimc(q[j-1])))
										}
										c09one(t, claim, q, bN, bG)
									}
									p[i][k] = v
									for m := k + 1; m < len(p[i]); m++ {
										if big && m != k+1 {
											break
										}
										// a pair of alterations keeping the sum at this round
										vm := p[i][m]
										p[i][k] = Add(v, U(5))
										if k == 0 {
											p[i][m] = Sub(vm, U(10))
										} else {
											p[i][m] = Sub(vm, U(5))
										}
										c09one(t, claim, p, bN, bG)
										q := SCProof(Copy2(p))
										for j := i + 1; j < n; j++ {
											fixClaim(q, j, PolyEval(q[j-1], Mimc(q[j-1])))
										}
										c09one(t, claim, q, bN, bG)
										p[i][k], p[i][m] = v, vm
									}
								}
								// one trailing zero: same polynomial, other hash
								save := p[i]
								p[i] = append(Copy(save), E{})
								c09one(t, claim, p, bN, bG)
								p[i] = save
								if i+1 < n {
									p[i], p[i+1] = p[i+1], p[i]
									c09one(t, claim, p, bN, bG)
									p[i], p[i+1] = p[i+1], p[i]
								}
							}
						}
					}, "bG=%d bN=%d, %d coefficients (30: mixed), pattern %s: consistent lists and every deviation", bG, bN, d, patternNames[pat])
				}
			}
		}
	}
}

// small field: every claim and every list of polynomials of a few sizes
func c09complete(x *ev.X) {
	al := all()
	run := func(lens []int, bN, bG int) {
		tot := 1
		for _, l := range lens {
			tot += l
		}
		product(P, 2, func(fx []int) {
			fx = append([]int{}, fx...)
			x.Case(func(t *ev.T) {
				acc := 0
				product(P, tot-2, func(ix []int) {
					vals := append(pick(al, fx), pick(al, ix)...)
					claim := vals[0]
					vals = vals[1:]
					var p SCProof
					for _, l := range lens {
						p = append(p, vals[:l])
						vals = vals[l:]
					}
					if c09one(t, claim, p, bN, bG) {
						acc++
					}
				})
				t.Count("accepted", acc)
			}, "field of %d elements: all claims and polynomials of lengths %v (bN=%d bG=%d) starting with %v", P, lens, bN, bG, fx)
		})
	}
	run([]int{1}, 1, 0)
	run([]int{2}, 1, 0)
	run([]int{3}, 1, 0)
	run([]int{1, 1}, 0, 1)
	run([]int{1, 1}, 2, 0)
	run([]int{2, 2}, 0, 1)
	run([]int{1, 3}, 0, 1)
	run([]int{3, 1}, 2, 0)
	run([]int{1, 1, 1}, 1, 1)
	if x.Thorough {
		run([]int{4}, 1, 0)
		run([]int{2, 3}, 0, 1)
		run([]int{1, 2, 1}, 1, 1)
	}
}
