package props

import (
	"gkr-mimc/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C14/basis", c14basis)
	ev.Register("C14/interpolate", c14interp)
	ev.Register("C14/evaluate", c14eval)
	ev.Register("C14/complete", c14complete)
}

const maxDomain = 12

func c14basis(x *ev.X) {
	top := 24
	if Small {
		top = P - 1
	}
	for n := 1; n <= top; n++ {
		n := n
		x.Case(func(t *ev.T) {
			var want [][]E
			for i := 0; i < n; i++ {
				v := make([]E, n)
				v[i] = U(1)
				want = append(want, Interpolate(v))
			}
			for rep := 0; rep < 2; rep++ {
				got := polynomial.LagrangeCoefficient(n)
				if !Eq2(got, want) {
					t.Failf("Lagrange basis on %d points is wrong (call %d)", n, rep)
				}
				t.Trans(1)
				if n <= maxDomain {
					if !Eq2(polynomial.GetLagrangePolynomial(n), want) {
						t.Failf("precomputed Lagrange basis on %d points is wrong", n)
					}
					t.Trans(1)
				}
			}
			t.State(hash2(1, want))
			t.Trace()
		}, "Lagrange basis on %d points", n)
	}
}

func c14one(t *ev.T, v []E, basis [][][]E) {
	in, ok := guarded(v)
	got := polynomial.InterpolateOnRange(in)
	want := Interpolate(v)
	if !Eq1(got, want) {
		t.Failf("interpolation of %s gives %s, expected %s", str(v...), str(got...), str(want...))
	}
	for i := range v {
		if polynomial.EvaluatePolynomial(got, I(i)) != v[i] {
			t.Failf("interpolation of %s does not pass through point %d", str(v...), i)
		}
	}
	// the caller may overwrite the result: the precomputed data and later calls must not be affected
	for i := range got {
		got[i] = gen(77)
	}
	if !ok() {
		t.Failf("interpolation of %s modified its argument", str(v...))
	}
	if !Eq2(polynomial.GetLagrangePolynomial(len(v)), basis[len(v)]) {
		t.Failf("interpolation of %s modified the precomputed data", str(v...))
	}
	t.Trans(1 + len(v))
	t.Trace()
	t.State(hashE(uint64(len(v)), v...))
}

func c14interp(x *ev.X) {
	basis := make([][][]E, maxDomain+1)
	for n := 1; n <= maxDomain; n++ {
		basis[n] = Copy2(polynomial.GetLagrangePolynomial(n))
	}
	al := []E{U(0), U(1), I(-1)}
	full := 7
	if x.Thorough {
		full = 9
	}
	for n := 1; n <= maxDomain; n++ {
		n := n
		if n <= full {
			for a := range al {
				a := a
				x.Case(func(t *ev.T) {
					product(3, n-1, func(ix []int) {
						c14one(t, append(Copy([]E{al[a]}), pick(al, ix)...), basis)
					})
				}, "all value lists over {0,1,-1} on %d points starting with %s", n, str(al[a]))
			}
		}
		for i := 0; i < n; i++ {
			i := i
			x.Case(func(t *ev.T) {
				for _, e := range rich() {
					v := make([]E, n)
					v[i] = e
					c14one(t, v, basis)
					for j := range v {
						if j != i {
							w := Copy(v)
							w[j] = gen(3)
							c14one(t, w, basis)
							for k := range w {
								w[k] = Add(w[k], I(-1))
							}
							c14one(t, w, basis)
						}
					}
				}
			}, "%d points, rich values at point %d and one other", n, i)
		}
		x.Case(func(t *ev.T) {
			for off := 0; off < 30; off++ {
				for _, v := range patterns(n, 10*off) {
					c14one(t, v, basis)
				}
			}
			// values of monomials
			for d := 0; d < n; d++ {
				v := make([]E, n)
				for k := range v {
					v[k] = Pow(I(k), d)
				}
				c14one(t, v, basis)
			}
		}, "%d points, value patterns and monomials", n)
	}
}

func c14eval(x *ev.X) {
	pts := rich()
	for n := 1; n <= 33; n++ {
		n := n
		x.Case(func(t *ev.T) {
			var cs [][]E
			cs = append(cs, patterns(n, 5)...)
			for i := 0; i < n; i++ {
				for _, e := range []E{U(1), gen(2), I(-1)} {
					v := make([]E, n)
					v[i] = e
					cs = append(cs, v)
				}
			}
			if n <= 4 {
				product(4, n, func(ix []int) { cs = append(cs, pick(tiny(), ix)) })
			}
			for _, c := range cs {
				for _, p := range pts {
					in, ok := guarded(c)
					if g := polynomial.EvaluatePolynomial(in, p); g != PolyEval(c, p) {
						t.Failf("polynomial %s at %s gives %s", str(c...), str(p), str(g))
					}
					if !ok() {
						t.Failf("evaluation modified its argument %s", str(c...))
					}
					t.Trans(1)
					t.Trace()
				}
				t.State(hashE(uint64(n), c...))
			}
		}, "evaluation of polynomials with %d coefficients", n)
	}
}

// small field: every value list of up to k points
func c14complete(x *ev.X) {
	basis := make([][][]E, maxDomain+1)
	for n := 1; n <= maxDomain; n++ {
		basis[n] = Copy2(polynomial.GetLagrangePolynomial(n))
	}
	al := all()
	top := 4
	if x.Thorough {
		top = 5
	}
	for n := 1; n <= top; n++ {
		n := n
		for a := range al {
			a := a
			x.Case(func(t *ev.T) {
				product(P, n-1, func(ix []int) {
					v := append([]E{al[a]}, pick(al, ix)...)
					c14one(t, v, basis)
					if n <= 3 {
						for _, p := range al {
							if polynomial.EvaluatePolynomial(v, p) != PolyEval(v, p) {
								t.Failf("polynomial %s at %s", str(v...), str(p))
							}
							t.Trans(1)
						}
					}
				})
			}, "field of %d elements: all value lists of %d points starting with %d", P, n, a)
		}
	}
}
