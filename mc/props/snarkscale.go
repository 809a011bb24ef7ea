package props

import (
	"fmt"

	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	gadget "gkr-mimc/snark/hash"
	sp "gkr-mimc/snark/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
)

// In-circuit functions at larger sizes, and sequences of their uses within one circuit and one process.

func init() {
	ev.Register("C20/scale", c20scale)
	ev.Register("C20/sequences", c20sequences)
	ev.Register("C21/scale", c21scale)
	ev.Register("C21/sequences", c21sequences)
	ev.Register("C22/scale", c22scale)
	ev.Register("C22/together", c22together)
	ev.Register("C23/scale", c23scale)
	ev.Register("C23/together", c23together)
}

func c20scale(x *ev.X) {
	var ns []int
	for n := 10; n <= 320; n++ {
		ns = append(ns, n)
	}
	if x.Thorough {
		for n := 321; n <= 520; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 600, 640, 700, 767, 768, 769, 900, 1000, 1001, 1023, 1024, 1025, 1100)
	}
	for _, n := range ns {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, n, 1, func(cs csys, in vars) vars { return vars{gadget.MimcHash(cs, in...)} })
			for mi, m := range [][]E{gens(3, n), patterns(n, 0)[1]} {
				if mi > 0 && n > 72 && n%8 > 1 && !x.Thorough {
					continue
				}
				d := hash.MimcHash(Copy(m))
				if d != Mimc(m) {
					t.Failf("native digest of a message of %d values is not the specified one", n)
				}
				if !g.solved(t, m, []E{d}) {
					t.Failf("hash of %d variables is not satisfied by the native digest: %s", n, str(m...))
				}
				for i, k := range []int{0, 1, n / 2, n - 2, n - 1} {
					o := Copy(m)
					o[k] = Add(o[k], U(1))
					if g.solved(t, o, []E{d}) {
						t.Failf("hash of %d variables is satisfied by the digest of another message (value %d altered)", n, k)
					}
					if i%2 == 0 && g.solved(t, m, []E{Mimc(o)}) {
						t.Failf("hash of %d variables is satisfied by the digest of another message (value %d)", n, k)
					}
				}
				for _, k := range []int{0, 1, n / 2, n - 1} {
					if g.solved(t, m, []E{Mimc(m[:k])}) || k > 0 && g.solved(t, m, []E{Mimc(m[k:])}) {
						t.Failf("hash of %d variables is satisfied by the digest of a part (%d)", n, k)
					}
				}
				t.State(hashE(uint64(n), m...))
			}
			t.Trace()
		}, "hash of %d variables", n)
	}
}

// c20sequences: every sequence of hashes within one circuit, and of circuits within one process.
func c20sequences(x *ev.X) {
	type op struct {
		name string
		f    func(cs csys, v vars, prev frontend.Variable) vars
		r    func(v []E, prev E) []E
	}
	k3 := U(3)
	ops := []op{
		{"()", func(cs csys, v vars, p frontend.Variable) vars { return nil }, func(v []E, p E) []E { return nil }},
		{"(a)", func(cs csys, v vars, p frontend.Variable) vars { return vars{v[0]} }, func(v []E, p E) []E { return []E{v[0]} }},
		{"(a,b)", func(cs csys, v vars, p frontend.Variable) vars { return vars{v[0], v[1]} }, func(v []E, p E) []E { return []E{v[0], v[1]} }},
		{"(b,a)", func(cs csys, v vars, p frontend.Variable) vars { return vars{v[1], v[0]} }, func(v []E, p E) []E { return []E{v[1], v[0]} }},
		{"(a,a)", func(cs csys, v vars, p frontend.Variable) vars { return vars{v[0], v[0]} }, func(v []E, p E) []E { return []E{v[0], v[0]} }},
		{"(3,a)", func(cs csys, v vars, p frontend.Variable) vars { return vars{cs.Constant(3), v[0]} }, func(v []E, p E) []E { return []E{k3, v[0]} }},
		{"(a,3)", func(cs csys, v vars, p frontend.Variable) vars { return vars{v[0], cs.Constant(3)} }, func(v []E, p E) []E { return []E{v[0], k3} }},
		{"(3,3)", func(cs csys, v vars, p frontend.Variable) vars { return vars{cs.Constant(3), cs.Constant(3)} }, func(v []E, p E) []E { return []E{k3, k3} }},
		{"(previous)", func(cs csys, v vars, p frontend.Variable) vars { return vars{p} }, func(v []E, p E) []E { return []E{p} }},
		{"(a+b,previous)", func(cs csys, v vars, p frontend.Variable) vars { return vars{cs.Add(v[0], v[1]), p} }, func(v []E, p E) []E { return []E{Add(v[0], v[1]), p} }},
		{"(a*b,b)", func(cs csys, v vars, p frontend.Variable) vars { return vars{cs.Mul(v[0], v[1]), v[1]} }, func(v []E, p E) []E { return []E{Mul(v[0], v[1]), v[1]} }},
	}
	depth := 2
	if x.Thorough {
		depth = 3
	}
	for first := range ops {
		first := first
		x.Case(func(t *ev.T) {
			product(len(ops), depth-1, func(ix []int) {
				seq := append([]int{first}, ix...)
				name := ""
				for _, i := range seq {
					name += ops[i].name
				}
				var slices []vars
				g := compileGad(t, 2, depth, func(cs csys, in vars) (res vars) {
					prev := in[0]
					slices = nil
					for _, i := range seq {
						a := ops[i].f(cs, in, prev)
						slices = append(slices, a)
						prev = gadget.MimcHash(cs, a...)
						res = append(res, prev)
					}
					return
				})
				for _, v := range [][]E{gens(3, 2), {U(0), U(1)}, {gen(5), gen(5)}, {k3, U(0)}} {
					prev := v[0]
					var want []E
					for _, i := range seq {
						prev = Mimc(ops[i].r(v, prev))
						want = append(want, prev)
					}
					if !g.solved(t, v, want) {
						t.Failf("hashes %s in one circuit are not satisfied by the native digests: values %s", name, str(v...))
					}
					for i := range want {
						for _, o := range []E{Add(want[i], U(1)), want[(i+1)%len(want)], {}} {
							if o == want[i] {
								continue
							}
							w := Copy(want)
							w[i] = o
							if g.solved(t, v, w) {
								t.Failf("hashes %s in one circuit are satisfied by another digest for number %d: values %s", name, i, str(v...))
							}
						}
					}
					t.State(hashE(hashE(9, v...), want...))
				}
				t.Trace()
			})
		}, "every sequence of %d hashes in one circuit starting with %s", depth, ops[first].name)
	}
}

func c21scale(x *ev.X) {
	top := 9
	if x.Thorough {
		top = 12
	}
	for n := 6; n <= top; n++ {
		n := n
		x.Case(func(t *ev.T) {
			size := 1 << uint(n)
			g := compileGad(t, size+n, 1, func(cs csys, in vars) vars {
				m := sp.NewMultilinearByValues(in[:size:size])
				return vars{m.Eval(cs, in[size:])}
			})
			tab := spread(5, size)
			for _, p := range [][]E{gens(3, n), patterns(n, 0)[5], patterns(n, 0)[1]} {
				b := bkt(tab)
				v := b.Evaluate(Copy(p))
				if v != FixAll(tab, p)[0] {
					t.Failf("native evaluation of a table of %d variables is wrong", n)
				}
				rev := Copy(p)
				for i := range rev {
					rev[i] = p[n-1-i]
				}
				g.judge(t, cat2(tab, p), []E{v}, []E{FixAll(tab, rev)[0]}, "multilinear of %d variables", n)
			}
			// each entry matters with its own weight
			p := gens(3, n)
			v := FixAll(tab, p)[0]
			w := eqTableFast(p)
			for i := 0; i < size; i += 1 + size/40 {
				o := Copy(tab)
				o[i] = Add(o[i], gen(7))
				if g.solved(t, cat2(o, p), []E{v}) || !g.solved(t, cat2(o, p), []E{Add(v, Mul(gen(7), w[i]))}) {
					t.Failf("multilinear of %d variables: entry %d has the wrong weight", n, i)
				}
			}
		}, "multilinear of %d variables", n)
	}
	maxG, maxN := 4, 6
	if x.Thorough {
		maxG, maxN = 5, 9
	}
	for bG := 0; bG <= maxG; bG++ {
		for bN := 0; bN <= maxN; bN++ {
			if bG+bN < 5 || bG+bN > 9 && !x.Thorough {
				continue
			}
			bG, bN := bG, bN
			x.Case(func(t *ev.T) {
				size := 1 << uint(bG+bN)
				g := compileGad(t, size+2*bG+bN, 2, func(cs csys, in vars) vars {
					m := sp.NewMultilinearByValues(in[:size:size])
					p := in[size:]
					a, b := m.EvalMixed(cs, p[:bG:bG], p[bG:2*bG:2*bG], p[2*bG:])
					return vars{a, b}
				})
				tab := spread(17, size)
				l, r, p := gens(300, bG), gens(330, bG), gens(360, bN)
				b := bkt(tab)
				vl, vr := b.EvaluateLeftAndRight(Copy(p), Copy(l), Copy(r))
				if vl != FixAll(tab, cat2(l, p))[0] || vr != FixAll(tab, cat2(r, p))[0] {
					t.Failf("native two-point evaluation wrong")
				}
				g.judge(t, append(cat2(cat2(tab, l), r), p...), []E{vl, vr}, []E{vl, vr}, "two-point evaluation, bG=%d bN=%d", bG, bN)
			}, "two-point evaluation, %d left/right and %d instance variables", bG, bN)
		}
	}
	for _, n := range []int{7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 63, 64, 65, 70, 127, 128, 129} {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, 2*n, 1, func(cs csys, v vars) vars { return vars{sp.EqEval(cs, v[:n], v[n:])} })
			for k := 0; k < 3; k++ {
				p, q := gens(3, n), gens(70, n)
				if k == 1 {
					q = Copy(p)
				}
				if k == 2 {
					p = patterns(n, 0)[5]
					for i := range p {
						p[i] = Mul(p[i], p[i])
					}
					q = Copy(p)
				}
				v := polynomial.EvalEq(p, q)
				if v != EqEval(p, q) {
					t.Failf("native equality wrong")
				}
				g.judge(t, cat2(p, q), []E{v}, []E{U(1), EqEval(p[1:], q[1:]), EqEval(p[:n-1], q[:n-1])}, "equality of points of %d coordinates", n)
			}
			// each coordinate matters
			p, q := gens(3, n), gens(70, n)
			for i := range p {
				o := Copy(p)
				o[i] = Add(o[i], U(1))
				if g.solved(t, cat2(o, q), []E{EqEval(p, q)}) || !g.solved(t, cat2(o, q), []E{EqEval(o, q)}) {
					t.Failf("equality of points of %d coordinates: coordinate %d has the wrong effect", n, i)
				}
			}
		}, "equality of points of %d coordinates", n)
	}
	var ns []int
	for n := 11; n <= 70; n++ {
		ns = append(ns, n)
	}
	for _, n := range append(ns, 100, 127, 128, 129, 255, 256, 257) {
		n := n
		x.Case(func(t *ev.T) {
			g := compileGad(t, n+1, 2, func(cs csys, in vars) vars {
				u := sp.NewUnivariate(in[:n:n])
				return vars{u.Eval(cs, in[n]), u.ZeroAndOne(cs)}
			})
			one := func(c []E, v E, deep bool) {
				val := polynomial.EvaluatePolynomial(Copy(c), v)
				if val != PolyEval(c, v) {
					t.Failf("native polynomial evaluation wrong")
				}
				sum := Add(c[0], PolyEval(c, U(1)))
				if deep {
					g.judge(t, append(Copy(c), v), []E{val, sum}, []E{PolyEval(c, U(1)), c[0], PolyEval(c[:n-1], v), PolyEval(c[1:], v)}, "polynomial of %d coefficients", n)
				} else if !g.solved(t, append(Copy(c), v), []E{val, sum}) {
					t.Failf("polynomial of %d coefficients %s at %s", n, str(c...), str(v))
				}
			}
			one(gens(3, n), gen(1), true)
			one(patterns(n, 0)[1], I(-1), true)
			one(patterns(n, 0)[1], U(0), true)
			one(patterns(n, 0)[1], U(1), true)
			for i := 0; i < n; i++ {
				c := make([]E, n)
				c[i] = gen(9)
				one(c, gen(2), false)
			}
		}, "polynomial of %d coefficients", n)
	}
}

// c21sequences: every sequence of uses of the same table and of the same polynomial in one circuit.
func c21sequences(x *ev.X) {
	depth := 3
	if x.Thorough {
		depth = 4
	}
	const n = 3
	// inputs: table (8), points p (3), q (3), a value
	type st struct {
		m   sp.MultilinearByValues
		tab []E
	}
	names := []string{"eval p", "eval q", "eval of (p,q) at (p1,q1; p2,p3)", "fold p1", "fold 2", "copy, folded at q1", "eval at constants", "two-point, no left variable", "two-point, one coordinate shared"}
	// do applies an operation when enough variables are left
	do := func(cs csys, s *st, op int, p, q vars, pe, qe []E, out *vars, want *[]E) {
		k := Log2(len(s.tab))
		// the in-circuit part is skipped when cs is nil, the reference when tab values are not needed
		add := func(f func() vars, e ...E) {
			if cs != nil {
				*out = append(*out, f()...)
			}
			*want = append(*want, e...)
		}
		switch op {
		case 0:
			add(func() vars { return vars{s.m.Eval(cs, p[:k])} }, MLE(s.tab, pe[:k]))
		case 1:
			add(func() vars { return vars{s.m.Eval(cs, q[n-k:])} }, MLE(s.tab, qe[n-k:]))
		case 2:
			if k >= 1 {
				add(func() vars {
					a, b := s.m.EvalMixed(cs, p[:1], q[:1], p[1:k])
					return vars{a, b}
				}, MLE(s.tab, cat2(pe[:1], pe[1:k])), MLE(s.tab, cat2(qe[:1], pe[1:k])))
			}
		case 3, 4:
			if k >= 1 {
				var c frontend.Variable
				v := pe[0]
				if op == 4 {
					v = U(2)
				}
				if cs != nil {
					c = p[0]
					if op == 4 {
						c = cs.Constant(2)
					}
					s.m.Fold(cs, c)
				}
				s.tab = Fix(s.tab, v)
			}
		case 5:
			if k >= 1 {
				add(func() vars {
					c := s.m.DeepCopy()
					c.Fold(cs, q[0])
					return vars{c.Eval(cs, p[:k-1])}
				}, MLE(Fix(s.tab, qe[0]), pe[:k-1]))
			}
		case 6:
			pt := []E{U(0), U(1), U(5)}[:k]
			add(func() vars {
				var v vars
				for i := range pt {
					v = append(v, cs.Constant(pt[i]))
				}
				return vars{s.m.Eval(cs, v)}
			}, MLE(s.tab, pt))
		case 7:
			add(func() vars {
				a, b := s.m.EvalMixed(cs, nil, nil, q[:k])
				return vars{a, b}
			}, MLE(s.tab, qe[:k]), MLE(s.tab, qe[:k]))
		case 8:
			if k >= 2 {
				add(func() vars {
					a, b := s.m.EvalMixed(cs, p[:2], vars{q[0], p[1]}, q[2:k])
					return vars{a, b}
				}, MLE(s.tab, cat2(pe[:2], qe[2:k])), MLE(s.tab, cat2([]E{qe[0], pe[1]}, qe[2:k])))
			}
		}
	}
	for first := range names {
		for second := range names {
			first, second := first, second
			x.Case(func(t *ev.T) {
				product(len(names), depth-2, func(ix []int) {
					seq := append([]int{first, second}, ix...)
					ref := func(in []E) []E {
						s := &st{tab: Copy(in[:8])}
						var w []E
						for _, op := range seq {
							do(nil, s, op, nil, nil, in[8:11], in[11:14], nil, &w)
						}
						return w
					}
					nOut := len(ref(gens(0, 14)))
					if nOut == 0 {
						return
					}
					g := compileGad(t, 14, nOut, func(cs csys, in vars) (out vars) {
						s := &st{m: sp.NewMultilinearByValues(append(vars{}, in[:8]...)), tab: make([]E, 8)}
						var w []E
						z := make([]E, 3)
						for _, op := range seq {
							do(cs, s, op, in[8:11:11], in[11:14:14], z, z, &out, &w)
						}
						return
					})
					for _, in := range [][]E{gens(3, 14), append(patterns(8, 0)[1], patterns(6, 0)[5]...)} {
						want := ref(in)
						var why []string
						for _, op := range seq {
							why = append(why, names[op])
						}
						if !g.solved(t, in, want) {
							t.Failf("uses of one table in sequence %q are not satisfied by the native results: %s", why, str(in...))
						}
						for i := range want {
							o := Copy(want)
							o[i] = Add(o[i], U(1))
							if g.solved(t, in, o) {
								t.Failf("uses of one table in sequence %q are satisfied by another result: %s", why, str(in...))
							}
						}
						t.State(hashE(hashE(1, in...), want...))
					}
					t.Trace()
				})
			}, "every sequence of %d uses of one table starting with %s, %s", depth, names[first], names[second])
		}
	}
	unames := []string{"eval x", "eval y", "sum at 0 and 1", "eval 0", "eval at the first coefficient", "shorter polynomial on the same coefficients at x"}
	for size := 1; size <= 4; size++ {
		for first := range unames {
			size, first := size, first
			x.Case(func(t *ev.T) {
				product(len(unames), depth-1, func(ix []int) {
					seq := append([]int{first}, ix...)
					g := compileGad(t, size+2, depth, func(cs csys, in vars) (out vars) {
						u := sp.NewUnivariate(in[:size:size])
						for _, op := range seq {
							switch op {
							case 0, 1:
								out = append(out, u.Eval(cs, in[size+op]))
							case 2:
								out = append(out, u.ZeroAndOne(cs))
							case 3:
								out = append(out, u.Eval(cs, cs.Constant(0)))
							case 4:
								out = append(out, u.Eval(cs, in[0]))
							case 5:
								s := sp.NewUnivariate(in[:(size+1)/2])
								out = append(out, s.Eval(cs, in[size]))
							}
						}
						return
					})
					for _, in := range [][]E{gens(3, size+2), patterns(size+2, 0)[1], patterns(size+2, 0)[5]} {
						c := in[:size]
						var want []E
						for _, op := range seq {
							want = append(want, []E{PolyEval(c, in[size]), PolyEval(c, in[size+1]), Add(PolyEval(c, U(0)), PolyEval(c, U(1))), c[0], PolyEval(c, c[0]), PolyEval(c[:(size+1)/2], in[size])}[op])
						}
						if !g.solved(t, in, want) {
							t.Failf("uses %v of one polynomial in sequence are not satisfied by the native results: %s", seq, str(in...))
						}
						for i := range want {
							o := Copy(want)
							o[i] = Add(o[i], U(1))
							if g.solved(t, in, o) {
								t.Failf("uses %v of one polynomial in sequence are satisfied by another result: %s", seq, str(in...))
							}
						}
						t.State(hashE(hashE(2, in...), want...))
					}
					t.Trace()
				})
			}, "every sequence of %d uses of one polynomial of %d coefficients starting with %s", depth, size, unames[first])
		}
	}
}

func c22scale(x *ev.X) {
	type k struct {
		bG, bN int
		d      [3]int
	}
	ks := []k{{0, 31, [3]int{1, 1, 2}}, {0, 32, [3]int{1, 1, 3}}, {0, 33, [3]int{1, 1, 2}}, {8, 1, [3]int{2, 3, 2}}, {12, 8, [3]int{2, 2, 2}}, {16, 0, [3]int{2, 2, 1}}, {5, 22, [3]int{1, 2, 2}}, {0, 2, [3]int{1, 1, 65}}, {1, 1, [3]int{33, 40, 34}}, {0, 1, [3]int{1, 1, 130}}}
	if x.Thorough {
		ks = append(ks, k{0, 63, [3]int{1, 1, 2}}, k{0, 64, [3]int{1, 1, 2}}, k{0, 65, [3]int{1, 1, 2}}, k{32, 1, [3]int{2, 2, 2}}, k{0, 129, [3]int{1, 1, 2}}, k{0, 1, [3]int{1, 1, 300}})
	}
	for _, k := range ks {
		for part := 0; part < 4; part++ {
			k, part := k, part
			x.Case(func(t *ev.T) {
				g := newC22(t, k.bN, k.bG, k.d, nil)
				claim := gen(4)
				p := g.consistent(claim, 0)
				if part == 0 {
					if !g.judge(claim, p) {
						t.Failf("reference error")
					}
					g.judge(Add(claim, U(1)), p)
				}
				for i := range p {
					if i%4 != part && len(p) > 8 {
						continue
					}
					js := []int{i % len(p[i])}
					if len(p) <= 8 {
						js = nil
						for j := part; j < len(p[i]); j += 4 {
							js = append(js, j)
						}
					}
					for n, j := range js {
						v := p[i][j]
						p[i][j] = Add(v, U(1))
						g.judge(claim, p)
						if n == 0 {
							q := SCProof(Copy2(p))
							for m := i + 1; m < len(p); m++ {
								fixClaim(q, m, PolyEval(q[m-1], Mimc(q[m-1])))
							}
							g.judge(claim, q)
						}
						p[i][j] = v
					}
				}
			}, "bG=%d bN=%d, %v coefficients: rounds altered, part %d", k.bG, k.bN, k.d, part)
		}
	}
}

// c22two: two sumchecks verified in one circuit.
type c22two struct {
	A, B c22circ
}

func (c *c22two) Define(id gurvy.ID, cs *frontend.ConstraintSystem) error {
	if err := c.A.Define(id, cs); err != nil {
		return err
	}
	return c.B.Define(id, cs)
}

// c22together: two verifiers in one circuit judge each their own proof, and the same proof gadget can be verified twice.
func c22together(x *ev.X) {
	type sh struct {
		bG, bN int
		d      [3]int
	}
	shs := []sh{{0, 1, [3]int{1, 1, 2}}, {1, 0, [3]int{2, 3, 2}}, {1, 1, [3]int{3, 2, 4}}, {0, 0, [3]int{1, 1, 1}}, {2, 1, [3]int{2, 2, 2}}}
	for ia, a := range shs {
		for ib, b := range shs {
			for same := 0; same < 2; same++ {
				a, b, same := a, b, same
				if same == 1 && ia != ib {
					continue
				}
				x.Case(func(t *ev.T) {
					mk := func(s sh) *c22inst { return &c22inst{t, nil, s.bN, s.bG, s.d, nil} }
					ka, kb := mk(a), mk(b)
					alloc := func() *c22two { return &c22two{*ka.alloc(), *kb.alloc()} }
					r := compile(t, alloc())
					fill := func(c *c22circ, claim E, p SCProof) bool {
						ok, _, _, _, _ := sumcheck.Verifier{}.Verify(claim, sumcheck.Proof{PolyCoeffs: Copy2(p)}, len(p)-2*c.bG, c.bG)
						c.Claim.Assign(claim)
						c.Proof.Assign(sumcheck.Proof{PolyCoeffs: Copy2(p)})
						last := claim
						for i := range p {
							h := Mimc(p[i])
							c.Out[i].Assign(h)
							last = PolyEval(p[i], h)
						}
						c.Out[len(p)].Assign(last)
						if want, _, _ := SCVerify(claim, p); want != ok {
							t.Failf("native verifier says %v, the relation is %v", ok, want)
						}
						return ok
					}
					judge := func(ca E, pa SCProof, cb E, pb SCProof, what string) {
						c := alloc()
						oa := fill(&c.A, ca, pa)
						ob := fill(&c.B, cb, pb)
						w, err := frontend.ParseWitness(c)
						if err != nil {
							t.Failf("witness: %v", err)
						}
						if got := isSolved(t, r, w); got != (oa && ob) {
							t.Failf("two verifiers in one circuit: satisfied %v, the native ones say %v and %v: %s, shapes %v %v", got, oa, ob, what, a, b)
						}
						t.Step(hash2(hashE(hash2(hashE(3, ca), pa), cb), pb))
					}
					ca, cb := gen(4), gen(5)
					pa := ka.consistent(ca, 0)
					pb := kb.consistent(cb, 1)
					if same == 1 {
						cb, pb = ca, SCProof(Copy2(pa))
					}
					judge(ca, pa, cb, pb, "both right")
					judge(cb, pa, cb, pb, "first claim replaced by the second")
					judge(ca, pa, ca, pb, "second claim replaced by the first")
					if ia == ib {
						judge(ca, pb, cb, pa, "exchanged proofs")
						judge(cb, pb, ca, pa, "exchanged statements")
					}
					for s, p := range []SCProof{pa, pb} {
						for i := range p {
							for j := range p[i] {
								v := p[i][j]
								p[i][j] = Add(v, U(1))
								judge(ca, pa, cb, pb, fmt.Sprintf("coefficient %d of round %d of proof %d altered", j, i, s))
								p[i][j] = v
							}
						}
					}
				}, "two verifiers in one circuit: bG=%d bN=%d and bG=%d bN=%d, same statement: %v", a.bG, a.bN, b.bG, b.bN, same == 1)
			}
		}
	}
}

// c23scale: larger batches: honest proofs accepted, altered statements and proofs rejected.
func c23scale(x *ev.X) {
	bNs := []int{3, 4}
	if x.Thorough {
		bNs = []int{3, 4, 5, 6, 7}
	}
	for _, bN := range bNs {
		bN := bN
		x.Case(func(t *ev.T) {
			n := 2
			in := gens(8, 2<<uint(bN))
			k := newC23(t, bN, n, in)
			p := k.nativeProof()
			if !k.judge(p, k.in, k.out, true, "honest proof") {
				t.Failf("the native proof is rejected by both verifiers")
			}
			for _, i := range []int{0, 1, len(in) / 2, len(in) - 1} {
				b := Copy(k.in)
				b[i] = Add(b[i], U(1))
				k.judge(p, b, k.out, true, "input %d altered", i)
			}
			for _, i := range []int{0, len(k.out) / 2, len(k.out) - 1} {
				b := Copy(k.out)
				b[i] = Add(b[i], U(1))
				k.judge(p, k.in, b, true, "output %d altered", i)
			}
			for _, l := range []int{0, 1, 45, 89, 90} {
				for _, r := range []int{0, 1, 2, len(p.SC[l]) - 1} {
					s := &p.SC[l][r][len(p.SC[l][r])-1]
					v := *s
					*s = Add(v, U(1))
					k.judge(p, k.in, k.out, true, "round %d of layer %d altered", r, l)
					*s = v
				}
				for _, s := range []*E{&p.CL[l], &p.CR[l]} {
					v := *s
					*s = Add(v, U(1))
					k.judge(p, k.in, k.out, true, "claim of layer %d altered", l)
					*s = v
				}
			}
		}, "2^%d instances: honest proof, values of the statement and of the proof altered", bN)
	}
}

// c23two: two proofs verified in one circuit with the same description of the MiMC circuit.
type c23two struct {
	A, B c23circ
}

func (c *c23two) Define(id gurvy.ID, cs *frontend.ConstraintSystem) error {
	if err := c.A.Define(id, cs); err != nil {
		return err
	}
	return c.B.Define(id, cs)
}

// c23together: two batches (of the same or of different sizes) in one circuit.
func c23together(x *ev.X) {
	for _, ns := range [][2]int{{0, 0}, {0, 1}} {
		ns := ns
		x.Case(func(t *ev.T) {
			alloc := func() *c23two {
				a, b := c23alloc(ns[0]), c23alloc(ns[1])
				b.Circuit = a.Circuit
				return &c23two{*a, *b}
			}
			r := compile(t, alloc())
			type side struct {
				bN      int
				in, out []E
				p       Proof
			}
			mk := func(bN, off int) side {
				in := gens(off, 2<<uint(bN))
				ref := mimcRef()
				qP, q := gkr.GetInitialQPrimeAndQ(bN, 0)
				return side{bN, in, ref.Assign(in)[91], ref.Prove(in, qP, q)}
			}
			a, b := mk(ns[0], 8), mk(ns[1], 80)
			judge := func(a, b side, what string) {
				c := alloc()
				want := true
				for i, s := range []side{a, b} {
					d := []*c23circ{&c.A, &c.B}[i]
					qP, q := gkr.GetInitialQPrimeAndQ(s.bN, 0)
					v := gkr.NewVerifier(s.bN, mimcCircuit())
					ok := v.Verify(proofOf(s.p), Chunk(s.in, 1), Chunk(s.out, 1))
					if ok != mimcRef().Accepts(s.bN, s.p, s.in, s.out, qP, q) {
						t.Failf("native verifier wrong: %s", what)
					}
					want = want && ok
					d.Proof.Assign(proofOf(s.p))
					for i := range qP {
						d.QInitialprime[i].Assign(qP[i])
					}
					d.VInput.AssignFromChunkedBKT(Chunk(s.in, 1))
					d.VOutput.AssignFromChunkedBKT(Chunk(s.out, 1))
				}
				w, err := frontend.ParseWitness(c)
				if err != nil {
					t.Failf("witness: %v", err)
				}
				if got := isSolved(t, r, w); got != want {
					t.Failf("two verifiers in one circuit (2^%d and 2^%d instances): satisfied %v, native %v: %s", ns[0], ns[1], got, want, what)
				}
				t.Step(ev.Mix(hashProof(a.p), hashProof(b.p), hashE(1, a.in...), hashE(2, b.in...), hashE(3, a.out...), hashE(4, b.out...)))
			}
			judge(a, b, "both honest")
			judge(a, mk(ns[1], 8), "both honest, the same or overlapping inputs")
			for which := 0; which < 2; which++ {
				alter := func(f func(s *side), what string) {
					s := []side{a, b}
					s[which].in, s[which].out, s[which].p = Copy(s[which].in), Copy(s[which].out), s[which].p.Clone()
					f(&s[which])
					judge(s[0], s[1], fmt.Sprintf("statement %d: %s", which, what))
				}
				alter(func(s *side) { s.in[0] = Add(s.in[0], U(1)) }, "input altered")
				alter(func(s *side) { s.out[len(s.out)-1] = Add(s.out[len(s.out)-1], U(1)) }, "output altered")
				for _, l := range []int{0, 1, 45, 90} {
					l := l
					alter(func(s *side) { s.p.CL[l] = Add(s.p.CL[l], U(1)) }, fmt.Sprintf("left claim %d", l))
					alter(func(s *side) { s.p.CR[l] = Add(s.p.CR[l], U(1)) }, fmt.Sprintf("right claim %d", l))
					for rd := range a.p.SC[l] {
						rd := rd
						alter(func(s *side) { s.p.SC[l][rd][0] = Add(s.p.SC[l][rd][0], U(1)) }, fmt.Sprintf("round %d of layer %d", rd, l))
					}
				}
				if ns[0] == ns[1] {
					o := []side{b, a}[which]
					alter(func(s *side) { s.p = o.p.Clone() }, "proof of the other")
					alter(func(s *side) { s.in = Copy(o.in) }, "inputs of the other")
					alter(func(s *side) { s.out = Copy(o.out) }, "outputs of the other")
				}
			}
		}, "2^%d and 2^%d instances verified in one circuit", ns[0], ns[1])
	}
}
