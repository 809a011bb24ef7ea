package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C17/values", c17values)
	ev.Register("C17/degrees", c17degrees)
	ev.Register("C17/combinator", c17comb)
	ev.Register("C17/ids", c17ids)
	ev.Register("C17/complete", c17complete)
}

func arkAlphabet() []E {
	if Small {
		return []E{U(0), U(1), I(-1), U(5)}
	}
	return []E{U(0), U(1), I(-1), U(2), gen(60), Ark(0), Ark(90), raw(0, 1, 0, 0), raw(0, 0, 0, 1)}
}

func allGates() []Gate {
	gs := []Gate{{Kind: KAdd}, {Kind: KMul}, {Kind: KCopy}}
	for _, a := range arkAlphabet() {
		gs = append(gs, Gate{Kind: KCipher, Ark: a})
	}
	return gs
}

func c17pair(t *ev.T, g Gate, cg circuit.Gate, l, r E) {
	want := g.Eval(l, r)
	got := gen(5)
	a, b := l, r
	cg.Eval(&got, &a, &b)
	if got != want {
		t.Failf("%s(%s,%s)=%s, expected %s", gateName(g), str(l), str(r), str(got), str(want))
	}
	if a != l || b != r {
		t.Failf("%s modified its inputs (%s,%s)", gateName(g), str(l), str(r))
	}
	t.Trans(1)
	t.State(hashE(ev.Mix(uint64(g.Kind), g.Ark[0]), l, r))
}

func c17many(t *ev.T, g Gate, cg circuit.Gate, vs []E, o E) {
	want := make([]E, len(vs))
	res := gens(500, len(vs))
	in, ok := guarded(vs)
	c := o
	for i := range vs {
		want[i] = g.Eval(vs[i], o)
	}
	cg.EvalManyVL(res, in, &c)
	if !Eq1(res, want) {
		t.Failf("%s: batched evaluation of lefts %s with right %s gives %s, expected %s", gateName(g), str(vs...), str(o), str(res...), str(want...))
	}
	for i := range vs {
		want[i] = g.Eval(o, vs[i])
	}
	res = gens(600, len(vs))
	cg.EvalManyVR(res, &c, in)
	if !Eq1(res, want) {
		t.Failf("%s: batched evaluation of rights %s with left %s gives %s, expected %s", gateName(g), str(vs...), str(o), str(res...), str(want...))
	}
	if !ok() || c != o {
		t.Failf("%s: batched evaluation modified its inputs", gateName(g))
	}
	t.Trans(2)
	t.State(hashE(hashE(ev.Mix(9, uint64(g.Kind), g.Ark[0]), o), vs...))
}

func c17values(x *ev.X) {
	r := append(rich(), gens(70, 6)...)
	for _, g := range allGates() {
		g := g
		cg := gateOf(g)
		for i := range r {
			i := i
			x.Case(func(t *ev.T) {
				for j := range r {
					c17pair(t, g, cg, r[i], r[j])
				}
				// values whose sum or difference with the constant is an edge value
				for _, e := range r {
					c17pair(t, g, cg, r[i], Sub(e, g.Ark))
				}
				for n := 0; n <= 14; n++ {
					for _, vs := range patterns(n, i) {
						c17many(t, g, cg, vs, r[i])
					}
				}
				c17many(t, g, cg, r, r[i])
				c17many(t, g, cg, append(Copy(r), gens(0, 80)...), r[i])
				t.Trace()
			}, "%s with left or right value %s", gateName(g), str(r[i]))
		}
		al := tiny()
		for n := 1; n <= 4; n++ {
			n := n
			x.Case(func(t *ev.T) {
				product(len(al), n+1, func(ix []int) {
					v := pick(al, ix)
					c17many(t, g, cg, v[1:], v[0])
				})
				t.Trace()
			}, "%s batched, all lists of %d tiny values", gateName(g), n)
		}
	}
}

func c17degrees(x *ev.X) {
	for _, g := range allGates() {
		g := g
		cg := gateOf(g)
		x.Case(func(t *ev.T) {
			dl, dr, dp := cg.Degrees()
			al := append(tiny(), gens(80, 4)...)
			// the finite difference of order d+1 along every line vanishes iff the degree along it is at most d
			diff := func(l0, r0, sl, sr E, d int) E {
				var vs []E
				for k := 0; k <= d+1; k++ {
					var v E
					a, b := Add(l0, Mul(I(k), sl)), Add(r0, Mul(I(k), sr))
					cg.Eval(&v, &a, &b)
					vs = append(vs, v)
				}
				for len(vs) > 1 {
					for i := 0; i+1 < len(vs); i++ {
						vs[i] = Sub(vs[i+1], vs[i])
					}
					vs = vs[:len(vs)-1]
				}
				return vs[0]
			}
			for _, l0 := range al {
				for _, r0 := range al {
					for _, s := range al {
						if d := diff(l0, r0, s, E{}, dl); !d.IsZero() {
							t.Failf("%s: degree in the left input is more than the declared %d (line from (%s,%s), step %s)", gateName(g), dl, str(l0), str(r0), str(s))
						}
						if d := diff(l0, r0, E{}, s, dr); !d.IsZero() {
							t.Failf("%s: degree in the right input is more than the declared %d", gateName(g), dr)
						}
						for _, s2 := range al {
							if d := diff(l0, r0, s, s2, dp); !d.IsZero() {
								t.Failf("%s: joint degree is more than the declared %d", gateName(g), dp)
							}
						}
						t.Trans(2 + len(al))
						t.State(hashE(uint64(g.Kind), l0, r0, s))
					}
				}
			}
			if dl+2 > maxDomain || dr+2 > maxDomain || dp+2 > maxDomain {
				t.Failf("%s: declared degrees %d,%d,%d are above what interpolation supports", gateName(g), dl, dr, dp)
			}
			t.Trace()
		}, "declared degrees of %s along all lines of the alphabet", gateName(g))
	}
}

func c17comb(x *ev.X) {
	gs := []Gate{{Kind: KAdd}, {Kind: KMul}, {Kind: KCopy}, {Kind: KCipher, Ark: U(0)}, {Kind: KCipher, Ark: gen(61)}}
	al := []E{U(0), U(1), I(-1), gen(62)}
	for n := 0; n <= 3; n++ {
		product(len(gs), n, func(ix []int) {
			var sel []Gate
			name := ""
			for _, i := range ix {
				sel = append(sel, gs[i])
				name += gateName(gs[i]) + " "
			}
			x.Case(func(t *ev.T) {
				cgs := gatesOf(sel)
				product(len(al), n, func(iy []int) {
					st := pick(al, iy)
					for _, l := range al {
						for _, r := range al {
							for _, e := range al {
								var want E
								for i := range sel {
									want = Add(want, Mul(st[i], sel[i].Eval(l, r)))
								}
								want = Mul(want, e)
								in, ok := guarded(st)
								a, b, c := l, r, e
								if g := circuit.EvaluateCombinator(&a, &b, &c, cgs, in); g != want {
									t.Failf("combinator of [%s] with statics %s eq %s at (%s,%s)", name, str(st...), str(e), str(l), str(r))
								}
								if !ok() || a != l || b != r || c != e {
									t.Failf("combinator modified its arguments")
								}
								t.Trans(1)
								t.State(hashE(hashE(uint64(len(name)), st...), l, r, e))
							}
						}
					}
				})
				t.Trace()
			}, "combinator of gates [%s], all statics, eq, values of the alphabet", name)
		})
	}
}

func c17ids(x *ev.X) {
	x.Case(func(t *ev.T) {
		var gs []Gate
		gs = append(gs, Gate{Kind: KAdd}, Gate{Kind: KMul}, Gate{Kind: KCopy})
		seen := map[E]bool{}
		add := func(a E) {
			if !seen[a] {
				seen[a] = true
				gs = append(gs, Gate{Kind: KCipher, Ark: a})
			}
		}
		for _, a := range rich() {
			add(a)
		}
		for i := 0; i < NArk(); i++ {
			add(Ark(i))
		}
		for i := 0; i < 30; i++ {
			add(gen(900 + i))
			add(U(uint64(i)))
			add(I(-i))
			if !Small {
				add(raw(gen(900)[0], gen(900)[1], gen(900)[2], uint64(i)))
				add(raw(uint64(i), gen(900)[1], gen(900)[2], gen(900)[3]))
			}
		}
		ids := map[string]Gate{}
		for _, g := range gs {
			a, b := gateOf(g).ID(), gateOf(g).ID()
			if a != b {
				t.Failf("two gates %s have different identifiers", gateName(g))
			}
			if o, dup := ids[a]; dup && o != g {
				t.Failf("%s and %s have the same identifier %q", gateName(o), gateName(g), a)
			}
			ids[a] = g
			t.Trans(2)
			t.State(hashE(uint64(g.Kind), g.Ark))
		}
		t.Trace()
	}, "identifiers of all gate kinds and constants")
}

func c17complete(x *ev.X) {
	al := all()
	for kind := KAdd; kind <= KCipher; kind++ {
		for _, a := range al {
			if kind != KCipher && !a.IsZero() {
				continue
			}
			g := Gate{Kind: kind, Ark: a}
			x.Case(func(t *ev.T) {
				cg := gateOf(g)
				for _, l := range al {
					for _, r := range al {
						c17pair(t, g, cg, l, r)
						c17many(t, g, cg, []E{r}, l)
						for _, v := range al {
							c17many(t, g, cg, []E{r, v}, l)
						}
					}
				}
				t.Trace()
			}, "field of %d elements: %s on all inputs, batches of length 1 and 2", P, gateName(g))
		}
	}
}

var _ = fmt.Sprint
