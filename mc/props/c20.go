package props

import (
	gadget "gkr-mimc/snark/hash"
	"verif/mc/ev"
	. "verif/mc/ref"

	"gkr-mimc/hash"

	"github.com/consensys/gnark/frontend"
)

func init() {
	ev.Register("C20/variables", c20variables)
	ev.Register("C20/constants", c20constants)
	ev.Register("C20/composed", c20composed)
}

type vars = []frontend.Variable
type csys = *frontend.ConstraintSystem

// c20others are digests of related messages: none may be accepted in place of the right one.
func c20others(m []E) []E {
	var r []E
	for i := range m {
		if len(m) > 24 && i > 3 && i < len(m)-3 {
			continue
		}
		r = append(r, Mimc(m[:i]), Mimc(m[i:]))
	}
	r = append(r, Mimc(append(Copy(m), E{})), Mimc(append([]E{{}}, m...)))
	for i := 0; i+1 < len(m); i++ {
		if len(m) > 24 && i > 3 && i < len(m)-3 {
			continue
		}
		s := Copy(m)
		s[i], s[i+1] = s[i+1], s[i]
		r = append(r, Mimc(s))
	}
	return append(r, MimcPerm(E{}, U(0)))
}

func c20variables(x *ev.X) {
	maxN := 9
	if x.Thorough {
		maxN = 24
	}
	var ns []int
	for n := 0; n <= maxN; n++ {
		ns = append(ns, n)
	}
	if !x.Thorough {
		ns = append(ns, 15, 16, 17)
	}
	ns = append(ns, 31, 32, 33, 64, 65)
	for _, n := range ns {
		n := n
		shards := 1
		if n > 0 && n <= 3 {
			shards = 8
		}
		for sh := 0; sh < shards; sh++ {
			sh := sh
			x.Case(func(t *ev.T) {
				g := compileGad(t, n, 1, func(cs csys, in vars) vars { return vars{gadget.MimcHash(cs, in...)} })
				one := func(m []E) {
					d := hash.MimcHash(Copy(m))
					if d != Mimc(m) {
						t.Failf("native digest of %s is not the specified one", str(m...))
					}
					g.judge(t, m, []E{d}, c20others(m), "hash of %d variables", n)
				}
				if sh == 0 {
					for _, p := range patterns(n, 3) {
						one(p)
					}
				}
				al := tiny()
				if n == 1 {
					al = rich()
				}
				if x.Thorough && n == 2 {
					al = rich()
				}
				k := 0
				if n <= 3 {
					product(len(al), n, func(ix []int) {
						if k%shards == sh {
							one(pick(al, ix))
						}
						k++
					})
				}
				for i := 0; i < n; i++ {
					for j, v := range rich() {
						if n > 24 && (i*7)%n > 2 {
							continue
						}
						if j%shards == sh && (x.Thorough || n <= 3) {
							m := gens(0, n)
							m[i] = v
							one(m)
						}
					}
				}
			}, "hash of %d variables, part %d", n, sh)
		}
	}
}

func c20constants(x *ev.X) {
	maxN := 3
	if x.Thorough {
		maxN = 5
	}
	for n := 1; n <= maxN; n++ {
		for mask := 1; mask < 1<<uint(n); mask++ {
			for pat := range patternNames {
				n, mask, pat := n, mask, pat
				x.Case(func(t *ev.T) {
					m := patterns(n, 11)[pat]
					g := compileGad(t, n, 1, func(cs csys, in vars) vars { return vars{gadget.MimcHash(cs, mixIn(cs, in, m, mask)...)} })
					g.judge(t, m, []E{hash.MimcHash(Copy(m))}, c20others(m), "hash of %d values, constants mask %b", n, mask)
					// the other (variable) inputs changed
					m2 := Copy(m)
					for i := range m2 {
						if mask>>uint(i)&1 == 0 {
							m2[i] = Add(m2[i], gen(70+i))
						}
					}
					g.judge(t, m2, []E{hash.MimcHash(Copy(m2))}, append(c20others(m2), hash.MimcHash(Copy(m))), "hash of %d values, constants mask %b", n, mask)
				}, "hash of %d values, constants mask %b, values %s", n, mask, patternNames[pat])
			}
		}
	}
	for i := range rich() {
		i := i
		x.Case(func(t *ev.T) {
			m := []E{rich()[i]}
			g := compileGad(t, 0, 1, func(cs csys, in vars) vars { return vars{gadget.MimcHash(cs, cs.Constant(m[0]))} })
			g.judge(t, nil, []E{hash.MimcHash(Copy(m))}, c20others(m), "hash of a constant")
		}, "hash of the constant %s", str(rich()[i]))
	}
}

// c20composed: linear expressions, repeated variables, nested and repeated hashes in the same circuit.
func c20composed(x *ev.X) {
	for pat := range patternNames {
		pat := pat
		x.Case(func(t *ev.T) {
			g := compileGad(t, 2, 5, func(cs csys, in vars) vars {
				a, b := in[0], in[1]
				s := cs.Sub(cs.Add(a, a), b)
				h1 := gadget.MimcHash(cs, a, a, b)
				h2 := gadget.MimcHash(cs, s, cs.Constant(3), cs.Mul(a, b))
				h3 := gadget.MimcHash(cs, h1, h2)
				h4 := gadget.MimcHash(cs, a, b)
				h5 := gadget.MimcHash(cs, a, b)
				return vars{h1, h2, h3, h4, h5}
			})
			for _, m := range append(patterns(2, 20)[pat:pat+1], []E{rich()[pat], rich()[pat+7]}, []E{rich()[pat+7], rich()[pat]}) {
				a, b := m[0], m[1]
				h := func(e ...E) E { return hash.MimcHash(e) }
				h1, h2 := h(a, a, b), h(Sub(Add(a, a), b), U(3), Mul(a, b))
				g.judge(t, m, []E{h1, h2, h(h1, h2), h(a, b), h(a, b)}, []E{h1, h2}, "composed hashes")
			}
		}, "composed hashes, values %s", patternNames[pat])
	}
}
