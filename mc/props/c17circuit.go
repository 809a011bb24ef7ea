package props

import (
	sg "gkr-mimc/snark/gkr"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() { ev.Register("C17/circuit", c17circuit) }

// c17circuit: in-circuit evaluation of every gate, inputs variable, constant, equal or linear expressions.
func c17circuit(x *ev.X) {
	for _, g := range allGates() {
		for mask := 0; mask < 6; mask++ {
			g, mask := g, mask
			x.Case(func(t *ev.T) {
				cg := gateOf(g)
				r := append(rich(), gens(70, 4)...)
				var gd *r1
				for i, l := range r {
					for j, rr := range r {
						if mask != 0 && mask < 4 && !x.Thorough && (i*7+j*3)%5 != 0 {
							continue
						}
						if mask == 4 && i != j {
							continue
						}
						in := []E{l, rr}
						if gd == nil || mask > 0 && mask < 4 {
							gd = compileGad(t, 2, 2, func(cs csys, v vars) vars {
								if mask < 4 {
									v = mixIn(cs, v, in, mask)
								}
								a, b := v[0], v[1]
								if mask == 4 {
									b = a
								}
								if mask == 5 {
									b = cs.Add(a, a, b)
								}
								o := cg.GnarkEval(cs, a, b)
								var o2 = o
								switch g.Kind {
								case KCopy:
									o2 = sg.CopyGate()(cs, a, b)
								case KCipher:
									o2 = sg.CipherGate(g.Ark)(cs, a, b)
								}
								return vars{o, o2}
							})
						}
						b := rr
						if mask == 5 {
							b = Add(Add(l, l), rr)
						}
						var v E
						a0, b0 := l, b
						cg.Eval(&v, &a0, &b0)
						if v != g.Eval(l, b) {
							t.Failf("%s evaluates to %s", gateName(g), str(v))
						}
						gd.judge(t, in, []E{v, v}, []E{l, b, g.Eval(b, l)}, "%s in circuit, mode %d", gateName(g), mask)
					}
				}
			}, "in-circuit %s, inputs mode %d (bits: constant left/right; 4 equal; 5 linear expression)", gateName(g), mask)
		}
	}
}
