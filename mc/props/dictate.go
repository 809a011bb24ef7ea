package props

import (
	"fmt"

	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() { ev.Register("C02/dictated", c02dictated) }

// c02dictated: provers which, at one place, send something they like (what was sent before, zeros, constants) instead
// of what the protocol asks for, and keep everything else consistent down to inputs made up for it: the relation at
// that place is the only one which can reject the proof.
func c02dictated(x *ev.X) {
	for _, c := range c02circuits(x.Thorough) {
		for bN := 0; bN <= maxBN(c, 2); bN++ {
			c, bN := c, bN
			if (len(c) > 2 && bN > 0 || len(c) > 1 && bN > 1) && !x.Thorough {
				continue
			}
			x.Case(func(t *ev.T) { c02dictate(t, c, bN, x.Thorough) }, "proofs with a message that is replayed or made up: %s, 2^%d instances", circuitName(c), bN)
		}
	}
}

type srcPoly struct {
	name string
	f    func(p Proof) ([]E, bool)
}

func c02dictate(t *ev.T, c Circuit, bN int, thorough bool) {
	in := gens(0, 1<<uint(bN+c[0].BGIn()))
	out := c.Assign(in)[len(c)]
	qP, q := point(bN, c)
	honest := c.Prove(in, qP, q)
	k := 0
	try := func(d Dictate, format string, a ...interface{}) {
		for _, right := range []bool{false, true} {
			p, in2, ok := c.ForgeDictated(in, qP, q, d, right)
			if !ok {
				t.Count("messages that cannot be followed up", 1)
				continue
			}
			if n := len(c.Violations(bN, p, in2, out, qP, q)); n == 1 {
				t.Count("proofs breaking exactly one relation", 1)
			} else {
				t.Count(fmt.Sprintf("proofs breaking %d relations", n), 1)
			}
			k++
			for i, n := range []int{1, 1 << uint(bN)} {
				if i != k%2 && !thorough {
					continue
				}
				newC02(t, c, bN, n, in2, out).judge(p, format+" (error carried by the right claims: %v)", append(a, right)...)
			}
			if !thorough {
				break
			}
		}
	}
	for l := len(c) - 1; l >= 0; l-- {
		l := l
		rounds := len(honest.SC[l])
		for i := 0; i < rounds; i++ {
			i := i
			deg := len(honest.SC[l][i])
			src := []srcPoly{
				{"zeros", func(Proof) ([]E, bool) { return make([]E, deg), true }},
				{"a single zero", func(Proof) ([]E, bool) { return make([]E, 1), true }},
				{"a constant", func(Proof) ([]E, bool) { return []E{gen(5)}, true }},
				{"ones", func(Proof) ([]E, bool) {
					r := make([]E, deg)
					for k := range r {
						r[k] = U(1)
					}
					return r, true
				}},
				{"the opposite of the honest polynomial", func(Proof) ([]E, bool) {
					r := Copy(honest.SC[l][i])
					for k := range r {
						r[k] = Sub(E{}, r[k])
					}
					return r, true
				}},
				{"the honest polynomial reversed", func(Proof) ([]E, bool) {
					r := Copy(honest.SC[l][i])
					for k := range r {
						r[k] = honest.SC[l][i][len(r)-1-k]
					}
					return r, true
				}},
			}
			for l2 := len(c) - 1; l2 >= l; l2-- {
				for j := range honest.SC[l2] {
					if l2 == l && j >= i {
						break
					}
					l2, j := l2, j
					src = append(src, srcPoly{fmt.Sprintf("round %d of layer %d", j, l2), func(p Proof) ([]E, bool) { return p.SC[l2][j], true }})
				}
			}
			for _, s := range src {
				try(Dictate{Poly: func(a, b int, p Proof) ([]E, bool) {
					if a != l || b != i {
						return nil, false
					}
					return s.f(p)
				}}, "round %d of layer %d is %s", i, l, s.name)
			}
		}
		// all the rounds of a layer above, again
		for l2 := len(c) - 1; l2 > l; l2-- {
			if len(honest.SC[l2]) != rounds || rounds == 0 {
				continue
			}
			for stop := 2; stop <= rounds; stop++ {
				try(Dictate{Poly: func(a, b int, p Proof) ([]E, bool) {
					if a != l || b >= stop {
						return nil, false
					}
					return p.SC[l2][b], true
				}}, "the %d first rounds of layer %d are the ones of layer %d", stop, l, l2)
			}
			// with its claims too
			try(Dictate{Poly: func(a, b int, p Proof) ([]E, bool) {
				if a != l {
					return nil, false
				}
				return p.SC[l2][b], true
			}, Claims: func(a int, p Proof) (E, E, bool) { return p.CL[l2], p.CR[l2], a == l }}, "layer %d is layer %d again", l, l2)
		}
		vals := []E{{}, U(1), I(-1), gen(6), honest.CL[l], honest.CR[l]}
		for l2 := len(c) - 1; l2 > l; l2-- {
			vals = append(vals, honest.CL[l2], honest.CR[l2])
		}
		for _, a := range vals {
			for _, b := range vals {
				a, b := a, b
				if a == honest.CL[l] && b == honest.CR[l] {
					continue
				}
				try(Dictate{Claims: func(k int, p Proof) (E, E, bool) { return a, b, k == l }}, "claims of layer %d are %s and %s", l, str(a), str(b))
			}
		}
		if l == 0 {
			continue
		}
		// The layer below proves another combination of the claims than the one asked for: some of the claims could then
		// be anything, the other one making up for it.
		lambdas := []struct {
			name string
			f    func(p Proof) E
		}{
			{"0", func(Proof) E { return E{} }},
			{"1", func(Proof) E { return U(1) }},
			{"-1", func(Proof) E { return I(-1) }},
			{"the hash of the left claim", func(p Proof) E { return Mimc([]E{p.CL[l]}) }},
			{"the hash of the right claim", func(p Proof) E { return Mimc([]E{p.CR[l]}) }},
			{"the hash of the claims exchanged", func(p Proof) E { return Mimc([]E{p.CR[l], p.CL[l]}) }},
			{"the hash of the sum of the claims", func(p Proof) E { return Mimc([]E{Add(p.CL[l], p.CR[l])}) }},
			{"the hash of the honest claims", func(p Proof) E { return Mimc([]E{honest.CL[l], honest.CR[l]}) }},
			{"the last challenge", func(p Proof) E {
				if n := len(p.SC[l]); n > 0 {
					return Mimc(p.SC[l][n-1])
				}
				return E{}
			}},
			{"the one of the layer above", func(p Proof) E {
				if l+1 < len(c) {
					return Mimc([]E{p.CL[l+1], p.CR[l+1]})
				}
				return U(2)
			}},
		}
		for _, lam := range lambdas {
			lam := lam
			lf := func(k int, p Proof) (E, bool) {
				if k != l {
					return E{}, false
				}
				return lam.f(p), true
			}
			try(Dictate{Lambda: lf}, "claims of layer %d combined with %s", l, lam.name)
			for _, right := range []bool{true, false} {
				for vi, vn := range []string{"0", "1", "-1", "a made-up value", "itself plus one", "the other one"} {
					vi, right := vi, right
					try(Dictate{Lambda: lf, One: func(k int, vl, vr E) (E, bool, bool) {
						own, other := vl, vr
						if right {
							own, other = vr, vl
						}
						return []E{{}, U(1), I(-1), gen(6), Add(own, U(1)), other}[vi], right, k == l
					}}, "a claim (right: %v) of layer %d is %s, the other one solved for, combined with %s", right, l, vn, lam.name)
				}
			}
		}
	}
}
