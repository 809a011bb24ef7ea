//go:build mcsched

package props

import (
	"fmt"
	"strings"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/examples"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
	"verif/mc/rt/sched"
)

// More operations used concurrently. The building of gnark circuits is left out: gnark itself does not support it (its
// constants go through the pool of the field library, whose integers share their words).

func init() {
	ev.Register("C13/race", func(x *ev.X) { opsPairs(x, c13cops()) })
	ev.Register("C19/race", func(x *ev.X) { opsPairsBound(x, c19cops(), 0) })
	ev.Register("C25/race", func(x *ev.X) { opsPairs(x, c25cops()) })
	ev.Register("C07/all", c07all)
}

func c13cops() (r []cop) {
	for _, k := range [][2]int{{1, 1}, {1, 10000}, {2, 9000}, {3, 100000}, {8, 70000}} {
		k := k
		r = append(r, cop{fmt.Sprintf("ranges of %d items, %d cores", k[1], k[0]), func() string {
			next := 0
			rs := common.IntoChunkRanges(k[0], k[1])
			for i, c := range rs {
				if c.Begin != next || c.End <= c.Begin || i+1 < len(rs) && c.End-c.Begin < common.MinChunkSize {
					return "wrong ranges"
				}
				next = c.End
			}
			if next != k[1] {
				return "items are missing"
			}
			if common.Log2Floor(k[1])+common.Log2Ceil(k[0]) < 0 || common.Min(k[0], k[1]) != k[0] || common.Max(k[0], k[1]) != k[1] {
				return "wrong number"
			}
			return ""
		}})
	}
	return r
}

func c19cops() (r []cop) {
	mimcCircuit()
	return []cop{{"creation of the MiMC circuit", func() string {
		c := examples.CreateMimcCircuit()
		if len(c.Layers) != 91 {
			return "wrong number of layers"
		}
		return ""
	}}, {"creation of the MiMC circuit and assignment", func() string {
		c := examples.CreateMimcCircuit()
		states, blocks := gens(5, 2), gens(9, 2)
		a := c.Assign(Chunk(c19inputs(states, blocks), 2), 1)
		if !Eq2(a.Values[91], Chunk(c19want(states, blocks), 2)) {
			return "wrong outputs"
		}
		return ""
	}}, {"assignment of the shared circuit", func() string {
		c := mimcCircuit()
		states, blocks := gens(15, 1), gens(19, 1)
		a := c.Assign(Chunk(c19inputs(states, blocks), 1), 1)
		if !Eq2(a.Values[91], Chunk(c19want(states, blocks), 1)) {
			return "wrong outputs"
		}
		return ""
	}}}
}

func c25cops() (r []cop) {
	for k, v := range []E{U(7), I(-12), gen(4), gen(5)} {
		v := v
		want := rendering(v)
		r = append(r, cop{fmt.Sprintf("text of value %d", k), func() string {
			if common.PrettyStringFr(v) != want {
				return "wrong text"
			}
			return ""
		}})
	}
	for k := 1; k <= 3; k++ {
		l := gens(10*k, k)
		var want []string
		for _, v := range l {
			want = append(want, rendering(v))
		}
		same := func(s string) bool {
			it, ok := items(s)
			if !ok || len(it) != len(want) {
				return false
			}
			for i := range it {
				if it[i] != want[i] {
					return false
				}
			}
			return true
		}
		b := bkt(l)
		k := k
		r = append(r, cop{fmt.Sprintf("text of a list and a table of %d values", k), func() string {
			if !same(common.FrSliceToString(l)) || !same(afterBracket(b.String())) {
				return "wrong text"
			}
			return ""
		}}, cop{fmt.Sprintf("list of %d untyped values, conversions", k), func() string {
			g := common.FrToGenericArray(l)
			if len(g) != len(l) {
				return "wrong length"
			}
			for i := range g {
				if e, ok := g[i].(E); !ok || e != l[i] {
					return "wrong value"
				}
			}
			if common.Uint64ToFr(uint64(k)) != U(uint64(k)) {
				return "wrong element"
			}
			if s, ok := items(common.UintSliceToString(make([]uint, k))); !ok || len(s) != k {
				return "wrong text of unsigned integers"
			}
			if s, ok := items(common.IntSliceToString(make([]int, k))); !ok || len(s) != k {
				return "wrong text of integers"
			}
			return ""
		}}, cop{fmt.Sprintf("random lists of %d values", k), func() string {
			if len(common.RandomFrArray(k)) != k || len(common.RandomFrDoubleSlice(2, k)) != 2 {
				return "wrong length"
			}
			return ""
		}})
	}
	return r
}

// c07all: every operation of the library with itself, on its own and on the same data, and with the ones of every
// other part.
func c07all(x *ev.X) {
	parts := []struct {
		name string
		ops  []cop
	}{
		{"sumcheck verifier", c09cops()}, {"tables", c10cops()}, {"chunks", c11cops()}, {"ranges", c13cops()},
		{"interpolation", c14cops()}, {"MiMC", c15cops()}, {"hashers", c16cops()}, {"gates", c17cops()},
		{"layers", c18cops()}, {"MiMC circuit", c19cops()}, {"texts", c25cops()}, {"provers", proverCops()},
	}
	run := func(name string, sel ...cop) {
		x.Case(func(t *ev.T) {
			explore(t, sched.Opts{Bound: 0, Delays: true}, "concurrently "+name, func() (func(), func(e *sched.Exec) string) {
				msgs := make([]string, len(sel))
				fs := make([]func(), len(sel))
				for i := range sel {
					i := i
					fs[i] = func() { msgs[i] = sel[i].f() }
				}
				return func() { conc(fs...) }, func(e *sched.Exec) string {
					for i, m := range msgs {
						if m != "" {
							return sel[i].name + ": " + m
						}
					}
					return ""
				}
			})
		}, "concurrently %s", name)
	}
	// a part one operation after the other
	seq := func(ops []cop) func() string {
		return func() string {
			for _, o := range ops {
				if m := o.f(); m != "" {
					return o.name + ": " + m
				}
			}
			return ""
		}
	}
	for i, p := range parts {
		for _, o := range p.ops {
			run(fmt.Sprintf("[%s] three times", o.name), o, o, o)
		}
		for j := i; j < len(parts); j++ {
			q := parts[j]
			run(fmt.Sprintf("all the %s and all the %s", p.name, q.name), cop{p.name, seq(p.ops)}, cop{q.name, seq(q.ops)})
		}
	}
}

func proverCops() (r []cop) {
	l := Layer{w(gMul(), 0, 1, 0), w(gCipher(gen(63)), 1, 0, 1)}
	for k, c := range []Circuit{{l}, {l, {w(gAdd(), 0, 1, 0)}}} {
		c, k := c, k
		cc := circuitOf(c)
		in := gens(5*k, 4)
		vals := c.Assign(in)
		qP, q := point(1, c)
		want := c.Prove(in, qP, q)
		a := cc.Assign(Chunk(in, 2), 1)
		r = append(r, cop{fmt.Sprintf("assignment and proof %d", k), func() string {
			p := gkr.NewProver(cc, cc.Assign(Chunk(in, 1), 1))
			if pr := p.Prove(1); !eqProof(refProof(pr), want) {
				return "wrong proof"
			}
			return ""
		}}, cop{fmt.Sprintf("proof of the shared assignment %d", k), func() string {
			p := gkr.NewProver(cc, a)
			if pr := p.Prove(2); !eqProof(refProof(pr), want) {
				return "wrong proof"
			}
			return ""
		}}, cop{fmt.Sprintf("verification %d", k), func() string {
			v := gkr.NewVerifier(1, cc)
			if !v.Verify(proofOf(want), Chunk(in, 1), Chunk(vals[len(c)], 2)) {
				return "honest proof rejected"
			}
			return ""
		}}, cop{fmt.Sprintf("views of the shared assignment %d", k), func() string {
			for i := range vals {
				b, n := a.LayerAsBKTWithCopy(i, 2), a.LayerAsBKTNoCopy(i)
				for j, ch := range Chunk(vals[i], 2) {
					if !Eq1(b[j].Table, ch) || !Eq1(n[j].Table, ch) {
						return "wrong values"
					}
				}
			}
			return ""
		}}, cop{fmt.Sprintf("initial points %d", k), func() string {
			a, b := gkr.GetInitialQPrimeAndQ(1+k, 2)
			if len(a) != 1+k || len(b) != 2 {
				return "wrong points"
			}
			return ""
		}})
	}
	s := schedInstance(1, 1, []Gate{gMul()})
	tr := s.Prove()
	r = append(r, cop{"sequential sumcheck prover", func() string {
		p := sumcheck.NewSingleThreadedProver(bkt(Copy(s.VL)), bkt(Copy(s.VR)), bkt(Copy(s.EQ)), gatesOf(s.Gates), bkts(Copy2(s.ST)))
		if p.GetClaim() != tr.Claim {
			return "wrong claim"
		}
		if pr, _, _, _, _ := p.Prove(); !samePolys(pr.PolyCoeffs, tr.Proof) {
			return "wrong proof"
		}
		return ""
	}}, cop{"table arithmetic", func() string {
		a, b := gens(0, 5), gens(9, 5)
		var s, d, m polynomial.BookKeepingTable
		s = bkt(make([]E, 5))
		d, m = bkt(make([]E, 5)), bkt(make([]E, 5))
		s.Add(bkt(a), bkt(b))
		d.Sub(bkt(a), bkt(b), 2)
		m.Mul(gen(3), bkt(a), 2)
		for i := range a {
			if s.Table[i] != Add(a[i], b[i]) || d.Table[i] != Sub(a[i], b[i]) || m.Table[i] != Mul(gen(3), a[i]) {
				return "wrong table"
			}
		}
		return ""
	}}, cop{"new circuits", func() string {
		c := circuit.NewCircuit([][]circuit.Wire{wiresOf(l)})
		if len(c.Layers) != 1 || len(c.Layers[0].Gates) != 2 {
			return "wrong circuit"
		}
		return ""
	}})
	return r
}

func samePolys(a, b [][]E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !samePoly(a[i], b[i]) {
			return false
		}
	}
	return true
}

func afterBracket(s string) string {
	if i := strings.Index(s, "["); i > 0 {
		return s[i:]
	}
	return s
}
