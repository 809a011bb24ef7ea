package props

import (
	"gkr-mimc/hash"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C16/digests", c16digests)
	ev.Register("C16/steps", c16steps)
}

type hasher struct {
	name string
	t    int
	hash func([]E) E
	step func(state, block []E)
	ref  func([]E) E
	refS func(state, block []E) []E
}

func hashers() []hasher {
	var r []hasher
	for _, t := range []int{2, 4, 8} {
		t := t
		p := map[int]*hash.PoseidonHasher{2: &hash.PoseidonT2, 4: &hash.PoseidonT4, 8: &hash.PoseidonT8}[t]
		g := map[int]*hash.GMimcHasher{2: &hash.GMimcT2, 4: &hash.GMimcT4, 8: &hash.GMimcT8}[t]
		r = append(r, hasher{"GMimc", t, g.Hash, g.UpdateInplace, func(m []E) E { return GMimc(t, m) }, GMimcStep})
		r = append(r, hasher{"Poseidon", t, p.Hash, p.Update, func(m []E) E { return Poseidon(t, m) }, PoseidonStep})
	}
	return r
}

func c16digest(t *ev.T, h hasher, m []E) E {
	want := h.ref(m)
	in, ok := guarded(m)
	if g := h.hash(in); g != want {
		t.Failf("%s(t=%d) digest of %s is %s, expected %s", h.name, h.t, str(m...), str(g), str(want))
	}
	if !ok() {
		t.Failf("%s(t=%d) modified the message %s", h.name, h.t, str(m...))
	}
	t.Trans(1)
	t.Trace()
	t.State(hashE(ev.Mix(uint64(h.t), uint64(len(m)), uint64(h.name[0])), m...))
	t.Outcome(hashE(3, want))
	return want
}

func c16digests(x *ev.X) {
	for _, h := range hashers() {
		h := h
		maxLen := 3*h.t + 2
		if x.Thorough {
			maxLen = 6*h.t + 2
		}
		for n := 0; n <= maxLen; n++ {
			n := n
			x.Case(func(t *ev.T) {
				base := gens(50, n)
				d := c16digest(t, h, base)
				for i := range base {
					for _, e := range []E{U(0), U(1), I(-1), Add(base[i], U(1)), Add(base[i], I(-1)), Sub(E{}, base[i])} {
						m := Copy(base)
						m[i] = e
						if c16digest(t, h, m) == d && e != base[i] {
							t.Failf("%s(t=%d): changing element %d of a message of length %d leaves the digest unchanged", h.name, h.t, i, n)
						}
					}
					if i+1 < n {
						m := Copy(base)
						m[i], m[i+1] = m[i+1], m[i]
						c16digest(t, h, m)
					}
				}
				for _, m := range patterns(n, 1) {
					c16digest(t, h, m)
				}
				if c16digest(t, h, base) != d {
					t.Failf("%s(t=%d): repeated digest differs", h.name, h.t)
				}
			}, "%s t=%d, messages of length %d, every element altered", h.name, h.t, n)
		}
		al := []E{U(0), U(1), gen(8)}
		top := map[int]int{2: 5, 4: 5, 8: 4}[h.t]
		if x.Thorough {
			top += 2
		}
		for n := 1; n <= top; n++ {
			for a := range al {
				n, a := n, a
				x.Case(func(t *ev.T) {
					product(3, n-1, func(ix []int) { c16digest(t, h, append([]E{al[a]}, pick(al, ix)...)) })
				}, "%s t=%d, all messages over {0,1,generic} of length %d starting with %s", h.name, h.t, n, str(al[a]))
			}
		}
		for _, n := range []int{33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300} {
			n := n
			x.Case(func(t *ev.T) {
				for _, m := range patterns(n, 2) {
					c16digest(t, h, m)
				}
			}, "%s t=%d, patterns of length %d", h.name, h.t, n)
		}
	}
}

func c16steps(x *ev.X) {
	for _, h := range hashers() {
		h := h
		var vs [][]E
		vs = append(vs, patterns(h.t, 20)...)
		for i := 0; i < h.t; i++ {
			v := make([]E, h.t)
			v[i] = U(1)
			vs = append(vs, v)
			w := gens(30, h.t)
			w[i] = U(0)
			vs = append(vs, w)
		}
		for _, e := range rich() {
			v := gens(40, h.t)
			v[0] = e
			vs = append(vs, v)
		}
		for i := range vs {
			i := i
			x.Case(func(t *ev.T) {
				for _, b := range vs {
					st, ok1 := guarded(vs[i])
					bl, ok2 := guarded(b)
					_ = ok1
					h.step(st, bl)
					if want := h.refS(vs[i], b); !Eq1(st, want) {
						t.Failf("%s(t=%d): absorbing %s in state %s", h.name, h.t, str(b...), str(vs[i]...))
					}
					if !ok2() {
						t.Failf("%s(t=%d): absorbing modified the block", h.name, h.t)
					}
					t.Trans(1)
					t.Trace()
					t.State(hashE(hashE(uint64(h.t), vs[i]...), b...))
				}
			}, "%s t=%d state %s with all blocks", h.name, h.t, str(vs[i]...))
		}
	}
}
