package props

import (
	"gkr-mimc/common"
	"gkr-mimc/hash"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C15/messages", c15messages)
	ev.Register("C15/steps", c15steps)
}

func c15msg(t *ev.T, m []E) {
	want := Mimc(m)
	in, ok := guarded(m)
	if g := hash.MimcHash(in); g != want {
		t.Failf("digest of %s is %s, expected %s", str(m...), str(g), str(want))
	}
	if g := common.GetChallenge(in); g != want {
		t.Failf("challenge of %s is %s, expected %s", str(m...), str(g), str(want))
	}
	var st E
	for _, b := range in {
		hash.MimcUpdateInplace(&st, b)
	}
	if st != want {
		t.Failf("absorbing %s block by block gives %s, expected %s", str(m...), str(st), str(want))
	}
	if g := hash.MimcHash(in); g != want {
		t.Failf("second digest of %s differs", str(m...))
	}
	if !ok() {
		t.Failf("hashing modified the message %s", str(m...))
	}
	t.Trans(3 + len(m))
	t.Trace()
	t.State(hashE(uint64(len(m)), m...))
	t.Outcome(hashE(1, want))
}

func c15messages(x *ev.X) {
	x.Case(func(t *ev.T) {
		if hash.MimcHash(nil) != (E{}) || hash.MimcHash([]E{}) != (E{}) || common.GetChallenge(nil) != (E{}) {
			t.Failf("the empty message does not hash to zero")
		}
		for i := 0; i < NArk(); i++ {
			if hash.Arks[i] != Ark(i) {
				t.Failf("round constant %d is not the published one", i)
			}
		}
		t.Trans(3)
		t.Trace()
	}, "empty message, round constants")
	r := rich()
	for i := range r {
		i := i
		x.Case(func(t *ev.T) {
			c15msg(t, []E{r[i]})
			for j := range r {
				c15msg(t, []E{r[i], r[j]})
				if x.Thorough {
					for k := range r {
						c15msg(t, []E{r[i], r[j], r[k]})
					}
				}
			}
		}, "all messages of rich values of length 1..2 (3) starting with %s", str(r[i]))
	}
	al := []E{U(0), U(1), gen(4)}
	top := 6
	if x.Thorough {
		top = 8
	}
	for n := 1; n <= top; n++ {
		for a := range al {
			n, a := n, a
			x.Case(func(t *ev.T) {
				product(3, n-1, func(ix []int) { c15msg(t, append([]E{al[a]}, pick(al, ix)...)) })
			}, "all messages over {0,1,generic} of length %d starting with %s", n, str(al[a]))
		}
	}
	for n := 0; n <= 70; n++ {
		n := n
		x.Case(func(t *ev.T) {
			for _, m := range patterns(n, 3) {
				c15msg(t, m)
			}
		}, "value patterns of length %d", n)
	}
	for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 1000, 1024} {
		n := n
		x.Case(func(t *ev.T) {
			for _, m := range patterns(n, 3) {
				c15msg(t, m)
			}
		}, "value patterns of length %d", n)
	}
}

func c15steps(x *ev.X) {
	r := append(rich(), gens(100, 12)...)
	for i := range r {
		i := i
		x.Case(func(t *ev.T) {
			s := r[i]
			for _, b := range r {
				u, p := s, s
				hash.MimcUpdateInplace(&u, b)
				hash.MimcPermutationInPlace(&p, b)
				if u != MimcStep(s, b) {
					t.Failf("update of state %s with %s", str(s), str(b))
				}
				if p != MimcPerm(s, b) {
					t.Failf("permutation of %s with key %s", str(s), str(b))
				}
				// the state and the block being the same variable
				v := []E{s}
				hash.MimcUpdateInplace(&v[0], v[0])
				if v[0] != MimcStep(s, s) {
					t.Failf("update of state %s with itself", str(s))
				}
				t.Trans(3)
				t.Trace()
				t.State(hashE(5, s, b))
			}
		}, "state %s with all blocks", str(r[i]))
	}
}
