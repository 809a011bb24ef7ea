package props

import (
	"fmt"

	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() {
	ev.Register("C04/statements", c04statements)
}

// wellShaped tells whether the chunks make up a table of 2^log elements over 2^bN instances.
func wellShaped(c [][]E, log, bN int) bool {
	n := len(c)
	if n == 0 || n&(n-1) != 0 || n > 1<<uint(bN) {
		return false
	}
	for _, x := range c {
		if len(x)*n != 1<<uint(log) {
			return false
		}
	}
	return true
}

// c04statements: honest proofs presented with inputs and outputs of any shape: any number of
// chunks, each of any length, made of the true values so that as much as possible of it agrees.
func c04statements(x *ev.X) {
	cs := []Circuit{{wideLayers()[0]}, {wideLayers()[1]}, {singleLayers()[0]}}
	for _, l := range chainLayers() {
		cs = append(cs, Circuit{l})
	}
	cs = append(cs, chains(smallChains(), 2)...)
	if x.Thorough {
		cs = append(cs, chains(chainLayers(), 2)...)
		cs = append(cs, bigCircuits()[0].c)
	}
	top := 2
	if x.Thorough {
		top = 4
	}
	for _, c := range cs {
		for bN := 0; bN <= top; bN++ {
			for zero := 0; zero < 2; zero++ {
				c, bN, zero := c, bN, zero
				x.Case(func(t *ev.T) { c04statementCase(t, c, bN, zero == 1) },
					"statements of every shape around the right one: %s, 2^%d instances, zero values %v", circuitName(c), bN, zero == 1)
			}
		}
	}
}

func c04statementCase(t *ev.T, c Circuit, bN int, zero bool) {
	L := len(c)
	li, lo := bN+c[0].BGIn(), bN+c[L-1].BGOut()
	in := make([]E, 1<<uint(li))
	if !zero {
		in = gens(0, len(in))
	}
	out := c.Assign(in)[L]
	k := newC02(t, c, bN, 1, in, out)
	hp := c.Prove(in, k.qP, k.q)
	proof := proofOf(hp)
	h := ev.Mix(hashCircuit(c), uint64(bN), hashE(3, in...))

	shapes := func(table []E, log int) [][][]E {
		var r [][][]E
		add := func(c [][]E) { r = append(r, c) }
		// fill[i] makes a chunk of any length out of the honest one
		fill := func(c []E, n, how int) []E {
			o := make([]E, n)
			for i := range o {
				switch {
				case how == 0 && i < len(c): // what exceeds is generic
					o[i] = c[i]
				case how == 1 && n >= len(c) && len(c) > 0 && i%(n/len(c)) == 0 && i/(n/len(c)) < len(c): // spread, holes generic
					o[i] = c[i/(n/len(c))]
				case how == 2 && len(c) > 0: // repeated
					o[i] = c[i%len(c)]
				default:
					o[i] = gen(i + 5)
				}
				if zero && how != 0 {
					o[i] = E{}
				}
			}
			return o
		}
		for m := 0; m <= len(table)*2+1 && m <= 9; m++ {
			base := Chunk(table, 1)
			if m > 0 && m&(m-1) == 0 && m <= len(table) {
				base = Chunk(table, m)
			}
			right := len(base[0])
			lens := []int{0, 1, right - 1, right, right + 1, 2 * right, 4 * right}
			var ls []int
			for i, n := range lens {
				dup := n < 0
				for _, y := range lens[:i] {
					dup = dup || y == n
				}
				if !dup {
					ls = append(ls, n)
				}
			}
			free := m
			if free > 2 {
				free = 2
			}
			for how := 0; how < 3; how++ {
				product(len(ls), free, func(ix []int) {
					// the first chunk, the last one; the others follow the first, or are right
					for others := 0; others < 2; others++ {
						if m <= 2 && others > 0 {
							continue
						}
						var cc [][]E
						for b := 0; b < m; b++ {
							n := right
							if b == m-1 && m > 1 {
								n = ls[ix[1]]
							} else if b == 0 || others == 0 {
								n = ls[ix[0]]
							}
							cc = append(cc, fill(base[b%len(base)], n, how))
						}
						add(cc)
					}
				})
				// one chunk alone, or two neighbours that make up for each other, wherever they are
				for b := 0; b < m && m > 2; b++ {
					for _, n := range ls {
						if n == right {
							continue
						}
						for nb := 0; nb < 2; nb++ {
							if nb == 1 && 2*right-n < 0 {
								continue
							}
							var cc [][]E
							for i := 0; i < m; i++ {
								l := right
								if i == b {
									l = n
								} else if nb == 1 && i == (b+1)%m {
									l = 2*right - n
								}
								cc = append(cc, fill(base[i%len(base)], l, how))
							}
							add(cc)
						}
					}
				}
			}
		}
		add(nil)
		return r
	}
	try := func(ci, co [][]E, what string) {
		var got bool
		if r := ev.Try(func() { got = k.v.Verify(proof, ci, co) }); r != nil {
			t.Failf("verifier crashed (%v) on %s of the wrong shape: inputs in chunks of %v, outputs in chunks of %v; circuit %s, 2^%d instances", r, what, chunkLens(ci), chunkLens(co), circuitName(c), bN)
		}
		want := wellShaped(ci, li, bN) && wellShaped(co, lo, bN)
		if want {
			want = c.Accepts(bN, hp, Unchunk(ci), Unchunk(co), k.qP, k.q)
			t.Count("right shapes", 1)
		} else {
			t.Count("wrong shapes rejected", 1)
		}
		if got != want {
			t.Failf("verifier says %v, expected %v, for %s: inputs in chunks of %v, outputs in chunks of %v; circuit %s, 2^%d instances", got, want, what, chunkLens(ci), chunkLens(co), circuitName(c), bN)
		}
		t.Trans(1)
		t.Trace()
		t.State(ev.Mix(h, hash2(1, ci), hash2(2, co)))
	}
	si, so := shapes(in, li), shapes(out, lo)
	for _, ci := range si {
		try(ci, Chunk(out, 1), "inputs")
		if n := len(ci); n > 0 && n&(n-1) == 0 && n <= 1<<uint(bN) {
			try(ci, Chunk(out, n), "inputs")
		}
	}
	for _, co := range so {
		try(Chunk(in, 1), co, "outputs")
		if n := len(co); n > 0 && n&(n-1) == 0 && n <= 1<<uint(bN) {
			try(Chunk(in, n), co, "outputs")
		}
	}
	// both
	for i := 0; i < len(si) && i < len(so); i++ {
		try(si[i], so[i], "inputs and outputs")
	}
}

func chunkLens(c [][]E) string {
	var r []int
	for _, x := range c {
		r = append(r, len(x))
	}
	return fmt.Sprint(r)
}
