package props

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
)

// Histories of calls over the same memory. A caller is free to refill the buffers it hands over, once a call has
// returned, and to keep or overwrite what it got back; nothing it got earlier may change, and no later call may see
// anything but what the buffers hold by then. Every sequence of (operation, data) up to a depth is run with all the
// buffers carved out of one array, so that different operations get the same addresses with other lengths and
// contents; the data sets of an operation differ in a single element (first, middle or last) or in all of them.

type reuseOp struct {
	name     string
	sizes    []int
	data     func(d int) [][]E // nil: the default data sets
	nd       int
	consumes bool // folds its arguments: that is its contract
	// call returns what the result is now (asked again later), and the memory the caller owns
	call func(b [][]E) (read func() [][]E, owned [][]E)
	want func(b [][]E) [][]E
	// of the verifications
	split    func(b [][]E) ([][]E, [][]E, gkr.Proof)
	verifier *gkr.Verifier
}

// reusePlain: the result is the memory returned.
func reusePlain(f func(b [][]E) [][]E) func(b [][]E) (func() [][]E, [][]E) {
	return func(b [][]E) (func() [][]E, [][]E) {
		r := f(b)
		return func() [][]E { return r }, r
	}
}

func one(e ...E) [][]E { return [][]E{e} }

func yes(b bool) [][]E {
	if b {
		return one(U(1))
	}
	return one(U(0))
}

func tablesOf(ts []polynomial.BookKeepingTable) [][]E {
	var r [][]E
	for _, t := range ts {
		r = append(r, t.Table)
	}
	return r
}

// wrap makes tables over the very memory given.
func wrap(c [][]E) []polynomial.BookKeepingTable {
	var r []polynomial.BookKeepingTable
	for _, x := range c {
		r = append(r, polynomial.NewBookKeepingTable(x))
	}
	return r
}

const reuseND = 6

func (o *reuseOp) dataset(d int) [][]E {
	if o.data != nil {
		return o.data(d)
	}
	n := 0
	for _, s := range o.sizes {
		n += s
	}
	flat := gens(300, n)
	switch {
	case n == 0:
	case d == 1:
		flat[n-1] = Add(flat[n-1], U(1))
	case d == 2:
		flat[0] = Add(flat[0], U(1))
	case d == 3:
		flat[n/2] = Sub(flat[n/2], U(1))
	case d == 4:
		flat = gens(400, n)
	case d == 5:
		flat = make([]E, n)
	}
	var r [][]E
	for _, s := range o.sizes {
		r = append(r, flat[:s])
		flat = flat[s:]
	}
	return r
}

func (o *reuseOp) count() int {
	if o.nd > 0 {
		return o.nd
	}
	return reuseND
}

type reuseStep struct{ op, d int }

func reuseExplore(x *ev.X, mk func() []reuseOp, depth int) {
	ops := mk()
	var al []reuseStep
	for i := range ops {
		for d := 0; d < ops[i].count(); d++ {
			al = append(al, reuseStep{i, d})
		}
	}
	for first := range al {
		first := first
		x.Case(func(t *ev.T) {
			want := map[reuseStep][][]E{}
			arenaSize := 0
			for i := range ops {
				n := 0
				for _, s := range ops[i].sizes {
					n += s
				}
				if n > arenaSize {
					arenaSize = n
				}
			}
			for mode := 0; mode < 2; mode++ {
				product(len(al), depth-1, func(ix []int) {
					seq := []reuseStep{al[first]}
					for _, i := range ix {
						seq = append(seq, al[i])
					}
					reuseRun(t, mk(), seq, mode, want, arenaSize)
				})
			}
		}, "every sequence of %d calls on the same memory starting with %q, data %d (%d calls to choose from)", depth, ops[al[first].op].name, al[first].d, len(al))
	}
}

func reuseRun(t *ev.T, ops []reuseOp, seq []reuseStep, mode int, want map[reuseStep][][]E, size int) {
	var hist []string
	fail := func(format string, a ...interface{}) {
		t.Failf("%s; calls on the same memory: %s; results %s", fmt.Sprintf(format, a...), strings.Join(hist, ", "), []string{"kept", "overwritten by the caller"}[mode])
	}
	arena, _ := guarded(make([]E, size))
	arena = arena[:size+3]
	type kept struct {
		read func() [][]E
		want [][]E
	}
	var old []kept
	h := uint64(mode)
	for i, s := range seq {
		o := &ops[s.op]
		vals := o.dataset(s.d)
		hist = append(hist, fmt.Sprintf("%s on data %d", o.name, s.d))
		w, ok := want[s]
		if !ok {
			w = o.want(Copy2(vals))
			want[s] = w
		}
		b := make([][]E, len(o.sizes))
		off := 0
		for k, n := range o.sizes {
			b[k] = arena[off : off+n]
			copy(b[k], vals[k])
			off += n
		}
		before := Copy(arena)
		var read func() [][]E
		var owned [][]E
		if r := ev.Try(func() { read, owned = o.call(b) }); r != nil {
			fail("call %d crashed: %v", i, r)
		}
		if got := read(); !Eq2(got, w) {
			fail("call %d gives %s, expected %s", i, stStr(got), stStr(w))
		}
		if !o.consumes && !Eq1(arena, before) || o.consumes && !Eq1(arena[off:], before[off:]) {
			fail("call %d modified the memory of its arguments", i)
		}
		if mode == 0 {
			for k, e := range old {
				if got := e.read(); !Eq2(got, e.want) {
					fail("what call %d returned has changed to %s, from %s, after call %d", k, stStr(got), stStr(e.want), i)
				}
			}
			old = append(old, kept{read, w})
		} else {
			for _, r := range owned {
				for k := range r {
					r[k] = gen(17 + k%5)
				}
			}
		}
		h = ev.Mix(h, uint64(s.op), uint64(s.d))
		t.State(h)
		t.Trans(1)
	}
	t.Trace()
}

// assignOf: assignment of a circuit from buffers.
func reuseAssign(cc circuit.Circuit, c Circuit, bN, n int) reuseOp {
	sz := (1 << uint(bN+c[0].BGIn())) / n
	var sizes []int
	for i := 0; i < n; i++ {
		sizes = append(sizes, sz)
	}
	return reuseOp{
		name: fmt.Sprintf("assign %s, %d chunks of %d", circuitName(c), n, sz), sizes: sizes,
		call: reusePlain(func(b [][]E) [][]E {
			a := cc.Assign(b, 2)
			var r [][]E
			for _, l := range a.Values[1:] { // the first layer is the inputs themselves
				r = append(r, l...)
			}
			return r
		}),
		want: func(b [][]E) [][]E {
			var r [][]E
			for _, l := range c.Assign(Unchunk(b))[1:] {
				r = append(r, Chunk(l, n)...)
			}
			return r
		},
	}
}

func reuseViews(cc circuit.Circuit, c Circuit, bN, n int) reuseOp {
	o := reuseAssign(cc, c, bN, n)
	o.name = "views of " + o.name
	o.call = reusePlain(func(b [][]E) [][]E {
		a := cc.Assign(b, 1)
		var r [][]E
		for l := range a.Values {
			r = append(r, tablesOf(a.LayerAsBKTWithCopy(l, 2))...)
			for _, x := range a.LayerAsBKTNoCopy(l) {
				r = append(r, Copy(x.Table))
			}
		}
		return r
	})
	o.want = func(b [][]E) [][]E {
		var r [][]E
		for _, l := range c.Assign(Unchunk(b)) {
			r = append(r, Chunk(l, n)...)
			r = append(r, Chunk(l, n)...)
		}
		return r
	}
	return o
}

func reuseEvaluate(l Layer, bN, n int) reuseOp {
	cl := circuit.NewLayer(wiresOf(l))
	c := Circuit{l}
	o := reuseAssign(circuitOf(c), c, bN, n)
	o.name = strings.Replace(o.name, "assign", "evaluate", 1)
	o.call = reusePlain(func(b [][]E) [][]E { return cl.Evaluate(b, 1) })
	return o
}

// reuseProve proves from the buffers; the result is the proof, and that it is accepted (now and later) with copies.
func reuseProve(cc circuit.Circuit, c Circuit, bN, n int, check bool) reuseOp {
	o := reuseAssign(cc, c, bN, n)
	o.name = strings.Replace(o.name, "assign", "prove", 1)
	o.consumes = false
	flat := func(p Proof) [][]E {
		var r [][]E
		for _, s := range p.SC {
			r = append(r, s...)
		}
		return append(r, p.CL, p.CR)
	}
	o.call = func(b [][]E) (func() [][]E, [][]E) {
		in := Copy2(b)
		a := cc.Assign(b, 1)
		p := gkr.NewProver(cc, a)
		proof := p.Prove(2)
		out := Copy2(a.Values[len(c)])
		if check {
			return func() [][]E {
				v := gkr.NewVerifier(bN, cc)
				return yes(v.Verify(proof, in, out))
			}, nil
		}
		var owned [][]E
		for _, s := range proof.SumcheckProofs {
			owned = append(owned, s.PolyCoeffs...)
		}
		owned = append(owned, proof.ClaimsLeft, proof.ClaimsRight)
		return func() [][]E { return flat(refProof(proof)) }, owned
	}
	o.want = func(b [][]E) [][]E {
		if check {
			return yes(true)
		}
		qP, q := point(bN, c)
		return flat(c.Prove(Unchunk(b), qP, q))
	}
	return o
}

// reuseVerify verifies a proof, inputs and outputs which all live in the buffers.
func reuseVerify(c Circuit, bN, n int, shared bool) reuseOp {
	L := len(c)
	in := gens(500, 1<<uint(bN+c[0].BGIn()))
	out := c.Assign(in)[L]
	qP, q := point(bN, c)
	hp := c.Prove(in, qP, q)
	in2 := gens(600, len(in))
	out2 := c.Assign(in2)[L]
	hp2 := c.Prove(in2, qP, q)
	layout := func(in, out []E, p Proof) [][]E {
		r := append(Copy2(Chunk(in, n)), Copy2(Chunk(out, n))...)
		for _, s := range p.SC {
			r = append(r, Copy2(s)...)
		}
		return append(r, Copy(p.CL), Copy(p.CR))
	}
	base := layout(in, out, hp)
	o := reuseOp{name: fmt.Sprintf("verify %s, 2^%d instances, %d chunks", circuitName(c), bN, n), nd: 8}
	for _, b := range base {
		o.sizes = append(o.sizes, len(b))
	}
	m := len(base)
	o.data = func(d int) [][]E {
		r := Copy2(base)
		bump := func(k int) { r[k][len(r[k])-1] = Add(r[k][len(r[k])-1], U(1)) }
		switch d {
		case 1:
			r = layout(in2, out2, hp2)
		case 2: // an output
			bump(2*n - 1)
		case 3: // an input
			bump(n - 1)
		case 4: // the last round of the last polynomial
			bump(m - 3)
		case 5: // the first
			bump(2 * n)
		case 6: // a claim
			bump(m - 2)
		case 7:
			r = layout(in, out2, hp)
		}
		return r
	}
	split := func(b [][]E) ([][]E, [][]E, gkr.Proof) {
		p := gkr.Proof{ClaimsLeft: b[m-2], ClaimsRight: b[m-1]}
		k := 2 * n
		for _, s := range hp.SC {
			p.SumcheckProofs = append(p.SumcheckProofs, sumcheck.Proof{PolyCoeffs: b[k : k+len(s)]})
			k += len(s)
		}
		return b[:n], b[n : 2*n], p
	}
	v := gkr.NewVerifier(bN, circuitOf(c))
	o.split, o.verifier = split, &v
	o.call = reusePlain(func(b [][]E) [][]E {
		i, u, p := split(b)
		w := &v
		if !shared {
			x := gkr.NewVerifier(bN, circuitOf(c))
			w = &x
		}
		return yes(w.Verify(p, i, u))
	})
	o.want = func(b [][]E) [][]E {
		i, u, p := split(b)
		return yes(c.Accepts(bN, refProof(p), Unchunk(i), Unchunk(u), qP, q))
	}
	return o
}

func reuseInstance(gs []Gate, bG, bN int) (*Instance, []int) {
	n := 1 << uint(bG+bN)
	s := &Instance{Gates: gs}
	sizes := []int{n, n, 1 << uint(bN)}
	for range gs {
		sizes = append(sizes, 1<<uint(2*bG))
	}
	return s, sizes
}

func reuseSumcheck(gs []Gate, bG, bN, nChunks int) reuseOp {
	s, sizes := reuseInstance(gs, bG, bN)
	o := reuseOp{name: fmt.Sprintf("sumcheck of %d gates, %d+%d variables, %d chunks", len(gs), bG, bN, nChunks), consumes: true}
	if nChunks == 0 {
		o.sizes = sizes
	} else {
		for i := 0; i < 3; i++ {
			for k := 0; k < nChunks; k++ {
				o.sizes = append(o.sizes, sizes[i]/nChunks)
			}
		}
		o.sizes = append(o.sizes, sizes[3:]...)
	}
	inst := func(b [][]E) *Instance {
		k := nChunks
		if k == 0 {
			k = 1
		}
		return &Instance{VL: Unchunk(b[:k]), VR: Unchunk(b[k : 2*k]), EQ: Unchunk(b[2*k : 3*k]), Gates: s.Gates, ST: Copy2(b[3*k:])}
	}
	o.call = reusePlain(func(b [][]E) [][]E {
		var p sumcheck.Proof
		var qP, qL, qR []E
		if nChunks == 0 {
			sp := sumcheck.NewSingleThreadedProver(wrap(b[:1])[0], wrap(b[1:2])[0], wrap(b[2:3])[0], gatesOf(gs), wrap(b[3:]))
			p, qP, qL, qR, _ = sp.Prove()
		} else {
			k := nChunks
			mp := sumcheck.NewMultiThreadedProver(wrap(b[:k]), wrap(b[k:2*k]), wrap(b[2*k:3*k]), gatesOf(gs), wrap(b[3*k:]))
			p, qP, qL, qR, _ = mp.Prove(2)
		}
		return append(append([][]E{}, p.PolyCoeffs...), qL, qR, qP)
	})
	o.want = func(b [][]E) [][]E {
		tr := inst(b).Prove()
		return append(append([][]E{}, tr.Proof...), tr.QL, tr.QR, tr.QP)
	}
	return o
}

func reuseSCVerify(bG, bN, d int) reuseOp {
	o := reuseOp{name: fmt.Sprintf("verify %d+%d rounds of %d coefficients", 2*bG, bN, d), nd: 5}
	o.sizes = []int{1}
	n := 2*bG + bN
	for i := 0; i < n; i++ {
		o.sizes = append(o.sizes, d)
	}
	o.data = func(k int) [][]E {
		r := [][]E{{gen(700 + k/4)}}
		cur := r[0][0]
		for i := 0; i < n; i++ {
			r = append(r, gens(710+k/4*50+i*d, d))
			fixClaim(SCProof(r[1:]), i, cur)
			cur = PolyEval(r[1+i], Mimc(r[1+i]))
		}
		switch k {
		case 1:
			r[0][0] = Add(r[0][0], U(1))
		case 2:
			r[1][d-1] = Add(r[1][d-1], U(1))
		case 3: // the last round: consistent, another last claim
			r[n][d-1] = Add(r[n][d-1], U(1))
			r[n][0] = Sub(r[n][0], Mul(U(1), Inv(U(2))))
		}
		return r
	}
	flat := func(ok bool, qL, qR, qP []E, fin E) [][]E {
		if !ok {
			return yes(false)
		}
		return [][]E{{U(1)}, Copy(qL), Copy(qR), Copy(qP), {fin}}
	}
	o.call = func(b [][]E) (func() [][]E, [][]E) {
		ok, qP, qL, qR, fin := sumcheck.Verifier{}.Verify(b[0][0], sumcheck.Proof{PolyCoeffs: b[1:]}, bN, bG)
		return func() [][]E { return flat(ok, qL, qR, qP, fin) }, [][]E{qL, qR, qP}
	}
	o.want = func(b [][]E) [][]E {
		ok, ch, last := SCVerify(b[0][0], b[1:])
		if !ok {
			return yes(false)
		}
		return flat(true, ch[:bG], ch[bG:2*bG], ch[2*bG:], last)
	}
	return o
}

func reuseTables() []reuseOp {
	var ops []reuseOp
	add := func(name string, consumes bool, sizes []int, call, want func(b [][]E) [][]E) {
		ops = append(ops, reuseOp{name: name, sizes: sizes, nd: 4, consumes: consumes, call: reusePlain(call), want: want})
	}
	add("evaluate", false, []int{8, 3}, func(b [][]E) [][]E { x := wrap(b[:1])[0]; return one(x.Evaluate(b[1])) },
		func(b [][]E) [][]E { return one(MLE(b[0], b[1])) })
	add("evaluate left and right", false, []int{8, 1, 1, 2}, func(b [][]E) [][]E {
		x := wrap(b[:1])[0]
		l, r := x.EvaluateLeftAndRight(b[3], b[1], b[2])
		return one(l, r)
	}, func(b [][]E) [][]E { return one(MLE(b[0], cat2(b[1], b[3])), MLE(b[0], cat2(b[2], b[3]))) })
	add("differences", false, []int{4}, func(b [][]E) [][]E { return [][]E{wrap(b)[0].FunctionEvals()} },
		func(b [][]E) [][]E { return one(Sub(b[0][2], b[0][0]), Sub(b[0][3], b[0][1])) })
	add("copy", false, []int{8}, func(b [][]E) [][]E { x := wrap(b)[0]; y := x.DeepCopy(); return [][]E{y.Table} },
		func(b [][]E) [][]E { return b })
	add("chunks", false, []int{8}, func(b [][]E) [][]E {
		x := wrap(b)[0]
		c0, c1 := x.InterleavedChunk(0, 2), x.InterleavedChunk(1, 2)
		return [][]E{Copy(c0.Table), Copy(c1.Table)}
	}, func(b [][]E) [][]E { return Chunk(b[0], 2) })
	add("fold", true, []int{8, 1}, func(b [][]E) [][]E { x := wrap(b)[0]; x.Fold(b[1][0]); return [][]E{Copy(x.Table)} },
		func(b [][]E) [][]E { return [][]E{Fix(b[0], b[1][0])} })
	add("linear combination", true, []int{4, 4, 2}, func(b [][]E) [][]E {
		x := wrap(b)
		r := polynomial.LinearCombinationOfBookKeepingTables(x[0], x[1], b[2][0], b[2][1])
		return [][]E{Copy(r.Table)}
	}, func(b [][]E) [][]E {
		var r []E
		for i := range b[0] {
			r = append(r, Add(Mul(b[2][0], b[0][i]), Mul(b[2][1], b[1][i])))
		}
		return [][]E{r}
	})
	return ops
}

func reuseChunked() []reuseOp {
	var ops []reuseOp
	add := func(name string, sizes []int, call, want func(b [][]E) [][]E) {
		ops = append(ops, reuseOp{name: name, sizes: sizes, nd: 5, call: reusePlain(call), want: want})
	}
	add("equality table", []int{3}, func(b [][]E) [][]E { return [][]E{polynomial.GetFoldedEqTable(b[0]).Table} },
		func(b [][]E) [][]E { return [][]E{EqTable(b[0])} })
	for _, n := range []int{1, 2} {
		n := n
		add(fmt.Sprintf("equality table in %d chunks", n), []int{3}, func(b [][]E) [][]E { return tablesOf(polynomial.GetChunkedEqTable(b[0], n, 2)) },
			func(b [][]E) [][]E { return Chunk(EqTable(b[0]), n) })
	}
	add("equality", []int{2, 2}, func(b [][]E) [][]E { return one(polynomial.EvalEq(b[0], b[1])) },
		func(b [][]E) [][]E { return one(EqEval(b[0], b[1])) })
	add("chunked evaluation", []int{4, 4, 3}, func(b [][]E) [][]E {
		return one(polynomial.EvaluateChunked(polynomial.AsChunkedBookKeepingTable(b[:2]), b[2]))
	}, func(b [][]E) [][]E { return one(MLE(Unchunk(b[:2]), b[2])) })
	add("chunked evaluation at two points", []int{4, 4, 2, 1, 1}, func(b [][]E) [][]E {
		l, r := polynomial.EvaluateMixedChunked(polynomial.AsChunkedBookKeepingTable(b[:2]), b[2], b[3], b[4])
		return one(l, r)
	}, func(b [][]E) [][]E {
		v := Unchunk(b[:2])
		return one(MLE(v, cat2(b[3], b[2])), MLE(v, cat2(b[4], b[2])))
	})
	return ops
}

func reuseArith() []reuseOp {
	var ops []reuseOp
	const n = 5
	var d polynomial.BookKeepingTable // a destination used over and over
	for _, k := range []string{"add", "sub", "mul"} {
		for _, n := range []int{n, 2} {
			k, n := k, n
			ops = append(ops, reuseOp{name: fmt.Sprintf("%s of %d", k, n), sizes: []int{n, n, 1}, nd: 4,
				call: reusePlain(func(b [][]E) [][]E {
					x := wrap(b)
					switch k {
					case "add":
						d.Add(x[0], x[1])
					case "sub":
						d.Sub(x[0], x[1], 2)
					default:
						d.Mul(b[2][0], x[0], 2)
					}
					return [][]E{Copy(d.Table)}
				}),
				want: func(b [][]E) [][]E {
					var r []E
					for i := range b[0] {
						switch k {
						case "add":
							r = append(r, Add(b[0][i], b[1][i]))
						case "sub":
							r = append(r, Sub(b[0][i], b[1][i]))
						default:
							r = append(r, Mul(b[2][0], b[0][i]))
						}
					}
					return [][]E{r}
				}})
		}
	}
	return ops
}

func reuseLagrange() []reuseOp {
	var ops []reuseOp
	for _, n := range []int{1, 2, 5, 9} {
		n := n
		ops = append(ops, reuseOp{name: fmt.Sprintf("interpolate %d values", n), sizes: []int{n}, nd: 5,
			call: reusePlain(func(b [][]E) [][]E { return [][]E{polynomial.InterpolateOnRange(b[0])} }),
			want: func(b [][]E) [][]E { return [][]E{Interpolate(b[0])} }})
	}
	for _, n := range []int{2, 5} {
		n := n
		ops = append(ops, reuseOp{name: fmt.Sprintf("evaluate %d coefficients", n), sizes: []int{n, 1}, nd: 4,
			call: reusePlain(func(b [][]E) [][]E { return one(polynomial.EvaluatePolynomial(b[0], b[1][0])) }),
			want: func(b [][]E) [][]E { return one(PolyEval(b[0], b[1][0])) }})
	}
	return ops
}

func reuseMimc() []reuseOp {
	var ops []reuseOp
	for _, n := range []int{1, 3, 6} {
		n := n
		ops = append(ops, reuseOp{name: fmt.Sprintf("digest and challenge of %d", n), sizes: []int{n}, nd: 5,
			call: reusePlain(func(b [][]E) [][]E { return one(hash.MimcHash(b[0]), common.GetChallenge(b[0])) }),
			want: func(b [][]E) [][]E { return one(Mimc(b[0]), Mimc(b[0])) }})
	}
	ops = append(ops, reuseOp{name: "absorb in place", sizes: []int{1, 1}, nd: 5, consumes: true,
		call: reusePlain(func(b [][]E) [][]E { hash.MimcUpdateInplace(&b[0][0], b[1][0]); return one(b[0][0], b[1][0]) }),
		want: func(b [][]E) [][]E { return one(MimcStep(b[0][0], b[1][0]), b[1][0]) }})
	ops = append(ops, reuseOp{name: "permute in place", sizes: []int{1, 1}, nd: 5, consumes: true,
		call: reusePlain(func(b [][]E) [][]E {
			hash.MimcPermutationInPlace(&b[0][0], b[1][0])
			return one(b[0][0], b[1][0])
		}),
		want: func(b [][]E) [][]E { return one(MimcPerm(b[0][0], b[1][0]), b[1][0]) }})
	return ops
}

func reuseHashers(deep bool) []reuseOp {
	{
		var ops []reuseOp
		for _, h := range hashers() {
			h := h
			if h.t == 8 && !deep {
				continue
			}
			for _, n := range []int{h.t - 1, h.t + 1} {
				ops = append(ops, reuseOp{name: fmt.Sprintf("%s(t=%d) digest of %d", h.name, h.t, n), sizes: []int{n}, nd: 3,
					call: reusePlain(func(b [][]E) [][]E { return one(h.hash(b[0])) }),
					want: func(b [][]E) [][]E { return one(h.ref(b[0])) }})
			}
			ops = append(ops, reuseOp{name: fmt.Sprintf("%s(t=%d) step", h.name, h.t), sizes: []int{h.t, h.t}, nd: 3, consumes: true,
				call: reusePlain(func(b [][]E) [][]E { h.step(b[0], b[1]); return [][]E{Copy(b[0])} }),
				want: func(b [][]E) [][]E { return [][]E{h.refS(b[0], b[1])} }})
		}
		return ops
	}
}

func reuseGates() []reuseOp {
	var ops []reuseOp
	for _, g := range gates4() {
		g := g
		cg := gateOf(g)
		ops = append(ops, reuseOp{name: "many values of " + gateName(g), sizes: []int{3, 1, 3, 3}, nd: 4, consumes: true,
			call: reusePlain(func(b [][]E) [][]E {
				cg.EvalManyVL(b[2], b[0], &b[1][0])
				cg.EvalManyVR(b[3], &b[1][0], b[0])
				var e E
				cg.Eval(&e, &b[0][0], &b[1][0])
				return [][]E{Copy(b[2]), Copy(b[3]), {e}}
			}),
			want: func(b [][]E) [][]E {
				var l, r []E
				for _, v := range b[0] {
					l, r = append(l, g.Eval(v, b[1][0])), append(r, g.Eval(b[1][0], v))
				}
				return [][]E{l, r, {g.Eval(b[0][0], b[1][0])}}
			}})
	}
	gs := gates4()
	cgs := gatesOf(gs)
	ops = append(ops, reuseOp{name: "combinator", sizes: []int{1, 1, 1, len(gs)}, nd: 4,
		call: reusePlain(func(b [][]E) [][]E {
			return one(circuit.EvaluateCombinator(&b[0][0], &b[1][0], &b[2][0], cgs, b[3]))
		}),
		want: func(b [][]E) [][]E {
			var s E
			for i, g := range gs {
				s = Add(s, Mul(b[3][i], g.Eval(b[0][0], b[1][0])))
			}
			return one(Mul(s, b[2][0]))
		}})
	return ops
}

func reuseStatic() []reuseOp {
	var ops []reuseOp
	for _, l := range []Layer{wideLayers()[0], wideLayers()[2], chainLayers()[7], chainLayers()[9], chainLayers()[13]} {
		l := l
		cl := circuit.NewLayer(wiresOf(l))
		by := map[string]Gate{}
		for _, g := range l.Gates() {
			by[gateOf(g).ID()] = g
		}
		ops = append(ops, reuseOp{name: "static tables of " + layerName(l), sizes: []int{l.BGOut()}, nd: 4,
			call: reusePlain(func(b [][]E) [][]E { return tablesOf(cl.GetStaticTable(b[0])) }),
			want: func(b [][]E) [][]E {
				var r [][]E
				for _, g := range cl.Gates {
					r = append(r, l.Static(by[g.ID()], b[0]))
				}
				return r
			}})
	}
	return ops
}

// reuseLong: histories of n calls which cycle over all the operations, or repeat a single one, with the data sets in
// turn; at the end no goroutine is left behind.
func reuseLong(x *ev.X, mk func() []reuseOp, n int) {
	ops := mk()
	for which := -1; which < len(ops); which++ {
		which := which
		name := "all operations in turn"
		if which >= 0 {
			name = ops[which].name
		}
		x.Case(func(t *ev.T) {
			ops := mk()
			before := runtime.NumGoroutine()
			want := map[reuseStep][][]E{}
			size := 0
			for i := range ops {
				k := 0
				for _, s := range ops[i].sizes {
					k += s
				}
				if k > size {
					size = k
				}
			}
			arena := make([]E, size)
			for c := 0; c < n; c++ {
				s := reuseStep{op: which}
				if which < 0 {
					s.op = c % len(ops)
				}
				o := &ops[s.op]
				s.d = c / len(ops) % o.count()
				vals := o.dataset(s.d)
				w, ok := want[s]
				if !ok {
					w = o.want(Copy2(vals))
					want[s] = w
				}
				b := make([][]E, len(o.sizes))
				off := 0
				for k, m := range o.sizes {
					b[k] = arena[off : off+m]
					copy(b[k], vals[k])
					off += m
				}
				read, _ := o.call(b)
				if got := read(); !Eq2(got, w) {
					t.Failf("call %d of a long history (%s), %s on data %d, gives %s, expected %s", c, name, o.name, s.d, stStr(got), stStr(w))
				}
				t.Trans(1)
				t.State(ev.Mix(uint64(which+1), uint64(c)))
				t.X.Beat()
			}
			for i := 0; runtime.NumGoroutine() > before && i < 300; i++ {
				time.Sleep(10 * time.Millisecond)
			}
			if g := runtime.NumGoroutine(); g > before {
				t.Failf("%d goroutines left behind by %d calls (%s)", g-before, n, name)
			}
			t.Trace()
		}, "%d calls in a row: %s", n, name)
	}
}

// reuseMalformed presents malformed proofs and statements to the verifier of o: all are rejected.
func reuseMalformed(c Circuit, bN, n int, ops *[]reuseOp) {
	o := reuseVerify(c, bN, n, true)
	good := o
	split := o.split
	bad := o
	bad.name = "malformed, " + o.name
	bad.nd = 6
	bad.data = func(d int) [][]E { return good.data(0) }
	for k := 0; k < 6; k++ {
		k := k
		one := bad
		one.name = fmt.Sprintf("malformed (%d), %s", k, o.name)
		one.nd = 1
		one.call = reusePlain(func(b [][]E) [][]E {
			i, u, p := split(b)
			last := len(p.SumcheckProofs) - 1
			switch k {
			case 0:
				p.SumcheckProofs = p.SumcheckProofs[:last]
			case 1:
				s := &p.SumcheckProofs[last]
				s.PolyCoeffs = s.PolyCoeffs[:len(s.PolyCoeffs)-1]
			case 2:
				s := &p.SumcheckProofs[last]
				s.PolyCoeffs = append([][]E{}, s.PolyCoeffs...)
				s.PolyCoeffs[len(s.PolyCoeffs)-1] = nil
			case 3:
				p.ClaimsLeft = nil
			case 4:
				i = nil
			case 5:
				u = append(append([][]E{}, u...), u[0][:1])
			}
			return yes(o.verifier.Verify(p, i, u))
		})
		one.want = func(b [][]E) [][]E { return yes(false) }
		*ops = append(*ops, one)
	}
	good.nd = 3
	*ops = append(*ops, good)
}

// reuseStatement: the same, with changes of the inputs and outputs only.
func reuseStatement(c Circuit, bN, n int, shared bool) reuseOp {
	o := reuseVerify(c, bN, n, shared)
	whole := o.data
	o.name, o.nd = "statement of "+o.name, 9
	o.data = func(d int) [][]E {
		r := whole(0)
		bump := func(k, i int) { r[k][i] = Add(r[k][i], U(1)) }
		switch d {
		case 1:
			r = whole(1)
		case 2: // the last output
			bump(2*n-1, len(r[n])-1)
		case 3: // the first
			bump(n, 0)
		case 4: // the last input
			bump(n-1, len(r[0])-1)
		case 5: // the first
			bump(0, 0)
		case 6: // the outputs of another batch
			copy(r[n:2*n], whole(1)[n:2*n])
		case 7: // the inputs of another batch
			copy(r[:n], whole(1)[:n])
		case 8: // the proof of another batch
			copy(r[2*n:], whole(1)[2*n:])
		}
		return r
	}
	return o
}

func init() {
	a, wd := chainLayers(), wideLayers()
	cs := []Circuit{{a[7]}, {a[2], a[7]}, {a[13]}, {a[0]}}
	pick := func(deep bool, q, d int) int {
		if deep {
			return d
		}
		return q
	}
	set := func(ops []reuseOp, nd int) []reuseOp {
		for i := range ops {
			ops[i].nd = nd
		}
		return ops
	}
	// depth of the sequences and length of the long histories, quick and thorough
	reg := func(prop string, dq, dt, nq, nt int, mk func(deep bool) []reuseOp) {
		ev.Register(prop+"/reuse", func(x *ev.X) {
			reuseExplore(x, func() []reuseOp { return mk(x.Thorough) }, pick(x.Thorough, dq, dt))
		})
		ev.Register(prop+"/repeat", func(x *ev.X) {
			reuseLong(x, func() []reuseOp { return mk(x.Thorough) }, pick(x.Thorough, nq, nt))
		})
	}
	reg("C06", 3, 3, 20000, 400000, func(deep bool) []reuseOp {
		cc := circuitOf(cs[1])
		ops := []reuseOp{reuseAssign(cc, cs[1], 1, 1), reuseAssign(cc, cs[1], 1, 2), reuseEvaluate(wd[0], 1, 2), reuseEvaluate(a[8], 1, 2), reuseViews(circuitOf(cs[0]), cs[0], 1, 2)}
		if deep {
			ops = append(ops, reuseEvaluate(a[8], 2, 4), reuseViews(circuitOf(cs[0]), cs[0], 2, 2), reuseAssign(circuitOf(cs[2]), cs[2], 0, 1))
		}
		return ops
	})
	reg("C01", 3, 3, 1000, 30000, func(deep bool) []reuseOp {
		return set([]reuseOp{reuseProve(circuitOf(cs[3]), cs[3], 1, 2, true), reuseProve(circuitOf(cs[0]), cs[0], 1, 1, true), reuseProve(circuitOf(Circuit{wd[0]}), Circuit{wd[0]}, 1, 2, true), reuseProve(circuitOf(cs[1]), cs[1], 2, 1, true)}, pick(deep, 2, 4))
	})
	reg("C07", 3, 3, 2000, 50000, func(deep bool) []reuseOp {
		cc := circuitOf(cs[1])
		return set([]reuseOp{reuseProve(cc, cs[1], 1, 1, false), reuseProve(cc, cs[1], 1, 2, false), reuseProve(circuitOf(cs[2]), cs[2], 1, 2, false)}, pick(deep, 3, 5))
	})
	reg("C02", 3, 3, 1500, 50000, func(deep bool) []reuseOp {
		ops := []reuseOp{reuseVerify(cs[1], 1, 2, true), reuseVerify(cs[2], 0, 1, true)}
		if deep {
			ops = append(ops, reuseVerify(cs[1], 1, 1, false))
		}
		return ops
	})
	reg("C03", 3, 3, 1500, 50000, func(deep bool) []reuseOp {
		ops := []reuseOp{reuseStatement(cs[1], 1, 2, true), reuseStatement(cs[2], 0, 1, true)}
		if deep {
			ops = append(ops, reuseStatement(cs[0], 2, 4, false))
		}
		return ops
	})
	reg("C04", 3, 3, 1500, 50000, func(deep bool) []reuseOp {
		var ops []reuseOp
		reuseMalformed(cs[1], 1, 2, &ops)
		reuseMalformed(cs[2], 0, 1, &ops)
		if deep {
			reuseMalformed(cs[0], 1, 1, &ops)
		}
		return ops
	})
	reg("C08", 3, 3, 3000, 100000, func(deep bool) []reuseOp {
		gs := gates4()
		return set([]reuseOp{reuseSumcheck(gs, 1, 1, 0), reuseSumcheck(gs[1:3], 1, 1, 2), reuseSumcheck(gs[:2], 0, 2, 2), reuseSumcheck(gs, 1, 0, 0)}, pick(deep, 3, 6))
	})
	reg("C09", 3, 3, 3000, 100000, func(deep bool) []reuseOp {
		ops := []reuseOp{reuseSCVerify(1, 1, 3), reuseSCVerify(0, 3, 4), reuseSCVerify(1, 0, 3)}
		if deep {
			ops = append(ops, reuseSCVerify(2, 2, 9), reuseSCVerify(0, 1, 2))
		}
		return ops
	})
	always := func(mk func() []reuseOp) func(bool) []reuseOp { return func(bool) []reuseOp { return mk() } }
	reg("C10", 3, 4, 70000, 1000000, always(reuseTables))
	reg("C11", 3, 4, 70000, 1000000, always(reuseChunked))
	reg("C12", 3, 4, 70000, 1000000, always(reuseArith))
	reg("C14", 3, 4, 70000, 1000000, always(reuseLagrange))
	reg("C15", 3, 4, 20000, 500000, always(reuseMimc))
	reg("C16", 2, 3, 10000, 200000, reuseHashers)
	reg("C17", 3, 4, 70000, 1000000, always(reuseGates))
	reg("C18", 3, 4, 70000, 1000000, always(reuseStatic))
}
