// Package props holds the enumerations and oracles of the checks.
package props

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"strings"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

// Small says that the field has been replaced by a small prime field (overlay build).
var Small = fr.Modulus().BitLen() < 64

// P is the modulus when Small.
var P = int(fr.Modulus().Uint64())

// gen returns the i-th "generic" element, a fixed function of i.
func gen(i int) (e E) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(i)+0x1234567)
	h := sha256.Sum256(b[:])
	if Small {
		return U(uint64(h[0]) % uint64(P))
	}
	h[0] &= 0x1f
	for j := range e { // not SetBytes: it is not safe for concurrent use
		e[j] = binary.BigEndian.Uint64(h[24-8*j:])
	}
	e.ToMont()
	return
}

func gens(from, n int) []E {
	r := make([]E, n)
	for i := range r {
		r[i] = gen(from + i)
	}
	return r
}

// raw builds an element from its internal limbs.
func raw(a, b, c, d uint64) E { return E{a, b, c, d} }

func all() []E {
	r := make([]E, P)
	for i := range r {
		r[i] = U(uint64(i))
	}
	return r
}

// tiny is the basic value alphabet.
func tiny() []E { return []E{U(0), U(1), I(-1), gen(0)} }

// rich has edge values and values whose internal representation has single non-zero or zero limbs.
func rich() []E {
	if Small {
		return all()
	}
	q := fr.Modulus()
	_ = q
	r := []E{U(0), U(1), I(-1), U(2), I(-2), U(3), U(7), Inv(U(2)), gen(0), gen(1)}
	r = append(r, raw(1, 0, 0, 0), raw(0, 1, 0, 0), raw(0, 0, 1, 0), raw(0, 0, 0, 1),
		raw(0, 5, 7, 9), raw(^uint64(0), 0, 0, 0), raw(0, ^uint64(0), 0, 0), raw(^uint64(0), ^uint64(0), ^uint64(0), 1), U(1<<63), U(^uint64(0)))
	return r
}

// patterns returns tables of n values: several fixed value patterns.
func patterns(n int, off int) [][]E {
	g := gens(off, n)
	alt := make([]E, n)
	unit := make([]E, n)
	ones := make([]E, n)
	zeros := make([]E, n)
	neg := make([]E, n)
	inc := make([]E, n)
	for i := range alt {
		if i%2 == 1 {
			alt[i] = I(-1)
		}
		ones[i] = U(1)
		neg[i] = I(-1 - i)
		inc[i] = U(uint64(i))
	}
	if n > 0 {
		unit[n-1] = U(1)
	}
	return [][]E{g, inc, zeros, ones, unit, alt, neg}
}

var patternNames = []string{"generic", "0,1,2..", "zeros", "ones", "last unit", "0,-1,0,-1..", "negatives"}

// product enumerates all tuples of length k over n symbols.
func product(n, k int, f func(ix []int)) {
	ix := make([]int, k)
	for {
		f(ix)
		i := k - 1
		for i >= 0 {
			ix[i]++
			if ix[i] < n {
				break
			}
			ix[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func pick(alpha []E, ix []int) []E {
	r := make([]E, len(ix))
	for i, j := range ix {
		r[i] = alpha[j]
	}
	return r
}

func pow2s(max int) []int {
	var r []int
	for k := 1; k <= max; k *= 2 {
		r = append(r, k)
	}
	return r
}

func hashE(h uint64, es ...E) uint64 {
	for _, e := range es {
		h = ev.Mix(h, e[0], e[1], e[2], e[3])
	}
	return h
}

func hash2(h uint64, es [][]E) uint64 {
	for _, e := range es {
		h = hashE(ev.Mix(h, uint64(len(e))), e...)
	}
	return h
}

func str(es ...E) string {
	var s []string
	for _, e := range es {
		n := Sub(E{}, e)
		a, b := e.String(), n.String()
		if len(b) < len(a) {
			a = "-" + b
		}
		s = append(s, a)
	}
	return "[" + strings.Join(s, " ") + "]"
}

func bkt(t []E) polynomial.BookKeepingTable { return polynomial.NewBookKeepingTable(Copy(t)) }

func bkts(c [][]E) []polynomial.BookKeepingTable {
	r := make([]polynomial.BookKeepingTable, len(c))
	for i := range c {
		r[i] = bkt(c[i])
	}
	return r
}

// guarded returns a copy of a with spare capacity filled with sentinels, and a check that neither the content nor
// the spare capacity has been modified.
func guarded(a []E) ([]E, func() bool) {
	s := gen(9999)
	b := make([]E, len(a)+3)
	copy(b, a)
	for i := len(a); i < len(b); i++ {
		b[i] = s
	}
	v := b[:len(a)]
	return v, func() bool {
		for i := range b {
			if i < len(a) && b[i] != a[i] || i >= len(a) && b[i] != s {
				return false
			}
		}
		return true
	}
}

// layouts runs f on every way of laying the given lists out in memory: each in its own array of exact size, each in
// its own array followed by foreign values, and all of them in one array in every order (followed by foreign values).
// intact says whether every array still holds what it held.
func layouts(parts [][]E, f func(name string, p [][]E, intact func() bool)) {
	exact := make([][]E, len(parts))
	for i, p := range parts {
		exact[i] = Copy(p)
	}
	f("separate", exact, func() bool {
		for i := range parts {
			if !Eq1(exact[i], parts[i]) {
				return false
			}
		}
		return true
	})
	own := make([][]E, len(parts))
	oks := make([]func() bool, len(parts))
	for i, p := range parts {
		own[i], oks[i] = guarded(p)
	}
	f("separate, spare capacity", own, func() bool {
		for _, g := range oks {
			if !g() {
				return false
			}
		}
		return true
	})
	perm := make([]int, 0, len(parts))
	used := make([]bool, len(parts))
	var rec func()
	rec = func() {
		if len(perm) == len(parts) {
			var flat []E
			at := make([]int, len(parts))
			for _, i := range perm {
				at[i] = len(flat)
				flat = append(flat, parts[i]...)
			}
			whole, ok := guarded(flat)
			v := make([][]E, len(parts))
			for i := range parts {
				v[i] = whole[at[i] : at[i]+len(parts[i])]
			}
			f(fmt.Sprintf("one array, order %v", perm), v, ok)
			return
		}
		for i := range parts {
			if !used[i] {
				used[i] = true
				perm = append(perm, i)
				rec()
				perm = perm[:len(perm)-1]
				used[i] = false
			}
		}
	}
	rec()
}

func gateOf(g Gate) circuit.Gate {
	switch g.Kind {
	case KAdd:
		return circuit.AddGate{}
	case KMul:
		return circuit.MulGate{}
	case KCopy:
		return circuit.CopyGate{}
	case KCipher:
		return circuit.NewCipherGate(g.Ark)
	case KUser:
		return userGate{}
	}
	panic("kind")
}

func gatesOf(gs []Gate) []circuit.Gate {
	var r []circuit.Gate
	for _, g := range gs {
		r = append(r, gateOf(g))
	}
	return r
}

func wiresOf(l Layer) []circuit.Wire {
	r := []circuit.Wire{}
	for _, w := range l {
		r = append(r, circuit.Wire{L: w.L, R: w.R, O: w.O, Gate: gateOf(w.G)})
	}
	return r
}

func circuitOf(c Circuit) circuit.Circuit {
	var ws [][]circuit.Wire
	for _, l := range c {
		ws = append(ws, wiresOf(l))
	}
	return circuit.NewCircuit(ws)
}

func gateName(g Gate) string {
	switch g.Kind {
	case KAdd:
		return "add"
	case KMul:
		return "mul"
	case KCopy:
		return "copy"
	case KUser:
		return "user"
	}
	return "cipher" + str(g.Ark)
}

func layerName(l Layer) string {
	var s []string
	for _, w := range l {
		s = append(s, fmt.Sprintf("%s(%d,%d)->%d", gateName(w.G), w.L, w.R, w.O))
	}
	return strings.Join(s, "+")
}

func circuitName(c Circuit) string {
	var s []string
	for _, l := range c {
		s = append(s, layerName(l))
	}
	if len(s) > 4 {
		return fmt.Sprintf("%d layers %s ...", len(s), s[0])
	}
	return strings.Join(s, " | ")
}

// proofOf converts a reference proof (deep copy).
func proofOf(p Proof) gkr.Proof {
	var o gkr.Proof
	for _, s := range p.SC {
		o.SumcheckProofs = append(o.SumcheckProofs, sumcheck.Proof{PolyCoeffs: Copy2(s)})
	}
	o.ClaimsLeft, o.ClaimsRight = Copy(p.CL), Copy(p.CR)
	return o
}

// refProof is the converse.
func refProof(p gkr.Proof) Proof {
	var o Proof
	for _, s := range p.SumcheckProofs {
		o.SC = append(o.SC, Copy2(s.PolyCoeffs))
	}
	o.CL, o.CR = Copy(p.ClaimsLeft), Copy(p.ClaimsRight)
	return o
}

func eqProof(a, b Proof) bool {
	if len(a.SC) != len(b.SC) || !Eq1(a.CL, b.CL) || !Eq1(a.CR, b.CR) {
		return false
	}
	for i := range a.SC {
		if !Eq2(a.SC[i], b.SC[i]) {
			return false
		}
	}
	return true
}

func hashProof(p Proof) uint64 {
	h := hashE(7, append(Copy(p.CL), p.CR...)...)
	for _, s := range p.SC {
		h = hash2(h, s)
	}
	return h
}
