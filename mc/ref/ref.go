package ref

import (
	"github.com/consensys/gurvy/bn256/fr"
)

// E is a field element.
type E = fr.Element

// U converts an integer.
func U(x uint64) (r E) { r.SetUint64(x); return }

// I converts a signed integer.
func I(x int) (r E) {
	if x < 0 {
		r.SetUint64(uint64(-x))
		r.Neg(&r)
		return
	}
	r.SetUint64(uint64(x))
	return
}

// Add returns a+b.
func Add(a, b E) (r E) { r.Add(&a, &b); return }

// Sub returns a-b.
func Sub(a, b E) (r E) { r.Sub(&a, &b); return }

// Mul returns a*b.
func Mul(a, b E) (r E) { r.Mul(&a, &b); return }

// Inv returns 1/a (0 for 0).
func Inv(a E) (r E) { r.Inverse(&a); return }

// Pow returns a^n.
func Pow(a E, n int) E {
	r := U(1)
	for i := 0; i < n; i++ {
		r = Mul(r, a)
	}
	return r
}

// Copy copies a slice.
func Copy(a []E) []E { return append([]E{}, a...) }

// Copy2 copies a slice of slices.
func Copy2(a [][]E) [][]E {
	r := make([][]E, len(a))
	for i := range a {
		r[i] = Copy(a[i])
	}
	return r
}

// Copy3 copies three levels.
func Copy3(a [][][]E) [][][]E {
	r := make([][][]E, len(a))
	for i := range a {
		r[i] = Copy2(a[i])
	}
	return r
}

// Eq1 compares slices (nil equals empty).
func Eq1(a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Eq2 compares slices of slices.
func Eq2(a, b [][]E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Eq1(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Eq3 compares three levels.
func Eq3(a, b [][][]E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Eq2(a[i], b[i]) {
			return false
		}
	}
	return true
}

// chi returns prod_k (bit_k(i) ? x_k : 1-x_k), x_0 being the most significant bit.
func chi(i int, x []E) E {
	one := U(1)
	r := U(1)
	n := len(x)
	for k := range x {
		if i>>(n-1-k)&1 == 1 {
			r = Mul(r, x[k])
		} else {
			r = Mul(r, Sub(one, x[k]))
		}
	}
	return r
}

// MLE is the multilinear extension of a table of size 2^len(x) at x, by definition.
func MLE(table []E, x []E) E {
	if len(table) != 1<<uint(len(x)) {
		panic("ref.MLE: size")
	}
	var r E
	for i := range table {
		r = Add(r, Mul(table[i], chi(i, x)))
	}
	return r
}

// EqTable is the table i -> chi_i(x).
func EqTable(x []E) []E {
	r := make([]E, 1<<uint(len(x)))
	for i := range r {
		r[i] = chi(i, x)
	}
	return r
}

// EqEval is prod (x y + (1-x)(1-y)).
func EqEval(x, y []E) E {
	one := U(1)
	r := U(1)
	for i := range x {
		r = Mul(r, Add(Mul(x[i], y[i]), Mul(Sub(one, x[i]), Sub(one, y[i]))))
	}
	return r
}

// Fix fixes the first variable of a table.
func Fix(table []E, r E) []E {
	m := len(table) / 2
	out := make([]E, m)
	for i := range out {
		out[i] = Add(Mul(Sub(U(1), r), table[i]), Mul(r, table[i+m]))
	}
	return out
}

// FixAll fixes the first len(x) variables.
func FixAll(table []E, x []E) []E {
	t := Copy(table)
	for _, r := range x {
		t = Fix(t, r)
	}
	return t
}

// PolyEval evaluates a coefficient list, lowest degree first.
func PolyEval(c []E, x E) E {
	var r E
	p := U(1)
	for i := range c {
		r = Add(r, Mul(c[i], p))
		p = Mul(p, x)
	}
	return r
}

// Interpolate returns the coefficients of the polynomial of degree < len(v) through (i, v[i]) (Newton form).
func Interpolate(v []E) []E {
	n := len(v)
	d := Copy(v) // divided differences
	for k := 1; k < n; k++ {
		for i := n - 1; i >= k; i-- {
			d[i] = Mul(Sub(d[i], d[i-1]), Inv(I(k)))
		}
	}
	res := make([]E, n)
	for k := n - 1; k >= 0; k-- {
		// res = res*(X - k) + d[k]
		nxt := make([]E, n)
		for i := 0; i < n; i++ {
			if i+1 < n {
				nxt[i+1] = Add(nxt[i+1], res[i])
			}
			nxt[i] = Sub(nxt[i], Mul(res[i], I(k)))
		}
		nxt[0] = Add(nxt[0], d[k])
		res = nxt
	}
	return res
}

// Log2 returns the exact base two logarithm of a power of two.
func Log2(n int) int {
	r := 0
	for 1<<uint(r) < n {
		r++
	}
	if 1<<uint(r) != n {
		panic("ref.Log2")
	}
	return r
}

// Chunk splits a table into n interleaved chunks.
func Chunk(t []E, n int) [][]E {
	r := make([][]E, n)
	for i, v := range t {
		r[i%n] = append(r[i%n], v)
	}
	return r
}

// Unchunk is the inverse of Chunk.
func Unchunk(c [][]E) []E {
	n := len(c)
	r := make([]E, n*len(c[0]))
	for b := range c {
		for i, v := range c[b] {
			r[b+i*n] = v
		}
	}
	return r
}

// ---------------------------------------------------------------- hashing

var arks, xs, ys []E

func init() {
	conv := func(s []string) []E {
		r := make([]E, len(s))
		for i := range s {
			r[i].SetString(s[i])
		}
		return r
	}
	arks, xs, ys = conv(arkStrings), conv(cauchyX), conv(cauchyY)
}

// Ark returns a round constant.
func Ark(i int) E { return arks[i] }

// NArk is the number of round constants.
func NArk() int { return len(arks) }

// MimcPerm is the keyed permutation.
func MimcPerm(x, k E) E {
	for i := 0; i < 91; i++ {
		x = Pow(Add(Add(x, k), arks[i]), 7)
	}
	return x
}

// MimcStep is one Miyaguchi-Preneel step.
func MimcStep(s, m E) E { return Add(Add(MimcPerm(s, m), s), m) }

// Mimc hashes a message.
func Mimc(msg []E) E {
	var s E
	for _, m := range msg {
		s = MimcStep(s, m)
	}
	return s
}

func blocks(msg []E, t int) [][]E {
	var r [][]E
	for i := 0; i < len(msg); i += t {
		b := make([]E, t)
		for j := 0; j < t && i+j < len(msg); j++ {
			b[j] = msg[i+j]
		}
		r = append(r, b)
	}
	return r
}

// GMimcStep is one compression step.
func GMimcStep(state, block []E) []E {
	t := len(state)
	s := Copy(state)
	for r := 0; r < 91; r++ {
		n := make([]E, t)
		for i := range s {
			v := Add(Add(s[i], block[i]), arks[r])
			if i == 0 {
				v = Pow(v, 7)
			}
			n[(i+t-1)%t] = v
		}
		s = n
	}
	for i := range s {
		s[i] = Add(Add(s[i], state[i]), block[i])
	}
	return s
}

// GMimc hashes a message with state width t.
func GMimc(t int, msg []E) E {
	s := make([]E, t)
	for _, b := range blocks(msg, t) {
		s = GMimcStep(s, b)
	}
	return s[0]
}

// Cauchy is 1/(x_i+y_j).
func Cauchy(t int) [][]E {
	m := make([][]E, t)
	for i := range m {
		m[i] = make([]E, t)
		for j := range m[i] {
			m[i][j] = Inv(Add(xs[i], ys[j]))
		}
	}
	return m
}

// PoseidonStep is one compression step: 8 full, p partial, 8 full rounds.
func PoseidonStep(state, block []E) []E {
	t := len(state)
	p := map[int]int{2: 82, 4: 83, 8: 84}[t]
	mds := Cauchy(t)
	s := Copy(state)
	for r := 0; r < 16+p; r++ {
		for i := range s {
			s[i] = Add(Add(s[i], block[i]), arks[r])
			if i == 0 || r < 8 || r >= 8+p {
				s[i] = Pow(s[i], 7)
			}
		}
		n := make([]E, t)
		for i := range n {
			for j := range s {
				n[i] = Add(n[i], Mul(mds[i][j], s[j]))
			}
		}
		s = n
	}
	for i := range s {
		s[i] = Add(Add(s[i], state[i]), block[i])
	}
	return s
}

// Poseidon hashes a message with state width t.
func Poseidon(t int, msg []E) E {
	s := make([]E, t)
	for _, b := range blocks(msg, t) {
		s = PoseidonStep(s, b)
	}
	return s[0]
}

// Flat concatenates lists.
func Flat(c [][]E) []E {
	r := []E{}
	for _, v := range c {
		r = append(r, v...)
	}
	return r
}
