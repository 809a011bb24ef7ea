package props

import (
	"math/big"
	"reflect"
	"strings"

	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gnark/backend"
	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/backend/r1cs/r1c"
	"github.com/consensys/gurvy/bn256/fr"
)

// The solver of gnark computes one witness. A constraint system may have others: a wire that is defined by a division
// is free when the divisor is zero, a binary decomposition may have two solutions. A system where every wire is
// defined by a product of known values has a single witness for each input, so that the verdict of the solver is the
// exact one. For the others, the alternatives are explored at each input.

type r1sys struct {
	n       int // wires
	nCO     int
	cs      []r1c.R1C
	coef    []fr.Element
	sec     []string
	pub     []string
	suspect []suspect
}

type suspect struct {
	c    int // constraint
	wire int
	side int // 1 L, 2 R, 3 binary decomposition
}

func sysOf(r r1cs.R1CS) (s *r1sys, ok bool) {
	defer func() {
		if recover() != nil {
			s, ok = nil, false
		}
	}()
	v := reflect.ValueOf(r).Elem()
	s = &r1sys{
		n:    int(v.FieldByName("NbWires").Uint()),
		nCO:  int(v.FieldByName("NbCOConstraints").Uint()),
		cs:   v.FieldByName("Constraints").Interface().([]r1c.R1C),
		coef: v.FieldByName("Coefficients").Interface().([]fr.Element),
		sec:  v.FieldByName("SecretWires").Interface().([]string),
		pub:  v.FieldByName("PublicWires").Interface().([]string),
	}
	known := make([]bool, s.n)
	for i := s.n - len(s.sec) - len(s.pub); i < s.n; i++ {
		known[i] = true
	}
	for i := 0; i < s.nCO; i++ {
		c := &s.cs[i]
		if c.Solver != r1c.SingleOutput {
			s.suspect = append(s.suspect, suspect{i, -1, 3})
			for _, t := range c.L {
				known[t.VariableID()] = true
			}
			continue
		}
		for side, e := range [][]r1c.Term{c.L, c.R, c.O} {
			for _, t := range e {
				if w := t.VariableID(); !known[w] {
					known[w] = true
					if side < 2 {
						s.suspect = append(s.suspect, suspect{i, w, side + 1})
					}
				}
			}
		}
	}
	return s, true
}

func (s *r1sys) coefOf(t r1c.Term) E {
	switch v := t.CoeffValue(); v {
	case 0, 1, -1, 2:
		return I(v)
	}
	return s.coef[t.CoeffID()]
}

func (s *r1sys) eval(e []r1c.Term, w []E) E {
	var r E
	for _, t := range e {
		r = Add(r, Mul(s.coefOf(t), w[t.VariableID()]))
	}
	return r
}

// start returns the wires with the inputs set, and the position of each input.
func (s *r1sys) start(m map[string]interface{}) ([]E, map[string]int, bool) {
	w := make([]E, s.n)
	at := map[string]int{}
	off := s.n - len(s.sec) - len(s.pub)
	for i, name := range append(append([]string{}, s.sec...), s.pub...) {
		at[name] = off + i
		if name == backend.OneWire {
			w[off+i] = U(1)
			continue
		}
		v, ok := m[name]
		if !ok {
			return nil, nil, false
		}
		switch x := v.(type) {
		case E:
			w[off+i] = x
		default:
			w[off+i].SetInterface(v)
		}
	}
	return w, at, true
}

// solve computes the other wires, taking the given choices (constraint -> value), and returns the constraints that do
// not hold and, for each, by how much. free lists the suspects whose wire is not determined here.
func (s *r1sys) solve(in []E, choice map[int]E) (w []E, bad []int, res []E, free []suspect) {
	w = Copy(in)
	known := make([]bool, s.n)
	for i := s.n - len(s.sec) - len(s.pub); i < s.n; i++ {
		known[i] = true
	}
	sus := map[int]suspect{}
	for _, x := range s.suspect {
		sus[x.c] = x
	}
	for i := range s.cs {
		c := &s.cs[i]
		if i < s.nCO {
			if x, ok := sus[i]; ok && x.side == 3 {
				var n big.Int
				v := s.eval(c.O, w)
				v.ToBigIntRegular(&n)
				n2 := new(big.Int).Add(&n, fr.Modulus())
				if n2.BitLen() <= len(c.L) {
					free = append(free, x)
					if _, ok := choice[i]; ok {
						n = *n2
					}
				}
				for _, t := range c.L {
					var b big.Int
					k := s.coefOf(t)
					k.ToBigIntRegular(&b)
					w[t.VariableID()] = U(uint64(n.Bit(b.BitLen() - 1)))
					known[t.VariableID()] = true
				}
			} else if ok {
				l, r, o := s.eval(c.L, w), s.eval(c.R, w), s.eval(c.O, w)
				div, own, mine := r, l, c.L
				if x.side == 2 {
					div, own, mine = l, r, c.R
				}
				var k E
				for _, t := range mine {
					if t.VariableID() == x.wire {
						k = s.coefOf(t)
					}
				}
				if div.IsZero() {
					free = append(free, x)
					w[x.wire] = choice[i] // zero if none
				} else {
					w[x.wire] = Mul(Sub(Mul(o, Inv(div)), own), Inv(k))
				}
				known[x.wire] = true
			} else {
				for _, t := range c.O {
					if id := t.VariableID(); !known[id] {
						w[id] = Mul(Sub(Mul(s.eval(c.L, w), s.eval(c.R, w)), s.eval(c.O, w)), Inv(s.coefOf(t)))
						known[id] = true
						break
					}
				}
			}
		}
		if d := Sub(Mul(s.eval(c.L, w), s.eval(c.R, w)), s.eval(c.O, w)); !d.IsZero() {
			bad, res = append(bad, i), append(res, d)
		}
	}
	return
}

// other looks for another witness: for an accepted assignment, one with another value of an output (an input of the
// circuit whose name starts with out); for a rejected one, any.
func (s *r1sys) other(t *ev.T, m map[string]interface{}, accepted bool, out string) string {
	in, at, ok := s.start(m)
	if !ok {
		return ""
	}
	_, bad, _, free := s.solve(in, nil)
	t.Trans(1)
	if len(free) == 0 {
		t.Count("assignments with a single witness", 1)
		return ""
	}
	t.Count("undetermined wires explored", len(free))
	_ = bad
	for _, x := range free {
		if x.side == 3 || accepted {
			for _, v := range []E{U(1), I(-1), gen(1)} {
				if why := s.try(t, in, at, map[int]E{x.c: v}, accepted, out); why != "" {
					return why
				}
				if x.side == 3 {
					break
				}
			}
			continue
		}
		// rejected: solve for the wire when what fails is an affine function of it
		at3 := func(v E) ([]int, []E) { _, b, r, _ := s.solve(in, map[int]E{x.c: v}); return b, r }
		b0, r0 := at3(U(3))
		b1, r1 := at3(U(5))
		if len(b0) == 0 || len(b1) == 0 {
			return "another witness satisfies the constraints (a wire is not determined)"
		}
		for i := range b0 {
			for j := range b1 {
				if b0[i] == b1[j] && r0[i] != r1[j] {
					slope := Mul(Sub(r1[j], r0[i]), Inv(U(2)))
					root := Sub(U(3), Mul(r0[i], Inv(slope)))
					if b, _ := at3(root); len(b) == 0 {
						return "another witness satisfies the constraints (a wire is not determined)"
					}
				}
			}
		}
	}
	return ""
}

func (s *r1sys) try(t *ev.T, in []E, at map[string]int, choice map[int]E, accepted bool, out string) string {
	t.Trans(1)
	_, bad, _, _ := s.solve(in, choice)
	if !accepted {
		if len(bad) == 0 {
			return "another witness satisfies the constraints (an alternative binary decomposition)"
		}
		return ""
	}
	if len(bad) == 0 {
		return ""
	}
	// adapt the outputs named in the broken constraints
	in = Copy(in)
	isOut := map[int]bool{}
	for name, i := range at {
		if strings.HasPrefix(name, out+"_") {
			isOut[i] = true
		}
	}
	for round := 0; round < 2; round++ {
		w, bad, _, _ := s.solve(in, choice)
		if len(bad) == 0 {
			return "another witness satisfies the constraints with another result (a wire is not determined)"
		}
		for _, b := range bad {
			c := &s.cs[b]
			for _, e := range [][]r1c.Term{c.L, c.R, c.O} {
				for _, tm := range e {
					id := tm.VariableID()
					if !isOut[id] {
						continue
					}
					f := func(v E) E {
						x := Copy(w)
						x[id] = v
						return Sub(Mul(s.eval(c.L, x), s.eval(c.R, x)), s.eval(c.O, x))
					}
					f0, f1 := f(U(0)), f(U(1))
					if a := Sub(f1, f0); !a.IsZero() {
						in[id] = Sub(E{}, Mul(f0, Inv(a)))
					}
				}
			}
		}
	}
	return ""
}
