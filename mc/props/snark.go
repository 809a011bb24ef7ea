package props

import (
	"fmt"
	"strings"
	"sync"

	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gnark/backend/r1cs"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gurvy"
)

// gad is a circuit made of a function of In, its results being asserted equal to Out.
type gad struct {
	In, Out []frontend.Variable
	Def     func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable `gnark:"-"`
}

// Define builds the constraints.
func (g *gad) Define(_ gurvy.ID, cs *frontend.ConstraintSystem) error {
	res := g.Def(cs, append([]frontend.Variable{}, g.In...))
	if len(res) != len(g.Out) {
		panic(fmt.Sprintf("%d results, expected %d", len(res), len(g.Out)))
	}
	for i := range res {
		cs.AssertIsEqual(res[i], g.Out[i])
	}
	return nil
}

// r1 is a compiled circuit.
type r1 struct {
	r         r1cs.R1CS
	nIn, nOut int
}

func compileGad(t *ev.T, nIn, nOut int, def func(cs *frontend.ConstraintSystem, in []frontend.Variable) []frontend.Variable) *r1 {
	g := gad{In: make([]frontend.Variable, nIn), Out: make([]frontend.Variable, nOut), Def: def}
	return &r1{compile(t, &g), nIn, nOut}
}

func compile(t *ev.T, c frontend.Circuit) r1cs.R1CS {
	r, err := frontend.Compile(gurvy.BN256, c)
	if err != nil {
		t.Failf("the circuit does not compile: %v", err)
	}
	t.Max("constraints", int64(r.GetNbConstraints()))
	if s, ok := sysOf(r); !ok {
		t.Count("constraint systems that could not be read", 1)
	} else if len(s.suspect) == 0 {
		t.Count("constraint systems where every wire is determined, for all inputs", 1)
	} else {
		t.Count("constraint systems with divisions or decompositions", 1)
		suspects.Store(r, s)
	}
	return r
}

// suspects holds the systems that may have several witnesses.
var suspects sync.Map

// onlyWitness fails if another witness would change the verdict on this assignment.
func onlyWitness(t *ev.T, r r1cs.R1CS, w map[string]interface{}, accepted bool) {
	if s, ok := suspects.Load(r); ok {
		if why := s.(*r1sys).other(t, w, accepted, "Out"); why != "" {
			t.Failf("%s: assignment %v", why, w)
		}
	}
}

// isSolved says whether the assignment satisfies the constraints.
func isSolved(t *ev.T, r r1cs.R1CS, w map[string]interface{}) (ok bool) {
	ok = isSolved1(t, r, w)
	onlyWitness(t, r, w, ok)
	return
}

func isSolved1(t *ev.T, r r1cs.R1CS, w map[string]interface{}) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if s, is := p.(string); is && strings.HasPrefix(s, "error solving r1c") {
				ok = false
				return
			}
			panic(p)
		}
	}()
	err := r.IsSolved(w)
	if err != nil && strings.Contains(err.Error(), "not set") {
		t.Failf("incomplete assignment: %v", err)
	}
	return err == nil
}

func (g *r1) solved(t *ev.T, in, out []E) bool {
	m := map[string]interface{}{}
	for i, v := range in {
		m[fmt.Sprintf("In_%d", i)] = v
	}
	for i, v := range out {
		m[fmt.Sprintf("Out_%d", i)] = v
	}
	t.Trans(1)
	return isSolved(t, g.r, m)
}

// judge checks that the constraints hold with the right results, and with no other candidate for any of them.
func (g *r1) judge(t *ev.T, in, out []E, others []E, format string, a ...interface{}) {
	if !g.solved(t, in, out) {
		t.Failf("constraints are not satisfied by the native result %s: inputs %s; %s", str(out...), str(in...), fmt.Sprintf(format, a...))
	}
	t.State(hashE(hashE(uint64(len(in)), in...), out...))
	for k := range out {
		o := Copy(out)
		for _, v := range append(append([]E{}, others...), Add(out[k], U(1)), Sub(E{}, out[k]), Add(out[k], raw(0, 0, 1, 0)), E{}) {
			if v == out[k] {
				continue
			}
			o[k] = v
			if g.solved(t, in, o) {
				t.Failf("constraints are satisfied by the value %s for result %d, the native one is %s: inputs %s; %s", str(v), k, str(out[k]), str(in...), fmt.Sprintf(format, a...))
			}
		}
	}
	t.Trace()
}

// mixIn returns inputs where the masked ones are replaced by constants.
func mixIn(cs *frontend.ConstraintSystem, in []frontend.Variable, vals []E, mask int) []frontend.Variable {
	r := append([]frontend.Variable{}, in...)
	for i := range r {
		if mask>>uint(i)&1 == 1 {
			r[i] = cs.Constant(vals[i])
		}
	}
	return r
}
