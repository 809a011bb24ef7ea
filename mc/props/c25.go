package props

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"testing"

	"gkr-mimc/common"
	"gkr-mimc/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"

	"github.com/consensys/gurvy/bn256/fr"
)

func init() {
	ev.Register("C25/values", c25values)
	ev.Register("C25/slices", c25slices)
	ev.Register("C25/settings", c25settings)
	ev.Register("C25/random", c25random)
	ev.Register("C25/profiling", c25profiling)
	ev.Register("C25/complete", c25complete)
}

// number is the integer an element stands for, from its limbs.
func number(e E) *big.Int {
	e.FromMont()
	n := new(big.Int)
	for i := len(e) - 1; i >= 0; i-- {
		n.Lsh(n, 64).Add(n, new(big.Int).SetUint64(e[i]))
	}
	return n
}

// rendering: the decimal of the value, or minus the decimal of its opposite when that one has fewer digits.
func rendering(e E) string {
	n := number(e)
	m := new(big.Int)
	if n.Sign() != 0 {
		m.Sub(fr.Modulus(), n)
	}
	if len(n.String()) <= len(m.String()) {
		return n.String()
	}
	return "-" + m.String()
}

// items splits a rendered list.
func items(s string) ([]string, bool) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
		return nil, false
	}
	var r []string
	for _, x := range strings.FieldsFunc(s[1:len(s)-1], func(c rune) bool { return c == ',' || c == ' ' }) {
		r = append(r, x)
	}
	return r, true
}

func c25value(t *ev.T, e E) {
	in := e
	if g := common.PrettyStringFr(in); g != rendering(e) {
		t.Failf("%v is rendered as %q, expected %q", number(e), g, rendering(e))
	}
	if in != e {
		t.Failf("rendering %v modified it", number(e))
	}
	t.Trans(1)
	t.Trace()
	t.State(hashE(1, e))
}

func c25values(x *ev.X) {
	var vs []E
	ten := U(10)
	for i, p := 0, U(1); i < 78; i, p = i+1, Mul(p, ten) { // around every change of the number of digits
		for d := -2; d <= 2; d++ {
			vs = append(vs, Add(p, I(d)), Sub(I(d), p))
		}
	}
	for i, p := 0, U(1); i < 254; i, p = i+1, Add(p, p) {
		vs = append(vs, p, Sub(E{}, p), Sub(p, U(1)))
	}
	h := Inv(U(2)) // where the value and its opposite meet
	for d := -20; d <= 20; d++ {
		vs = append(vs, Add(h, I(d)))
	}
	vs = append(vs, rich()...)
	vs = append(vs, gens(0, 200)...)
	x.Case(func(t *ev.T) {
		for _, v := range vs {
			c25value(t, v)
		}
	}, "renderings around powers of ten and of two, their opposites, the middle of the field")
	x.Case(func(t *ev.T) {
		try := func(n uint64) {
			if common.Uint64ToFr(n) != U(n) || number(common.Uint64ToFr(n)).Cmp(new(big.Int).SetUint64(n)) != 0 {
				t.Failf("the element made of %d is %v", n, number(common.Uint64ToFr(n)))
			}
			t.Trans(1)
			t.State(ev.Mix(2, n))
		}
		for i := uint64(0); i < 1<<17; i++ {
			try(i)
		}
		for k := uint(0); k < 64; k++ {
			for d := uint64(0); d < 10; d++ {
				try(1<<k + d)
				try(1<<k - d)
			}
		}
		t.Trace()
	}, "elements made of every integer below 2^17, and around every power of two")
}

func c25slice(t *ev.T, v []E) {
	in, ok := guarded(v)
	var want []string
	for _, e := range v {
		want = append(want, rendering(e))
	}
	got, isList := items(common.FrSliceToString(in))
	if !isList || fmt.Sprint(got) != fmt.Sprint(want) {
		t.Failf("%v is rendered as %q", want, common.FrSliceToString(in))
	}
	tab := polynomial.NewBookKeepingTable(in)
	s := tab.String()
	if i := strings.Index(s, "["); i < 0 {
		t.Failf("the table %v is rendered as %q", want, s)
	} else if got, isList = items(s[i:]); !isList || fmt.Sprint(got) != fmt.Sprint(want) {
		t.Failf("the table %v is rendered as %q", want, s)
	}
	g := common.FrToGenericArray(in)
	if len(g) != len(v) {
		t.Failf("%d values converted into %d", len(v), len(g))
	}
	for i := range g {
		if e, isE := g[i].(fr.Element); !isE || e != v[i] {
			t.Failf("value %d of %v is converted into %v", i, want, g[i])
		}
	}
	if !ok() {
		t.Failf("rendering or converting %v modified it", want)
	}
	for i := range in { // the conversion is of the values, not of the memory
		in[i] = Add(in[i], U(1))
	}
	for i := range g {
		if e := g[i].(fr.Element); e != v[i] {
			t.Failf("value %d of %v, converted, changes with the original", i, want)
		}
	}
	t.Trans(3)
	t.Trace()
	t.State(hashE(ev.Mix(3, uint64(len(v))), v...))
}

func c25slices(x *ev.X) {
	al := []E{U(0), U(1), I(-1), U(12), gen(0), U(10)}
	for n := 0; n <= 4; n++ {
		n := n
		x.Case(func(t *ev.T) {
			product(len(al), n, func(ix []int) { c25slice(t, pick(al, ix)) })
		}, "all lists of %d values over {0,1,-1,12,10,generic}", n)
	}
	x.Case(func(t *ev.T) {
		for _, n := range []int{5, 16, 100, 1025} {
			for _, p := range patterns(n, 3) {
				c25slice(t, p)
			}
		}
	}, "long lists")
	x.Case(func(t *ev.T) {
		ints := []int{0, 1, -1, 7, 10, -12, 1 << 62, -1 << 63}
		for n := 0; n <= 3; n++ {
			product(len(ints), n, func(ix []int) {
				var a []int
				var b []uint
				var wa, wb []string
				for _, i := range ix {
					a, b = append(a, ints[i]), append(b, uint(ints[i]))
					wa, wb = append(wa, fmt.Sprint(ints[i])), append(wb, fmt.Sprint(uint(ints[i])))
				}
				ga, oka := items(common.IntSliceToString(a))
				gb, okb := items(common.UintSliceToString(b))
				if !oka || fmt.Sprint(ga) != fmt.Sprint(wa) {
					t.Failf("%v is rendered as %q", wa, common.IntSliceToString(a))
				}
				if !okb || fmt.Sprint(gb) != fmt.Sprint(wb) {
					t.Failf("%v is rendered as %q", wb, common.UintSliceToString(b))
				}
				t.Trans(2)
				h := uint64(n)
				for _, i := range ix {
					h = ev.Mix(h, uint64(i))
				}
				t.State(h)
			})
		}
		t.Trace()
	}, "all lists of up to 3 integers over 8 values, signed and unsigned")
}

func c25settings(x *ev.X) {
	names := []string{"BN_GKR", "NCHUNKS_GKR", "PROFILE_GKR", "TRACE_GKR", "NPROCESSES_ENV"}
	type val struct {
		s  string
		n  int
		ok bool
	}
	vals := []val{{"<unset>", 0, false}, {"", 0, false}, {"0", 0, true}, {"1", 1, true}, {"22", 22, true}, {"-3", -3, true}, {"x", 0, false}, {"1 ", 0, false}, {"true", 0, false}, {" 1", 0, false}, {"+5", 5, true},
		{"0x10", 0, false}, {"1e3", 0, false}, {"1.0", 0, false}, {"007", 7, true}, {"99999999999999999999", 0, false}, {"-99999999999999999999", 0, false}, {"9223372036854775807", 1<<63 - 1, true}, {"9223372036854775808", 0, false}}
	x.Case(func(t *ev.T) {
		old := map[string]*string{}
		for _, n := range names {
			if v, ok := os.LookupEnv(n); ok {
				v := v
				old[n] = &v
			}
		}
		defer func() {
			for _, n := range names {
				if v := old[n]; v != nil {
					os.Setenv(n, *v)
				} else {
					os.Unsetenv(n)
				}
			}
		}()
		// every pair of variables takes every pair of values, the others being set to something else
		product(len(names), 2, func(nx []int) {
			if nx[0] > nx[1] {
				return
			}
			product(len(vals), 2, func(vx []int) {
				cur := map[string]val{}
				for i, n := range names {
					cur[n] = val{fmt.Sprint(40 + i), 40 + i, true}
				}
				cur[names[nx[0]]] = vals[vx[0]]
				cur[names[nx[1]]] = vals[vx[1]]
				for _, n := range names {
					if cur[n].s == "<unset>" {
						os.Unsetenv(n)
					} else {
						os.Setenv(n, cur[n].s)
					}
				}
				num := func(n string, f func() int) {
					var g int
					r := ev.Try(func() { g = f() })
					if v := cur[n]; v.ok && (r != nil || g != v.n) || !v.ok && r == nil {
						t.Failf("with %s=%q the setting is %d (panic: %v)", n, v.s, g, r)
					}
				}
				flag := func(n string, f func() bool) {
					if g := f(); g != (cur[n].s == "1") {
						t.Failf("with %s=%q the setting is %v", n, cur[n].s, g)
					}
				}
				num(names[0], common.GetBN)
				num(names[1], common.GetNChunks)
				flag(names[2], common.GetProfiled)
				flag(names[3], common.GetTraced)
				num(names[4], common.GetNProcesses)
				t.Trans(5)
				t.State(ev.Mix(uint64(nx[0]*10+nx[1]), uint64(vx[0]), uint64(vx[1])))
			})
		})
		t.Trace()
	}, "every pair of settings with every pair of 19 values")
}

func c25random(x *ev.X) {
	x.Case(func(t *ev.T) {
		canonical := func(e E) bool { return number(e).Cmp(fr.Modulus()) < 0 }
		seen := map[E]bool{}
		check := func(v []E) {
			for _, e := range v {
				if !canonical(e) {
					t.Failf("random value %v is not reduced", e)
				}
				if seen[e] {
					t.Failf("the same random value %v twice", e)
				}
				seen[e] = true
			}
		}
		for n := 0; n <= 40; n++ {
			v := common.RandomFrArray(n)
			if len(v) != n {
				t.Failf("%d random values instead of %d", len(v), n)
			}
			check(v)
			t.Trans(1)
			t.State(ev.Mix(5, uint64(n)))
		}
		for n := 0; n <= 9; n++ {
			for k := 0; k <= 9; k++ {
				v := common.RandomFrDoubleSlice(n, k)
				if len(v) != n {
					t.Failf("%d random rows instead of %d", len(v), n)
				}
				for i := range v {
					if len(v[i]) != k {
						t.Failf("row %d of %d has %d random values instead of %d", i, n, len(v[i]), k)
					}
					check(v[i])
					// rows are separate
					before := Copy2(v)
					_ = append(v[i], gen(1))
					if !Eq2(v, before) {
						t.Failf("rows of random values overlap")
					}
				}
				t.Trans(1)
				t.State(ev.Mix(6, uint64(n), uint64(k)))
			}
		}
		// Big ones: around every power of two, and around the sizes at which a generator works by blocks
		for k := uint(6); k <= 16; k++ {
			for _, n := range []int{1<<k - 1, 1 << k, 1<<k + 1, 3 << (k - 1)} {
				v := common.RandomFrArray(n)
				if len(v) != n {
					t.Failf("%d random values instead of %d", len(v), n)
				}
				check(v)
				t.Trans(1)
				t.State(ev.Mix(7, uint64(n)))
			}
		}
		for _, d := range [][2]int{{3, 5000}, {5000, 3}, {100, 100}, {1, 70000}, {70000, 1}, {2, 1025}, {1025, 2}} {
			v := common.RandomFrDoubleSlice(d[0], d[1])
			if len(v) != d[0] {
				t.Failf("%d random rows instead of %d", len(v), d[0])
			}
			for i := range v {
				if len(v[i]) != d[1] {
					t.Failf("row %d of %d has %d random values instead of %d", i, d[0], len(v[i]), d[1])
				}
				check(v[i])
			}
			t.Trans(1)
			t.State(ev.Mix(8, uint64(d[0]), uint64(d[1])))
		}
		t.Trace()
	}, "random tables of every size up to 40 and 9x9, and big ones up to 98304")
}

func c25profiling(x *ev.X) {
	for m := 0; m < 4; m++ {
		m := m
		x.Case(func(t *ev.T) {
			// the outputs go to ../profiling: work from a scratch directory
			wd, err := os.Getwd()
			if err != nil {
				panic(err)
			}
			d, err := os.MkdirTemp("", "c25")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(d)
			os.MkdirAll(d+"/profiling", 0o755)
			os.MkdirAll(d+"/pkg", 0o755)
			if err := os.Chdir(d + "/pkg"); err != nil {
				panic(err)
			}
			defer os.Chdir(wd)
			for k := 0; k < 3; k++ {
				runs := 0
				var b testing.B
				b.N = 1
				if r := ev.Try(func() { common.ProfileTrace(&b, m&1 != 0, m&2 != 0, func() { runs++ }) }); r != nil {
					t.Failf("profiled %v, traced %v: crashed with %v", m&1 != 0, m&2 != 0, r)
				}
				if runs != 1 {
					t.Failf("profiled %v, traced %v: the function ran %d times", m&1 != 0, m&2 != 0, runs)
				}
				t.Trans(1)
			}
			t.Trace()
			t.State(uint64(m))
		}, "profiled %v, traced %v: the function runs once", m&1 != 0, m&2 != 0)
	}
}

func c25complete(x *ev.X) {
	al := all()
	x.Case(func(t *ev.T) {
		for _, e := range al {
			c25value(t, e)
		}
		for n := 0; n <= 3; n++ {
			product(P, n, func(ix []int) { c25slice(t, pick(al, ix)) })
		}
	}, "field of %d elements: every value, every list of up to 3", P)
}
