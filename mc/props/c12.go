package props

import (
	"gkr-mimc/polynomial"
	"verif/mc/ev"
	. "verif/mc/ref"
)

func init() { ev.Register("C12/sizes", c12sizes) }

// destination modes
var c12modes = []string{"fresh", "left", "right", "stale larger", "stale same", "spare capacity", "stale smaller", "all the same"}

func c12dst(mode string, l, r polynomial.BookKeepingTable) (d *polynomial.BookKeepingTable, l2, r2 polynomial.BookKeepingTable) {
	n := len(l.Table)
	stale := func(k int) polynomial.BookKeepingTable {
		s := make([]E, k)
		for i := range s {
			s[i] = gen(i & 7)
		}
		return polynomial.NewBookKeepingTable(s)
	}
	switch mode {
	case "fresh":
		return &polynomial.BookKeepingTable{}, l, r
	case "left":
		return &l, l, r
	case "right":
		return &r, l, r
	case "stale larger":
		b := stale(n + 5)
		return &b, l, r
	case "stale same":
		b := stale(n)
		return &b, l, r
	case "spare capacity":
		b := stale(n + 7)
		b.Table = b.Table[:n/2]
		return &b, l, r
	case "stale smaller":
		b := stale(n / 2)
		b.Table = b.Table[: n/2 : n/2]
		return &b, l, r
	}
	return &l, l, l
}

func c12one(t *ev.T, op string, n, cores int, mode string, lv, rv []E) {
	l0, r0 := bkt(lv), bkt(rv)
	d, l, r := c12dst(mode, l0, r0)
	rr := rv
	if mode == "all the same" {
		rr = lv
	}
	lam := gen(66)
	want := make([]E, n)
	for i := range want {
		switch op {
		case "add":
			want[i] = Add(lv[i], rr[i])
		case "sub":
			want[i] = Sub(lv[i], rr[i])
		case "mul":
			want[i] = Mul(lam, lv[i])
		}
	}
	switch op {
	case "add":
		d.Add(l, r)
	case "sub":
		d.Sub(l, r, cores)
	case "mul":
		d.Mul(lam, l, cores)
	}
	if len(d.Table) != n {
		t.Failf("%s of tables of size %d with %d cores, destination %s: result has size %d", op, n, cores, mode, len(d.Table))
	}
	for i := range want {
		if d.Table[i] != want[i] {
			t.Failf("%s of tables of size %d with %d cores, destination %s: entry %d is %s, expected %s", op, n, cores, mode, i, str(d.Table[i]), str(want[i]))
		}
	}
	if mode != "left" && mode != "all the same" && !Eq1(l0.Table, lv) {
		t.Failf("%s of tables of size %d with %d cores, destination %s: left operand changed", op, n, cores, mode)
	}
	if mode != "right" && mode != "all the same" && !Eq1(r0.Table, rv) {
		t.Failf("%s of tables of size %d with %d cores, destination %s: right operand changed", op, n, cores, mode)
	}
	t.Step(ev.Mix(12, uint64(op[0]), uint64(n), uint64(cores), uint64(len(mode)), uint64(mode[0])))
}

func c12sizes(x *ev.X) {
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 100, 1000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9000, 12287, 12288, 12289, 16384, 16389, 20480, 20481, 24577, 32768, 32769, 40000, 50001}
	cores := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 64}
	if x.Thorough {
		sizes = append(sizes, 65536, 65537, 81919, 131072, 131073, 200003)
		for c := 10; c <= 40; c++ {
			cores = append(cores, c)
		}
	}
	for _, n := range sizes {
		for _, c := range cores {
			for _, op := range []string{"add", "sub", "mul"} {
				if op == "add" && c > 1 {
					continue
				}
				n, c, op := n, c, op
				x.Case(func(t *ev.T) {
					lv, rv := make([]E, n), make([]E, n)
					for i := range lv {
						lv[i] = U(uint64(3*i + 1))
						rv[i] = I(-i * i)
					}
					for _, m := range c12modes {
						c12one(t, op, n, c, m, lv, rv)
					}
				}, "%s of tables of %d entries with %d cores, all destination modes", op, n, c)
			}
		}
	}
	for _, op := range []string{"add", "sub", "mul"} {
		op := op
		x.Case(func(t *ev.T) {
			r := rich()
			for _, a := range r {
				for _, b := range r {
					for _, m := range c12modes {
						c12one(t, op, 2, 2, m, []E{a, b}, []E{b, a})
					}
				}
			}
		}, "%s of all pairs of rich values", op)
	}
	for _, e := range rich() {
		e := e
		x.Case(func(t *ev.T) {
			for _, n := range []int{1, 3, 4097} {
				lv := make([]E, n)
				for i := range lv {
					lv[i] = gen(i & 15)
				}
				for _, c := range []int{1, 2, 4} {
					var d polynomial.BookKeepingTable
					d.Mul(e, bkt(lv), c)
					for i := range lv {
						if d.Table[i] != Mul(e, lv[i]) {
							t.Failf("scaling by %s, size %d, %d cores: entry %d", str(e), n, c, i)
						}
					}
					t.Step(hashE(13, e, U(uint64(n)), U(uint64(c))))
				}
			}
		}, "scaling by %s", str(e))
	}
}
