//go:build mcsched

package props

import (
	"fmt"
	"sync/atomic"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
	"verif/mc/rt/sched"
	"verif/mc/rt/vatomic"
	"verif/mc/rt/vsync"
)

func init() {
	ev.Register("C06/schedules", func(x *ev.X) { c06schedules(x, false) })
	ev.Register("C06/race", func(x *ev.X) { c06schedules(x, true) })
	ev.Register("C12/schedules", func(x *ev.X) { c12schedules(x, false) })
	ev.Register("C12/race", func(x *ev.X) { c12schedules(x, true) })
	ev.Register("C11/schedules", c11schedules)
	ev.Register("C24/limiter", c24limiter)
	ev.Register("C24/work", c24work)
	ev.Register("C24/capacities", c24capacities)
	ev.Register("C24/many", c24many)
	ev.Register("C24/large", c24large)
	ev.Register("C07/concurrent", func(x *ev.X) { c07concurrent(x, false) })
	ev.Register("C07/race", func(x *ev.X) { c07concurrent(x, true) })
	ev.Register("C07/first", c07first)
}

// tiers picks the bound of the tier.
func tiers(x *ev.X, q, th int) int {
	if x.Thorough {
		return th
	}
	return q
}

type assignConfig struct {
	c                    Circuit
	bN, chunks, cores, b int
	delays               bool
	copies               bool
}

func (c assignConfig) String() string {
	k := "assignment"
	if c.copies {
		k = "copies of the layers"
	}
	return fmt.Sprintf("%s of %s, 2^%d instances, %d chunks, %d cores, %s", k, circuitName(c.c), c.bN, c.chunks, c.cores, boundName(c.b, c.delays))
}

func (c assignConfig) run(t *ev.T, work bool) {
	in := gens(0, 1<<uint(c.bN+c.c[0].BGIn()))
	want := c.c.Assign(in)
	explore(t, sched.Opts{Bound: c.b, Delays: c.delays, WorkYield: work}, c.String(), func() (func(), func(e *sched.Exec) string) {
		cc := workCircuit(c.c, work)
		inp := Chunk(in, c.chunks)
		var a circuit.Assignment
		var views [][]polynomial.BookKeepingTable
		if c.copies {
			a = cc.Assign(inp, 1)
		}
		return func() {
				if !c.copies {
					a = cc.Assign(inp, c.cores)
					return
				}
				for l := range a.Values {
					views = append(views, a.LayerAsBKTWithCopy(l, c.cores))
				}
			}, func(e *sched.Exec) string {
				if work {
					return workProblem(e, c.cores)
				}
				if len(a.Values) != len(want) {
					return "wrong number of layers"
				}
				for l := range want {
					w := Chunk(want[l], c.chunks)
					if !Eq2(a.Values[l], w) {
						return fmt.Sprintf("values of layer %d are wrong: %v", l, a.Values[l])
					}
					if c.copies {
						if len(views[l]) != len(w) {
							return fmt.Sprintf("copy of layer %d has %d chunks", l, len(views[l]))
						}
						for i := range w {
							if !Eq1(views[l][i].Table, w[i]) {
								return fmt.Sprintf("copy of layer %d, chunk %d is wrong", l, i)
							}
						}
					}
				}
				if !Eq2(inp, Chunk(in, c.chunks)) {
					return "the inputs were modified"
				}
				return ""
			}
	})
}

func assignConfigs(x *ev.X, race bool) []assignConfig {
	l1 := Layer{w(gMul(), 0, 0, 0)}
	l2 := Layer{w(gMul(), 0, 1, 0), w(gAdd(), 1, 0, 1), w(gCipher(gen(63)), 1, 1, 1)}
	l3 := Layer{w(gCopy(), 1, 0, 0), w(gAdd(), 0, 1, 0)}
	var r []assignConfig
	for _, copies := range []bool{false, true} {
		for cores := 1; cores <= 3; cores++ {
			for _, c := range []Circuit{{l1}, {l2, l3}, {l2, l2, l3}} {
				r = append(r, assignConfig{c, 2, 2, cores, tiers(x, -1, -1), false, copies})
				if race {
					r[len(r)-1].b = 1
				}
				if len(c) > 2 {
					r[len(r)-1].b = tiers(x, 2, 4)
				}
			}
		}
		for cores := 1; cores <= 5; cores++ {
			r = append(r, assignConfig{Circuit{l2}, 2, 4, cores, tiers(x, 3, 5), true, copies})
			if !race {
				r = append(r, assignConfig{Circuit{l1}, 2, 4, cores, tiers(x, 1, 3), false, copies},
					assignConfig{Circuit{l2, l3}, 3, 8, cores, tiers(x, 1, 2), true, copies},
					assignConfig{Circuit{l3}, 2, 4, cores, tiers(x, 3, 5), true, copies})
			}
		}
		if !race {
			for _, cores := range []int{1, 2, 7, 8, 9, 100} {
				r = append(r, assignConfig{Circuit{l3}, 3, 8, cores, tiers(x, 2, 3), true, copies})
			}
		}
	}
	return r
}

func c06schedules(x *ev.X, race bool) {
	for _, c := range assignConfigs(x, race) {
		c := c
		x.Case(func(t *ev.T) { c.run(t, false) }, "%v", c)
	}
}

func c12schedules(x *ev.X, race bool) {
	sizes := []int{5000, 8192, 9000, 12288, 13000}
	if race {
		sizes = []int{9000}
	}
	for _, n := range sizes {
		for _, cores := range []int{1, 2, 3, 4, 8} {
			for _, op := range []string{"sub", "mul"} {
				for _, mode := range []string{"fresh", "left", "right", "spare capacity"} {
					if mode == "right" && op == "mul" || race && cores > 3 {
						continue
					}
					n, cores, op, mode := n, cores, op, mode
					b := tiers(x, 2, -1)
					if race {
						b = tiers(x, 1, 2)
					}
					x.Case(func(t *ev.T) {
						lv, rv := make([]E, n), make([]E, n)
						for i := range lv {
							lv[i], rv[i] = U(uint64(3*i+1)), I(-i*i)
						}
						want := make([]E, n)
						lam := gen(66)
						for i := range want {
							if op == "sub" {
								want[i] = Sub(lv[i], rv[i])
							} else {
								want[i] = Mul(lam, lv[i])
							}
						}
						what := fmt.Sprintf("%s of tables of %d entries with %d cores, destination %s, %s", op, n, cores, mode, boundName(b, false))
						explore(t, sched.Opts{Bound: b}, what, func() (func(), func(e *sched.Exec) string) {
							l0, r0 := bkt(lv), bkt(rv)
							d, l, r := c12dst(mode, l0, r0)
							return func() {
									if op == "sub" {
										d.Sub(l, r, cores)
									} else {
										d.Mul(lam, l, cores)
									}
								}, func(e *sched.Exec) string {
									if len(d.Table) != n {
										return fmt.Sprintf("the result has %d entries", len(d.Table))
									}
									for i := range want {
										if d.Table[i] != want[i] {
											return fmt.Sprintf("entry %d is %s, expected %s", i, str(d.Table[i]), str(want[i]))
										}
									}
									if mode != "left" && !Eq1(l0.Table, lv) || mode != "right" && !Eq1(r0.Table, rv) {
										return "an operand was modified"
									}
									return ""
								}
						})
					}, "%s of tables of %d entries with %d cores, destination %s", op, n, cores, mode)
				}
			}
		}
	}
}

func c11schedules(x *ev.X) {
	type cfg struct{ bN, chunks, cores, b int }
	var cs []cfg
	for cores := 1; cores <= 4; cores++ {
		cs = append(cs, cfg{13, 1, cores, 3}, cfg{14, 2, cores, tiers(x, 3, 5)}, cfg{14, 4, cores, tiers(x, 3, 5)}, cfg{15, 4, cores, tiers(x, 2, 4)})
	}
	for _, c := range cs {
		c := c
		what := fmt.Sprintf("equality table of %d variables, %d chunks, %d cores, %s", c.bN, c.chunks, c.cores, boundName(c.b, true))
		x.Case(func(t *ev.T) {
			q := gens(9, c.bN)
			want := Chunk(eqTableFast(q), c.chunks)
			explore(t, sched.Opts{Bound: c.b, Delays: true}, what, func() (func(), func(e *sched.Exec) string) {
				var r []polynomial.BookKeepingTable
				return func() { r = polynomial.GetChunkedEqTable(Copy(q), c.chunks, c.cores) }, func(e *sched.Exec) string {
					if len(r) != c.chunks {
						return "wrong number of chunks"
					}
					for i := range r {
						if !Eq1(r[i].Table, want[i]) {
							return fmt.Sprintf("chunk %d is wrong", i)
						}
					}
					return ""
				}
			})
		}, "%s", what)
	}
	// evaluation of chunks so large that their recombination is split
	for _, cores := range []int{2} {
		what := fmt.Sprintf("evaluation of 2^14 entries in 2 chunks, %d cores", cores)
		x.Case(func(t *ev.T) {
			tab := make([]E, 1<<14)
			for i := range tab {
				tab[i] = U(uint64(i*i + 5*i + 3))
			}
			pt := gens(3, 14)
			want := FixAll(tab, pt)[0]
			explore(t, sched.Opts{Bound: tiers(x, 2, 4)}, what, func() (func(), func(e *sched.Exec) string) {
				v := bkts(Chunk(tab, 2))
				var got E
				return func() { got = polynomial.EvaluateChunked(v, pt) }, func(e *sched.Exec) string {
					if got != want {
						return "wrong value"
					}
					return ""
				}
			})
		}, "%s", what)
	}
}

func c24limiter(x *ev.X) {
	// every goroutine acquires and releases several times; what they see inside
	for n := 1; n <= 4; n++ {
		for k := 1; k <= n+2 && k <= 5; k++ {
			for rounds := 1; rounds <= 3; rounds++ {
				for _, cross := range []bool{false, true} {
					n, k, rounds, cross := n, k, rounds, cross
					b, delays := -1, false
					if k > 2 {
						b = tiers(x, 2, 4)
					}
					if k > 3 {
						b, delays = tiers(x, 4, 6), true
					}
					total := k
					if cross {
						total = k * rounds
					}
					if k*rounds > 9 || cross && total > 3 {
						b, delays = tiers(x, 3, 5), true
					}
					if total > 6 {
						b = tiers(x, 2, 4)
					}
					what := fmt.Sprintf("limiter of capacity %d, %d goroutines, %d rounds", n, k, rounds)
					if cross {
						what += ", taken by the starter and given back by the goroutine"
					}
					x.Case(func(t *ev.T) {
						explore(t, sched.Opts{Bound: b, Delays: delays}, what+", "+boundName(b, delays), func() (func(), func(e *sched.Exec) string) {
							s := common.NewSemaphore(n)
							var in, m int32
							var done int32
							return func() {
									var wg vsync.WaitGroup
									for r := 0; r < rounds; r++ {
										if !cross && r > 0 {
											break
										}
										for i := 0; i < k; i++ {
											wg.Add(1)
											if cross {
												s.Acquire()
											}
											sched.Go(func() {
												rs := rounds
												if cross {
													rs = 1
												}
												for j := 0; j < rs; j++ {
													if !cross {
														s.Acquire()
													}
													v := atomic.AddInt32(&in, 1)
													if v > m {
														m = v
													}
													vatomic.AddInt32(&done, 1)
													atomic.AddInt32(&in, -1)
													s.Release()
												}
												wg.Done()
											})
										}
									}
									wg.Wait()
								}, func(e *sched.Exec) string {
									if int(m) > n {
										return fmt.Sprintf("%d holders of a limiter of capacity %d", m, n)
									}
									if int(done) != k*rounds {
										return fmt.Sprintf("%d passages instead of %d", done, k*rounds)
									}
									return e.LostPool
								}
						})
					}, "%s", what)
				}
			}
		}
	}
	// all permits can be held at the same time, before and after other histories
	for n := 1; n <= 5; n++ {
		for hist := 0; hist <= 3; hist++ {
			n, hist := n, hist
			b, delays := -1, false
			if n > 2 {
				b, delays = tiers(x, 3, 5), true
			}
			what := fmt.Sprintf("limiter of capacity %d: %d holders at a barrier after history %d", n, n, hist)
			x.Case(func(t *ev.T) {
				explore(t, sched.Opts{Bound: b, Delays: delays}, what, func() (func(), func(e *sched.Exec) string) {
					s := common.NewSemaphore(n)
					return func() {
						for h := 0; h < hist; h++ { // all taken, all given back
							for i := 0; i < n; i++ {
								s.Acquire()
							}
							for i := 0; i < n; i++ {
								s.Release()
							}
						}
						var bar, wg vsync.WaitGroup
						bar.Add(n)
						wg.Add(n)
						for i := 0; i < n; i++ {
							sched.Go(func() {
								s.Acquire()
								bar.Done()
								bar.Wait()
								s.Release()
								wg.Done()
							})
						}
						wg.Wait()
						for i := 0; i < n; i++ {
							s.Acquire()
						}
					}, func(e *sched.Exec) string { return "" }
				})
			}, "%s", what)
			// one more never enters
			x.Case(func(t *ev.T) {
				explore(t, sched.Opts{Bound: b, Delays: delays}, what+" and one more", func() (func(), func(e *sched.Exec) string) {
					s := common.NewSemaphore(n)
					var extra, after int32
					return func() {
							for h := 0; h < hist; h++ {
								for i := 0; i < n; i++ {
									s.Acquire()
								}
								for i := 0; i < n; i++ {
									s.Release()
								}
							}
							for i := 0; i < n; i++ {
								s.Acquire()
							}
							var wg vsync.WaitGroup
							wg.Add(1)
							sched.Go(func() {
								s.Acquire()
								vatomic.AddInt32(&extra, 1)
								s.Release()
								wg.Done()
							})
							sched.Yield()
							after = vatomic.LoadInt32(&extra)
							s.Release()
							wg.Wait()
						}, func(e *sched.Exec) string {
							if after != 0 {
								return fmt.Sprintf("a holder more than the capacity %d", n)
							}
							if extra != 1 {
								return "the waiting goroutine did not proceed"
							}
							return ""
						}
				})
			}, "%s and one more", what)
		}
	}
}

// c24capacities: every capacity: exactly that many permits, before and after histories of partial use.
func c24capacities(x *ev.X) {
	var ns []int
	for n := 1; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096)
	for _, n := range ns {
		for hist := 0; hist <= 3; hist++ {
			n, hist := n, hist
			if n > 130 && hist > 1 && !x.Thorough {
				continue
			}
			what := fmt.Sprintf("limiter of capacity %d, history %d: all permits taken, one more waits, proceeds when one is given back", n, hist)
			x.Case(func(t *ev.T) {
				b := 1
				if n > 40 {
					b = 0
				}
				explore(t, sched.Opts{Bound: b, Delays: true}, what, func() (func(), func(e *sched.Exec) string) {
					s := common.NewSemaphore(n)
					var in, after int32
					return func() {
							switch hist {
							case 1: // one at a time, more often than the capacity
								for i := 0; i < n+3; i++ {
									s.Acquire()
									s.Release()
								}
							case 2: // all at once
								for i := 0; i < n; i++ {
									s.Acquire()
								}
								for i := 0; i < n; i++ {
									s.Release()
								}
							case 3: // half kept while the others turn
								for i := 0; i < n/2; i++ {
									s.Acquire()
								}
								for i := 0; i < n+3; i++ {
									s.Acquire()
									s.Release()
								}
								for i := 0; i < n/2; i++ {
									s.Release()
								}
							}
							for i := 0; i < n; i++ {
								s.Acquire()
							}
							var wg vsync.WaitGroup
							wg.Add(2)
							for i := 0; i < 2; i++ {
								sched.Go(func() {
									s.Acquire()
									vatomic.AddInt32(&in, 1)
									wg.Done()
								})
							}
							for i := 0; i < 3; i++ {
								sched.Yield()
							}
							after = vatomic.LoadInt32(&in)
							s.Release()
							s.Release()
							wg.Wait()
						}, func(e *sched.Exec) string {
							if after != 0 {
								return fmt.Sprintf("a holder more than the capacity %d", n)
							}
							if in != 2 {
								return "a waiting goroutine did not proceed"
							}
							return ""
						}
				})
			}, "%s", what)
		}
	}
}

func c24work(x *ev.X) {
	var as []assignConfig
	l1 := Layer{w(gMul(), 0, 0, 0)}
	l2 := Layer{w(gMul(), 0, 1, 0), w(gCopy(), 1, 0, 1)}
	for _, copies := range []bool{false, true} {
		for cores := 1; cores <= 4; cores++ {
			as = append(as, assignConfig{Circuit{l1}, 1, 2, cores, -1, false, copies},
				assignConfig{Circuit{l2}, 2, 4, cores, tiers(x, 3, 5), true, copies},
				assignConfig{Circuit{l2, l1}, 2, 4, cores, tiers(x, 2, 4), true, copies},
				assignConfig{Circuit{l2}, 3, 8, cores, tiers(x, 2, 3), true, copies})
		}
	}
	for _, c := range as {
		c := c
		x.Case(func(t *ev.T) { c.run(t, true) }, "%v", c)
	}
	g2 := []Gate{gMul(), gCopy()}
	for cores := 1; cores <= 4; cores++ {
		for _, c := range []proveConfig{
			{bG: 1, bN: 1, chunks: 2, cores: cores, bound: tiers(x, 2, 3), gates: g2, claim: true},
			{bG: 1, bN: 2, chunks: 4, cores: cores, bound: tiers(x, 3, 5), gates: g2, claim: true, delays: true},
			{bG: 0, bN: 2, chunks: 2, cores: cores, bound: tiers(x, 2, 4), gates: g2, prove: true},
			{bG: 1, bN: 2, chunks: 2, cores: cores, bound: tiers(x, 2, 4), gates: g2, prove: true, delays: true},
			{bG: 1, bN: 2, chunks: 4, cores: cores, bound: tiers(x, 2, 3), gates: g2, prove: true, delays: true},
			{bG: 0, bN: 3, chunks: 4, cores: cores, bound: tiers(x, 2, 4), gates: g2, prove: true, claim: true, delays: true},
			{bG: 0, bN: 3, chunks: 8, cores: cores, bound: tiers(x, 2, 3), gates: g2, prove: true, delays: true},
		} {
			c := c
			x.Case(func(t *ev.T) { c.run(t, true) }, "work of the %v", c)
		}
		for _, c := range []gkrConfig{
			{Circuit{l2, l2}, 1, 2, cores, tiers(x, 2, 3), true},
			{Circuit{l2}, 2, 4, cores, tiers(x, 1, 3), true},
		} {
			c := c
			x.Case(func(t *ev.T) { c.run(t, true) }, "work of the %v", c)
		}
	}
}

// c24many: more chunks than anything else here, and enough of them for the limit to be reached in all schedules.
func c24many(x *ev.X) {
	l1 := Layer{w(gMul(), 0, 0, 0)}
	l2 := Layer{w(gMul(), 0, 1, 0), w(gCopy(), 1, 0, 1)}
	g2 := []Gate{gMul(), gCopy()}
	for _, k := range []struct{ bN, b int }{{4, 1}, {5, tiers(x, 0, 1)}, {6, 0}, {7, 0}, {8, 0}} {
		for _, cores := range []int{1, 2, 3, 4, 5, 7, 8, 16} {
			if k.bN > 6 && cores > 3 && cores != 8 && !x.Thorough {
				continue
			}
			n := 1 << uint(k.bN)
			b := k.b
			if cores > 3 {
				b = tiers(x, 0, b)
			}
			for _, c := range []assignConfig{
				{Circuit{l1}, k.bN, n, cores, b, true, false},
				{Circuit{l2, l2}, k.bN, n, cores, 0, true, false},
				{Circuit{l1}, k.bN, n, cores, b, true, true},
			} {
				c := c
				x.Case(func(t *ev.T) { c.run(t, true) }, "work of the %v", c)
			}
			for _, c := range []proveConfig{
				{bG: 0, bN: k.bN, chunks: n, cores: cores, bound: 0, gates: g2, claim: true, delays: true},
				{bG: 0, bN: k.bN, chunks: n, cores: cores, bound: 0, gates: g2, prove: true, delays: true},
			} {
				c := c
				x.Case(func(t *ev.T) { c.run(t, true) }, "work of the %v", c)
			}
			if k.bN <= 6 {
				c := gkrConfig{Circuit{l2}, k.bN, n, cores, 0, true}
				x.Case(func(t *ev.T) { c.run(t, true) }, "work of the %v", c)
			}
		}
	}
}

// conc runs the operations concurrently.
func conc(ops ...func()) {
	var wg vsync.WaitGroup
	wg.Add(len(ops))
	for _, o := range ops {
		o := o
		sched.Go(func() {
			o()
			wg.Done()
		})
	}
	wg.Wait()
}

func c07concurrent(x *ev.X, race bool) {
	l1 := Layer{w(gMul(), 0, 1, 0), w(gAdd(), 1, 0, 1)}
	l2 := Layer{w(gCipher(gen(63)), 0, 1, 0), w(gCopy(), 1, 0, 0)}
	type cfg struct {
		c     Circuit
		bN, n int
		b     int
	}
	cs := []cfg{{Circuit{l1, l2}, 1, 1, tiers(x, 1, 2)}, {Circuit{l1, l2}, 1, 2, tiers(x, 1, 1)}, {Circuit{l2}, 2, 2, tiers(x, 1, 2)}}
	if race {
		cs = []cfg{{Circuit{l1, l2}, 1, 1, tiers(x, 0, 1)}, {Circuit{l1, l2}, 1, 2, tiers(x, 0, 1)}}
	}
	for _, c := range cs {
		for i := range c07ops {
			for j := i; j < len(c07ops); j++ {
				c, i, j := c, i, j
				what := fmt.Sprintf("concurrently [%s] and [%s] on %s, 2^%d instances, %d chunks", c07ops[i].name, c07ops[j].name, circuitName(c.c), c.bN, c.n)
				x.Case(func(t *ev.T) {
					explore(t, sched.Opts{Bound: c.b, Delays: true}, what, func() (func(), func(e *sched.Exec) string) {
						k := newC07(t, c.c, c.bN, c.n)
						k2 := *k // the same objects, other lists of kept results
						var e1, e2 string
						return func() {
								conc(func() { e1 = c07ops[i].f(k) }, func() { e2 = c07ops[j].f(&k2) })
							}, func(e *sched.Exec) string {
								for _, m := range []string{e1, e2, k.check(), k2.check()} {
									if m != "" {
										return m
									}
								}
								return ""
							}
					})
				}, "%s", what)
			}
		}
	}
}

// c07first: the first use of each part of the library in the process is concurrent.
func c07first(x *ev.X) {
	try := func(name string, ops func() ([]func(), func() string)) {
		x.Case(func(t *ev.T) {
			explore(t, sched.Opts{Bound: 1, Delays: true}, "first use of "+name, func() (func(), func(e *sched.Exec) string) {
				o, check := ops()
				return func() { conc(o...) }, func(e *sched.Exec) string { return check() }
			})
		}, "concurrent first use of %s", name)
	}
	msg := gens(0, 3)
	twice := func(f func() E, want E) func() ([]func(), func() string) {
		return func() ([]func(), func() string) {
			var a, b E
			return []func(){func() { a = f() }, func() { b = f() }}, func() string {
				if a != want || b != want {
					return "wrong digest"
				}
				return ""
			}
		}
	}
	try("MimcHash", twice(func() E { return hash.MimcHash(msg) }, Mimc(msg)))
	try("GetChallenge", twice(func() E { return common.GetChallenge(msg) }, Mimc(msg)))
	hs := hashers()
	try("the Poseidon and GMiMC hashers", func() ([]func(), func() string) {
		got := make([][2]E, len(hs))
		run := func(k int) func() {
			return func() {
				for i := range hs {
					got[i][k] = hs[i].hash(msg)
					for n := 1; n <= hs[i].t+1; n++ {
						hs[i].hash(gens(n+10*k, n))
					}
				}
			}
		}
		return []func(){run(0), run(1)}, func() string {
			for i := range hs {
				if w := hs[i].ref(msg); got[i][0] != w || got[i][1] != w {
					return "wrong digest"
				}
			}
			return ""
		}
	})
	try("InterpolateOnRange", func() ([]func(), func() string) {
		var got [2][][]E
		run := func(k int) func() {
			return func() {
				for n := 1; n <= 10; n++ {
					got[k] = append(got[k], polynomial.InterpolateOnRange(gens(n, n)))
				}
			}
		}
		return []func(){run(0), run(1)}, func() string {
			for n := 1; n <= 10; n++ {
				w := Interpolate(gens(n, n))
				for k := range got {
					if !samePoly(got[k][n-1], w) {
						return fmt.Sprintf("wrong polynomial of %d points", n)
					}
				}
			}
			return ""
		}
	})
	try("the sumcheck verifier", func() ([]func(), func() string) {
		s := schedInstance(1, 2, []Gate{gMul()})
		tr := s.Prove()
		var ok [2]bool
		run := func(k int) func() {
			return func() {
				ok[k], _, _, _, _ = sumcheck.Verifier{}.Verify(tr.Claim, sumcheck.Proof{PolyCoeffs: Copy2(tr.Proof)}, 2, 1)
			}
		}
		return []func(){run(0), run(1)}, func() string {
			if !ok[0] || !ok[1] {
				return "honest proof rejected"
			}
			return ""
		}
	})
	l := Layer{w(gMul(), 0, 1, 0), w(gCipher(gen(63)), 1, 0, 1)}
	try("provers on the same circuit", func() ([]func(), func() string) {
		c := Circuit{l}
		in := gens(0, 4)
		qP, q := point(1, c)
		want := c.Prove(in, qP, q)
		cc := circuitOf(c)
		var pr [2]gkr.Proof
		run := func(k int) func() {
			return func() {
				p := gkr.NewProver(cc, cc.Assign(Chunk(in, 1), 1))
				pr[k] = p.Prove(1)
			}
		}
		return []func(){run(0), run(1)}, func() string {
			for k := range pr {
				if !eqProof(refProof(pr[k]), want) {
					return "wrong proof"
				}
			}
			return ""
		}
	})
	try("verifiers on the same circuit", func() ([]func(), func() string) {
		c := Circuit{l}
		in := gens(0, 4)
		qP, q := point(1, c)
		p := c.Prove(in, qP, q)
		cc := circuitOf(c)
		vals := c.Assign(in)
		var ok [2]bool
		v := gkr.NewVerifier(1, cc)
		pr := proofOf(p)
		run := func(k int) func() {
			return func() { ok[k] = v.Verify(pr, Chunk(in, 2), Chunk(vals[1], 2)) }
		}
		return []func(){run(0), run(1)}, func() string {
			if !ok[0] || !ok[1] {
				return "honest proof rejected"
			}
			return ""
		}
	})
	var gs []circuit.Gate
	var ids []string
	for i := 0; i < 24; i++ {
		g := circuit.NewCipherGate(gen(80 + i/2))
		gs, ids = append(gs, g), append(ids, "CipherGate-"+str(gen(80+i/2)))
	}
	try("the identities of the gates", func() ([]func(), func() string) {
		var got [2][]string
		run := func(k int) func() {
			return func() {
				for _, g := range gs {
					got[k] = append(got[k], g.ID())
				}
			}
		}
		return []func(){run(0), run(1)}, func() string {
			for k := range got {
				for i, id := range got[k] {
					for j := range got[k] {
						if (id == got[k][j]) != (ids[i] == ids[j]) {
							return "different gates have the same identity, or the same gate has two"
						}
					}
				}
			}
			return ""
		}
	})
	try("the equality tables", func() ([]func(), func() string) {
		q := gens(4, 3)
		var r [2][]polynomial.BookKeepingTable
		run := func(k int) func() { return func() { r[k] = polynomial.GetChunkedEqTable(q, 2, 2) } }
		return []func(){run(0), run(1)}, func() string {
			w := Chunk(EqTable(q), 2)
			for k := range r {
				for i := range w {
					if !Eq1(r[k][i].Table, w[i]) {
						return "wrong table"
					}
				}
			}
			return ""
		}
	})
}

// c24large: few large chunks; code may share the work of a chunk when there is much of it.
func c24large(x *ev.X) {
	l1 := Layer{w(gMul(), 0, 0, 0)}
	l2 := Layer{w(gMul(), 0, 1, 0), w(gCopy(), 1, 0, 1)}
	g2 := []Gate{gMul(), gCopy()}
	for _, bN := range []int{6, 8, 10, 12, 13} {
		if bN > 12 && !x.Thorough {
			continue
		}
		for _, n := range []int{1, 2, 4} {
			for _, cores := range []int{1, 2, 3} {
				if cores > n {
					continue
				}
				as := []assignConfig{
					{Circuit{l1}, bN, n, cores, 0, true, false},
					{Circuit{l2}, bN, n, cores, 0, true, false},
					{Circuit{l2}, bN, n, cores, 0, true, true},
				}
				for _, c := range as {
					c := c
					x.Case(func(t *ev.T) { c.run(t, true) }, "work of the %v", c)
				}
				if bN > 10 && !x.Thorough {
					continue
				}
				for _, c := range []proveConfig{
					{bG: 0, bN: bN, chunks: n, cores: cores, bound: 0, gates: g2, claim: true, delays: true},
					{bG: 1, bN: bN - 1, chunks: n, cores: cores, bound: 0, gates: g2, claim: true, delays: true},
					{bG: 0, bN: bN, chunks: n, cores: cores, bound: 0, gates: g2, prove: true, delays: true},
					{bG: 1, bN: bN - 1, chunks: n, cores: cores, bound: 0, gates: g2, prove: true, delays: true},
				} {
					c := c
					x.Case(func(t *ev.T) { c.run(t, true) }, "work of the %v", c)
				}
			}
		}
	}
}
