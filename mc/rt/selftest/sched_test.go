// Package selftest checks the scheduler itself on small programs with known sets of behaviours.
package selftest

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"verif/mc/rt/sched"
	"verif/mc/rt/vatomic"
	"verif/mc/rt/vsync"
)

func outcomes(t *testing.T, o sched.Opts, f func(out *string)) (string, sched.Stats) {
	t.Helper()
	set := map[string]bool{}
	st := sched.Explore(o, func() (func(), func(*sched.Exec) string) {
		var out string
		return func() { f(&out) }, func(e *sched.Exec) string {
			if p := e.Problem(); p != "" {
				if strings.Contains(p, "panicked: runtime") {
					t.Log(p)
				}
				p = strings.SplitN(p, "\n", 2)[0]
				if i := strings.Index(p, ":"); i > 0 {
					p = p[:i]
				}
				set[p] = true
				return ""
			}
			s := out
			if e.LostPool != "" {
				s += " lost"
			}
			set[s] = true
			return ""
		}
	})
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	if st.Nondet {
		t.Fatal("nondeterministic")
	}
	return strings.Join(l, "|"), st
}

func want(t *testing.T, o sched.Opts, w string, f func(out *string)) {
	t.Helper()
	for _, nc := range []bool{false, true} {
		o.NoCache = nc
		g, st := outcomes(t, o, f)
		if g != w {
			t.Errorf("cache=%v: got %q want %q (%+v)", !nc, g, w, st)
		}
		if !st.Complete {
			t.Errorf("not complete")
		}
		t.Logf("%+v", st)
	}
}

var unb = sched.Opts{Bound: -1}

func TestLostUpdate(t *testing.T) {
	want(t, unb, "1|2", func(out *string) {
		var x int32
		var wg vsync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			sched.Go(func() {
				v := vatomic.LoadInt32(&x)
				vatomic.StoreInt32(&x, v+1)
				wg.Done()
			})
		}
		wg.Wait()
		*out = fmt.Sprint(vatomic.LoadInt32(&x))
	})
	want(t, sched.Opts{Bound: 0}, "2", func(out *string) {
		var x int32
		var wg vsync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			sched.Go(func() {
				v := vatomic.LoadInt32(&x)
				vatomic.StoreInt32(&x, v+1)
				wg.Done()
			})
		}
		wg.Wait()
		*out = fmt.Sprint(vatomic.LoadInt32(&x))
	})
}

func TestArrival(t *testing.T) {
	for _, c := range []int{0, 1, 3} {
		want(t, unb, "012|021|102|120|201|210", func(out *string) {
			ch := make(chan int, c)
			for i := 0; i < 3; i++ {
				i := i
				sched.Go(func() { sched.Send(ch)(i) })
			}
			for i := 0; i < 3; i++ {
				*out += fmt.Sprint(sched.Recv(ch))
			}
		})
	}
}

func TestReceivers(t *testing.T) {
	for _, c := range []int{0, 2} {
		want(t, unb, "a1b2|a2b1", func(out *string) {
			ch := make(chan int, c)
			var r [2]int
			var wg vsync.WaitGroup
			wg.Add(2)
			for i := range r {
				i := i
				sched.Go(func() { r[i] = sched.Recv(ch); wg.Done() })
			}
			sched.Send(ch)(1)
			sched.Send(ch)(2)
			wg.Wait()
			*out = fmt.Sprintf("a%db%d", r[0], r[1])
		})
	}
}

func TestDeadlocks(t *testing.T) {
	want(t, unb, "deadlock|ok", func(out *string) {
		var a, b vsync.Mutex
		var wg vsync.WaitGroup
		wg.Add(2)
		sched.Go(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); wg.Done() })
		sched.Go(func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); wg.Done() })
		wg.Wait()
		*out = "ok"
	})
	want(t, unb, "deadlock", func(out *string) {
		ch := make(chan int)
		sched.Send(ch)(1)
	})
	want(t, unb, "stuck worker after the call returned", func(out *string) {
		ch := make(chan int)
		sched.Go(func() { sched.Recv(ch) })
	})
	want(t, unb, "goroutine 1 panicked|ok", func(out *string) {
		ch := make(chan int, 1)
		sched.Go(func() { sched.Send(ch)(1) })
		sched.Close(ch)
		*out = "ok"
	})
}

func TestCloseRange(t *testing.T) {
	for _, c := range []int{0, 1, 2} {
		want(t, unb, "12end", func(out *string) {
			ch := make(chan int, c)
			done := make(chan bool)
			sched.Go(func() {
				for {
					v, ok := sched.Recv2(ch)
					if !ok {
						break
					}
					*out += fmt.Sprint(v)
				}
				sched.Close(done)
			})
			sched.Send(ch)(1)
			sched.Send(ch)(2)
			sched.Close(ch)
			sched.Recv(done)
			*out += "end"
		})
	}
}

func TestSelect(t *testing.T) {
	want(t, unb, "a|b|none", func(out *string) {
		a, b := make(chan string, 1), make(chan string)
		sched.Go(func() { sched.Send(a)("a") })
		stop := make(chan int, 1)
		sched.Go(func() {
			s := sched.SelSend(b)("b")
			r := sched.SelRecv(stop)
			sched.Select(false, s, r)
		})
		x, y := sched.SelRecv(a), sched.SelRecv(b)
		switch sched.Select(true, x, y) {
		case 0:
			*out = x.V
		case 1:
			*out = y.V
		default:
			*out = "none"
		}
		sched.Send(stop)(1)
	})
	want(t, unb, "a|b", func(out *string) {
		a, b := make(chan string, 1), make(chan string)
		sched.Go(func() { sched.Send(a)("a") })
		stop := make(chan int, 1)
		sched.Go(func() {
			s := sched.SelSend(b)("b")
			r := sched.SelRecv(stop)
			sched.Select(false, s, r)
		})
		x, y := sched.SelRecv(a), sched.SelRecv(b)
		switch sched.Select(false, x, y) {
		case 0:
			*out = x.V
		case 1:
			*out = y.V
		default:
			*out = "none"
		}
		sched.Send(stop)(1)
	})
}

func TestPool(t *testing.T) {
	want(t, unb, "2", func(out *string) {
		p := make(chan struct{}, 2)
		sched.Send(p)(struct{}{})
		sched.Send(p)(struct{}{})
		var n, m int32
		var wg vsync.WaitGroup
		wg.Add(3)
		for i := 0; i < 3; i++ {
			sched.Go(func() {
				sched.Recv(p)
				n++
				if n > m {
					m = n
				}
				sched.Yield()
				n--
				sched.Send(p)(struct{}{})
				wg.Done()
			})
		}
		wg.Wait()
		*out = fmt.Sprint(m)
	})
	want(t, unb, "ok lost", func(out *string) {
		p := make(chan struct{}, 2)
		sched.Send(p)(struct{}{})
		sched.Send(p)(struct{}{})
		sched.Recv(p)
		*out = "ok"
	})
}

func TestSleepIsNoSynchronisation(t *testing.T) {
	f := func(out *string) {
		var a int32
		sched.Go(func() { vatomic.StoreInt32(&a, 1) })
		sched.Yield()
		*out = fmt.Sprint(vatomic.LoadInt32(&a))
	}
	want(t, sched.Opts{Bound: 1}, "0|1", f)
}

func TestSpin(t *testing.T) {
	want(t, sched.Opts{Bound: 2}, "1", func(out *string) {
		var a int32
		sched.Go(func() { vatomic.StoreInt32(&a, 1) })
		for vatomic.LoadInt32(&a) == 0 {
			sched.Yield()
		}
		*out = fmt.Sprint(vatomic.LoadInt32(&a))
	})
}

func TestWork(t *testing.T) {
	m := 0
	st := sched.Explore(sched.Opts{Bound: 2, WorkYield: true}, func() (func(), func(*sched.Exec) string) {
		return func() {
				p := make(chan struct{}, 2)
				sched.Send(p)(struct{}{})
				sched.Send(p)(struct{}{})
				var wg vsync.WaitGroup
				wg.Add(4)
				for i := 0; i < 4; i++ {
					sched.Go(func() {
						sched.Recv(p)
						sched.Work()
						sched.Send(p)(struct{}{})
						wg.Done()
					})
				}
				wg.Wait()
			}, func(e *sched.Exec) string {
				if e.MaxWork > m {
					m = e.MaxWork
				}
				return e.Problem()
			}
	})
	t.Logf("%+v", st)
	if m != 2 || st.Violation != "" || !st.Complete {
		t.Errorf("max work %d %s", m, st.Violation)
	}
}

func TestPhilosophers(t *testing.T) {
	want(t, unb, "deadlock|ok", func(out *string) {
		var f [3]vsync.Mutex
		var wg vsync.WaitGroup
		wg.Add(3)
		for i := range f {
			i := i
			sched.Go(func() {
				f[i].Lock()
				f[(i+1)%3].Lock()
				f[(i+1)%3].Unlock()
				f[i].Unlock()
				wg.Done()
			})
		}
		wg.Wait()
		*out = "ok"
	})
}

// Deferred functions run when an execution is cut: nothing they do counts, and they end.
func TestAbandonedDefers(t *testing.T) {
	for _, loop := range []bool{false, true} {
		var bad string
		st := sched.Explore(sched.Opts{Bound: 3, Races: races}, func() (func(), func(*sched.Exec) string) {
			return func() {
				var mu vsync.Mutex
				cond := vsync.NewCond(&mu)
				n, held := 0, 0
				done := make(chan int, 8)
				for i := 0; i < 3; i++ {
					sched.Go(func() {
						mu.Lock()
						for held > 1 {
							cond.Wait()
						}
						held++
						mu.Unlock()
						defer func() {
							if loop {
								mu.Lock()
								for held < 0 || sched.Aborting() {
									cond.Wait()
								}
								mu.Unlock()
							}
							mu.Lock()
							held--
							n++
							mu.Unlock()
							cond.Signal()
							sched.Send(done)(1)
						}()
						mu.Lock()
						n++
						mu.Unlock()
					})
				}
				for i := 0; i < 3; i++ {
					sched.Recv(done)
				}
				if n != 6 {
					bad = fmt.Sprint(n)
				}
			}, func(e *sched.Exec) string { return e.Problem() + bad }
		})
		if st.Violation != "" || !st.Complete {
			t.Errorf("loop=%v: %+v", loop, st)
		}
	}
}
