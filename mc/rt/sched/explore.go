package sched

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

// table remembers the visited states with the preemption budget they were explored with.
type table struct {
	keys []uint64
	bud  []int8
	n    int
}

func newTable() *table { return &table{keys: make([]uint64, 1<<12), bud: make([]int8, 1<<12)} }

// visit returns false when the state was already explored with at least this budget.
func (t *table) visit(k uint64, budget int) bool {
	if budget > 100 {
		budget = 100
	}
	if k == 0 {
		k = 1
	}
	m := uint64(len(t.keys) - 1)
	for i := k & m; ; i = (i + 1) & m {
		if t.keys[i] == k {
			if int(t.bud[i]) >= budget {
				return false
			}
			t.bud[i] = int8(budget)
			return true
		}
		if t.keys[i] == 0 {
			t.keys[i], t.bud[i] = k, int8(budget)
			t.n++
			if 2*t.n > len(t.keys) {
				ok, ob := t.keys, t.bud
				t.keys, t.bud = make([]uint64, 2*len(ok)), make([]int8, 2*len(ob))
				m := uint64(len(t.keys) - 1)
				for j := range ok {
					if ok[j] != 0 {
						i := ok[j] & m
						for t.keys[i] != 0 {
							i = (i + 1) & m
						}
						t.keys[i], t.bud[i] = ok[j], ob[j]
					}
				}
			}
			return true
		}
	}
}

// Exec describes a complete execution.
type Exec struct {
	Panic    string
	Deadlock bool
	Livelock bool
	RootDone bool
	Stuck    []string // goroutines which never end and the operation they wait for
	MaxWork  int
	LostPool string // a pool of permits which is not full at the end
	Races    int
	Steps    int
	Threads  int
	Preempt  int
}

// Order of the default schedule, from which the deviations are counted.
type Order int

const (
	Oldest     Order = iota // a goroutine runs until it waits; the oldest one which can run goes on
	Reverse                 // likewise, with the youngest one
	RoundRobin              // every operation is followed by one of the next goroutine
)

// Opts of an exploration.
type Opts struct {
	Bound     int  // preemptions; negative: unbounded
	Delays    bool // the bound counts every deviation from the default schedule, not only preemptions
	Order     Order
	MaxSteps  int
	WorkYield bool
	Stop      func() bool // deadline
	Beat      func()
	Races     func() int
	NoCache   bool
	Schedule  []int
}

// Stats of an exploration.
type Stats struct {
	Execs, Pruned, Steps int64
	States               int64
	Points               int64
	MaxThreads           int
	MaxDepth             int
	MaxWork              int
	Complete             bool
	Nondet               bool
	Violation            string
}

// Explore runs every schedule of body within the bound. setup builds a fresh world and returns the body and the
// check of the finished execution, which returns the description of a violation or "".
func Explore(o Opts, setup func() (body func(), check func(e *Exec) string)) (st Stats) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 50000
	}
	var cache *table
	if !o.NoCache {
		cache = newTable()
	}
	var path []node
	for {
		e, ok := runOne(o, setup, path, cache, &st)
		path = x.path
		if x.diverged {
			st.Nondet = true
			return
		}
		if ok.viol != "" {
			st.Violation = ok.viol
			// the same schedule has to fail again
			sched := make([]node, len(path))
			copy(sched, path)
			log := x.trace()
			again := 0
			for r := 0; r < 3; r++ {
				_, k := runOne(o, setup, sched, nil, &st)
				if k.viol != "" {
					again++
				}
			}
			st.Violation += fmt.Sprintf("\n(the same schedule fails again in %d of 3 runs)\nschedule: %s", again, log)
			if again == 0 && e.Races == 0 {
				st.Violation = ""
				st.Nondet = true
			}
			return
		}
		if o.Beat != nil {
			o.Beat()
		}
		if o.Schedule != nil {
			return
		}
		// backtrack
		i := len(path) - 1
		for i >= 0 && path[i].i+1 >= path[i].n {
			i--
		}
		if i < 0 {
			st.Complete = true
			if cache != nil {
				st.States = int64(cache.n)
			}
			return
		}
		path = path[:i+1]
		path[i].i++
		if o.Stop != nil && o.Stop() {
			if cache != nil {
				st.States = int64(cache.n)
			}
			return
		}
	}
}

// waitForeign waits until the goroutines started outside of controlled executions have ended: what is left of them
// would be taken for an operation of a controlled goroutine.
func waitForeign() {
	for i := 0; i < 3000 && atomic.LoadInt32(&foreign) > 0; i++ {
		if i < 1000 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

type outcome struct{ viol string }

func runOne(o Opts, setup func() (func(), func(*Exec) string), path []node, cache *table, st *Stats) (*Exec, outcome) {
	body, check := setup()
	waitForeign()
	races := 0
	if o.Races != nil {
		races = o.Races()
	}
	log := x.log
	if cap(log) == 0 {
		log = make([]event, 0, 20000)
	}
	x = engine{maxSteps: o.MaxSteps, budget: o.Bound, path: path, cache: cache, workYield: o.WorkYield, delays: o.Delays, order: o.Order, log: log[:0],
		doneCh: make(chan int, 4096), gs: make([]*G, 0, 64), objs: make([]*obj, 0, 64)}
	if o.Bound < 0 {
		x.budget = 1 << 30
	}
	root := newG(1, 1, body)
	x.on = true
	x.cur = root
	go run(root)
	semrelease(&root.sem, true, 0)
	semacquire(&x.mainSem)
	e := &Exec{Panic: x.panicked, Deadlock: x.deadlock, Livelock: x.livelock, MaxWork: x.maxWork, Steps: x.steps, Threads: len(x.gs), Preempt: x.npre}
	e.RootDone = root.done
	finished := 0
	for _, g := range x.gs {
		if g.done {
			finished++
		} else {
			e.Stuck = append(e.Stuck, g.describe())
		}
	}
	if !x.pruned && !x.diverged && x.panicked == "" && !x.deadlock && !x.livelock {
		for _, c := range x.objs {
			if c.isChan && c.poolFull && c.cycled && c.filler == root && c.elem == 0 && chanCap(c.p) > 0 && chanLen(c.p) != chanCap(c.p) {
				e.LostPool = fmt.Sprintf("a pool of %d permits holds %d at the end", chanCap(c.p), chanLen(c.p))
			}
		}
	}
	// end the remaining goroutines
	x.aborting = true
	for _, g := range x.gs {
		if !g.done {
			x.cur = g
			g.passive = -1
			x.nAbandoned = 0
			semrelease(&g.sem, true, 0)
			semacquire(&x.mainSem)
		}
	}
	x.on = false
	for range x.gs {
		<-x.doneCh
	}
	x.aborting = false
	st.Steps += int64(x.steps)
	st.Points += int64(len(x.path))
	if len(x.gs) > st.MaxThreads {
		st.MaxThreads = len(x.gs)
	}
	if x.d > st.MaxDepth {
		st.MaxDepth = x.d
	}
	if e.MaxWork > st.MaxWork {
		st.MaxWork = e.MaxWork
	}
	if o.Races != nil {
		e.Races = o.Races() - races
	}
	if e.Races > 0 {
		return e, outcome{fmt.Sprintf("data race (%d reports of the race detector)", e.Races)}
	}
	if x.diverged {
		return e, outcome{}
	}
	if x.pruned {
		st.Pruned++
		return e, outcome{}
	}
	st.Execs++
	return e, outcome{check(e)}
}

func (g *G) describe() string {
	s := fmt.Sprintf("goroutine %d waits at %s", g.idx, kindNames[g.pend.kind])
	if g.pend.o != nil {
		s += fmt.Sprintf(" of object %d", g.pend.o.idx)
		if g.pend.o.isChan {
			s += fmt.Sprintf(" (channel, %d of %d)", chanLen(g.pend.o.p), chanCap(g.pend.o.p))
		}
	}
	return s
}

func (e *engine) trace() string {
	var b strings.Builder
	n := len(e.log)
	lastG := -1
	for i, ev := range e.log {
		if i > 400 && i < n-50 {
			continue
		}
		if ev.g != lastG {
			fmt.Fprintf(&b, " [%d]", ev.g)
			lastG = ev.g
		}
		fmt.Fprintf(&b, " %s", kindNames[ev.k])
		if ev.o >= 0 {
			fmt.Fprintf(&b, "#%d", ev.o)
		}
		if ev.k == kSpawn {
			fmt.Fprintf(&b, "->%d", ev.info)
		}
	}
	return b.String()
}

// Problem describes what went wrong in general: crash, deadlock, endless run, stuck goroutine.
func (e *Exec) Problem() string {
	switch {
	case e.Panic != "":
		return e.Panic
	case e.Livelock:
		return fmt.Sprintf("still running after %d steps", e.Steps)
	case e.Deadlock && !e.RootDone:
		return "deadlock: " + strings.Join(e.Stuck, "; ")
	case e.Deadlock:
		return "stuck worker after the call returned: " + strings.Join(e.Stuck, "; ")
	}
	return ""
}
