// Package sched is a cooperative scheduler which takes every scheduling decision of an instrumented program and
// enumerates them. Exactly one controlled goroutine runs at any time; it gives control back just before each
// synchronisation operation. The package is compiled without race instrumentation and uses no operation which the
// race detector takes for synchronisation, so that the detector sees the program's own edges only.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
	"unsafe"
)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skipframes int)

type kind uint8

const (
	kStart kind = iota
	kResume
	kSend
	kRecv
	kSelect
	kClose
	kLen
	kLock
	kUnlock
	kRLock
	kRUnlock
	kAdd
	kWait
	kRead
	kWrite
	kYield
	kWork
	kSpawn
)

var kindNames = [...]string{"start", "resume", "send", "receive", "select", "close", "len", "lock", "unlock", "rlock", "runlock", "wg.Add", "wg.Wait", "load", "store", "yield", "work", "go"}

// obj is the state of a synchronisation object in the current execution.
type obj struct {
	p      unsafe.Pointer
	idx    int
	h      uint64 // hash of the last ordering event
	r      uint64 // sum of the hashes of the commuting events
	isChan bool
	closed bool
	elem   uintptr
	sendH  []uint64
	recvH  []uint64
	closeH uint64
	// permit pool recognition: filled to capacity by one goroutine before anything else
	filler   *G
	filled   int
	nonFill  bool
	poolFull bool
	cycled   bool // permits were taken by the filler or given back by another goroutine
}

type alt struct {
	send bool
	o    *obj
	p    unsafe.Pointer
	do   func()
}

type op struct {
	kind   kind
	o      *obj
	en     func() bool
	alts   []alt
	hasDef bool
}

// G is a controlled goroutine.
type G struct {
	idx    int
	name   uint64
	h      uint64
	nspawn uint64
	pend   op
	sem    uint32
	done   bool
	inWork bool
	// rendezvous
	passive int // alternative to run as the passive side, -1 if none
	fired   int // alternative which was run as the passive side, -1 if none
	partner *G
	fn      func()
	label   string
}

type event struct {
	g    int
	k    kind
	o    int
	info int
}

type node struct {
	n, i int
	key  uint64
	cost int
	left int
}

type engine struct {
	on         bool
	aborting   bool
	nAbandoned int
	gs         []*G
	cur        *G
	last       *G
	objs       []*obj
	fp         uint64
	steps      int
	maxSteps   int
	budget     int
	path       []node
	d          int
	log        []event
	mainSem    uint32
	doneCh     chan int
	// results
	deadlock  bool
	livelock  bool
	pruned    bool
	diverged  bool
	panicked  string
	inWork    int
	maxWork   int
	workYield bool
	delays    bool
	order     Order
	cache     *table
	npre      int
}

var x engine

// foreign counts the live goroutines started outside of controlled executions.
var foreign int32

func mix(h uint64, vs ...uint64) uint64 {
	for _, v := range vs {
		h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

// On says that a controlled execution is running.
func On() bool { return x.on }

// Aborting says that the current execution is being abandoned.
func Aborting() bool { return x.aborting }

func (g *G) setH(h uint64) {
	x.fp -= mix(g.name, g.h)
	g.h = h
	x.fp += mix(g.name, h)
}

func newG(name, h uint64, fn func()) *G {
	g := &G{idx: len(x.gs), name: name, fn: fn, passive: -1, fired: -1}
	g.pend.kind = kStart
	g.h = h
	x.fp += mix(name, h)
	x.gs = pushG(x.gs, g)
	return g
}

func pushG(s []*G, g *G) []*G {
	if len(s) == cap(s) {
		n := make([]*G, len(s), 2*len(s)+16)
		for i := range s {
			n[i] = s[i]
		}
		s = n
	}
	s = s[:len(s)+1]
	s[len(s)-1] = g
	return s
}

func pushU(s []uint64, v uint64) []uint64 {
	if len(s) == cap(s) {
		n := make([]uint64, len(s), 2*len(s)+8)
		for i := range s {
			n[i] = s[i]
		}
		s = n
	}
	s = s[:len(s)+1]
	s[len(s)-1] = v
	return s
}

func getObj(p unsafe.Pointer) *obj {
	for i := len(x.objs) - 1; i >= 0; i-- {
		if x.objs[i].p == p {
			return x.objs[i]
		}
	}
	o := &obj{p: p, idx: len(x.objs)}
	if len(x.objs) == cap(x.objs) {
		n := make([]*obj, len(x.objs), 2*len(x.objs)+16)
		for i := range x.objs {
			n[i] = x.objs[i]
		}
		x.objs = n
	}
	x.objs = x.objs[:len(x.objs)+1]
	x.objs[len(x.objs)-1] = o
	return o
}

// Go starts a controlled goroutine (a plain one outside of controlled executions).
func Go(fn func()) {
	if !x.on {
		atomic.AddInt32(&foreign, 1)
		go func() {
			defer atomic.AddInt32(&foreign, -1)
			fn()
		}()
		return
	}
	if x.aborting {
		abandoned()
		return
	}
	p := x.cur
	p.nspawn++
	g := newG(mix(p.name, p.nspawn), mix(p.h, 77), fn)
	p.setH(mix(p.h, uint64(kSpawn)))
	logEv(p, kSpawn, nil, g.idx)
	go run(g)
}

func run(g *G) {
	defer end(g)
	semacquire(&g.sem)
	if x.aborting {
		return
	}
	g.fn()
}

func end(g *G) {
	if r := recover(); r != nil && !x.aborting && x.panicked == "" {
		x.panicked = fmt.Sprintf("goroutine %d panicked: %v\n%s", g.idx, r, trim(string(debug.Stack()), 2500))
	}
	leaveWork(g)
	raceLeave()
	g.done = true
	x.doneCh <- g.idx
	if x.aborting {
		semrelease(&x.mainSem, true, 0)
		return
	}
	if x.panicked != "" {
		semrelease(&x.mainSem, true, 0)
		return
	}
	switchFrom(g)
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func leaveWork(g *G) {
	if g.inWork {
		g.inWork = false
		x.inWork--
	}
}

func logEv(g *G, k kind, o *obj, info int) {
	oi := -1
	if o != nil {
		oi = o.idx
	}
	if len(x.log) < cap(x.log) {
		x.log = x.log[:len(x.log)+1]
		x.log[len(x.log)-1] = event{g.idx, k, oi, info}
	}
}

func chanLen(p unsafe.Pointer) int { return *(*int)(p) }
func chanCap(p unsafe.Pointer) int {
	return *(*int)(unsafe.Pointer(uintptr(p) + unsafe.Sizeof(int(0))))
}

// match returns a goroutine (and its alternative) waiting on the other side of an unbuffered channel.
func (g *G) matchN(a *alt, nth int) (*G, int) {
	for _, q := range x.gs {
		if q == g || q.done || q.pend.kind == kStart || q.pend.kind == kResume {
			continue
		}
		if q.pend.hasDef { // a select with default never waits
			continue
		}
		for j := range q.pend.alts {
			b := &q.pend.alts[j]
			if b.p == a.p && b.send != a.send {
				if nth == 0 {
					return q, j
				}
				nth--
				break
			}
		}
	}
	return nil, 0
}

func (g *G) altReady(a *alt) bool {
	if a.p == nil {
		return false
	}
	if a.o.closed {
		return true
	}
	if chanCap(a.p) == 0 {
		q, _ := g.matchN(a, 0)
		return q != nil
	}
	if a.send {
		return chanLen(a.p) < chanCap(a.p)
	}
	return chanLen(a.p) > 0
}

func (g *G) enabled() bool {
	switch {
	case g.done:
		return false
	case g.pend.hasDef:
		return true
	case g.pend.alts != nil:
		for i := range g.pend.alts {
			if g.altReady(&g.pend.alts[i]) {
				return true
			}
		}
		return false
	case g.pend.kind == kSelect: // select{} without cases
		return false
	case g.pend.en != nil:
		return g.pend.en()
	}
	return true
}

// decide takes a decision among n candidates; every candidate but the first costs cost preemptions.
func decide(n int, cost int, key uint64) int {
	if n == 1 || (cost > 0 && x.budget < cost) {
		return 0
	}
	d := x.d
	x.d++
	if d < len(x.path) {
		nd := &x.path[d]
		if nd.n != n || nd.key != key || nd.cost != cost {
			x.diverged = true
			return -1
		}
		if nd.i > 0 {
			x.budget -= cost
			x.npre += cost
		}
		return nd.i
	}
	if x.cache != nil && !x.cache.visit(key, x.budget) {
		x.pruned = true
		return -1
	}
	if len(x.path) == cap(x.path) {
		np := make([]node, len(x.path), 2*len(x.path)+64)
		for i := range x.path {
			np[i] = x.path[i]
		}
		x.path = np
	}
	x.path = x.path[:len(x.path)+1]
	x.path[d] = node{n: n, i: 0, key: key, cost: cost, left: x.budget}
	return 0
}

// choose returns the next goroutine to run, nil when none is enabled or the execution has to be abandoned.
func choose() (*G, bool) {
	for _, g := range x.gs { // invisible steps are run at once: they commute with everything
		if !g.done && (g.pend.kind == kStart || g.pend.kind == kResume) {
			return g, true
		}
	}
	last := x.last
	lastOK := last != nil && last.enabled() && last.pend.kind != kYield
	n := 0
	yielding := false
	for _, g := range x.gs {
		if g.enabled() {
			if g.pend.kind == kYield {
				yielding = true
				continue
			}
			n++
		}
	}
	back := n == 0
	if yielding && n > 0 && x.budget < 1<<20 {
		// coming back from a yield at once counts as a preemption
		i := decide(2, 1, mix(x.fp, 6))
		if i < 0 {
			return nil, false
		}
		back = i == 1
	}
	if yielding && back {
		n = 0
		for _, g := range x.gs {
			if g.enabled() && g.pend.kind == kYield {
				n++
			}
		}
		i := decide(n, 0, mix(x.fp, 5))
		if i < 0 {
			return nil, false
		}
		for _, g := range x.gs {
			if g.enabled() && g.pend.kind == kYield {
				if i == 0 {
					return g, true
				}
				i--
			}
		}
	}
	if n == 0 {
		return nil, true
	}
	cost := 0
	if lastOK || x.delays {
		cost = 1
	}
	ln := uint64(0)
	if last != nil {
		ln = last.name
	}
	i := decide(n, cost, mix(x.fp, ln, uint64(cost)))
	if i < 0 {
		return nil, false
	}
	if lastOK && x.order != RoundRobin {
		if i == 0 {
			return last, true
		}
		i--
	}
	m := len(x.gs)
	from := 0
	if x.order == RoundRobin && last != nil {
		from = last.idx + 1
	}
	for j := 0; j < m; j++ {
		g := x.gs[(from+j)%m]
		if x.order == Reverse {
			g = x.gs[m-1-j]
		}
		if !g.enabled() || g.pend.kind == kYield || (lastOK && g == last && x.order != RoundRobin) {
			continue
		}
		if i == 0 {
			return g, true
		}
		i--
	}
	panic("sched: bad choice")
}

// switchFrom gives control to the next goroutine. g is the caller, which is parked unless it is chosen or done.
func switchFrom(g *G) {
	raceLeave()
	next, ok := choose()
	if !ok {
		semrelease(&x.mainSem, true, 0) // abandoned
		if !g.done {
			park(g)
		}
		return
	}
	if next == nil {
		for _, q := range x.gs {
			if !q.done {
				x.deadlock = true
			}
		}
		semrelease(&x.mainSem, true, 0)
		if !g.done {
			park(g)
		}
		return
	}
	if next.pend.kind != kStart && next.pend.kind != kResume {
		x.last = next
	}
	if next == g {
		return
	}
	x.cur = next
	semrelease(&next.sem, true, 0)
	if !g.done {
		park(g)
	}
}

func park(g *G) {
	for {
		semacquire(&g.sem)
		if x.aborting {
			raceAbandon()
			runtime.Goexit()
		}
		if g.passive < 0 {
			return
		}
		// passive side of a rendezvous: run the native operation, then wait to be scheduled
		i := g.passive
		g.passive, g.fired = -1, i
		g.pend.alts[i].do()
		raceLeave()
		semrelease(&g.partner.sem, true, 0)
	}
}

// point announces an operation and returns when it may be executed.
func point(g *G, o op) {
	if o.kind != kWork {
		leaveWork(g)
	}
	g.pend = o
	x.steps++
	if x.steps > x.maxSteps {
		x.livelock = true
		raceLeave()
		semrelease(&x.mainSem, true, 0)
		park(g)
		return
	}
	switchFrom(g)
}

// abandoned counts the operations executed by deferred functions while the execution is being abandoned, where nothing
// is waited for: a loop which waits for a condition would not end.
func abandoned() {
	if !x.on {
		return
	}
	x.nAbandoned++
	if x.nAbandoned > 1000 {
		runtime.Goexit()
	}
}

// total executes an operation ordered with all others on the same object.
func opTotal(p unsafe.Pointer, k kind, en func() bool) bool {
	if x.aborting {
		abandoned()
		return false
	}
	g := x.cur
	o := getObj(p)
	point(g, op{kind: k, o: o, en: en})
	h := mix(g.h, o.h, o.r, uint64(k))
	g.setH(h)
	o.h, o.r = h, 0
	logEv(g, k, o, 0)
	return true
}

func opRead(p unsafe.Pointer, k kind) bool {
	if x.aborting {
		abandoned()
		return false
	}
	g := x.cur
	o := getObj(p)
	point(g, op{kind: k, o: o})
	h := mix(g.h, o.h, uint64(k))
	g.setH(h)
	o.r += mix(h, 3)
	logEv(g, k, o, 0)
	return true
}

// Exported hooks of the synchronisation packages. They return false when the execution is being abandoned.

// Lock waits until free() and orders the operation on the object.
func Lock(p unsafe.Pointer, free func() bool) bool { return opTotal(p, kLock, free) }

// Unlock orders the operation on the object.
func Unlock(p unsafe.Pointer) bool { return opTotal(p, kUnlock, nil) }

// Write is an atomic update.
func Write(p unsafe.Pointer) bool { return opTotal(p, kWrite, nil) }

// Read is an atomic load.
func Read(p unsafe.Pointer) bool { return opRead(p, kRead) }

// WgAdd is an operation on a wait group which commutes with other additions.
func WgAdd(p unsafe.Pointer, delta int) bool {
	if x.aborting {
		abandoned()
		return false
	}
	g := x.cur
	o := getObj(p)
	point(g, op{kind: kAdd, o: o})
	h := mix(g.h, o.h, uint64(kAdd), uint64(delta))
	g.setH(h)
	o.r += mix(h, 3)
	logEv(g, kAdd, o, delta)
	return true
}

// WgWait waits until zero().
func WgWait(p unsafe.Pointer, zero func() bool) bool {
	if x.aborting {
		abandoned()
		return false
	}
	g := x.cur
	o := getObj(p)
	point(g, op{kind: kWait, o: o, en: zero})
	h := mix(g.h, o.r, uint64(kWait))
	g.setH(h)
	o.h += mix(h, 5)
	logEv(g, kWait, o, 0)
	return true
}

// Yield lets the others run (runtime.Gosched, time.Sleep).
func Yield() {
	if !x.on {
		runtime.Gosched()
		return
	}
	if x.aborting {
		abandoned()
		return
	}
	g := x.cur
	point(g, op{kind: kYield})
	g.setH(mix(g.h, uint64(kYield)))
	logEv(g, kYield, nil, 0)
}

// After is time.After where any amount of time may have passed: the timer fires at any moment.
func After(d time.Duration) <-chan time.Time {
	if !x.on || x.aborting {
		return time.After(d)
	}
	c := make(chan time.Time, 1)
	Go(func() { Send(c)(time.Time{}.Add(d)) })
	return c
}

// Work marks the beginning of limited work (gate evaluation, copy) in the current segment of the goroutine.
func Work() {
	if !x.on || x.aborting || !x.workYield {
		return
	}
	g := x.cur
	if g.inWork || g.idx == 0 {
		return
	}
	g.inWork = true
	x.inWork++
	if x.inWork > x.maxWork {
		x.maxWork = x.inWork
	}
	point(g, op{kind: kWork})
	g.setH(mix(g.h, uint64(kWork)))
	logEv(g, kWork, nil, 0)
}
