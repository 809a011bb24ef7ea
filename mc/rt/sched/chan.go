package sched

import (
	"reflect"
	"unsafe"
)

// The generic wrappers are compiled in the packages that use them: they only touch their own variables.

func ptr[C any](c *C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(c)) }

// Send returns the function which sends its argument on the channel.
func Send[T any](c chan<- T) func(T) {
	if !x.on {
		return func(v T) { c <- v }
	}
	return func(v T) {
		var z T
		chanOp(ptr(&c), true, unsafe.Sizeof(z), func() { c <- v })
	}
}

// Recv receives.
func Recv[T any](c <-chan T) (v T) {
	if !x.on {
		return <-c
	}
	chanOp(ptr(&c), false, unsafe.Sizeof(v), func() { v = <-c })
	return
}

// Recv2 receives with the second result.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	if !x.on {
		v, ok = <-c
		return
	}
	chanOp(ptr(&c), false, unsafe.Sizeof(v), func() { v, ok = <-c })
	return
}

// Close closes.
func Close[T any](c chan<- T) {
	if !x.on {
		close(c)
		return
	}
	if closeOp(ptr(&c)) {
		close(c)
	}
}

// Len is len(c).
func Len[T any](c <-chan T) int {
	if x.on {
		lenOp(ptr(&c))
	}
	return len(c)
}

// SelCase is a case of a select.
type SelCase interface {
	alternative() alt
	native() reflect.SelectCase
	received(v reflect.Value, ok bool)
}

type sendCase struct {
	a    alt
	c, v interface{}
}

func (s *sendCase) alternative() alt { return s.a }
func (s *sendCase) native() reflect.SelectCase {
	v := reflect.ValueOf(s.v)
	if !v.IsValid() {
		v = reflect.Zero(reflect.TypeOf(s.c).Elem())
	}
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: v}
}
func (s *sendCase) received(reflect.Value, bool) {}

// RecvCase is a receiving case.
type RecvCase[T any] struct {
	V  T
	OK bool
	a  alt
	c  <-chan T
}

func (s *RecvCase[T]) alternative() alt { return s.a }
func (s *RecvCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.c)}
}
func (s *RecvCase[T]) received(v reflect.Value, ok bool) {
	s.OK = ok
	if ok {
		s.V = v.Interface().(T)
	}
}

// SelSend is a sending case.
func SelSend[T any](c chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		return mkSend(ptr(&c), c, v, func() { c <- v })
	}
}

func mkSend(p unsafe.Pointer, c, v interface{}, do func()) SelCase {
	return &sendCase{alt{send: true, p: p, do: do}, c, v}
}

// SelRecv is a receiving case.
func SelRecv[T any](c <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{c: c}
	r.a = alt{p: ptr(&c), do: func() { r.V, r.OK = <-c }}
	return r
}

func chanObj(p unsafe.Pointer) *obj {
	if p == nil {
		return nil
	}
	o := getObj(p)
	o.isChan = true
	return o
}

func chanOp(p unsafe.Pointer, send bool, elem uintptr, do func()) {
	if x.aborting {
		abandoned()
		return
	}
	g := x.cur
	o := chanObj(p)
	if o != nil {
		o.elem = elem
	}
	k := kRecv
	if send {
		k = kSend
	}
	g.pend.alts = nil
	point(g, op{kind: k, o: o, alts: []alt{{send: send, o: o, p: p, do: do}}})
	if g.fired >= 0 {
		g.fired = -1
		return
	}
	fire(g, 0)
}

// fire executes the ready alternative i of g.
func fire(g *G, i int) {
	a := &g.pend.alts[i]
	o := a.o
	if !o.closed && chanCap(a.p) == 0 {
		n := 0
		for {
			if q, _ := g.matchN(a, n); q == nil {
				break
			}
			n++
		}
		c := decide(n, 0, mix(x.fp, g.name, 11))
		if c < 0 {
			semrelease(&x.mainSem, true, 0)
			park(g)
		}
		q, j := g.matchN(a, c)
		h := mix(o.h, o.closeH, 13)
		if a.send {
			h = mix(h, g.h, q.h)
		} else {
			h = mix(h, q.h, g.h)
		}
		o.h = h
		g.setH(mix(h, 1, uint64(i)))
		q.setH(mix(h, 2, uint64(j)))
		logEv(g, g.pend.kind, o, i)
		logEv(q, q.pend.kind, o, j)
		// both sides run the native operation
		q.passive, q.partner = j, g
		semrelease(&q.sem, true, 0)
		a.do()
		semacquire(&g.sem)
		q.pend.kind, q.pend.hasDef, q.pend.en = kResume, false, nil
		q.pend.alts = nil
		q.pend.o = nil
		return
	}
	h := mix(g.h, o.closeH, o.r, o.h, uint64(i))
	switch {
	case a.send:
		h = mix(h, uint64(kSend))
		if n := len(o.sendH); n > 0 {
			h = mix(h, o.sendH[n-1])
		}
		if c := chanCap(a.p); len(o.sendH) >= c && len(o.sendH)-c < len(o.recvH) {
			h = mix(h, o.recvH[len(o.sendH)-c])
		}
		o.sendH = pushU(o.sendH, h)
		if o.poolFull {
			o.cycled = o.cycled || g != o.filler
		} else {
			if o.filler == nil {
				o.filler = g
			}
			if o.filler == g && !o.nonFill {
				o.filled++
				o.poolFull = o.filled == chanCap(a.p)
			} else {
				o.nonFill = true
			}
		}
	case o.closed && chanLen(a.p) == 0:
		h = mix(h, uint64(kRecv), 99)
		if n := len(o.recvH); n > 0 {
			h = mix(h, o.recvH[n-1])
		}
	default:
		h = mix(h, uint64(kRecv))
		n := len(o.recvH)
		if n > 0 {
			h = mix(h, o.recvH[n-1])
		}
		if n < len(o.sendH) {
			h = mix(h, o.sendH[n])
		}
		o.recvH = pushU(o.recvH, h)
		if o.poolFull {
			o.cycled = o.cycled || g == o.filler
		} else {
			o.nonFill = true
		}
	}
	g.setH(h)
	logEv(g, g.pend.kind, o, i)
	a.do()
}

func closeOp(p unsafe.Pointer) bool {
	if x.aborting {
		abandoned()
		return false
	}
	g := x.cur
	o := chanObj(p)
	point(g, op{kind: kClose, o: o})
	if o != nil {
		h := mix(g.h, o.closeH, o.r, o.h, uint64(kClose))
		if n := len(o.sendH); n > 0 {
			h = mix(h, o.sendH[n-1])
		}
		if n := len(o.recvH); n > 0 {
			h = mix(h, o.recvH[n-1])
		}
		g.setH(h)
		o.closeH = h
		o.closed = true
		logEv(g, kClose, o, 0)
	}
	return true
}

func observe(g *G, o *obj) {
	h := mix(g.h, o.closeH, o.h, uint64(kLen))
	if n := len(o.sendH); n > 0 {
		h = mix(h, o.sendH[n-1])
	}
	if n := len(o.recvH); n > 0 {
		h = mix(h, o.recvH[n-1])
	}
	g.setH(h)
	o.r += mix(h, 7)
}

func lenOp(p unsafe.Pointer) {
	if x.aborting || p == nil {
		abandoned()
		return
	}
	g := x.cur
	o := chanObj(p)
	point(g, op{kind: kLen, o: o})
	observe(g, o)
	logEv(g, kLen, o, 0)
}

// Select executes a select statement and returns the index of the case, -1 for the default.
func Select(hasDef bool, cases ...SelCase) int {
	if !x.on {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.native())
		}
		if hasDef {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].received(v, ok)
		return i
	}
	if x.aborting {
		abandoned()
		return -1
	}
	g := x.cur
	alts := make([]alt, len(cases))
	for i := range cases {
		alts[i] = cases[i].alternative()
		alts[i].o = chanObj(alts[i].p)
	}
	if len(alts) == 0 {
		alts = nil
	}
	point(g, op{kind: kSelect, alts: alts, hasDef: hasDef})
	if i := g.fired; i >= 0 {
		g.fired = -1
		return i
	}
	n := 0
	rendezvous := true
	for i := range alts {
		if g.altReady(&alts[i]) {
			n++
			rendezvous = rendezvous && !alts[i].o.closed && chanCap(alts[i].p) == 0
		}
	}
	c := 0
	if n > 0 {
		m := n
		if hasDef && rendezvous {
			m++ // the other side is about to arrive: it may be too late for it
		}
		c = decide(m, 0, mix(x.fp, g.name, 12))
		if c < 0 {
			semrelease(&x.mainSem, true, 0)
			park(g)
		}
	}
	if c == n {
		for i := range alts {
			if alts[i].o != nil {
				observe(g, alts[i].o)
			}
		}
		logEv(g, kSelect, nil, -1)
		return -1
	}
	for i := range alts {
		if g.altReady(&alts[i]) {
			if c == 0 {
				g.pend.hasDef = false
				fire(g, i)
				return i
			}
			c--
		}
	}
	panic("sched: bad select choice")
}
