//go:build mcsched

package props

import (
	"fmt"

	"gkr-mimc/circuit"
	"gkr-mimc/gkr"
	"gkr-mimc/sumcheck"
	"verif/mc/ev"
	. "verif/mc/ref"
	"verif/mc/rt/sched"
)

func init() {
	ev.Register("C05/claim", c05claim)
	ev.Register("C05/prove", c05prove)
	ev.Register("C05/gkr", c05gkr)
	ev.Register("C05/race", c05race)
}

func schedInstance(bG, bN int, gs []Gate) *Instance {
	s := &Instance{VL: gens(10, 1<<uint(bG+bN)), VR: gens(200, 1<<uint(bG+bN)), EQ: gens(400, 1<<uint(bN)), Gates: gs}
	for i := range gs {
		s.ST = append(s.ST, gens(500+40*i, 1<<uint(2*bG)))
	}
	return s
}

func multiWork(s *Instance, n int, work bool) sumcheck.MultiThreadedProver {
	gs := gatesOf(s.Gates)
	if work {
		for i := range gs {
			gs[i] = workGate{gs[i]}
		}
	}
	return sumcheck.NewMultiThreadedProver(bkts(Chunk(s.VL, n)), bkts(Chunk(s.VR, n)), bkts(Chunk(s.EQ, n)), gs, bkts(s.ST))
}

type proveConfig struct {
	bG, bN, chunks, cores, bound int
	gates                        []Gate
	claim, prove                 bool
	delays                       bool
}

func (c proveConfig) String() string {
	s := ""
	if c.claim {
		s += "claim "
	}
	if c.prove {
		s += "proof "
	}
	return fmt.Sprintf("%sof a sumcheck with %d+%d+%d variables and %d gates, %d chunks, %d cores, %s", s, c.bG, c.bG, c.bN, len(c.gates), c.chunks, c.cores, boundName(c.bound, c.delays))
}

// run explores one configuration. work: the work of the goroutines is visible to the scheduler and limited.
func (c proveConfig) run(t *ev.T, work bool) {
	s := schedInstance(c.bG, c.bN, c.gates)
	tr := s.Prove()
	sum := s.Sum()
	explore(t, sched.Opts{Bound: c.bound, Delays: c.delays, WorkYield: work}, c.String(), func() (func(), func(e *sched.Exec) string) {
		p := multiWork(s, c.chunks, work)
		var claim E
		var pr sumcheck.Proof
		var qP, qL, qR, fin []E
		return func() {
				if c.claim {
					claim = p.GetClaim(c.cores)
				}
				if c.prove {
					pr, qP, qL, qR, fin = p.Prove(c.cores)
				}
			}, func(e *sched.Exec) string {
				if c.claim && claim != sum {
					return fmt.Sprintf("claim %s, the sum is %s", str(claim), str(sum))
				}
				if work {
					return workProblem(e, c.cores)
				}
				if c.prove {
					return sumTranscript(s, &tr, pr, qP, qL, qR, fin)
				}
				return ""
			}
	})
}

func workProblem(e *sched.Exec, cores int) string {
	if e.MaxWork > cores {
		return fmt.Sprintf("%d workers at the same time with %d cores", e.MaxWork, cores)
	}
	return e.LostPool
}

func c05claim(x *ev.X) {
	for _, chunks := range []int{1, 2, 4, 8} {
		for cores := 1; cores <= chunks+1; cores++ {
			for _, bN := range []int{2, 3} {
				c := proveConfig{bG: 1, bN: bN, chunks: chunks, cores: cores, bound: -1, gates: []Gate{gMul(), gAdd()}, claim: true}
				if chunks > 1<<uint(bN) || bN == 3 && chunks == 4 && !x.Thorough {
					continue
				}
				if chunks == 4 && !x.Thorough {
					c.bound = 3
				}
				if chunks == 8 {
					c.bound, c.delays = 2, true
					if cores == 2 {
						c.bound = 3
					}
					if x.Thorough {
						c.bound = 5
					}
				}
				x.Case(func(t *ev.T) { c.run(t, false) }, "%v", c)
			}
		}
	}
}

// c05configs: q and th are the bounds of the two tiers, plus 100 when they count deviations from the default schedule.
func c05configs(thorough bool) []proveConfig {
	g1 := []Gate{gMul()}
	g2 := []Gate{gCipher(gen(63)), gCopy()}
	var r []proveConfig
	add := func(bG, bN, chunks, cores, q, th int, gs []Gate, claim bool) {
		b := q
		if thorough {
			b = th
		}
		r = append(r, proveConfig{bG: bG, bN: bN, chunks: chunks, cores: cores, bound: b % 100, delays: b >= 100, gates: gs, claim: claim, prove: true})
	}
	for cores := 1; cores <= 5; cores++ {
		add(0, 2, 4, cores, 103, 106, g1, true)
		add(0, 3, 4, cores, 103, 105, g1, false)
		add(1, 2, 4, cores, 102, 104, g2, false)
	}
	for _, cores := range []int{1, 3, 8, 9} {
		add(0, 3, 8, cores, 102, 104, g1, false)
	}
	for cores := 1; cores <= 3; cores++ {
		add(1, 2, 2, cores, 103, 3, g1, true)
		add(1, 1, 2, cores, 2, -1, g2, false)
		add(0, 2, 2, cores, -1, -1, g1, false)
		add(0, 1, 2, cores, -1, -1, g1, true)
		add(1, 1, 1, cores, -1, -1, g2, false)
		add(1, 0, 1, cores, -1, -1, g2, true)
		add(0, 1, 1, cores, -1, -1, g1, true)
	}
	return r
}

func c05prove(x *ev.X) {
	for _, c := range c05configs(x.Thorough) {
		c := c
		x.Case(func(t *ev.T) { c.run(t, false) }, "%v", c)
	}
}

type gkrConfig struct {
	c                        Circuit
	bN, chunks, cores, bound int
	delays                   bool
}

func (c gkrConfig) String() string {
	return fmt.Sprintf("GKR proof of %s, 2^%d instances, %d chunks, %d cores, %s", circuitName(c.c), c.bN, c.chunks, c.cores, boundName(c.bound, c.delays))
}

func workCircuit(c Circuit, work bool) circuit.Circuit {
	if !work {
		return circuitOf(c)
	}
	var ws [][]circuit.Wire
	for _, l := range c {
		w := wiresOf(l)
		for i := range w {
			w[i].Gate = workGate{w[i].Gate}
		}
		ws = append(ws, w)
	}
	return circuit.NewCircuit(ws)
}

func (c gkrConfig) run(t *ev.T, work bool) {
	in := gens(0, 1<<uint(c.bN+c.c[0].BGIn()))
	qP, q := point(c.bN, c.c)
	want := c.c.Prove(in, qP, q)
	explore(t, sched.Opts{Bound: c.bound, Delays: c.delays, WorkYield: work}, c.String(), func() (func(), func(e *sched.Exec) string) {
		cc := workCircuit(c.c, work)
		a := cc.Assign(Chunk(in, c.chunks), c.cores)
		p := gkr.NewProver(cc, a)
		var pr gkr.Proof
		return func() { pr = p.Prove(c.cores) }, func(e *sched.Exec) string {
			if work {
				return workProblem(e, c.cores)
			}
			if !eqProof(refProof(pr), want) {
				return "the proof differs from the sequential one"
			}
			return ""
		}
	})
}

func gkrConfigs(thorough bool) []gkrConfig {
	var r []gkrConfig
	l1 := Layer{w(gMul(), 0, 0, 0)}
	l2 := Layer{w(gMul(), 0, 1, 0), w(gAdd(), 1, 0, 0)}
	l3 := Layer{w(gCopy(), 0, 0, 0), w(gCipher(gen(63)), 0, 1, 1)}
	add := func(c Circuit, bN, chunks, cores, q, th int) {
		b := q
		if thorough {
			b = th
		}
		r = append(r, gkrConfig{c, bN, chunks, cores, b % 100, b >= 100})
	}
	for cores := 1; cores <= 3; cores++ {
		add(Circuit{l3, l2}, 2, 4, cores, 101, 103)
		add(Circuit{l1}, 2, 4, cores, 102, 104)
		add(Circuit{l3, l2}, 1, 2, cores, 102, 104)
		add(Circuit{l2}, 1, 2, cores, 103, 105)
		add(Circuit{l1, l1}, 1, 2, cores, 103, 105)
		add(Circuit{l1}, 1, 2, cores, 1, 4)
		add(Circuit{l1}, 1, 1, cores, -1, -1)
	}
	return r
}

func c05gkr(x *ev.X) {
	for _, c := range gkrConfigs(x.Thorough) {
		c := c
		x.Case(func(t *ev.T) { c.run(t, false) }, "%v", c)
	}
}

// c05race repeats a part of the exploration with the race detector watching every access of every schedule.
func c05race(x *ev.X) {
	th := 0
	if x.Thorough {
		th = 1
	}
	g2 := []Gate{gCipher(gen(63)), gCopy()}
	l2 := Layer{w(gMul(), 0, 1, 0), w(gAdd(), 1, 0, 1)}
	for cores := 1; cores <= 3; cores++ {
		for _, c := range []gkrConfig{
			{Circuit{l2}, 2, 4, cores, 1 + th, true},
			{Circuit{l2, l2}, 1, 2, cores, 1 + th, true},
		} {
			c := c
			x.Case(func(t *ev.T) { c.run(t, false) }, "%v", c)
		}
		for _, c := range []proveConfig{
			{bG: 0, bN: 2, chunks: 4, cores: cores, bound: 2 + th, delays: true, gates: g2, claim: true, prove: true},
			{bG: 1, bN: 1, chunks: 2, cores: cores, bound: 3 + th, delays: true, gates: g2, prove: true},
			{bG: 0, bN: 2, chunks: 2, cores: cores, bound: 1 + th, gates: g2, prove: true},
			{bG: 1, bN: 1, chunks: 2, cores: cores, bound: 1 + th, gates: g2, claim: true},
		} {
			c := c
			x.Case(func(t *ev.T) { c.run(t, false) }, "%v", c)
		}
	}
}
