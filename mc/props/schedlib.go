//go:build mcsched

package props

import (
	"fmt"
	"os"
	"strings"
	"time"

	"gkr-mimc/circuit"
	"verif/mc/ev"
	"verif/mc/rt/sched"

	"github.com/consensys/gurvy/bn256/fr"
)

var orderNames = []string{"", "around youngest first", "around round robin"}

// explore runs all schedules within the bound; check judges a finished execution.
func explore(t *ev.T, o sched.Opts, what string, setup func() (func(), func(e *sched.Exec) string)) sched.Stats {
	o.Stop = t.X.Expired
	o.Beat = t.X.Beat
	o.Races = raceErrors()
	if o.Delays {
		// the bound around the three default schedules (one less around the other two when it is large)
		if o.Order == sched.Oldest {
			b := o.Bound
			if b > 2 {
				o.Bound--
			}
			for _, or := range []sched.Order{sched.Reverse, sched.RoundRobin} {
				o.Order = or
				explore(t, o, fmt.Sprintf("%s (%s, %d)", what, orderNames[or], o.Bound), setup)
			}
			o.Order, o.Bound = sched.Oldest, b
		}
	}
	t0 := time.Now()
	st := sched.Explore(o, func() (func(), func(e *sched.Exec) string) {
		body, check := setup()
		return body, func(e *sched.Exec) string {
			if p := e.Problem(); p != "" {
				return p
			}
			return check(e)
		}
	})
	if os.Getenv("MC_LOG") != "" {
		f, _ := os.OpenFile(os.Getenv("MC_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		fmt.Fprintf(f, "%6.1fs %8d %v %s\n", time.Since(t0).Seconds(), st.Execs, st.Complete, what)
		f.Close()
	}
	t.Count("schedules", int(st.Execs))
	t.Count("schedules_pruned_as_equivalent", int(st.Pruned))
	t.Max("goroutines", int64(st.MaxThreads))
	t.Max("decisions_in_a_schedule", int64(st.MaxDepth))
	t.Max("simultaneous_workers", int64(st.MaxWork))
	t.States(st.States)
	t.Traces(st.Execs)
	t.Trans(int(st.Steps))
	if st.Violation != "" {
		if strings.HasPrefix(st.Violation, "data race") {
			st.Violation += raceReport()
		}
		t.Failf("%s: %s", what, st.Violation)
	}
	if st.Nondet {
		t.X.Truncate("%s: the code under test is not deterministic under a fixed schedule", what)
	} else if !st.Complete {
		t.X.Truncate("%s: deadline reached after %d schedules", what, st.Execs)
	}
	return st
}

// raceReport is the text of the first report of the race detector.
func raceReport() string {
	b, _ := os.ReadFile(fmt.Sprintf("%s/race.%d", os.Getenv("MC_SCRATCH"), os.Getpid()))
	if len(b) > 5000 {
		b = b[:5000]
	}
	return "\n" + string(b)
}

func boundName(b int, delays bool) string {
	if b < 0 {
		return "all interleavings"
	}
	if delays {
		return fmt.Sprintf("at most %d deviations from the default schedule", b)
	}
	return fmt.Sprintf("at most %d preemptions", b)
}

// workGate reports every evaluation to the scheduler.
type workGate struct{ circuit.Gate }

func (w workGate) Eval(res, vL, vR *fr.Element) {
	sched.Work()
	w.Gate.Eval(res, vL, vR)
}

func (w workGate) EvalManyVL(res, vLs []fr.Element, vR *fr.Element) {
	sched.Work()
	w.Gate.EvalManyVL(res, vLs, vR)
}

func (w workGate) EvalManyVR(res []fr.Element, vL *fr.Element, vRs []fr.Element) {
	sched.Work()
	w.Gate.EvalManyVR(res, vL, vRs)
}
