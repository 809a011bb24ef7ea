// Package ev is the worker side of the checks: enumeration of cases, accounting, failures.
package ev

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// Failure is one observed violation.
type Failure struct {
	Case   int64  `json:"case"`
	Desc   string `json:"desc"`
	Detail string `json:"detail"`
}

// Result is what a worker reports.
type Result struct {
	Cases       int64            `json:"cases"`
	Enumerated  int64            `json:"enumerated"`
	Skipped     int64            `json:"skipped"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Truncated   bool             `json:"truncated"`
	Notes       []string         `json:"notes"`
	Samples     []string         `json:"samples"`
	Fails       []Failure        `json:"fails"`
	Known       []string         `json:"known"`
	Counters    map[string]int64 `json:"counters"`
	Maxima      map[string]int64 `json:"maxima"`
	Finished    bool             `json:"finished"`
	MoreStates  int64            `json:"more_states"`
}

// X is the enumeration context.
type X struct {
	Prop, Phase string
	Thorough    bool
	Seed        int64
	shard, n    int64
	only        int64
	from        int64
	until       int64
	idx         int64
	beats       uint64
	claims      string
	deadline    time.Time
	progress    *os.File
	out         string
	res         Result
	states      map[uint64]struct{}
	outcomes    map[uint64]struct{}
	known       map[string]bool
	Replay      string
	rotate      bool
}

// rotation is the number of processors given to successive cases.
var rotation = []int{2, 1, 3, 8, 5, 2, 4}

// T is one case.
type T struct {
	X    *X
	Idx  int64
	desc func() string
	keep bool
}

type failSentinel struct{ detail string }

var phases = map[string]func(*X){}

// Register declares the enumeration of a phase ("C10/ops").
func Register(name string, f func(*X)) {
	if phases[name] != nil {
		panic("duplicate phase " + name)
	}
	phases[name] = f
}

// Main runs a worker.
func Main() {
	phase := flag.String("phase", "", "prop/phase")
	shard := flag.Int64("shard", 0, "")
	n := flag.Int64("n", 1, "")
	only := flag.Int64("only", -1, "run only this case")
	from := flag.Int64("from", 0, "skip the cases before this one")
	until := flag.Int64("until", -1, "skip the cases after this one")
	tier := flag.String("tier", "quick", "")
	secs := flag.Float64("deadline", 1e9, "")
	out := flag.String("out", "", "")
	progress := flag.String("progress", "", "")
	knownf := flag.String("known", "", "")
	seed := flag.Int64("seed", 1, "")
	procs := flag.Int("procs", 2, "")
	replay := flag.String("replay", "", "recorded schedule to replay")
	claims := flag.String("claims", "", "prefix of the files by which the workers share the cases")
	flag.Parse()
	if *procs > 0 {
		runtime.GOMAXPROCS(*procs)
	}
	f := phases[*phase]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown phase", *phase)
		os.Exit(3)
	}
	x := &X{rotate: *procs == 0, Phase: *phase, Prop: strings.SplitN(*phase, "/", 2)[0], Thorough: *tier == "thorough", shard: *shard, n: *n, only: *only, from: *from, until: *until,
		Seed: *seed, deadline: time.Now().Add(time.Duration(*secs * float64(time.Second))), out: *out, Replay: *replay, claims: *claims,
		states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, known: map[string]bool{}}
	x.res.Counters = map[string]int64{}
	x.res.Maxima = map[string]int64{}
	if *progress != "" {
		p, err := os.OpenFile(*progress, os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			panic(err)
		}
		x.progress = p
	}
	if *knownf != "" {
		fd, err := os.Open(*knownf)
		if err == nil {
			s := bufio.NewScanner(fd)
			for s.Scan() {
				l := s.Text()
				if strings.HasPrefix(l, "finding: property="+x.Prop+" ") {
					for _, w := range strings.Fields(l) {
						if strings.HasPrefix(w, "key=") {
							x.known[w[4:]] = true
						}
					}
				}
			}
			fd.Close()
		}
	}
	f(x)
	x.res.Finished = true
	x.res.Enumerated = x.idx
	x.flush()
}

func (x *X) flush() {
	if x.out == "" {
		b, _ := json.MarshalIndent(x.res, "", " ")
		fmt.Printf("%s\nstates=%d\n", b, len(x.states))
		return
	}
	b, _ := json.Marshal(x.res)
	dump := func(name string, m map[uint64]struct{}) {
		buf := make([]byte, 0, 8*len(m))
		for h := range m {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		if err := os.WriteFile(name, buf, 0o644); err != nil {
			panic(err)
		}
	}
	dump(x.out+".states", x.states)
	dump(x.out+".outcomes", x.outcomes)
	if err := os.WriteFile(x.out, b, 0o644); err != nil {
		panic(err)
	}
}

// Expired says that the internal deadline has passed.
func (x *X) Expired() bool { return time.Now().After(x.deadline) }

// Remaining time before the internal deadline.
func (x *X) Remaining() time.Duration { return time.Until(x.deadline) }

// Truncate records that something was not fully explored.
func (x *X) Truncate(format string, a ...interface{}) {
	x.res.Truncated = true
	if len(x.res.Notes) < 20 {
		x.res.Notes = append(x.res.Notes, fmt.Sprintf(format, a...))
	}
}

// Beat tells the driver that the case is still making progress.
func (x *X) Beat() {
	x.beats++
	if x.progress != nil && x.beats%256 == 1 {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], x.beats)
		x.progress.WriteAt(b[:], 8)
	}
}

// settings changes the environment from case to case: what the library does may not depend on the settings of its
// benchmarks, nor on such as a change could introduce under their names.
func settings(idx int64) {
	k := uint64(idx) * 0x9e3779b97f4a7c15 >> 62
	for i, name := range []string{"BN_GKR", "NCHUNKS_GKR", "NPROCESSES_ENV", "PROFILE_GKR", "TRACE_GKR"} {
		if k < 2 {
			os.Unsetenv(name)
		} else {
			os.Setenv(name, [][]string{{"3", "2", "64", "1", "1"}, {"0", "1", "1", "0", "0"}}[k-2][i])
		}
	}
}

// Case runs one case when it belongs to this worker. Cases have to be enumerated in a deterministic order.
func (x *X) Case(f func(t *T), format string, a ...interface{}) {
	idx := x.idx
	x.idx++
	if x.only >= 0 {
		if idx != x.only {
			return
		}
	} else {
		if x.claims == "" && idx%x.n != x.shard || idx < x.from || x.until >= 0 && idx > x.until {
			return
		}
		if len(x.res.Fails) >= 3 {
			return
		}
		if x.claims != "" {
			f, err := os.OpenFile(x.claims+strconv.FormatInt(idx, 10), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o600)
			if err != nil {
				return
			}
			f.Close()
		}
		if x.Expired() {
			x.res.Skipped++
			if x.res.Skipped == 1 {
				x.Truncate("deadline reached before case %d", idx)
			}
			return
		}
	}
	if x.progress != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx)+1)
		x.progress.WriteAt(b[:], 0)
	}
	t := &T{X: x, Idx: idx, desc: func() string { return fmt.Sprintf(format, a...) }}
	x.res.Cases++
	if n := rotation[idx%int64(len(rotation))]; x.rotate && n != runtime.GOMAXPROCS(0) {
		runtime.GOMAXPROCS(n)
	}
	settings(idx)
	func() {
		defer func() {
			if r := recover(); r != nil {
				detail := ""
				if s, ok := r.(failSentinel); ok {
					detail = s.detail
				} else {
					detail = fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()), 3000))
				}
				x.fail(Failure{idx, t.desc(), detail})
			}
		}()
		f(t)
	}()
	if len(x.res.Samples) < 3 && (x.res.Cases == 1 || x.res.Cases == 7 || x.res.Cases == 50) {
		x.res.Samples = append(x.res.Samples, t.desc())
	}
}

// fail records a failure, also aside: what it left behind may bring the process down later.
func (x *X) fail(f Failure) {
	x.res.Fails = append(x.res.Fails, f)
	if x.out == "" {
		return
	}
	fd, err := os.OpenFile(x.out+".fails", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	defer fd.Close()
	b, _ := json.Marshal(f)
	fd.Write(append(b, '\n'))
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Failf reports a violation and abandons the case.
func (t *T) Failf(format string, a ...interface{}) {
	panic(failSentinel{trim(fmt.Sprintf(format, a...), 4000)})
}

// Known reports a violation which may be listed as a known finding; it returns when it is.
func (t *T) Known(key string, format string, a ...interface{}) {
	if !t.X.known[key] {
		t.Failf("%s", fmt.Sprintf(format, a...))
	}
	for _, k := range t.X.res.Known {
		if strings.HasPrefix(k, key+" ") {
			return
		}
	}
	t.X.res.Known = append(t.X.res.Known, key+" "+fmt.Sprintf(format, a...))
}

// State records a distinct state.
func (t *T) State(h uint64) { t.X.states[h] = struct{}{} }

// States counts distinct states which were deduplicated elsewhere.
func (t *T) States(n int64) { t.X.res.MoreStates += n }

// Traces counts several complete histories.
func (t *T) Traces(n int64) { t.X.res.Traces += n }

// Outcome records a distinct observed outcome.
func (t *T) Outcome(h uint64) { t.X.outcomes[h] = struct{}{} }

// Trans counts operations of the real code whose result was checked.
func (t *T) Trans(n int) { t.X.res.Transitions += int64(n) }

// Trace counts complete histories of the real code compared with the reference.
func (t *T) Trace() { t.X.res.Traces++ }

// Step is State+Trans+Trace for one-operation histories.
func (t *T) Step(h uint64) { t.State(h); t.Trans(1); t.Trace() }

// Count adds to a named counter.
func (t *T) Count(name string, n int) { t.X.res.Counters[name] += int64(n) }

// Max records a named maximum.
func (t *T) Max(name string, n int64) {
	if n > t.X.res.Maxima[name] {
		t.X.res.Maxima[name] = n
	}
}

// Sample keeps a written-out case.
func (t *T) Sample(format string, a ...interface{}) {
	if len(t.X.res.Samples) < 6 {
		t.X.res.Samples = append(t.X.res.Samples, fmt.Sprintf(format, a...))
	}
}

// Mix hashes integers.
func Mix(h uint64, vs ...uint64) uint64 {
	for _, v := range vs {
		h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}

// Try runs f and returns the panic value, if any.
func Try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}
