// Command mcdrive runs the check of one property: it builds the harness against the current /repo, runs the
// phases of the property in worker processes, confirms failures and writes the evidence.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Phase of a check.
type Phase struct {
	Name      string  `json:"name"`
	Engine    string  `json:"engine"`
	EngineTh  string  `json:"engine_thorough"`
	Quick     float64 `json:"quick_deadline_s"`
	Thorough  float64 `json:"thorough_deadline_s"`
	OnlyDeep  bool    `json:"thorough_only"`
	Procs     int     `json:"gomaxprocs"`
	Shards    int     `json:"shards"`
	Bounds    string  `json:"bounds"`
	BoundsTh  string  `json:"bounds_thorough"`
	HangAfter float64 `json:"hang_after_s"`
	Share     bool    `json:"share"` // the workers take the cases one by one
}

func (p Phase) forTier() Phase {
	if tier == "thorough" && p.EngineTh != "" {
		p.Engine = p.EngineTh
	}
	return p
}

// Plan of a property.
type Plan struct {
	Level       string   `json:"level"`
	Phases      []Phase  `json:"phases"`
	Assumptions []string `json:"assumptions"`
}

type failure struct {
	Case   int64  `json:"case"`
	Desc   string `json:"desc"`
	Detail string `json:"detail"`
}

type result struct {
	Cases       int64            `json:"cases"`
	Enumerated  int64            `json:"enumerated"`
	Skipped     int64            `json:"skipped"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Truncated   bool             `json:"truncated"`
	Notes       []string         `json:"notes"`
	Samples     []string         `json:"samples"`
	Fails       []failure        `json:"fails"`
	Known       []string         `json:"known"`
	Counters    map[string]int64 `json:"counters"`
	Maxima      map[string]int64 `json:"maxima"`
	Finished    bool             `json:"finished"`
	MoreStates  int64            `json:"more_states"`
}

type phaseSummary struct {
	Name       string           `json:"name"`
	Engine     string           `json:"engine"`
	Bounds     string           `json:"bounds"`
	Enumerated int64            `json:"cases_enumerated"`
	Cases      int64            `json:"cases_run"`
	States     int              `json:"states"`
	Outcomes   int              `json:"distinct_outcomes,omitempty"`
	Trans      int64            `json:"transitions"`
	Traces     int64            `json:"traces"`
	Exhaustive bool             `json:"exhaustive"`
	Counters   map[string]int64 `json:"counters,omitempty"`
	Maxima     map[string]int64 `json:"maxima,omitempty"`
	Notes      []string         `json:"notes,omitempty"`
	WallS      float64          `json:"wall_s"`
}

var (
	verif   string
	scratch string
	repo    = "/repo"
	seed    = "1"
	tier    = "quick"
	prop    string
	verbose bool
)

func env() []string {
	e := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOMODCACHE", "GODEBUG", "GOGC", "GOMEMLIMIT", "GORACE":
			continue
		}
		e = append(e, kv)
	}
	cache := os.Getenv("GOMODCACHE")
	if cache == "" {
		cache = "/root/go/pkg/mod"
	}
	return append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=readonly",
		"GOMODCACHE="+cache, "MC_SCRATCH="+scratch, "MC_REPO="+repo, "MC_VERIF="+verif)
}

func sh(dir string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env()
	b, err := c.CombinedOutput()
	return string(b), err
}

func modArgs() []string {
	if repo == "/repo" {
		return nil
	}
	return altMod("alt", "")
}

// altMod writes a go.mod with another repository or another copy of gurvy and returns the arguments that select it.
func altMod(name, gurvy string) []string {
	mf := filepath.Join(scratch, name+".mod")
	if _, err := os.Stat(mf); err != nil {
		b, err := os.ReadFile(filepath.Join(verif, "mc/go.mod"))
		must(err)
		s := strings.Replace(string(b), "=> /repo", "=> "+repo, 1)
		if gurvy != "" {
			s += "\nreplace github.com/consensys/gurvy => " + gurvy + "\n"
		}
		must(os.WriteFile(mf, []byte(s), 0o644))
		g, err := os.ReadFile(filepath.Join(verif, "mc/go.sum"))
		must(err)
		must(os.WriteFile(filepath.Join(scratch, name+".sum"), g, 0o644))
	}
	return []string{"-modfile=" + mf}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mcdrive:", err)
		cleanup()
		os.Exit(3)
	}
}

func cleanup() {
	if scratch != "" && strings.HasPrefix(filepath.Base(scratch), "mcv-") {
		os.RemoveAll(scratch)
	}
}

// built engines: path or error text
type built struct {
	path string
	err  string
}

var engines = map[string]built{}

func build(engine string) built {
	if b, ok := engines[engine]; ok {
		return b
	}
	t0 := time.Now()
	b := doBuild(engine)
	if verbose {
		fmt.Fprintf(os.Stderr, "built %s in %.1fs err=%.300s\n", engine, time.Since(t0).Seconds(), b.err)
	}
	engines[engine] = b
	return b
}

func doBuild(engine string) built {
	mc := filepath.Join(verif, "mc")
	out := filepath.Join(scratch, "bin-"+engine)
	var pkg string
	var args []string
	switch engine {
	case "plain":
		args = modArgs()
		pkg = "./cmd/mcrun"
	case "small13", "small17":
		g, err := gurvyCopy(engine, engine[5:])
		if err != nil {
			return built{err: err.Error()}
		}
		args = append(altMod(engine, g), "-trimpath")
		pkg = "./cmd/mcrun"
	case "sched", "race":
		o, err := instrumentOverlay()
		if err != nil {
			return built{err: err.Error()}
		}
		args = modArgs()
		if engine == "race" {
			g, err := gurvyCopy(engine, "")
			if err != nil {
				return built{err: err.Error()}
			}
			args = append(altMod(engine, g), "-trimpath", "-race", "-gcflags=verif/mc/rt/...=-race=false")
		}
		args = append(args, "-overlay", o, "-tags", "mcsched")
		pkg = "./cmd/mcrun"
	default:
		return built{err: "unknown engine " + engine}
	}
	args = append([]string{"build"}, args...)
	args = append(args, "-o", out, pkg)
	s, err := sh(mc, "go", args...)
	if err != nil {
		return built{err: fmt.Sprintf("go %s: %v\n%s", strings.Join(args, " "), err, s)}
	}
	return built{path: out}
}

type shard struct {
	idx      int
	cmd      *exec.Cmd
	out      string
	progress string
	stderr   *os.File
	done     chan error
	hung     bool
}

func readProgress(p string) (int64, uint64) {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 8 {
		return -1, 0
	}
	c := int64(binary.LittleEndian.Uint64(b)) - 1
	var beat uint64
	if len(b) >= 16 {
		beat = binary.LittleEndian.Uint64(b[8:])
	}
	return c, beat
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	s := string(b)
	if len(s) > 2*n {
		return s[:n] + "\n...\n" + s[len(s)-n:]
	}
	return s
}

// runWorker runs one worker to completion. crash is the description of a crash or a hang, if any.
func runWorker(bin string, ph Phase, i, n int, deadline float64, only, until int64) (res *result, states, outcomes []uint64, crash string, caseIdx int64, infra string) {
	base := filepath.Join(scratch, fmt.Sprintf("w-%s-%d-%d-%d", strings.ReplaceAll(ph.Name, "/", "_"), i, only, time.Now().UnixNano()))
	out, prog, serr := base+".json", base+".prog", base+".err"
	procs := ph.Procs
	if procs == 0 && (ph.Engine == "sched" || ph.Engine == "race") {
		procs = 2 // the other engines vary it from case to case
	}
	args := []string{"-phase", ph.Name, "-shard", strconv.Itoa(i), "-n", strconv.Itoa(n), "-tier", tier, "-deadline", fmt.Sprint(deadline),
		"-out", out, "-progress", prog, "-known", filepath.Join(verif, "KNOWN_FINDINGS.txt"), "-seed", seed, "-procs", strconv.Itoa(procs),
		"-only", strconv.FormatInt(only, 10), "-until", strconv.FormatInt(until, 10)}
	if ph.Share && only < 0 && until < 0 {
		args = append(args, "-claims", filepath.Join(scratch, "claim-"+strings.ReplaceAll(ph.Name, "/", "_")+"-"))
	}
	c := exec.Command(bin, args...)
	c.Env = append(env(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=0 exitcode=0 history_size=7 log_path="+filepath.Join(scratch, "race"))
	c.Dir = scratch
	f, err := os.Create(serr)
	must(err)
	c.Stderr, c.Stdout = f, f
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	must(c.Start())
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	hangAfter := ph.HangAfter
	if hangAfter == 0 {
		hangAfter = 100
	}
	lastC, lastB, lastT := int64(-2), uint64(0), time.Now()
	hung := false
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-time.After(500 * time.Millisecond):
			cc, b := readProgress(prog)
			if cc != lastC || b != lastB {
				lastC, lastB, lastT = cc, b, time.Now()
			} else if time.Since(lastT).Seconds() > hangAfter {
				hung = true
				syscall.Kill(-c.Process.Pid, syscall.SIGQUIT)
				time.Sleep(300 * time.Millisecond)
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	f.Close()
	caseIdx, _ = readProgress(prog)
	defer func() {
		for _, p := range []string{out, out + ".fails", out + ".states", out + ".outcomes", prog, serr} {
			os.Remove(p)
		}
	}()
	if b, err := os.ReadFile(out); err == nil && werr == nil {
		res = &result{}
		must(json.Unmarshal(b, res))
		load := func(p string) []uint64 {
			b, _ := os.ReadFile(p)
			r := make([]uint64, len(b)/8)
			for i := range r {
				r[i] = binary.LittleEndian.Uint64(b[8*i:])
			}
			return r
		}
		return res, load(out + ".states"), load(out + ".outcomes"), "", caseIdx, ""
	}
	// what failed before the process ended
	if b, err := os.ReadFile(out + ".fails"); err == nil {
		res = &result{}
		for _, l := range strings.Split(string(b), "\n") {
			var f failure
			if json.Unmarshal([]byte(l), &f) == nil {
				res.Fails = append(res.Fails, f)
			}
		}
	}
	text := tail(serr, 3000)
	if hung {
		return res, nil, nil, "does not terminate: no progress for " + fmt.Sprint(hangAfter) + " s\n" + text, caseIdx, ""
	}
	oom := strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory") || strings.Contains(text, "failed to create new OS thread") || strings.Contains(text, "errno=11")
	if !oom && (strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") || strings.Contains(text, "SIGSEGV") || strings.Contains(text, "unexpected fault")) {
		return res, nil, nil, "crash of the process:\n" + text, caseIdx, ""
	}
	return res, nil, nil, "", caseIdx, fmt.Sprintf("worker ended with %v: %s", werr, text)
}

type violation struct {
	Phase, Engine, Desc, Detail string
	Case                        int64
	Confirmed                   string
	// the worker which found it
	Shard, Of int
	// Prefix: it takes the cases before it in the same process
	Prefix bool
}

func main() {
	flag.StringVar(&prop, "prop", "", "property")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.BoolVar(&verbose, "v", false, "")
	only := flag.String("phase", "", "run only this phase")
	replay := flag.String("replay", "", "replay file")
	evout := flag.String("evidence", "", "evidence file")
	flag.Parse()
	exe, _ := os.Getwd()
	verif = exe
	if v := os.Getenv("MC_VERIF"); v != "" {
		verif = v
	}
	if r := os.Getenv("MC_REPO"); r != "" {
		repo = r
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if _, err := strconv.Atoi(s); err == nil {
			seed = s
		}
	}
	b, err := os.ReadFile(filepath.Join(verif, "mc/plan.json"))
	must(err)
	plans := map[string]Plan{}
	must(json.Unmarshal(b, &plans))
	scratch, err = os.MkdirTemp("", "mcv-")
	must(err)
	if *replay != "" {
		os.Exit(doReplay(*replay, plans))
	}
	plan, ok := plans[prop]
	if !ok {
		must(fmt.Errorf("no plan for property %q", prop))
	}
	t0 := time.Now()
	var sums []phaseSummary
	var viols []violation
	var samples []string
	known := map[string]bool{}
	exhaustive := true
	totStates, totTraces, totTrans := 0, int64(0), int64(0)
	var notes []string
	for pi, ph := range plan.Phases {
		if *only != "" && ph.Name != *only {
			continue
		}
		if ph.OnlyDeep && tier != "thorough" {
			continue
		}
		left := 0
		for _, p := range plan.Phases[pi+1:] {
			if !p.OnlyDeep || tier == "thorough" {
				left++
			}
		}
		budgetLeft = quickBudget - time.Since(t0).Seconds() - 20*float64(left)
		s, vs, smp, kn := runPhase(ph)
		sums = append(sums, s)
		viols = append(viols, vs...)
		samples = append(samples, smp...)
		for _, k := range kn {
			known[k] = true
		}
		exhaustive = exhaustive && s.Exhaustive
		totStates += s.States
		totTraces += s.Traces
		totTrans += s.Trans
		notes = append(notes, s.Notes...)
		if verbose {
			j, _ := json.Marshal(s)
			fmt.Fprintf(os.Stderr, "%s\n", j)
		}
		if len(viols) > 0 {
			break
		}
	}
	if len(viols) > 0 {
		exhaustive = false
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	for i := range samples {
		if len(samples[i]) > 600 {
			samples[i] = samples[i][:600] + "..."
		}
	}
	cov := map[string]interface{}{
		"states": totStates, "transitions": totTrans, "traces_validated_against_impl": totTraces,
		"samples": samples, "exhaustive": exhaustive, "phases": sums,
		"explanation": "states: distinct states (inputs/configurations, reference states or happens-before states of the explored executions); " +
			"transitions: operations or scheduling steps executed on the real code; traces_validated_against_impl: complete executions of the real code compared with the reference.",
	}
	evd := map[string]interface{}{"property": prop, "tier": tier, "seed": atoi(seed), "level": plan.Level, "coverage": cov,
		"assumptions": plan.Assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": len(viols)}
	ef := *evout
	if ef == "" {
		ef = filepath.Join(verif, "evidence", prop+".json")
	}
	must(os.MkdirAll(filepath.Dir(ef), 0o755))
	j, err := json.MarshalIndent(evd, "", " ")
	must(err)
	must(os.WriteFile(ef, append(j, '\n'), 0o644))
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	for i, v := range viols {
		rd := filepath.Join(filepath.Dir(ef), "replay")
		must(os.MkdirAll(rd, 0o755))
		rp := filepath.Join(rd, fmt.Sprintf("%s-%d.json", prop, i))
		j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "tier": tier, "phase": v.Phase, "engine": v.Engine, "case": v.Case, "prefix": v.Prefix, "shard": v.Shard, "of": v.Of,
			"desc": v.Desc, "detail": v.Detail, "confirmed": v.Confirmed,
			"command": fmt.Sprintf("cd %s && bash run.sh replay %s", verif, rp)}, "", " ")
		must(os.WriteFile(rp, append(j, '\n'), 0o644))
		d := v.Detail
		if len(d) > 500 {
			d = d[:500] + "..."
		}
		fmt.Printf("violation detail: %s [%s case %d]: %s (confirmed %s)\n", v.Desc, v.Phase, v.Case, d, v.Confirmed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs\n", prop, tier, totStates, totTrans, totTraces, exhaustive, len(viols), time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	cleanup()
	if len(viols) > 0 {
		os.Exit(1)
	}
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// quickBudget bounds the time of a quick check, whatever the machine and the size of the
// schedule spaces of the code: a phase which has to stop early says so in the evidence.
const quickBudget = 600

var budgetLeft float64 = quickBudget

func phaseDeadline(ph Phase) float64 {
	d := ph.Quick
	if d == 0 {
		d = 150
	}
	if tier == "quick" {
		d = math.Max(15, math.Min(d, budgetLeft))
	}
	if tier == "thorough" {
		d = ph.Thorough
		if d == 0 {
			d = 600
		}
	}
	return d
}

func runPhase(ph Phase) (s phaseSummary, viols []violation, samples []string, known []string) {
	t0 := time.Now()
	ph = ph.forTier()
	s = phaseSummary{Name: ph.Name, Engine: ph.Engine, Bounds: ph.Bounds, Counters: map[string]int64{}, Maxima: map[string]int64{}, Exhaustive: true}
	if tier == "thorough" && ph.BoundsTh != "" {
		s.Bounds = ph.BoundsTh
	}
	b := build(ph.Engine)
	if b.err != "" {
		if ph.Engine == "plain" {
			// the code or the interface the harness uses does not compile: no verdict is possible
			must(fmt.Errorf("build failed: %s", b.err))
		}
		s.Exhaustive = false
		e := b.err
		if len(e) > 1500 {
			e = e[:1500]
		}
		s.Notes = append(s.Notes, "engine "+ph.Engine+" not available, phase skipped: "+e)
		return
	}
	n := ph.Shards
	if n == 0 {
		n = runtime.NumCPU()
	}
	deadline := phaseDeadline(ph)
	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res, st, oc, crash, ci, infra := runWorker(b.path, ph, i, n, deadline, -1, -1)
			mu.Lock()
			defer mu.Unlock()
			if infra != "" || crash != "" {
				if res != nil {
					for _, f := range res.Fails {
						viols = append(viols, violation{Phase: ph.Name, Engine: ph.Engine, Case: f.Case, Desc: f.Desc, Detail: f.Detail, Shard: i, Of: n})
					}
				}
			}
			if infra != "" {
				s.Exhaustive = false
				s.Notes = append(s.Notes, infra)
				return
			}
			if crash != "" {
				viols = append(viols, violation{Phase: ph.Name, Engine: ph.Engine, Case: ci, Desc: fmt.Sprintf("case %d", ci), Detail: crash, Shard: i, Of: n})
				return
			}
			for _, h := range st {
				states[h] = struct{}{}
			}
			for _, h := range oc {
				outcomes[h] = struct{}{}
			}
			s.Cases += res.Cases
			if res.Enumerated > s.Enumerated {
				s.Enumerated = res.Enumerated
			}
			s.Trans += res.Transitions
			s.States += int(res.MoreStates)
			s.Traces += res.Traces
			if res.Truncated || !res.Finished {
				s.Exhaustive = false
			}
			s.Notes = append(s.Notes, res.Notes...)
			if len(samples) < 4 {
				samples = append(samples, res.Samples...)
			}
			known = append(known, res.Known...)
			for k, v := range res.Counters {
				s.Counters[k] += v
			}
			for k, v := range res.Maxima {
				if v > s.Maxima[k] {
					s.Maxima[k] = v
				}
			}
			for _, f := range res.Fails {
				viols = append(viols, violation{Phase: ph.Name, Engine: ph.Engine, Case: f.Case, Desc: f.Desc, Detail: f.Detail, Shard: i, Of: n})
			}
		}(i)
	}
	wg.Wait()
	s.States += len(states)
	s.Outcomes = len(outcomes)
	if len(s.Notes) > 10 {
		s.Notes = s.Notes[:10]
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })
	// re-run every violation alone
	var kept []violation
	c0 := time.Now()
	for vi, v := range viols {
		if len(kept) == 3 || vi >= 3 && (vi >= 12 || time.Since(c0).Seconds() > 60) {
			break
		}
		reps, seen := 5, 0
		if strings.HasPrefix(v.Detail, "does not terminate") || ph.Engine == "sched" || ph.Engine == "race" {
			reps = 1
		}
		for r := 0; r < reps; r++ {
			if fails(b.path, ph, v.Case) {
				seen++
			}
		}
		if seen == 0 {
			// What the process did before may matter: run the cases before it as well.
			if ph.Share {
				v.Shard, v.Of = 0, 1
			}
			reps++
			if failsAfter(b.path, ph, v.Shard, v.Of, v.Case) {
				v.Prefix = true
				seen++
			}
		}
		if seen == 0 {
			reps += 15
			for r := 0; r < 15 && seen == 0 && !strings.HasPrefix(v.Detail, "does not terminate"); r++ {
				if fails(b.path, ph, v.Case) {
					seen++
				}
			}
		}
		v.Confirmed = fmt.Sprintf("%d of %d re-runs", seen, reps)
		if seen == 0 {
			s.Exhaustive = false
			s.Notes = append(s.Notes, fmt.Sprintf("not reproduced when run alone, not reported: %s: %.300s", v.Desc, v.Detail))
			continue
		}
		kept = append(kept, v)
	}
	s.WallS = round(time.Since(t0).Seconds())
	return s, kept, samples, known
}

func fails(bin string, ph Phase, c int64) bool {
	res, _, _, crash, _, _ := runWorker(bin, ph, 0, 1, 120, c, -1)
	return crash != "" || (res != nil && len(res.Fails) > 0)
}

// failsAfter runs the cases of a worker up to and including c in one process.
func failsAfter(bin string, ph Phase, i, n int, c int64) bool {
	res, _, _, crash, ci, _ := runWorker(bin, ph, i, n, phaseDeadline(ph), -1, c)
	if crash != "" {
		return ci == c
	}
	if res != nil {
		for _, f := range res.Fails {
			if f.Case == c {
				return true
			}
		}
	}
	return false
}

func doReplay(file string, plans map[string]Plan) int {
	b, err := os.ReadFile(file)
	must(err)
	var r struct {
		Property, Tier, Phase, Engine string
		Case                          int64
		Prefix                        bool
		Shard, Of                     int
	}
	must(json.Unmarshal(b, &r))
	tier = r.Tier
	prop = r.Property
	for _, ph := range plans[prop].Phases {
		if ph.Name != r.Phase {
			continue
		}
		ph = ph.forTier()
		bl := build(ph.Engine)
		if bl.err != "" {
			must(fmt.Errorf("%s", bl.err))
		}
		only, until := r.Case, int64(-1)
		if r.Prefix {
			only, until = -1, r.Case
		} else {
			r.Shard, r.Of = 0, 1
		}
		res, _, _, crash, _, infra := runWorker(bl.path, ph, r.Shard, r.Of, 600, only, until)
		cleanup()
		if crash != "" {
			fmt.Println(crash)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			return 1
		}
		if res == nil {
			fmt.Println(infra)
			return 3
		}
		for _, f := range res.Fails {
			fmt.Printf("%s: %s\n", f.Desc, f.Detail)
		}
		if len(res.Fails) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	must(fmt.Errorf("no such phase"))
	return 3
}
