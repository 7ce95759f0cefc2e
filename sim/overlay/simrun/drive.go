package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"SIMMODULE/zzverif/hook"
)

// The driver spreads seeds over worker processes, confirms and minimises what
// they find, and writes the evidence.

type driver struct {
	p       *property
	prop    string
	tier    string
	vseed   uint64
	dir     string
	verif   string
	plain   string
	raceBin string
	asanBin string
	workers int
	chunk   int
	wall    time.Duration
	nseeds  int
	start   time.Time

	mu       sync.Mutex
	total    Stats
	seeds    int
	oracle   int
	nontriv  map[uint64]bool
	scheds   map[uint64]bool
	hashes   map[uint64]uint64 // seed -> hash of its runs
	found    []finding
	errs     []string
	samples  []any
	audited  int
	audBad   []string
	replayed int
	ncases   int
	seen     [hook.NSites / 8]byte // code sites reached
}

type finding struct {
	seed   uint64
	bin    string
	v      Violation
	c      *Case
	prefix uint64 // first seed of the worker's process
	crash  bool
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR "+f+"\n", a...)
	os.Exit(2)
}

func driveMain(args []string) {
	d := &driver{start: time.Now(), nontriv: map[uint64]bool{}, scheds: map[uint64]bool{}, hashes: map[uint64]uint64{}, workers: 8, chunk: 20}
	opt := map[string]string{}
	for _, a := range args {
		k, v, _ := strings.Cut(strings.TrimPrefix(a, "-"), "=")
		opt[k] = v
	}
	d.prop, d.tier, d.dir, d.verif = opt["prop"], opt["tier"], opt["dir"], opt["verif"]
	d.plain, d.raceBin, d.asanBin = opt["plain"], opt["race"], opt["asan"]
	d.vseed, _ = strconv.ParseUint(opt["seed"], 10, 64)
	d.p = props[d.prop]
	if d.p == nil {
		fatal("unknown property %q", d.prop)
	}
	secs, _ := strconv.Atoi(opt["secs"])
	d.wall = time.Duration(secs) * time.Second
	d.nseeds, _ = strconv.Atoi(opt["seeds"])
	if x, _ := strconv.Atoi(opt["workers"]); x > 0 {
		d.workers = x
	}
	if x, _ := strconv.Atoi(opt["chunk"]); x > 0 {
		d.chunk = x
	}
	code := d.run()
	os.Exit(code)
}

func (d *driver) bin(race, asan bool) string {
	switch {
	case race:
		return d.raceBin
	case asan:
		return d.asanBin
	}
	return d.plain
}

func (d *driver) binName(b string) string {
	switch b {
	case d.raceBin:
		return "race"
	case d.asanBin:
		return "asan"
	}
	return "plain"
}

func (d *driver) env(bin string) []string {
	e := baseEnv()
	log := filepath.Join(d.dir, "race")
	e = append(e, "SIM_ORACLE="+d.plain, "SIM_DIR="+d.dir,
		"GORACE=log_path="+log+" halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0",
		"ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77")
	if bin == d.raceBin && bin != "" {
		e = append(e, "SIM_RACELOG="+log)
	}
	return e
}

// spawn runs a binary and returns its exit error and standard error.
func (d *driver) spawn(bin string, limit time.Duration, args ...string) (error, string, bool) {
	cmd := osexec.Command(bin, args...)
	cmd.Env = d.env(bin)
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{&eb, 1 << 20}
	cmd.Stdin = nil
	if err := cmd.Start(); err != nil {
		return err, "", false
	}
	late := false
	var m sync.Mutex
	t := time.AfterFunc(limit, func() {
		m.Lock()
		late = true
		m.Unlock()
		cmd.Process.Kill()
	})
	err := cmd.Wait()
	t.Stop()
	m.Lock()
	defer m.Unlock()
	return err, eb.String(), late
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.n {
		w.b.Write(p)
	}
	return len(p), nil
}

// crashOf extracts what ended a process that should not have ended.
func crashOf(stderr string) (string, bool) {
	for _, l := range strings.Split(stderr, "\n") {
		switch {
		case strings.Contains(l, "all goroutines are asleep"):
			return l, false
		case strings.HasPrefix(l, "fatal error:"), strings.HasPrefix(l, "unexpected fault address"), strings.HasPrefix(l, "SIG"), strings.Contains(l, "AddressSanitizer:"), strings.HasPrefix(l, "runtime: goroutine stack exceeds"), strings.HasPrefix(l, "double free"), strings.HasPrefix(l, "free()"), strings.HasPrefix(l, "malloc"), strings.HasPrefix(l, "munmap_chunk"), strings.HasPrefix(l, "corrupted "), strings.HasPrefix(l, "*** "):
			return l, true
		}
	}
	return "", false
}

func died(err error, stderr string) (string, bool) {
	if s, ok := crashOf(stderr); ok {
		return s, true
	}
	if x, ok := err.(*osexec.ExitError); ok {
		s := x.String()
		for _, sig := range []string{"segmentation fault", "aborted", "broken pipe", "bus error", "illegal instruction", "floating point"} {
			if strings.Contains(s, sig) {
				return s, true
			}
		}
		return s + ": " + firstLine(stderr), false
	}
	return fmt.Sprint(err), false
}

const workerLimit = 400 * time.Second

// work runs one chunk in one process and digests its report.
func (d *driver) work(bin string, from uint64, n int, audit bool) {
	out := filepath.Join(d.dir, fmt.Sprintf("w-%s-%d-%v", d.binName(bin), from, audit))
	deep := "0"
	if d.tier == "thorough" {
		deep = "1"
	}
	err, stderr, late := d.spawn(bin, workerLimit, "work", d.prop, strconv.FormatUint(from, 10), strconv.Itoa(n), deep, out)
	f, e := os.Open(out)
	if e != nil {
		d.fail("worker left no report: %v %v %s", e, err, firstLine(stderr))
		return
	}
	defer os.Remove(out)
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	var begun *uint64
	var begunK int
	d.mu.Lock()
	for {
		b, e := rd.ReadBytes('\n')
		if e != nil {
			break
		}
		var l Line
		if json.Unmarshal(b, &l) != nil {
			continue
		}
		switch {
		case l.Begin != nil:
			begun, begunK = l.Begin, l.K
		case l.Seen != nil:
			for i, x := range l.Seen[:min(len(l.Seen), len(d.seen))] {
				d.seen[i] |= x
			}
		case l.Err != "":
			if s, ok := crashOf(l.Err); ok && l.Case != nil {
				d.found = append(d.found, finding{seed: l.Seed, bin: d.plain, v: Violation{"crash", s}, c: l.Case, prefix: l.Seed, crash: true})
			} else {
				d.errs = append(d.errs, fmt.Sprintf("seed %d: %s", l.Seed, l.Err))
			}
		case l.Viol != nil:
			d.found = append(d.found, finding{seed: l.Seed, bin: bin, v: *l.Viol, c: l.Case, prefix: from})
		case l.Done:
			var h uint64
			for _, s := range l.Stats {
				h = h*31 + s.Hash
			}
			key := l.Seed<<1 | map[bool]uint64{true: 1}[bin == d.asanBin && d.p.asan]
			if audit {
				d.audited++
				if d.hashes[key] != h {
					d.audBad = append(d.audBad, fmt.Sprintf("seed %d: %x and %x", l.Seed, d.hashes[key], h))
				}
				begun = nil
				continue
			}
			d.hashes[key] = h
			d.seeds++
			for _, s := range l.Stats {
				d.add(s)
			}
			begun = nil
		}
	}
	d.mu.Unlock()
	if err == nil {
		return
	}
	what, crash := died(err, stderr)
	if late {
		what = "no result within the watchdog limit"
	}
	if begun == nil {
		d.fail("worker from seed %d: %s", from, what)
		return
	}
	if begunK < 0 || !crash {
		d.fail("worker at seed %d: %s", *begun, what)
		return
	}
	// regenerate the case that was running
	cs, e2, _ := casesSafe(d.p, *begun, d.tier == "thorough")
	if e2 != "" || begunK >= len(cs) {
		d.fail("worker at seed %d: %s", *begun, what)
		return
	}
	d.mu.Lock()
	d.found = append(d.found, finding{seed: *begun, bin: bin, v: Violation{"crash", what}, c: cs[begunK], prefix: from, crash: true})
	d.mu.Unlock()
}

func (d *driver) fail(f string, a ...any) {
	d.mu.Lock()
	d.errs = append(d.errs, fmt.Sprintf(f, a...))
	d.mu.Unlock()
}

func (d *driver) add(s *Stats) {
	t := &d.total
	t.Runs += s.Runs
	t.Switches += s.Switches
	t.Blocks += s.Blocks
	t.Ops += s.Ops
	t.Steps += s.Steps
	d.oracle += s.Oracle
	d.ncases++
	for k, n := range s.Faults {
		t.fault(k, n)
	}
	for k, n := range s.Probes {
		t.probe(k, n)
	}
	if s.MaxPerByte > t.MaxPerByte {
		t.MaxPerByte = s.MaxPerByte
	}
	if s.Nontrivial {
		d.nontriv[s.Hash] = true
	}
	d.scheds[s.Sched] = true
}

func (d *driver) run() int {
	known := d.knownFindings()
	// seeds already known to be interesting: replays of repaired defects
	d.corpus()
	type job struct {
		bin  string
		from uint64
		n    int
	}
	jobs := make(chan job)
	var wg sync.WaitGroup
	stop := func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		return len(d.found) > 0 || len(d.errs) > 0 || time.Since(d.start) > d.wall
	}
	for i := 0; i < d.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				d.work(j.bin, j.from, j.n, false)
			}
		}()
	}
	base := d.vseed * 1_000_000_007 % (1 << 40)
	bins := []string{d.bin(d.p.race, false)}
	if d.p.asan {
		bins = append(bins, d.asanBin)
	}
	var done []job
	for i := 0; i < d.nseeds && !stop(); i += d.chunk {
		for _, b := range bins {
			j := job{b, base + uint64(i), min(d.chunk, d.nseeds-i)}
			jobs <- j
			done = append(done, j)
		}
	}
	close(jobs)
	wg.Wait()
	if len(d.found) == 0 && len(d.errs) == 0 {
		// repeat some chunks in new processes: everything observed must be the same
		k := max(1, len(done)/20)
		var wg sync.WaitGroup
		sem := make(chan bool, 3) // and with another number of workers
		for i := 0; i < len(done); i += max(1, len(done)/k) {
			wg.Add(1)
			sem <- true
			go func(j job) {
				defer wg.Done()
				d.work(j.bin, j.from, j.n, true)
				<-sem
			}(done[i])
		}
		wg.Wait()
	}
	code := 0
	viols := 0
	if len(d.found) > 0 {
		// the smallest seed is the one reported
		sort.SliceStable(d.found, func(i, j int) bool { return d.found[i].seed < d.found[j].seed })
		var failed []string
		for i := 0; i < len(d.found) && i < 4; i++ {
			path, msg, err := d.report(d.found[i])
			if err != nil {
				failed = append(failed, err.Error())
				continue
			}
			viols = 1
			fmt.Printf("%s\n", msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
			code = 1
			break
		}
		if viols == 0 {
			d.errs = append(d.errs, failed...)
		}
	}
	for _, b := range d.audBad {
		// every run was judged all the same
		fmt.Fprintln(os.Stderr, "WARNING two executions of the same runs differ:", b)
	}
	if code == 0 && len(d.errs) > 0 {
		for _, e := range d.errs {
			fmt.Fprintln(os.Stderr, "ERROR", e)
		}
		code = 2
	}
	for _, k := range known {
		fmt.Println(k)
	}
	d.evidence(viols)
	fmt.Printf("%s %s: %d seeds, %d runs, %d simulated steps, %.1f s\n", d.prop, d.tier, d.seeds, d.total.Runs, d.total.Steps, time.Since(d.start).Seconds())
	return code
}

// verdict replays cases in a new process.
func (d *driver) verdict(bin string, cs []*Case, limit time.Duration) Verdict {
	d.mu.Lock()
	d.replayed++
	n := d.replayed
	d.mu.Unlock()
	in := filepath.Join(d.dir, fmt.Sprintf("cand%d.json", n))
	out := in + ".out"
	js, _ := json.Marshal(Replay{Property: d.prop, Cases: cs})
	os.WriteFile(in, js, 0o644)
	defer os.Remove(in)
	defer os.Remove(out)
	err, stderr, late := d.spawn(bin, limit, "replay", in, out)
	if late {
		return Verdict{Err: "watchdog"}
	}
	if err != nil {
		what, crash := died(err, stderr)
		if crash {
			return Verdict{Violation: &Violation{"crash", what}}
		}
		return Verdict{Err: what}
	}
	b, err := os.ReadFile(out)
	var v Verdict
	if err != nil || json.Unmarshal(b, &v) != nil {
		return Verdict{Err: "no verdict"}
	}
	if v.Err != "" {
		if s, ok := crashOf(v.Err); ok {
			return Verdict{Violation: &Violation{"crash", s}}
		}
	}
	return v
}

// report confirms a finding in a fresh process, minimises it and writes the replay file.
func (d *driver) report(f finding) (string, string, error) {
	limit := 120 * time.Second
	same := func(v Verdict) bool { return v.Violation != nil && v.Violation.Class == f.v.Class }
	cs := []*Case{f.c}
	v := d.verdict(f.bin, cs, limit)
	if !same(v) {
		// it needs what the process did before
		var pre []*Case
		for s := f.prefix; s <= f.seed; s++ {
			l, e, _ := casesSafe(d.p, s, d.tier == "thorough")
			if e != "" {
				break
			}
			for _, c := range l {
				if s == f.seed && c.K >= f.c.K {
					break
				}
				pre = append(pre, c)
			}
		}
		cs = append(pre, f.c)
		v = d.verdict(f.bin, cs, limit)
		if v.Violation == nil {
			return "", "", fmt.Errorf("seed %d: %s (%s) was not confirmed by a replay: %+v", f.seed, f.v.Class, f.v.Msg, v)
		}
		f.v.Class = v.Violation.Class
	}
	mins := 60 * time.Second
	if d.tier == "thorough" {
		mins = 180 * time.Second
	}
	m := &minimiser{until: time.Now().Add(mins), bad: func(cs []*Case) bool { return same(d.verdict(f.bin, cs, 60*time.Second)) }}
	cs = m.run(cs)
	v1, v2 := d.verdict(f.bin, cs, limit), d.verdict(f.bin, cs, limit)
	if !same(v1) || !same(v2) || v1.Hash != v2.Hash {
		return "", "", fmt.Errorf("seed %d: replays of %s differ: %+v %+v", f.seed, f.v.Class, v1, v2)
	}
	rp := Replay{Property: d.prop, Violation: *v1.Violation, VerifSeed: d.vseed, Binary: d.binName(f.bin), Cases: cs,
		Note: fmt.Sprintf("found at seed %d, minimised with %d replays; run: ./check.sh replay FILE", f.seed, m.tries)}
	for _, s := range cs[len(cs)-1].Srcs {
		t, _ := s.Build()
		if len(t) > 4000 {
			t = t[:4000] + "..."
		}
		rp.Texts = append(rp.Texts, t)
	}
	js, _ := json.MarshalIndent(rp, "", " ")
	os.MkdirAll(filepath.Join(d.verif, "replays"), 0o755)
	path := filepath.Join(d.verif, "replays", fmt.Sprintf("%s-%x.json", d.prop, hashStr(string(js))&0xffffffff))
	if err := os.WriteFile(path, js, 0o644); err != nil {
		return "", "", err
	}
	return path, fmt.Sprintf("%s: %s", v1.Violation.Class, v1.Violation.Msg), nil
}

// corpus replays the committed replay files of this property first.
func (d *driver) corpus() {
	files, _ := filepath.Glob(filepath.Join(d.verif, "corpus", d.prop, "*.json"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		var rp Replay
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil || len(rp.Cases) == 0 {
			d.fail("corpus %s: %v", f, err)
			continue
		}
		bin := map[string]string{"race": d.raceBin, "asan": d.asanBin}[rp.Binary]
		if bin == "" {
			bin = d.plain
		}
		v := d.verdict(bin, rp.Cases, 120*time.Second)
		d.total.probe("replays of earlier violations", 1)
		if v.Violation != nil {
			d.found = append(d.found, finding{seed: 0, bin: bin, v: *v.Violation, c: rp.Cases[len(rp.Cases)-1], prefix: 1})
		} else if v.Err != "" {
			d.fail("corpus %s: %s", f, v.Err)
		}
	}
}

// ---- known findings

// knownFindings replays each recorded, not repaired finding of this property
// and returns a line for each that is still there. Nothing else is suppressed.
func (d *driver) knownFindings() (lines []string) {
	b, _ := os.ReadFile(filepath.Join(d.verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		x, ok := strings.CutPrefix(l, "known: property="+d.prop+" replay=")
		if !ok {
			continue
		}
		file, what, _ := strings.Cut(x, " ")
		js, err := os.ReadFile(filepath.Join(d.verif, file))
		var rp Replay
		if err == nil {
			err = json.Unmarshal(js, &rp)
		}
		if err != nil {
			d.fail("known finding %s: %v", file, err)
			continue
		}
		v := d.verdict(d.plain, rp.Cases, 120*time.Second)
		switch {
		case v.Violation == nil:
			fmt.Printf("not reproduced: %s (%s) %s\n", what, file, v.Err)
		case v.Violation.Class == rp.Violation.Class && strings.HasPrefix(v.Violation.Msg, rp.Violation.Msg):
			lines = append(lines, "KNOWN-FINDING: property="+d.prop+" "+what)
		default:
			d.found = append(d.found, finding{seed: 0, bin: d.plain, v: *v.Violation, c: rp.Cases[len(rp.Cases)-1], prefix: 1})
		}
	}
	return
}

// ---- evidence

var repoReal = []string{"ast (lexer, generated parser, tree, printer, walker, serialisation), every statement instrumented", "ast/fast_tolower (Go and C), every C loop instrumented", "encoding/json, fmt, strings, Go runtime"}
var repoStub = []string{"sync (Mutex, RWMutex, Once, WaitGroup, Cond, Pool): simulated blocking over the real primitives", "map iteration order, map hash seeds, math/rand, time.Now, time.Local: values of the simulator", "callers, callbacks, token sources, stored module texts, standard streams: simulated"}

func (d *driver) evidence(viols int) {
	wall := time.Since(d.start).Seconds()
	if len(d.samples) == 0 {
		base := d.vseed * 1_000_000_007 % (1 << 40)
		for s := base; s < base+3; s++ {
			l, e, _ := casesSafe(d.p, s, false)
			if e == "" && len(l) > 0 {
				c := l[len(l)-1]
				x := map[string]any{"seed": s, "case": c}
				if len(c.Srcs) > 0 {
					t := c.text(0)
					if len(t) > 300 {
						t = strings.ToValidUTF8(t[:300], "?") + "..."
					}
					x["source_0"] = strings.ToValidUTF8(t, "?")
				}
				d.samples = append(d.samples, x)
			}
		}
	}
	cov := map[string]any{
		"evaluations":              d.total.Runs,
		"distinct_nontrivial":      len(d.nontriv),
		"rule":                     "one evaluation is one simulated execution of a generated workload under one seeded schedule and fault plan, judged against its oracle; it is distinct by the hash of its schedule and everything its operations returned, and non-trivial by: " + rules[d.prop],
		"samples":                  d.samples,
		"seeds":                    d.seeds,
		"cases":                    d.ncases,
		"operations":               d.total.Ops,
		"runs_per_hour":            int(float64(d.total.Runs) / wall * 3600),
		"seeds_per_hour":           int(float64(d.seeds) / wall * 3600),
		"simulated_steps":          d.total.Steps,
		"simulated_time_note":      "the library has no timers; simulated time is counted in executed statements (steps)",
		"faults_injected":          d.total.Faults,
		"probes":                   d.total.Probes,
		"context_switches":         d.total.Switches,
		"blocked_waits":            d.total.Blocks,
		"distinct_schedules":       len(d.scheds),
		"distinct_schedules_rule":  "hash of the sequence of (task, code site) at every hand-over",
		"code_sites":               d.sites(),
		"oracle_processes":         d.oracle,
		"max_parse_steps_per_byte": d.total.MaxPerByte,
		"determinism_audit":        map[string]any{"seeds_repeated_in_new_processes": d.audited, "differences": len(d.audBad)},
		"real_components":          repoReal,
		"stubbed_components":       repoStub,
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": d.vseed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viols,
		"assumptions": []string{"interleavings are explored at the granularity of statements (and C loop iterations); data races inside a statement are left to the race detector", "a clean batch is evidence, not proof"},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(d.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(d.verif, "evidence", d.prop+".json"), js, 0o644); err != nil {
		fatal("%v", err)
	}
}

// sites says which instrumented statements of the library the runs reached.
func (d *driver) sites() map[string]any {
	b, err := os.ReadFile(filepath.Join(d.dir, "ov", "sites.json"))
	var l []struct {
		ID, Line   int
		File, Func string
	}
	if err != nil || json.Unmarshal(b, &l) != nil {
		return nil
	}
	n := 0
	var miss []string
	for _, s := range l {
		if s.ID < hook.NSites && d.seen[s.ID/8]>>(s.ID%8)&1 == 1 {
			n++
		} else {
			miss = append(miss, fmt.Sprintf("%s:%d %s", s.File, s.Line, s.Func))
		}
	}
	return map[string]any{"rule": "instrumented statements of the library executed inside a simulated run", "reached": n, "of": len(l), "not_reached": miss}
}

var rules = map[string]string{
	"C01": "more hand-overs than tasks, so at least one call was preempted by another",
	"C02": "more hand-overs than tasks, so at least one read was preempted by another",
	"C03": "at least one read was cut short",
	"C04": "the node was parsed more than once",
	"C05": "the probe followed at least one other parse, or a module was compared with its procedures alone",
	"C06": "a tree was held across other work",
	"C07": "the text was damaged or rejected",
	"C08": "the cut lay inside a construct or between two parts, or a keyword was lost or repeated",
	"C09": "the error carried a location",
	"C18": "the history was repeated and what it left was measured",
	"C10": "map seeds at least were changed",
	"C11": "standard streams were replaced",
	"C12": "every run: a walk was checked statement by statement",
	"C13": "a reader was preempted, or its source was cut while it was read",
	"C14": "every run",
	"C15": "layout, a keyword's case, a literal or a name was damaged",
	"C16": "the damage left a statement outside its context, or every statement inside",
	"C17": "every run",
}
