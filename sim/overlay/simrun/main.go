package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"SIMMODULE/ast"
	"SIMMODULE/zzverif/hook"
)

// warm fills the caches of the standard library, so that no run depends on an
// earlier one through them. It calls nothing of the library under test.
func warm() {
	x := ast.ExpStatement{Left: 1.5, Right: "s"}
	st := ast.Statements{ast.AssignmentStatement{}, ast.ExprStatements{}, ast.VarStatement{}, &ast.FunctionOrProcedure{ExplicitVariables: map[string]ast.VarStatement{"a": {}}, Params: []ast.ParamStatement{{}}}, &x, x, &ast.IfStatement{}, ast.TryStatement{},
		ast.ThrowStatement{}, ast.UndefinedStatement{}, &ast.ReturnStatement{}, ast.NewObjectStatement{}, ast.CallChainStatement{}, ast.MethodStatement{}, ast.BreakStatement{}, ast.ContinueStatement{}, &ast.LoopStatement{}, ast.TernaryStatement{}, ast.ItemStatement{}, ast.GoToStatement{}, &ast.GoToLabelStatement{}, true, 1.0, time.Time{}, nil, "s"}
	m := ast.ModuleStatement{GlobalVariables: map[string]ast.GlobalVariables{"a": {}}, Body: st}
	json.Marshal(&m)
	_ = fmt.Sprintf("%v %q %.0f %d %s", m, "s", 1.0, 1, "x")
	_ = dump(m)
	cgoOn()
	if hook.Active() {
		panic("active")
	}
}

var raceLog string

// raceText is the last race report.
func raceText() string {
	if raceLog == "" {
		return ""
	}
	b, _ := os.ReadFile(raceLog + "." + strconv.Itoa(os.Getpid()))
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") {
			keep = append(keep, strings.SplitN(l, " at ", 2)[0])
		} else if strings.Contains(l, ".go:") && !strings.Contains(l, "zzverif") && len(keep) < 12 {
			f := strings.Fields(l)[0]
			keep = append(keep, filepath.Base(f))
		}
	}
	return ": " + strings.Join(keep, " ")
}

// Line is what a worker reports.
type Line struct {
	Begin *uint64    `json:"begin,omitempty"`
	K     int        `json:"k,omitempty"`
	Seed  uint64     `json:"seed,omitempty"`
	Viol  *Violation `json:"viol,omitempty"`
	Case  *Case      `json:"case,omitempty"`
	Stats []*Stats   `json:"stats,omitempty"`
	Err   string     `json:"err,omitempty"`
	Done  bool       `json:"done,omitempty"`
	Ns    int64      `json:"ns,omitempty"`
	Seen  []byte     `json:"seen,omitempty"` // bitmap of the code sites reached
}

var lastResult *Result

// judgeSafe runs the judge and turns an unusable oracle into an error.
func judgeSafe(p *property, c *Case, st *Stats) (v *Violation, errText string, query *Case) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(oracleFailure); ok {
				errText, query = f.msg, f.q
				return
			}
			panic(r)
		}
	}()
	v = p.judge(c, st)
	return
}

// list is the cases of a seed. Half of them also vary how goroutines the library
// starts by itself take turns where the program has only one.
func (p *property) list(seed uint64, deep bool) []*Case {
	cs := p.cases(seed, deep)
	for _, c := range cs {
		if r := NewRng(c.Seed, 98, uint64(c.K)); r.P(50) {
			c.Env.Sched = 1 + r.U()>>12
		}
	}
	return cs
}

func casesSafe(p *property, seed uint64, deep bool) (cs []*Case, errText string, query *Case) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(oracleFailure); ok {
				errText, query = f.msg, f.q
				return
			}
			panic(r)
		}
	}()
	cs = p.list(seed, deep)
	return
}

func tidy() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 300<<20 {
		runtime.GC()
	}
}

// workMain: work PROP FROM N DEEP OUT
func workMain(a []string) {
	p := props[a[0]]
	from, _ := strconv.ParseUint(a[1], 10, 64)
	n, _ := strconv.Atoi(a[2])
	deep := a[3] == "1"
	out, err := os.OpenFile(a[4], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	say := func(l Line) {
		b, err := json.Marshal(l)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
	}
	warm()
	viols := 0
	for i := 0; i < n && viols < 3; i++ {
		seed := from + uint64(i)
		t0 := time.Now()
		say(Line{Begin: &seed, K: -1})
		before := oracleCount
		cs, e, q := casesSafe(p, seed, deep)
		if e != "" {
			say(Line{Seed: seed, Err: e, Case: q})
			viols++
			continue
		}
		l := Line{Seed: seed, Done: true}
		for k, c := range cs {
			say(Line{Begin: &seed, K: k})
			st := &Stats{}
			lastResult = nil
			v, e, q := judgeSafe(p, c, st)
			st.Oracle = oracleCount - before
			before = oracleCount
			if e != "" {
				say(Line{Seed: seed, Err: e, Case: q})
				viols++
				break
			}
			l.Stats = append(l.Stats, st)
			if v != nil {
				x := *c
				if r := lastResult; r != nil && len(r.Rec) > 0 && !r.RecFull && len(c.Tasks) > 0 {
					x.Pol.Kind, x.Pol.Points = "script", nil
					x.Script = r.Rec
				}
				say(Line{Seed: seed, K: k, Viol: v, Case: &x})
				viols++
				break
			}
			tidy()
		}
		l.Ns = time.Since(t0).Nanoseconds()
		say(l)
	}
	seen := make([]byte, hook.NSites/8)
	for i, x := range hook.Seen {
		seen[i/8] |= x << (i % 8)
	}
	say(Line{Seen: seen})
}

// runReplay runs the cases of a replay file in this process, in order, and
// returns the violation of the last one.
func runReplay(rp *Replay) (*Violation, string, uint64) {
	warm()
	p := props[rp.Property]
	if p == nil {
		return nil, "unknown property " + rp.Property, 0
	}
	var h uint64
	for i, c := range rp.Cases {
		st := &Stats{}
		v, e, _ := judgeSafe(p, c, st)
		h = h*31 + st.Hash
		if i == len(rp.Cases)-1 {
			return v, e, h
		}
	}
	return nil, "no cases", 0
}

// Verdict is what a replaying process says.
type Verdict struct {
	Violation *Violation `json:"violation,omitempty"`
	Err       string     `json:"err,omitempty"`
	Hash      uint64     `json:"hash"`
}

// replayMain: replay FILE [OUT]
func replayMain(a []string) {
	b, err := os.ReadFile(a[0])
	var rp Replay
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	v, e, h := runReplay(&rp)
	js, _ := json.Marshal(Verdict{v, e, h})
	if len(a) > 1 {
		os.WriteFile(a[1], js, 0o644)
		return
	}
	switch {
	case e != "":
		fmt.Println("ERROR", e)
		os.Exit(2)
	case v != nil:
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, rp.Property, a[0])
		os.Exit(1)
	}
	fmt.Println("no violation")
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "oracle | work | replay | drive | show")
		os.Exit(3)
	}
	oracleBin = os.Getenv("SIM_ORACLE")
	raceLog = os.Getenv("SIM_RACELOG")
	if oracleBin == "" {
		oracleBin, _ = os.Executable()
	}
	switch os.Args[1] {
	case "oracle":
		oracleMain()
	case "work":
		workMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "drive":
		driveMain(os.Args[2:])
	case "show":
		showMain(os.Args[2:])
	default:
		os.Exit(3)
	}
}

// showMain prints the cases of a seed: show PROP SEED [DEEP]
func showMain(a []string) {
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	for _, c := range props[a[0]].list(seed, len(a) > 2) {
		js, _ := json.MarshalIndent(c, "", " ")
		fmt.Printf("%s\n", js)
		for i := range c.Srcs {
			fmt.Printf("--- source %d\n%s\n", i, c.text(i))
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
