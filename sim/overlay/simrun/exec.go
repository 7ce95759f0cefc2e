package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"SIMMODULE/ast"
	"SIMMODULE/ast/fast_tolower"
	"SIMMODULE/zzverif/hook"
)

// Outcome is what one operation did.
type Outcome struct {
	Op      Op
	Text    string
	Panic   string
	Steps   uint64
	Aborted bool
	Over    bool
	Dead    bool
	thrown  *thrown // what the callback panicked with
	held    string  // what the library returned, not copied
	err     error   // the error it returned
	Changed bool
	Alloc   uint64 // parse: bytes allocated
	Stack   int    // parse: bytes the goroutine stack grew by
	Scan    uint64 // parse: bytes the standard library searched through
}

// Key is the comparable part.
func (o *Outcome) Key() string {
	s := o.Text
	if o.Panic != "" {
		s = "PANIC " + o.Panic + "\n" + s
	}
	if o.Over {
		s = "STEP BUDGET EXCEEDED\n" + s
	}
	if o.Dead {
		s = "DEADLOCK\n" + s
	}
	return s
}

type Result struct {
	Setup, Final []Outcome
	Tasks        [][]Outcome
	Rec          []hook.Seg
	RecFull      bool
	Crash        string // a panic in a goroutine of the library
	Hash         uint64
	Switches     int
	Blocks       int
	Races        int
	Steps        uint64
	Clock        int64
	Trees        []string
	Msgs         []string // property-specific findings made while running
	Written      int64
	ReadIn       int64
}

type sim struct {
	c     *Case
	text  []string
	mod   []*Module
	nodes []*ast.AstNode
	kept  []ast.ModuleStatement
	toks  []*ast.Token
	eof   []bool
	srcs  []*simSrc
	res   *Result
	msgs  [][]string
}

// simSrc is a token source the simulator can cut and restore while it is read.
type simSrc struct {
	text  string
	full  string
	sw    []Switch
	reads int
}

//go:norace
func (s *simSrc) SrsCode() string {
	for len(s.sw) > 0 && s.reads >= s.sw[0].R {
		s.text = s.full
		if l := s.sw[0].L; l >= 0 && l < len(s.full) {
			s.text = s.full[:l]
		}
		s.sw = s.sw[1:]
	}
	return s.text
}

//go:norace
func (s *simSrc) read() { s.reads++ }

const nslots = 64

// budgets: steps a parse of n bytes may take, and any other operation on its tree.
func parseBudget(n int) uint64 { return 20000 + 400*uint64(n) }
func readBudget(n int) uint64  { return 100000 + 4000*uint64(n) }

// Work inside the runtime and the standard library is bounded apart: bytes
// allocated and bytes searched through by a parse of n bytes.
func allocBudget(n int) uint64 { return 1<<20 + 8000*uint64(n) }
func scanBudget(n int) uint64  { return 1<<14 + 40*uint64(n) }

// Stack of the goroutine that parses: its limit must be out of reach of a text of 100 MB.
func stackBudget(n int) int { return 1<<16 + 4*n }

func newSim(c *Case) *sim {
	s := &sim{c: c, nodes: make([]*ast.AstNode, nslots), kept: make([]ast.ModuleStatement, nslots), toks: make([]*ast.Token, nslots), eof: make([]bool, nslots)}
	if nodesKept != nil {
		s.nodes = nodesKept
	}
	for i := range c.Srcs {
		t, m := c.Srcs[i].Build()
		s.text = append(s.text, t)
		s.mod = append(s.mod, m)
	}
	for i, t := range s.text {
		x := &simSrc{text: t, full: t}
		for _, w := range c.Sw {
			if w.M == i {
				x.sw = append(x.sw, w)
			}
		}
		s.srcs = append(s.srcs, x)
	}
	s.msgs = make([][]string, len(c.Tasks)+2)
	return s
}

//go:norace
func (e *Env) apply() {
	m, r := e.MapSeed, e.RandSeed
	if m == 0 {
		m = 0x1c1c1c
	}
	if r == 0 {
		r = 0x2d2d2d
	}
	runtime.SimSeed(m, r)
	time.Local = time.UTC
	if e.Zone != 0 {
		n := e.ZoneName
		if n == "" {
			n = "SIM"
		}
		time.Local = time.FixedZone(n, e.Zone-86400)
	}
	time.SimNow, time.SimStep, time.SimReads = e.Now, e.Step, 0
	hook.Vars = e.Vars
}

//go:norace
func noClock() { time.SimNow, hook.Vars = 0, 0 }

// exec runs a case once.
func exec(c *Case) *Result {
	s := newSim(c)
	res := &Result{}
	s.res = res
	lastResult = res
	c.Env.apply()
	defer noClock()
	races := hook.RaceErrors()
	stage := func(pol hook.Policy, script []hook.Seg, tasks [][]Op) ([][]Outcome, *hook.Run) {
		outs := make([][]Outcome, len(tasks))
		fs := make([]func(), len(tasks))
		for i := range tasks {
			outs[i] = make([]Outcome, len(tasks[i]))
			for j := range outs[i] {
				outs[i][j].Op = tasks[i][j]
			}
			fs[i] = func() {
				for j := range tasks[i] {
					s.do(i, &tasks[i][j], &outs[i][j])
				}
			}
		}
		r := &hook.Run{Policy: pol, Script: script}
		r.Exec(fs)
		if res.Crash == "" {
			res.Crash = r.Crash
		}
		return outs, r
	}
	one := hook.Policy{Kind: "script", Seed: c.Seed}
	if x := c.Env.Sched; x > 0 {
		one = hook.Policy{Kind: "random", Seed: x, Quantum: 1 << (4 + x%8), Max: 300}
	}
	if len(c.Setup) > 0 {
		o, r := stage(one, nil, [][]Op{c.Setup})
		res.Setup = o[0]
		res.Hash ^= r.Hash
	}
	if len(c.Tasks) > 0 {
		o, r := stage(c.Pol, c.Script, c.Tasks)
		res.Tasks = o
		res.Rec, res.Hash, res.Switches, res.Blocks = r.Rec, res.Hash*31^r.Hash, r.Switches, r.Blocks
	}
	if len(c.Final) > 0 {
		o, r := stage(one, nil, [][]Op{c.Final})
		res.Final = o[0]
		res.Hash = res.Hash*31 ^ r.Hash
	}
	res.Races = hook.RaceErrors() - races
	res.each(func(_ string, o *Outcome) {
		if o.held != "" && o.held != heldCopy(o) {
			o.Changed = true
		}
		if o.err != nil && !o.Aborted {
			if now, _, _ := strings.Cut(errText(o.err)+"\n", "\n"); !strings.HasPrefix(o.Text, now+"\n") {
				o.Changed, o.held = true, errText(o.err)
			}
		}
		res.Steps += o.Steps
	})
	for _, m := range s.msgs {
		res.Msgs = append(res.Msgs, m...)
	}
	res.Clock = time.SimReads
	res.RecFull = len(res.Rec) == cap(res.Rec)
	return res
}

func heldCopy(o *Outcome) string {
	i := strings.IndexByte(o.Text, '\n')
	return o.Text[i+1:]
}

// each calls f for every outcome.
func (r *Result) each(f func(id string, o *Outcome)) {
	for i := range r.Setup {
		f(fmt.Sprintf("setup[%d]", i), &r.Setup[i])
	}
	for t := range r.Tasks {
		for i := range r.Tasks[t] {
			f(fmt.Sprintf("task %d op %d", t, i), &r.Tasks[t][i])
		}
	}
	for i := range r.Final {
		f(fmt.Sprintf("final[%d]", i), &r.Final[i])
	}
}

type callbackPanic struct{}

func (s *sim) size(op *Op) int {
	if op.K == "lower" {
		return len(op.Text)
	}
	if op.K == "churn" {
		return 2000 * op.N
	}
	n := 0
	if op.K == "parse" || op.K == "tok" {
		return len(s.text[op.M])
	}
	if nd := s.nodes[op.S]; nd != nil {
		n = len(nd.SrsCode())
	} else if op.K == "reparse" {
		n = len(s.text[op.M])
	}
	return n
}

// do runs one operation of a task and records what came of it.
func (s *sim) do(task int, op *Op, o *Outcome) {
	n := s.size(op)
	b := readBudget(n)
	if op.K == "parse" || op.K == "reparse" || op.K == "churn" {
		b = parseBudget(n)
	} else if op.K == "tok" {
		// the position is asked for after every read, and may be counted from the start
		b += 12 * uint64(min(op.N, 2*n+100)) * uint64(n)
	} else if op.Mode == "nested" || op.Mode == "deep" {
		b *= 40
	}
	hook.BeginOp(b, op.Abort, op.GC, op.GCEvery)
	cgoBegin(b)
	defer func() {
		r := recover()
		var over bool
		o.Steps, o.Aborted, over = hook.EndOp()
		switch v := r.(type) {
		case nil:
		case hook.Abort:
		case hook.Budget:
			over = true
		case hook.Deadlock:
			o.Dead = true
		default:
			if o.thrown.is(v) {
				o.Text = "the callback's panic arrived\n" + o.Text
				break
			}
			o.Panic = fmt.Sprint(v)
			if os.Getenv("SIM_TRACE") != "" {
				os.Stderr.Write(debug.Stack())
			}
		}
		o.Over = over
	}()
	s.op(task, op, o)
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

func (s *sim) op(task int, op *Op, o *Outcome) {
	switch op.K {
	case "parse":
		n := ast.NewAST(s.text[op.M])
		s.nodes[op.S] = n
		k0 := runtime.SimStack()
		a0, s0 := runtime.SimWork()
		err := n.Parse()
		a1, s1 := runtime.SimWork()
		o.Alloc, o.Scan = a1-a0, s1-s0
		o.Stack = max(0, runtime.SimStack()-k0)
		o.Text = errText(err) + "\n" + dump(n.ModuleStatement)
		o.err = err
		return
	case "churn":
		s.churn(op, o)
		return
	case "tok":
		s.tok(op, o)
		return
	case "lower":
		r := fast_tolower.FastToLower(string(op.Text))
		o.held = r
		o.Text = "\n" + strings.Clone(r)
		return
	case "kept":
		o.Text = dump(s.kept[op.S])
		return
	case "gc":
		hook.Collect()
		return
	case "elapse":
		hook.Elapse()
		return
	}
	n := s.nodes[op.S]
	if n == nil && op.K == "reparse" {
		// the attempt before was cut short before there was a node
		n = ast.NewAST(s.text[op.M])
		s.nodes[op.S] = n
	}
	if n == nil {
		o.Text = "no node"
		return
	}
	switch op.K {
	case "keep":
		// the program keeps the module itself, and perhaps drops the node
		s.kept[op.S] = n.ModuleStatement
		if op.Mode == "drop" {
			s.nodes[op.S] = nil
		}
	case "reparse":
		err := n.Parse()
		o.Text = errText(err) + "\n" + dump(n.ModuleStatement)
		o.err = err
	case "drop":
		s.nodes[op.S] = nil
	case "parts":
		var p []string
		for _, st := range n.Body {
			p = append(p, dump(st))
		}
		o.Text = strings.Join(p, "\x1f")
	case "edit":
		s.edit(task, op, o)
	case "snap":
		o.Text = dump(n.ModuleStatement)
	case "print":
		r := n.Print(ast.PrintConf{Margin: op.Margin, OneLine: op.One})
		o.held = r
		o.Text = "\n" + strings.Clone(r)
	case "pstmt":
		st := s.stmt(n, op.I)
		var r string
		if op.Mode == "default" {
			r = n.PrintStatement(st)
		} else {
			r = n.PrintStatementWithConf(st, ast.PrintConf{Margin: op.Margin, OneLine: op.One})
		}
		o.held = r
		o.Text = "\n" + strings.Clone(r)
	case "json":
		b, err := n.JSON()
		o.Text = errText(err) + "\n" + string(b)
		if len(b) > 0 {
			o.held = bytesAsString(b)
		}
	case "srs":
		o.Text = n.SrsCode()
	case "query":
		var b strings.Builder
		query(&b, reflect.ValueOf(n.ModuleStatement), 0)
		o.Text = b.String()
	case "walk":
		s.walk(task, n, op, o)
	default:
		panic("unknown op " + op.K)
	}
}

// query asks every node of a tree what its methods tell.
func query(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 100000 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			query(b, v.Elem(), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			query(b, v.Index(i), depth+1)
		}
	case reflect.Struct:
		if !v.CanInterface() {
			return
		}
		x := v.Interface()
		if p, ok := x.(interface{ Params() ast.ExprStatements }); ok {
			fmt.Fprintf(b, "%d params %x\n", len(p.Params().Statements), hashStr(dump(p.Params())))
			hook.Yield()
		}
		if p, ok := x.(interface{ IsMethod() bool }); ok {
			fmt.Fprintf(b, "method %v\n", p.IsMethod())
		}
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).IsExported() {
				continue
			}
			if op, ok := v.Field(i).Interface().(ast.OperationType); ok {
				fmt.Fprintf(b, "%s\n", op)
				continue
			}
			query(b, v.Field(i), depth+1)
		}
	}
}

// stmt is the i-th body statement of the tree, counting all bodies.
func (s *sim) stmt(n *ast.AstNode, i int) ast.Statement {
	var all []ast.Statement
	bodies(n.Body, nil, nil, func(_ *ast.FunctionOrProcedure, _ *ast.Statement, b ast.Statements, j int) {
		all = append(all, b[j])
	})
	if len(all) == 0 {
		return nil
	}
	return all[i%len(all)]
}

// bodies visits every statement of every body, containers after their contents.
// in is the statement that contains the body, nil for the module's.
func bodies(b ast.Statements, root *ast.FunctionOrProcedure, in *ast.Statement, f func(root *ast.FunctionOrProcedure, in *ast.Statement, b ast.Statements, i int)) {
	for i, st := range b {
		switch v := st.(type) {
		case *ast.FunctionOrProcedure:
			bodies(v.Body, v, &b[i], f)
		case *ast.IfStatement:
			bodies(v.TrueBlock, root, &b[i], f)
			bodies(v.IfElseBlock, root, &b[i], f)
			bodies(v.ElseBlock, root, &b[i], f)
		case *ast.LoopStatement:
			bodies(v.Body, root, &b[i], f)
		case ast.TryStatement:
			bodies(v.Body, root, &b[i], f)
			bodies(v.Catch, root, &b[i], f)
		}
		f(root, in, b, i)
	}
}
