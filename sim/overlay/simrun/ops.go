package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"unsafe"

	"SIMMODULE/ast"
	"SIMMODULE/zzverif/hook"
)

func cgoBegin(uint64) {}

func cgoOn()         { ast.SimCOn() }
func cflush()        { ast.SimCFlush() }
func cticks() uint64 { return ast.SimCTicks() }

func bytesAsString(b []byte) string { return unsafe.String(unsafe.SliceData(b), len(b)) }

func (s *sim) say(task int, f string, a ...any) {
	s.msgs[task] = append(s.msgs[task], fmt.Sprintf(f, a...))
}

const maxRecord = 4000

type thrown struct {
	val any
	msg string // of a panic of the runtime
}

func (w *thrown) is(p any) bool {
	if w == nil {
		return false
	}
	if w.msg != "" {
		e, ok := p.(runtime.Error)
		return ok && e.Error() == w.msg
	}
	return p == w.val
}

// fail panics as callbacks do.
func (s *sim) fail(kind int, o *Outcome) {
	throw := func(v any) {
		o.thrown = &thrown{val: v}
		panic(v)
	}
	var none []int
	var m map[string]int
	var p *Outcome
	switch kind % 9 {
	case 1:
		o.thrown = &thrown{msg: "runtime error: index out of range [3] with length 0"}
		_ = none[3]
	case 2:
		o.thrown = &thrown{msg: "runtime error: invalid memory address or nil pointer dereference"}
		_ = p.Text
	case 3:
		o.thrown = &thrown{msg: "assignment to entry in nil map"}
		m["а"] = 1
	case 4:
		throw(errors.New("ошибка обхода"))
	case 5:
		throw("стоп")
	case 6:
		throw(fmt.Errorf("wrapped: %w", io.EOF))
	case 7:
		throw(kind)
	case 8:
		throw(io.EOF)
	default:
		throw(callbackPanic{})
	}
}

// walk runs one walk and checks that it is exact.
func (s *sim) walk(task int, n *ast.AstNode, op *Op, o *Outcome) {
	type want struct {
		root *ast.FunctionOrProcedure
		proc bool
		seen int // 1-based index of the call
		in   *ast.Statement
		prev *ast.Statement
	}
	exp := map[*ast.Statement]*want{}
	var order []*ast.Statement
	bodies(n.Body, nil, nil, func(root *ast.FunctionOrProcedure, in *ast.Statement, b ast.Statements, i int) {
		_, proc := b[i].(*ast.FunctionOrProcedure)
		w := &want{root: root, proc: proc, in: in}
		if i > 0 {
			w.prev = &b[i-1]
		}
		exp[&b[i]] = w
		order = append(order, &b[i])
	})
	var b strings.Builder
	calls := 0
	bad := func(f string, a ...any) {
		s.say(task, "walk of slot %d (mode %q): %s", op.S, op.Mode, fmt.Sprintf(f, a...))
	}
	cb := func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		calls++
		rn := "-"
		if root != nil {
			rn = root.Name
		}
		if stm == nil {
			bad("callback without a statement")
			return
		}
		if calls <= maxRecord {
			fmt.Fprintf(&b, "%s|%s|%x\n", rn, typeName(*stm), hashStr(dump(*stm))&0xffffffff)
		}
		hook.Yield()
		w := exp[stm]
		if w != nil {
			if w.seen > 0 {
				bad("statement %s visited more than once (calls %d and %d)", typeName(*stm), w.seen, calls)
			}
			w.seen = calls
			if !w.proc && root != w.root {
				exp := "none"
				if w.root != nil {
					exp = w.root.Name
				}
				bad("statement %s: enclosing procedure is %s, the walk says %s", brief(*stm), exp, rn)
			}
		}
		switch op.Mode {
		case "panic":
			if calls == op.N {
				s.fail(op.I, o)
			}
		case "nested":
			if calls == op.N || op.N == 0 && calls <= 3 {
				// a complete walk, print and serialisation inside the callback
				in := Outcome{}
				s.walk(task, n, &Op{K: "walk", S: op.S}, &in)
				j, err := n.JSON()
				p := n.Print(ast.PrintConf{Margin: 2})
				fmt.Fprintf(&b, "nested %x %x %x %v\n", hashStr(in.Text), hashStr(string(j)), hashStr(p), err)
			}
		}
	}
	defer func() { o.Text = fmt.Sprintf("%d calls\n%s", calls, b.String()) }()
	if op.Mode == "part" {
		// the same walk through the function for parts of a tree
		ast.StatementWalk(n.Body, n.Body, cb)
	} else {
		n.Walk(cb)
	}
	if hook.Cur() != nil && hook.Cur().Aborted {
		return
	}
	// after a complete walk
	for _, p := range order {
		if w := exp[p]; w.seen == 0 {
			bad("statement %s never visited", brief(*p))
			return
		}
	}
	for _, p := range order {
		w := exp[p]
		if w.in != nil && exp[w.in].seen < w.seen {
			bad("statement %s visited after %s, which contains it", brief(*p), typeName(*w.in))
			return
		}
		if w.prev != nil && exp[w.prev].seen > w.seen {
			bad("statement %s visited before its predecessor %s", brief(*p), brief(*w.prev))
			return
		}
	}
}

const editName = "ЗаменённыйОператор"

func typeName(v any) string {
	if v == nil {
		return "nil"
	}
	return reflect.TypeOf(v).String()
}

func brief(v any) string {
	d := dump(v)
	if len(d) > 100 {
		d = strings.ToValidUTF8(d[:100], "?") + "..."
	}
	return typeName(v) + " " + d
}

// edit walks slot S with a callback that replaces the N-th body statement, and
// replaces the same statement of slot I by hand.
func (s *sim) edit(task int, op *Op, o *Outcome) {
	n, m := s.nodes[op.S], s.nodes[op.I]
	if n == nil || m == nil {
		o.Text = "no node"
		return
	}
	list := func(x *ast.AstNode) (l []*ast.Statement) {
		bodies(x.Body, nil, nil, func(_ *ast.FunctionOrProcedure, _ *ast.Statement, b ast.Statements, i int) {
			l = append(l, &b[i])
		})
		return
	}
	ln, lm := list(n), list(m)
	at := map[*ast.Statement]int{}
	for i, p := range ln {
		at[p] = i
	}
	count, done := 0, -1
	n.Walk(func(_ *ast.FunctionOrProcedure, _, stm *ast.Statement) {
		i, ok := at[stm]
		if !ok || done >= 0 {
			return
		}
		switch (*stm).(type) {
		case *ast.FunctionOrProcedure:
			return
		case *ast.IfStatement:
			// a branch of another conditional cannot be replaced by a plain statement
			return
		}
		if count == op.N {
			*stm = ast.VarStatement{Name: editName}
			done = i
		}
		count++
	})
	if done >= 0 && done < len(lm) {
		*lm[done] = ast.VarStatement{Name: editName}
	}
	o.Text = fmt.Sprintf("replaced %d of %d", done, len(ln))
}

// churn parses N small modules, most of them different, one after another, reads
// some of them and drops them all.
func (s *sim) churn(op *Op, o *Outcome) {
	r := NewRng(uint64(op.I), uint64(op.N), 31)
	var h uint64
	for i := 0; i < op.N; i++ {
		t, x := "", 0
		for k := r.In(1, 2); k > 0; k-- {
			x = r.In(x, len(churnText)-1)
			t += churnText[x]
		}
		t = strings.ReplaceAll(t, "§", strconv.Itoa(r.N(4*op.N)))
		switch r.N(4) {
		case 0:
			t = t[:r.N(len(t))]
		case 1:
			k := r.N(len(t))
			t = t[:k] + pick(r, "\xd0", "\"", " Прервать; ", ")", " КонецЕсли ", "~", " '20", "&", ".", " ВызватьИсключение; ", "!") + t[k:]
		}
		n := ast.NewAST(t)
		h = h*31 + hashStr(errText(n.Parse()))
		switch r.N(6) {
		case 0:
			h = h*31 + hashStr(n.Print(ast.PrintConf{Margin: 4}))
		case 1:
			b, _ := n.JSON()
			h = h*31 + hashStr(string(b))
		case 2:
			n.Walk(func(_ *ast.FunctionOrProcedure, _, _ *ast.Statement) { h++ })
		}
		hook.Yield()
	}
	o.Text = fmt.Sprintf("%x", h)
}

// tok reads up to N tokens with the reader of slot S from source M.
func (s *sim) tok(op *Op, o *Outcome) {
	t := s.toks[op.S]
	if t == nil {
		t = &ast.Token{}
		s.toks[op.S] = t
	}
	src := s.srcs[op.M]
	var b strings.Builder
	for i := 0; i < op.N; i++ {
		src.read()
		tok, err := t.Next(src)
		p := t.GetPosition()
		fmt.Fprintf(&b, "%d %d:%d %s\n", tok, p.Line, p.Column, errText(err))
		o.Text = b.String()
		hook.Yield()
		if tok == ast.EOF && err == nil {
			if s.eof[op.S] && op.Mode != "all" {
				break
			}
			s.eof[op.S] = true
		} else {
			s.eof[op.S] = false
		}
	}
}
