package main

import (
	"fmt"
	"strings"

	"SIMMODULE/zzverif/hook"
)

// property: how its cases are made from a seed and how a run is judged.
type property struct {
	id    string
	race  bool // runs in the race-instrumented binary
	asan  bool // and in the address-sanitised one
	cases func(seed uint64, deep bool) []*Case
	judge func(c *Case, st *Stats) *Violation
}

var props = map[string]*property{}

// Stats counts what runs did.
type Stats struct {
	Runs, Switches, Blocks, Ops int
	Steps                       uint64
	Faults                      map[string]int
	Probes                      map[string]int
	MaxPerByte                  float64
	Oracle                      int
	Nontrivial                  bool
	Hash                        uint64 // of everything observed in this run
	Sched                       uint64 // of the schedule
}

func (s *Stats) fault(k string, n int) {
	if n > 0 {
		if s.Faults == nil {
			s.Faults = map[string]int{}
		}
		s.Faults[k] += n
	}
}
func (s *Stats) probe(k string, n int) {
	if n > 0 {
		if s.Probes == nil {
			s.Probes = map[string]int{}
		}
		s.Probes[k] += n
	}
}

// observe adds a finished run to the statistics.
func (s *Stats) observe(c *Case, r *Result) {
	s.Runs++
	s.Switches += r.Switches
	s.Blocks += r.Blocks
	s.Steps += r.Steps
	s.damages(c)
	h := s.Hash*31 + r.Hash
	r.each(func(id string, o *Outcome) {
		s.Ops++
		h = h*1099511628211 ^ hashStr(o.Key()) ^ o.Steps
		if o.Aborted {
			s.fault("abort inside "+o.Op.K, 1)
		}
		if o.Op.GC > 0 && o.Op.GC <= o.Steps {
			s.fault("garbage collection inside "+o.Op.K, 1)
		}
		if o.Op.K == "parse" {
			if strings.HasPrefix(o.Text, "error") {
				s.probe("parse rejected", 1)
			} else if o.Text != "" {
				s.probe("parse accepted", 1)
			}
		}
		if o.Text == "" {
			return
		}
		if o.Op.K == "parse" && o.Op.Abort == 0 && o.Steps > 3000 {
			n := 1
			if o.Op.M < len(c.Srcs) {
				n = len(c.text(o.Op.M))
			}
			if x := float64(o.Steps) / float64(max(n, 1)); x > s.MaxPerByte {
				s.MaxPerByte = x
			}
		}
	})
	if r.Switches > len(c.Tasks) {
		s.probe("preempted runs", 1)
	}
	s.Sched = s.Sched*31 + r.Hash
	s.Hash = h
}

var textMemo = map[*Case][]string{}

func (c *Case) text(i int) string {
	t, ok := textMemo[c]
	if !ok {
		if len(textMemo) > 8 {
			textMemo = map[*Case][]string{}
		}
		for k := range c.Srcs {
			x, _ := c.Srcs[k].Build()
			t = append(t, x)
		}
		textMemo[c] = t
	}
	return t[i]
}

// common reports what no run may show: a data race, a panic, a step budget
// overrun, a deadlock, a returned value that changed later.
func common(c *Case, r *Result) *Violation {
	var v *Violation
	r.each(func(id string, o *Outcome) {
		if v != nil {
			return
		}
		switch {
		case o.Dead:
			v = viol("deadlock", "%s (%s): every task waits for another one", id, o.Op.K)
		case o.Over:
			v = viol("steps", "%s (%s): more than %d steps on %d bytes", id, o.Op.K, o.Steps, c.sizeOf(&o.Op))
		case o.Panic != "":
			v = viol("panic", "%s (%s): panic: %s", id, o.Op.K, o.Panic)
		case o.Changed:
			was := heldCopy(o)
			if o.err != nil {
				was = firstLine(o.Text)
			}
			v = viol("changed", "%s (%s): the value it returned changed afterwards: %s", id, o.Op.K, diff(was, o.held))
		}
	})
	if v == nil && r.Crash != "" {
		v = viol("panic", "a panic nobody recovers, in a goroutine the library started: %s", r.Crash)
	}
	if v == nil && r.Races > 0 {
		v = viol("race", "%d data race(s) between operations of different tasks%s", r.Races, raceText())
	}
	return v
}

func (c *Case) sizeOf(op *Op) int {
	if (op.K == "parse" || op.K == "tok") && op.M < len(c.Srcs) {
		return len(c.text(op.M))
	}
	return len(op.Text)
}

// ---- pieces of workload

func genSpec(r *Rng) *GenSpec {
	g := &GenSpec{V: 2, Seed: r.U() >> 16, Parts: r.In(0, 3), Stmts: r.In(1, 5), Depth: r.In(1, 3), Tail: r.In(0, 3), Globals: r.N(3),
		DotKw: r.P(30), LeadSep: r.P(40), Plain: r.P(15), CRLF: r.P(10)}
	if r.P(10) {
		g.Parts, g.Tail = r.In(4, 8), 0
	}
	if g.Parts == 0 && g.Tail == 0 && g.Globals == 0 {
		g.Tail = 1
	}
	if r.P(8) {
		g.wide(r, 1500)
	}
	return g
}

// wide makes one dimension of the module large.
func (g *GenSpec) wide(r *Rng, limit int) {
	g.Big = pick(r, "ident", "string", "args", "elseif", "params", "body", "body", "parts", "globals", "vars", "deep", "layout", "layout", "chain", "ops")
	g.BigN = r.In(20, 300)
	if r.P(30) {
		g.BigN = r.In(300, 1500)
	}
	g.BigN = min(g.BigN, limit)
	if limit > 1000 && (g.Big == "layout" || g.Big == "string" || g.Big == "ident") && r.P(12) {
		g.BigN = r.In(65000, 67000) // lines, columns and lengths that need more than 16 bits
		g.Stmts, g.Parts, g.Depth = 1, min(g.Parts, 2), 1
	}
	switch g.Big {
	case "parts":
		g.Parts, g.Stmts, g.Depth = min(g.BigN, 130), r.In(0, 2), 1
	case "globals":
		g.Globals = min(g.BigN, 300)
	case "deep":
		g.BigN = min(g.BigN, pick(r, 60, 120, 120, 300))
		g.Stmts = r.In(1, 2)
		g.Parts = max(g.Parts, 1)
	case "params", "vars", "body":
		g.Parts = max(g.Parts, 1)
	}
}

// slim: large dimensions are rare and smaller where one module serves many runs.
func (g *GenSpec) slim(r *Rng) {
	big := g.narrow(r) && r.P(40)
	if big {
		g.wide(r, 260)
	}
}

// narrow takes large dimensions away.
func (g *GenSpec) narrow(r *Rng) bool {
	was := g.Big != ""
	if g.Big == "parts" || g.Big == "deep" || g.Big == "globals" {
		g.Parts, g.Globals = r.In(0, 3), r.N(3)
		g.Stmts, g.Depth = r.In(1, 5), r.In(1, 3)
		g.Tail = max(g.Tail, 1)
	}
	g.Big = ""
	return was
}

func bigSpec(r *Rng) *GenSpec {
	g := genSpec(r)
	g.Parts, g.Stmts, g.Depth, g.Tail = r.In(4, 10), r.In(4, 9), r.In(2, 4), r.N(4)
	return g
}

// spoil is one storage fault somewhere in b.
func spoil(r *Rng, b []byte) Damage {
	n := len(b)
	switch r.N(9) {
	case 0:
		return Damage{K: "trunc", At: r.N(n + 1)}
	case 1:
		return Damage{K: "zero", At: r.N(n + 1), N: r.Log(64)}
	case 2, 3:
		return Damage{K: "flip", At: r.N(n), N: r.N(8)}
	case 4:
		return Damage{K: "sub", At: r.N(n), Data: []byte(pick(r, ";", "(", ")", "\"", "'", "\n", ".", "&", "~", "=", "|", "\x80", "\xff", "\xd0", "\x00", "#", "/", "9", "[", "]", ":", "?", ",", "\xef\xbf\xbd"))}
	case 5:
		return Damage{K: "del", At: r.N(n), N: r.Log(40)}
	case 6:
		return Damage{K: "dup", At: r.N(n), N: r.Log(80), To: r.N(n + 1)}
	case 7:
		return Damage{K: "swap", At: r.N(n), N: r.Log(40), To: r.N(n + 1)}
	}
	return Damage{K: "ins", At: r.N(n + 1), Data: []byte(pick(r, "КонецЕсли", "КонецПроцедуры", "Процедура А()", " Если ", "\"", "'", "(", ")", "Прервать;", "ВызватьИсключение;", "Возврат 1;", "//", "#", "\n", "&НаКлиенте", "&", "~м:", ";;", "1а", "''", "'а'", "\"\n", "\"\"\"", "Перем А;", "Функция", "Знач", "?", "?(,,)", "-", "Не", "\xc3", "\xe2\x82", "\xf0\x9f", "\x00", "\uFFFD", "\ufeff", "\u2028"))}
}

// variant is the same text with one letter of a name changed, at equal length.
func variant(r *Rng, m *Module) Damage {
	for i := 0; i < 50; i++ {
		t := m.Toks[r.N(len(m.Toks))]
		rs := []rune(t.S)
		if len(rs) > 1 && !t.Bracket && !reserved[strings.ToLower(t.S)] && wordy(rs[0]) && len(string(rs[len(rs)-1])) == 2 && isCyr(rs[len(rs)-1]) {
			return Damage{K: "sub", At: t.End - 2, Data: []byte(pick(r, "ж", "щ", "Ю"))}
		}
	}
	return Damage{K: "ins", At: len(m.Text), Data: []byte(" ")}
}

func isCyr(c rune) bool { return c >= 'А' && c <= 'я' }

func policy(r *Rng, total uint64) hook.Policy {
	p := hook.Policy{Seed: r.U() >> 8, Max: pick(r, 3, 20, 200, 3000)}
	if total < 10 {
		total = 10
	}
	switch r.N(7) {
	case 0, 1:
		p.Kind, p.Quantum = "random", uint64(r.Log(2000))
	case 2:
		p.Kind, p.Quantum = "rr", uint64(r.Log(500))
	case 3, 4:
		p.Kind = "pct"
		n := r.In(1, 6)
		m := map[uint64]bool{}
		for i := 0; i < n; i++ {
			m[r.U()%total] = true
		}
		for k := uint64(0); len(p.Points) < len(m); k++ {
			// ascending order
			best := uint64(0)
			found := false
			for x := range m {
				if (len(p.Points) == 0 || x > p.Points[len(p.Points)-1]) && (!found || x < best) {
					best, found = x, true
				}
			}
			if !found {
				break
			}
			p.Points = append(p.Points, best)
		}
	default:
		p.Kind, p.Mod = "sites", uint64(r.Log(60))
	}
	return p
}

func conf(r *Rng, op Op) Op {
	op.Margin, op.One = pick(r, 0, 1, 2, 3, 4, 8, 17), r.P(30)
	return op
}

// readOp is one read of the tree in slot s.
func readOp(r *Rng, s int) Op {
	if r.P(4) {
		return Op{K: "query", S: s}
	}
	switch r.N(8) {
	case 0, 1:
		return conf(r, Op{K: "print", S: s})
	case 2, 3:
		op := conf(r, Op{K: "pstmt", S: s, I: r.N(40)})
		if r.P(25) {
			op = Op{K: "pstmt", S: s, I: r.N(40), Mode: "default"}
		}
		return op
	case 4:
		return Op{K: "json", S: s}
	case 5, 6:
		return Op{K: "walk", S: s, Mode: pick(r, "", "", "part")}
	}
	return Op{K: "srs", S: s}
}

func withGC(r *Rng, op Op, pct int) Op {
	if r.P(pct) {
		op.GC = uint64(r.Log(20000))
	}
	return op
}

// wantText is the outcome of parsing a well-formed module.
func wantText(m *Module) string { return "ok\n" + dump(m.Tree) }

// expectWant compares the parses of undamaged generated modules with the trees they denote.
func expectWant(c *Case, mods []*Module, id string, o *Outcome) *Violation {
	if o.Op.K != "parse" || o.Op.Abort > 0 || mods[o.Op.M] == nil {
		return nil
	}
	if w := wantText(mods[o.Op.M]); w != o.Text {
		return viol("tree", "%s: the tree is not the one the text denotes: %s", id, diff(w, o.Text))
	}
	return nil
}

func (c *Case) mods() []*Module {
	ms := make([]*Module, len(c.Srcs))
	for i := range c.Srcs {
		_, ms[i] = c.Srcs[i].Build()
	}
	return ms
}

// ---- C01: parallel parses

func init() {
	props["C01"] = &property{id: "C01", race: true, cases: c01cases, judge: c01judge}
	props["C02"] = &property{id: "C02", race: true, cases: c02cases, judge: c02judge}
}

func c01cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 101)
	c := &Case{Prop: "C01", Seed: seed}
	nt := r.In(2, 5)
	shareText := r.P(25)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k, n := 0, r.In(1, 2); k < n; k++ {
			src := Src{Gen: genSpec(r)}
			if r.P(8) {
				src.Gen = bigSpec(r)
			}
			src.Gen.Quirk = r.P(6)
			fault := false
			switch {
			case shareText && len(c.Srcs) > 0 && r.P(70):
				src = c.Srcs[r.N(len(c.Srcs))]
				if r.P(50) {
					src.Damage = append([]Damage{}, src.Damage...)
					src.Damage = append(src.Damage, variant(r, Generate(*src.Gen)))
				}
			case r.P(22):
				text, _ := src.Build()
				src.Damage = []Damage{spoil(r, []byte(text))}
			case r.P(12):
				fault = true
			}
			c.Srcs = append(c.Srcs, src)
			m := len(c.Srcs) - 1
			slot := t*8 + k
			p := withGC(r, Op{K: "parse", S: slot, M: m}, 5)
			if fault {
				p.Abort = uint64(r.Log(20000))
				ops = append(ops, p)
				continue
			}
			ops = append(ops, p)
			for i, n := 0, r.N(4); i < n; i++ {
				op := withGC(r, readOp(r, slot), 4)
				if r.P(10) {
					op = Op{K: "lower", Text: []byte(pick(r, "ПроцедураЁж", "ABCя", "КонецЕсли"))}
				}
				if r.P(10) {
					op = Op{K: "tok", S: slot + 4, M: m, N: r.In(1, 40)}
				}
				ops = append(ops, op)
			}
		}
		c.Tasks = append(c.Tasks, ops)
	}
	var total uint64
	for _, t := range c.Tasks {
		for _, o := range alone(c, t...) {
			total += o.Steps
		}
	}
	n := 5
	if deep {
		n = 10
	}
	return schedules(r, c, n, total)
}

// schedules makes n cases that differ in the schedule only.
func schedules(r *Rng, c *Case, n int, total uint64) []*Case {
	var cs []*Case
	for k := 0; k < n; k++ {
		x := *c
		x.K = k
		x.Pol = policy(r, total)
		x.Env.MapSeed = r.U() >> 8
		cs = append(cs, &x)
	}
	return cs
}

func c01judge(c *Case, st *Stats) *Violation {
	exp := make([][]Outcome, len(c.Tasks))
	for t := range c.Tasks {
		exp[t] = alone(c, c.Tasks[t]...)
	}
	r := exec(c)
	st.observe(c, r)
	st.Nontrivial = r.Switches > len(c.Tasks)
	if v := common(c, r); v != nil {
		return v
	}
	mods := c.mods()
	for t := range r.Tasks {
		for i := range r.Tasks[t] {
			o := &r.Tasks[t][i]
			id := fmt.Sprintf("task %d op %d (%s)", t, i, o.Op.K)
			if o.Op.Abort > 0 && o.Aborted {
				continue
			}
			if v := expectWant(c, mods, id, o); v != nil {
				return v
			}
			if e := &exp[t][i]; o.Key() != e.Key() {
				return viol("result", "%s: differs from the same call alone: %s", id, diff(e.Key(), o.Key()))
			}
		}
	}
	return nil
}

// ---- C02: concurrent readers

func c02cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 102)
	c := &Case{Prop: "C02", Seed: seed}
	src := Src{Gen: genSpec(r)}
	if r.P(15) {
		src.Gen = bigSpec(r)
	}
	src.Gen.Quirk = r.P(6)
	if r.P(15) {
		text, _ := src.Build()
		src.Damage = []Damage{spoil(r, []byte(text))}
	}
	if r.P(15) {
		src = Src{Raw: oddText(r)}
	}
	c.Srcs = []Src{src}
	c.Setup = []Op{{K: "parse", S: 0, M: 0}}
	nt := r.In(2, 5)
	same := r.P(30)
	first := readOp(r, 0)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k, n := 0, r.In(1, 3); k < n; k++ {
			op := readOp(r, 0)
			if same && r.P(60) {
				op = first
				if r.P(50) {
					op = conf(r, op)
				}
			}
			ops = append(ops, withGC(r, op, 4))
		}
		c.Tasks = append(c.Tasks, ops)
	}
	c.Final = []Op{{K: "snap", S: 0}, {K: "print", S: 0, Margin: 4}, {K: "json", S: 0}}
	var total uint64
	for _, t := range c.Tasks {
		for _, op := range t {
			total += alone(c, c.Setup[0], op)[1].Steps
		}
	}
	n := 6
	if deep {
		n = 12
	}
	return schedules(r, c, n, total)
}

func c02judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	st.Nontrivial = r.Switches > len(c.Tasks)
	if v := common(c, r); v != nil {
		return v
	}
	var v *Violation
	r.each(func(id string, o *Outcome) {
		if v != nil || o.Op.K == "parse" {
			return
		}
		e := alone(c, c.Setup[0], o.Op)[1]
		if o.Key() != e.Key() {
			v = viol("result", "%s (%s): differs from the same read alone: %s", id, o.Op.K, diff(e.Key(), o.Key()))
		}
	})
	return v
}
