package main

import (
	"fmt"
	"os"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	"SIMMODULE/zzverif/hook"
)

func init() {
	for _, p := range []*property{
		{id: "C03", cases: c03cases, judge: c03judge},
		{id: "C04", cases: c04cases, judge: c04judge},
		{id: "C05", cases: c05cases, judge: c05judge},
		{id: "C06", cases: c06cases, judge: c06judge},
		{id: "C07", cases: c07cases, judge: c07judge},
		{id: "C08", cases: c08cases, judge: c08judge},
		{id: "C09", cases: c09cases, judge: c09judge},
		{id: "C10", cases: c10cases, judge: c10judge},
		{id: "C11", cases: c11cases, judge: c11judge},
		{id: "C12", race: true, cases: c12cases, judge: c12judge},
	} {
		props[p.id] = p
	}
}

// maybeDamaged is a source, damaged with the given probability.
func maybeDamaged(r *Rng, pct int) Src {
	if r.P(15) {
		s := Src{Raw: oddText(r)}
		if r.P(pct) {
			s.Damage = []Damage{spoil(r, s.Raw)}
		}
		return s
	}
	return generated(r, pct)
}

// generated is such a source from the generator that knows its tree.
func generated(r *Rng, pct int) Src {
	src := Src{Gen: genSpec(r)}
	src.Gen.Quirk = r.P(8)
	if r.P(pct) {
		text, _ := src.Build()
		src.Damage = []Damage{spoil(r, []byte(text))}
	}
	return src
}

func (st *Stats) damages(c *Case) {
	for _, s := range c.Srcs {
		for _, d := range s.Damage {
			st.fault("stored text: "+d.K, 1)
		}
	}
}

var serial = hook.Policy{Kind: "script"}

// ---- C03: reads cut short

func c03cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 103)
	c := &Case{Prop: "C03", Seed: seed, Pol: serial, Srcs: []Src{maybeDamaged(r, 12)}}
	c.Setup = []Op{{K: "parse"}}
	n := r.In(2, 10)
	if deep {
		n *= 2
	}
	var ops []Op
	for i := 0; i < n; i++ {
		op := readOp(r, 0)
		steps := alone(c, c.Setup[0], op)[1].Steps
		switch {
		case r.P(70):
			op.Abort = 1 + r.U()%(steps+1)
		case op.K == "walk":
			op.Mode, op.N, op.I = "panic", r.Log(60), r.N(9)
		}
		ops = append(ops, withGC(r, op, 5))
		if r.P(50) {
			ops = append(ops, Op{K: "snap"})
		}
	}
	c.Tasks = [][]Op{ops}
	c.Final = []Op{{K: "snap"}, {K: "print", Margin: 4}, {K: "print", One: true}, {K: "json"}, {K: "walk"}, {K: "srs"}}
	for i := 0; i < 4; i++ {
		c.Final = append(c.Final, conf(r, Op{K: "pstmt", I: r.N(40)}))
	}
	return []*Case{c}
}

func c03judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	var v *Violation
	r.each(func(id string, o *Outcome) {
		if o.Aborted || o.Op.Mode == "panic" {
			st.Nontrivial = true
		}
		if v != nil || o.Aborted || o.Op.K == "parse" {
			return
		}
		e := alone(c, c.Setup[0], o.Op)[1]
		if o.Key() != e.Key() {
			v = viol("result", "%s (%s): differs from the first read of a fresh tree: %s", id, o.Op.K, diff(e.Key(), o.Key()))
		}
	})
	return v
}

// ---- C04: parse again

func c04cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 104)
	c := &Case{Prop: "C04", Seed: seed, Pol: serial, Srcs: []Src{maybeDamaged(r, 35)}}
	if r.P(15) {
		g := genSpec(r)
		g.Parts = max(g.Parts, 1)
		g.Poison, g.PoisonK = []int{r.N(g.Parts)}, []int{r.N(4)}
		c.Srcs[0] = Src{Gen: g}
	}
	steps := alone(c, Op{K: "parse"})[0].Steps
	var ops []Op
	first := Op{K: "parse"}
	if r.P(40) {
		first.Abort = 1 + r.U()%(steps+1)
	}
	ops = append(ops, withGC(r, first, 5))
	for i, n := 0, r.In(1, 5); i < n; i++ {
		if r.P(40) {
			ops = append(ops, readOp(r, 0))
			continue
		}
		if r.P(10) {
			ops = append(ops, Op{K: "edit", N: r.N(30)})
			continue
		}
		if r.P(2) { // others are parsed in between, many of them
			ops = append(ops, Op{K: "churn", I: r.N(1000000), N: r.Log(300)})
			continue
		}
		op := Op{K: "reparse"}
		if r.P(45) {
			op.Abort = 1 + r.U()%(steps+1)
		}
		ops = append(ops, withGC(r, op, 5))
	}
	ops = append(ops, Op{K: "reparse"})
	c.Tasks = [][]Op{ops}
	c.Final = []Op{{K: "snap"}, {K: "print", Margin: 4}, {K: "json"}, {K: "walk"}, {K: "srs"}}
	return []*Case{c}
}

func c04judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	var v *Violation
	clean, parses := false, 0
	mods := c.mods()
	r.each(func(id string, o *Outcome) {
		if v != nil {
			return
		}
		if o.Op.K == "parse" || o.Op.K == "reparse" {
			clean = !o.Aborted
			if parses++; parses > 1 {
				st.Nontrivial = true
			}
			if !clean {
				return
			}
			op := o.Op
			op.K = "parse"
			e := alone(c, op)[0]
			if o.Key() != e.Key() {
				v = viol("result", "%s (%s): differs from one parse of a fresh node: %s", id, o.Op.K, diff(e.Key(), o.Key()))
			} else if mods[0] != nil && o.Text != wantText(mods[0]) {
				v = viol("tree", "%s: the tree is not the one the text denotes: %s", id, diff(wantText(mods[0]), o.Text))
			}
			return
		}
		if o.Op.K == "edit" {
			clean = false
		}
		if o.Op.K == "srs" && o.Text != "no node" && o.Text != c.text(0) {
			v = viol("source", "%s: the node no longer holds its source: %s", id, diff(c.text(0), o.Text))
		}
		if !clean || v != nil {
			return
		}
		e := alone(c, Op{K: "parse"}, o.Op)[1]
		if o.Key() != e.Key() {
			v = viol("result", "%s (%s): differs from the same read after one parse: %s", id, o.Op.K, diff(e.Key(), o.Key()))
		}
	})
	return v
}

// ---- C05: no residue

func c05cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 105)
	if r.P(45) {
		return c05isolated(seed, r)
	}
	c := &Case{Prop: "C05", World: "history", Seed: seed, Pol: serial}
	probe := generated(r, 25)
	comeAndGo := r.P(15)
	if comeAndGo && r.P(60) && probe.Gen.Big == "" && len(probe.Damage) == 0 {
		probe.Gen.wide(r, 300)
	} else if r.P(12) {
		g := genSpec(r)
		g.Parts = max(g.Parts, 1)
		g.Poison, g.PoisonK = []int{r.N(g.Parts)}, []int{r.N(4)}
		probe = Src{Gen: g}
	}
	c.Srcs = []Src{probe}
	base := Generate(*probe.Gen)
	var ops []Op
	n := r.In(1, 8)
	if deep {
		n *= 2
	}
	for i := 0; i < n; i++ {
		var s Src
		switch r.N(6) {
		case 0: // nearly the probe
			s = Src{Gen: probe.Gen, Damage: []Damage{variant(r, base)}}
		case 1:
			s = Src{Gen: probe.Gen, Damage: []Damage{{K: "trunc", At: r.N(len(base.Text) + 1)}}}
		case 2:
			s = probe
		case 3:
			g := genSpec(r)
			g.Parts = max(g.Parts, 1)
			g.Poison, g.PoisonK = []int{r.N(g.Parts)}, []int{r.N(4)}
			s = Src{Gen: g}
		default:
			s = maybeDamaged(r, 50)
		}
		c.Srcs = append(c.Srcs, s)
		op := Op{K: "parse", S: 1 + i%20, M: len(c.Srcs) - 1}
		if r.P(35) {
			op.Abort = uint64(r.Log(30000))
		}
		ops = append(ops, withGC(r, op, 5))
		if r.P(40) {
			o := readOp(r, op.S)
			if r.P(30) {
				o.Abort = uint64(r.Log(2000))
			}
			if o.K == "walk" && r.P(30) {
				o.Mode, o.N = "panic", r.Log(20)
			}
			ops = append(ops, o)
		}
		if r.P(2) { // a long history
			ops = append(ops, Op{K: "churn", I: r.N(1000000), N: r.Log(300)})
		}
		if r.P(3) {
			ops = append(ops, Op{K: "elapse"})
		}
		if r.P(15) {
			ops = append(ops, Op{K: "tok", S: 30 + i, M: len(c.Srcs) - 1, N: r.In(1, 60)})
		}
	}
	c.Final = []Op{{K: "parse"}, {K: "snap"}, {K: "print", Margin: pick(r, 0, 2, 4), One: r.P(30)}, {K: "json"}, {K: "walk"}, conf(r, Op{K: "pstmt", I: r.N(30)})}
	if r.P(30) {
		c.Final = append(c.Final, Op{K: "tok", S: 60, N: 200})
	}
	if r.P(15) {
		c.Final = append(c.Final, Op{K: "query"})
	}
	if comeAndGo {
		// trees of much the same shape that come and go, and so come to lie
		// where others lay
		for i := r.In(1, 12); i > 0; i-- {
			if i == 1 || r.P(30) {
				c.Srcs = append(c.Srcs, Src{Gen: probe.Gen, Damage: []Damage{variant(r, base)}})
			}
			ops = append(ops, Op{K: "parse", S: 40, M: len(c.Srcs) - 1})
			for k := 2; k < len(c.Final); k++ {
				if o := c.Final[k]; o.K != "tok" {
					o.S = 40
					ops = append(ops, o)
				}
			}
			ops = append(ops, Op{K: "drop", S: 40}, Op{K: "gc"})
		}
	}
	c.Setup = ops
	return []*Case{c}
}

// c05isolated: a module against each of its procedures alone.
func c05isolated(seed uint64, r *Rng) []*Case {
	g := genSpec(r)
	g.Parts = r.In(2, 7)
	g.LeadSep = r.P(70)
	c := &Case{Prop: "C05", World: "alone", Seed: seed, Pol: serial}
	if r.P(50) {
		for i := 0; i < g.Parts; i++ {
			if r.P(25) {
				g.Poison, g.PoisonK = append(g.Poison, i), append(g.PoisonK, r.N(4))
			}
		}
		if r.P(60) && len(g.Poison) == 0 {
			g.Poison, g.PoisonK = []int{g.Parts - 1}, []int{r.N(4)}
		}
	}
	c.Srcs = []Src{{Gen: g}}
	return []*Case{c}
}

// c05split is the run that compares a module with each of its procedures alone.
func c05split(c *Case) *Case {
	g := c.Srcs[0].Gen
	x := *c
	x.Srcs = append([]Src{}, c.Srcs[0])
	x.Setup = []Op{{K: "parse"}, {K: "parts"}}
	for i := 0; i < g.Parts; i++ {
		h := *g
		h.Only = i + 1
		x.Srcs = append(x.Srcs, Src{Gen: &h})
		x.Setup = append(x.Setup, Op{K: "parse", S: i + 1, M: i + 1}, Op{K: "parts", S: i + 1})
	}
	return &x
}

func c05judge(c *Case, st *Stats) *Violation {
	if c.World == "alone" {
		c = c05split(c)
	}
	r := exec(c)
	st.observe(c, r)
	st.Nontrivial = true
	if v := common(c, r); v != nil {
		return v
	}
	if c.World == "alone" {
		return c05alone(c, r, st)
	}
	st.Nontrivial = len(r.Setup) > 0
	mods := c.mods()
	for i := range r.Final {
		o := &r.Final[i]
		if v := expectWant(c, mods, fmt.Sprintf("final[%d]", i), o); v != nil {
			return v
		}
		ops := []Op{{K: "parse", S: o.Op.S, M: 0}, o.Op}
		if o.Op.K == "parse" || o.Op.K == "tok" {
			ops = ops[1:]
		}
		e := alone(c, ops...)
		if k := e[len(e)-1].Key(); k != o.Key() {
			return viol("result", "final[%d] (%s): differs from the same call in a process without history: %s", i, o.Op.K, diff(k, o.Key()))
		}
	}
	return nil
}

func c05alone(c *Case, r *Result, st *Stats) *Violation {
	whole := &r.Setup[0]
	accepted := strings.HasPrefix(whole.Text, "ok\n")
	var parts []string
	bad := ""
	for i := 2; i+1 < len(r.Setup); i += 2 {
		p := &r.Setup[i]
		if !strings.HasPrefix(p.Text, "ok\n") && bad == "" {
			bad = fmt.Sprintf("procedure %d alone: %s", c.Srcs[p.Op.M].Gen.Only, firstLine(p.Text))
		}
		if t := r.Setup[i+1].Text; t != "" {
			parts = append(parts, t)
		}
	}
	if accepted != (bad == "") {
		if bad == "" {
			return viol("accept", "every procedure alone is accepted, the module is rejected: %s", firstLine(whole.Text))
		}
		return viol("accept", "the module is accepted, but %s", bad)
	}
	if len(c.Srcs[0].Gen.Poison) > 0 {
		st.probe("modules with a rejected procedure", 1)
	}
	if !accepted {
		return nil
	}
	st.probe("procedures compared with themselves alone", len(parts))
	got := strings.Split(r.Setup[1].Text, "\x1f")
	for i, p := range parts {
		g := "nothing"
		if i < len(got) {
			g = got[i]
		}
		if g != p {
			return viol("tree", "procedure %d of the module differs from itself alone: %s", i+1, diff(p, g))
		}
	}
	return nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---- C06: a finished tree stays

func c06cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 106)
	c := &Case{Prop: "C06", Seed: seed}
	held := r.In(1, 4)
	for i := 0; i < held; i++ {
		c.Srcs = append(c.Srcs, maybeDamaged(r, 20))
		c.Setup = append(c.Setup, Op{K: "parse", S: i, M: i}, conf(r, Op{K: "print", S: i}), Op{K: "json", S: i}, conf(r, Op{K: "pstmt", S: i, I: r.N(30)}))
		if r.P(40) {
			c.Setup = append(c.Setup, Op{K: "lower", Text: []byte(pick(r, "ЁЖИК", "Процедура ABC", "ёЯ"))})
		}
	}
	nt := r.In(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		n := r.In(1, 6)
		if deep {
			n *= 2
		}
		for i := 0; i < n; i++ {
			s := maybeDamaged(r, 40)
			if r.P(15) && s.Gen != nil {
				s.Gen = bigSpec(r)
			}
			if k := r.N(held); r.P(25) && c.Srcs[k].Gen != nil {
				s = Src{Gen: c.Srcs[k].Gen, Damage: []Damage{variant(r, Generate(*c.Srcs[k].Gen))}}
			}
			c.Srcs = append(c.Srcs, s)
			op := Op{K: "parse", S: 8 + t*8 + i%8, M: len(c.Srcs) - 1}
			if r.P(25) {
				op.Abort = uint64(r.Log(30000))
			}
			if r.P(50) {
				op.GC = uint64(r.Log(20000))
				if r.P(15) {
					op.GCEvery = uint64(r.In(500, 5000))
				}
			}
			ops = append(ops, op)
			if r.P(50) {
				ops = append(ops, readOp(r, op.S))
			}
			if r.P(25) {
				ops = append(ops, readOp(r, r.N(held)))
			}
			if r.P(40) {
				ops = append(ops, Op{K: "gc"})
			}
			if r.P(6) { // a long history, so that whatever is limited in number is used up
				ops = append(ops, Op{K: "churn", I: r.N(1000000), N: r.Log(400)})
			}
			if r.P(20) {
				ops = append(ops, Op{K: "lower", Text: []byte(pick(r, "ДРУГОЕ", "XYZ", "ОченьДлинноеИмяПроцедуры"))})
			}
		}
		c.Tasks = append(c.Tasks, ops)
	}
	c.Final = []Op{{K: "gc"}}
	for i := 0; i < held; i++ {
		if r.P(40) {
			c.Setup = append(c.Setup, Op{K: "keep", S: i, Mode: pick(r, "drop", "drop", "")})
			c.Final = append(c.Final, Op{K: "kept", S: i})
		}
		if x := c.Setup[len(c.Setup)-1]; x.K == "keep" && x.Mode == "" && r.P(60) {
			// the node is parsed again, perhaps not to the end, while the program keeps the earlier tree
			c.Setup = append(c.Setup, Op{K: "reparse", S: i, M: i, Abort: uint64(r.Log(3000))})
			continue
		}
		c.Final = append(c.Final, Op{K: "snap", S: i}, Op{K: "print", S: i, Margin: 4}, Op{K: "json", S: i}, Op{K: "walk", S: i}, Op{K: "srs", S: i})
	}
	c.Pol = policy(r, 20000)
	return []*Case{c}
}

func (c *Case) kept(slot int) bool {
	for _, q := range c.Setup {
		if q.K == "keep" && q.S == slot {
			return true
		}
	}
	return false
}

func c06judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	st.Nontrivial = len(r.Setup) > 0 && len(r.Tasks) > 0
	if v := common(c, r); v != nil {
		return v
	}
	for i := range r.Final {
		o := &r.Final[i]
		if o.Op.K == "gc" || o.Text == "no node" {
			continue
		}
		p := Op{K: "parse", S: o.Op.S, M: -1}
		for _, q := range c.Setup {
			if q.K == "parse" && q.S == o.Op.S {
				p.M = q.M
			}
		}
		if p.M < 0 {
			continue
		}
		q := o.Op
		if q.K == "kept" {
			if !c.kept(q.S) {
				continue
			}
			q.K = "snap"
		}
		e := alone(c, p, q)[1]
		if e.Key() != o.Key() {
			return viol("result", "final[%d] (%s of held tree %d): changed since it was parsed: %s", i, o.Op.K, o.Op.S, diff(e.Key(), o.Key()))
		}
	}
	return nil
}

// ---- C07: damaged text

func c07src(r *Rng, deep bool) Src {
	switch x := r.N(100); {
	case x < 4:
		s := Src{Raw: []byte(nestText(nest(r, deep)))}
		if len(s.Raw) > 0 && r.P(30) {
			s.Damage = append(s.Damage, spoil(r, s.Raw))
		}
		return s
	case x < 15:
		s := Src{Raw: oddText(r)}
		if len(s.Raw) > 0 && r.P(35) {
			s.Damage = append(s.Damage, spoil(r, s.Raw))
		}
		return s
	case x < 70:
		g := genSpec(r)
		if r.P(15) {
			g = bigSpec(r)
		}
		s := Src{Gen: g}
		for i, n := 0, 1+r.N(3); i < n; i++ {
			t, _ := s.Build()
			if len(t) == 0 {
				break
			}
			s.Damage = append(s.Damage, spoil(r, []byte(t)))
		}
		return s
	case x < 80:
		// token soup
		var b strings.Builder
		for i, n := 0, r.In(1, 60); i < n; i++ {
			b.WriteString(pick(r, "Процедура", "КонецПроцедуры", "Функция", "КонецФункции", "Если", "Тогда", "ИначеЕсли", "Иначе", "КонецЕсли", "Для", "Каждого", "Из", "По", "Цикл", "КонецЦикла", "Прервать", "Продолжить", "Попытка", "Исключение", "КонецПопытки", "Новый", "Возврат", "ВызватьИсключение", "И", "ИЛИ", "Не", "Истина", "Неопределено", "Экспорт", "Знач", "Перем", "Перейти", "Выполнить", "а", "Б1", "1", "2.5", "\"с\"", "'20200101'", "(", ")", "[", "]", ",", ";", ":", ".", "=", "<", ">", "<>", "<=", "?", "+", "-", "*", "/", "%", "~м", "&НаКлиенте", "&", "//", "#", "\n", "\"", "'", "\xff"))
			b.WriteString(pick(r, " ", " ", "", "\n"))
		}
		return Src{Raw: []byte(b.String())}
	case x < 90:
		// random bytes
		b := make([]byte, r.Log(400))
		for i := range b {
			b[i] = byte(r.U())
			if r.P(60) {
				b[i] = "аеи ;()\"'\n.=1a"[r.N(17)]
			}
		}
		return Src{Raw: b}
	}
	// one construct repeated many times
	n := r.Log(3000)
	if deep {
		n = r.Log(20000)
	}
	if r.P(50) {
		// a list that does not end
		h := pick(r, longLists...)
		if r.P(45) {
			h = pick(r, countedLists...)
		}
		s := Src{Head: []byte(h[0]), Raw: []byte(h[1]), Tail: []byte(h[2]), Rep: n}
		if r.P(10) {
			s.Rep = r.In(n, 20*n)
		}
		if r.P(30) {
			s.Tail = nil
		}
		return s
	}
	if r.P(8) {
		// long flat texts
		return Src{Raw: []byte(pick(r, "//\n", "#\n", "#Если\n//\n", "//\n#\n", "\n", " ", "\"\n|", "\"\n//а\n|", "\"а\" ", "а = 1;\n", ";", "я", "9", "~м:", "Перем а;", "Процедура А() КонецПроцедуры ", "\x80", "Если а Тогда КонецЕсли;", "1 ", "\"\"")), Rep: r.In(n, 20*n),
			Tail: []byte(pick(r, "", "", "а", "\"", "\n", "КонецЕсли", ";", "а = 1;"))}
	}
	s := Src{Raw: []byte(pick(r, "(", ")", "[", "а[", "а(", "?(", "?(а,", "-", "Не ", "+", "а.", ".", "\"\"", "\"", "\"а\" ", "'", ";", ":", "~м:", "//\n", "//", "#\n", "#Если\n//\n", "&НаКлиенте\n", "&", "Если а Тогда ", "Если а Тогда КонецЕсли;", "Пока а Цикл ", "Попытка ", "Попытка Исключение ", "Процедура А() ", "Процедура А() КонецПроцедуры ", "Перем а;", "а=а+", "а+", "а,", "Прервать;", "Возврат 1;", "ВызватьИсключение;", "Новый ", "Новый а(", "Выполнить ", "\n", "\"\n|", "\"\n//а\n|", "1.", "1.1", "9", "\x80", "\xf0", "\xd0", "\x00", "ИначеЕсли а Тогда ", "Иначе ", "я", "Для Каждого а Из а Цикл ", "а = 1;\n", "а(,,,);", "&&", "'1'", "<", "<=", "\t", "\r", "\r\n")), Rep: n}
	if r.P(50) {
		s.Tail = []byte(pick(r, "а", "КонецЕсли", "КонецПроцедуры", ")", "\"", ";", "1", "\n", "Процедура А() КонецПроцедуры"))
	}
	if r.P(30) {
		s.Raw = append([]byte(pick(r, "Если а Тогда ИначеЕсли б Тогда ", "а = ", "а(", "\"", "Процедура П() ")), s.Raw...)
		if r.P(70) {
			s.Rep = 1 + s.Rep/20
		}
	}
	return s
}

var longLists = [][3]string{
	{"а = \"", "\n|", "\";"}, {"а = \"", "\nя|ю", "\";"}, {"а = \"", "\r\n\t|б", "\";"}, {"а = \"", "\n//ж\n|", "\";"}, {"а = \"", "\"\"", "\";"}, {"а = \"", "я", "\";"},
	{"а = \"", "\n \n|", "\";"}, {"а = ", "\"с\"\n", ";"}, {"а = 1", "0", ";"}, {"а = 1.", "5", ";"}, {"а = '2020", "0", "';"}, {"а = '20200101", "-", "';"}, {"а", "я", " = 1;"}, {"а = б", ".в", ";"},
	{"а = б", "[1]", ";"}, {"а = б", ".в()", ";"}, {"а(", "1,", ");"}, {"а(", ",", ");"}, {"а = 1", " + 1", ";"}, {"а = 1", " И 1", ";"}, {"а = (", "1, ", ");"},
	{"Перем а", ", а", ";"}, {"Перем а", " , б", " Экспорт;"}, {"Процедура П() Перем а", ", а", "; КонецПроцедуры"}, {"Процедура П(", "а, ", "а) КонецПроцедуры"}, {"Процедура П(а", " = 1", ") КонецПроцедуры"},
	{"Процедура П() ", "Перем а;", " КонецПроцедуры"}, {"Процедура П() ", "а = 1;", " КонецПроцедуры"}, {"Процедура П() ", ";", " КонецПроцедуры"}, {"Процедура П() ", "~м:", " КонецПроцедуры"},
	{"Если а Тогда ", "ИначеЕсли б Тогда ", "КонецЕсли;"}, {"Если а Тогда ", "б();", "КонецЕсли;"}, {"Если а Тогда ", "ИначеЕсли б Тогда в = 1; ", "Иначе г(); КонецЕсли;"},
	{"Пока а Цикл ", "Прервать;", "КонецЦикла;"}, {"Попытка а() Исключение ", "ВызватьИсключение;", "КонецПопытки;"}, {"", "ВызватьИсключение;", ""}, {"", "а = Новый Массив(1);", ""}, {"", "Если а Тогда Возврат КонецЕсли;\n", ""},
	{"", "Процедура П() КонецПроцедуры\n", "а();"}, {"", "&НаКлиенте\nПеред а;", ""}, {"", "&НаКлиенте\nПерем а;", ""}, {"", "#Область\n", "а();"}, {"а", "\n", "= 1;"}, {"а", " //\n", "= 1;"}, {"а = 1;", " ", ""}, {"", "Выполнить \"а\";", ""},
}

// countedLists are lists of things with different names.
var countedLists = [][3]string{
	{"Процедура П(", "а§, ", "а) КонецПроцедуры"}, {"Процедура П(", "Знач А§ = §, ", "а) КонецПроцедуры"}, {"Перем а", ", а§", ";"}, {"", "Перем а§;\n", "а();"}, {"", "&НаКлиенте\nПерем а§ Экспорт;\n", ""},
	{"Процедура П() ", "Перем а§; ", "КонецПроцедуры"}, {"Процедура П() Перем а", ", а§", "; КонецПроцедуры"}, {"Процедура П() ", "а§ = §; ", "КонецПроцедуры"}, {"", "Процедура П§() КонецПроцедуры\n", "П0();"},
	{"", "Функция П§(А§) Экспорт Перем Б§; Возврат А§; КонецФункции\n", "П0();"}, {"", "&НаСервере\nПроцедура П§() П§(); КонецПроцедуры\n", ""}, {"", "~м§: а = §;\n", "Перейти ~м0;"}, {"", "Перейти ~м§;\n", ""},
	{"", "а§();\n", ""}, {"", "а§ = б§.в§(г§, \"§\") + §;\n", ""}, {"а(", "а§, ", "1);"}, {"а = б", ".в§", ";"}, {"а = б", ".в§(§)", ";"}, {"а = б", "[а§]", ";"}, {"а = 1", " + а§", ";"}, {"а = Истина", " И а§ = §", ";"},
	{"Если а Тогда ", "ИначеЕсли а§ Тогда б§(); ", "КонецЕсли;"}, {"", "Если а§ Тогда б§ = §; Иначе в§(); КонецЕсли;\n", ""}, {"", "Для а§ = 1 По § Цикл б§(); КонецЦикла;\n", ""}, {"", "Попытка а§(); Исключение б§(); КонецПопытки;\n", ""},
	{"", "а = Новый Массив§(б§);\n", ""}, {"а = Новый Структура(\"", "а§,", "б\");"}, {"а = \"", "\n|строка §", "\";"}, {"а = ", "\"строка §\"\n", ";"}, {"", "// строка §\n", "а();"}, {"", "#Область О§\n", "а();"}, {"а(", "'202001§', ", "1);"},
	{"а = ?(а, б, ", "?(а§, б§, ", "в);"}, {"", "Если а§ Тогда ", "б();"}, {"а = ", "а§(", "1);"}, {"а = ", "(а§ + ", "1);"},
}

func c07cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 107)
	c := &Case{Prop: "C07", Seed: seed, Pol: serial, Srcs: []Src{c07src(r, deep)}}
	c.Setup = []Op{withGC(r, Op{K: "parse"}, 5), {K: "print", Margin: 4}, {K: "print", One: true}, {K: "json"}, {K: "walk"}, conf(r, Op{K: "pstmt", I: r.N(30)})}
	c.Env.MapSeed = r.U() >> 8
	c.Final = append([]Op{}, c.Setup...)
	return []*Case{c}
}

func c07judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	st.Nontrivial = len(r.Setup) > 0 && strings.HasPrefix(r.Setup[0].Text, "error") || len(c.Srcs[0].Damage) > 0
	if v := common(c, r); v != nil {
		return v
	}
	for i := range r.Setup {
		o, n := &r.Setup[i], c.sizeOf(&r.Setup[i].Op)
		if os.Getenv("SIM_WORK") != "" && o.Op.K == "parse" && n > 0 {
			fmt.Fprintln(os.Stderr, "WORK", n, o.Alloc/uint64(n), o.Scan/uint64(n), o.Alloc, o.Scan, o.Steps/uint64(n), o.Stack)
		}
		if o.Op.K != "parse" {
			continue
		}
		if o.Alloc > allocBudget(n) {
			return viol("work", "setup[%d]: parsing %d bytes allocated %d bytes", i, n, o.Alloc)
		}
		if o.Stack > stackBudget(n) {
			return viol("stack", "setup[%d]: parsing %d bytes took %d bytes of stack", i, n, o.Stack)
		}
		if o.Scan > scanBudget(n) {
			return viol("work", "setup[%d]: parsing %d bytes searched through %d bytes", i, n, o.Scan)
		}
	}
	for i := range r.Final {
		if i < len(r.Setup) && opEq(r.Final[i].Op, r.Setup[i].Op) && r.Final[i].Key() != r.Setup[i].Key() {
			return viol("repeat", "op %d (%s): the second time it differs: %s", i, r.Final[i].Op.K, diff(r.Setup[i].Key(), r.Final[i].Key()))
		}
	}
	return nil
}

// ---- C08: torn modules

func c08cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 108)
	g := genSpec(r)
	g.slim(r)
	m := Generate(*g)
	if len(m.Toks) == 0 {
		return nil
	}
	n := 30
	if deep {
		n = 90
	}
	var cs []*Case
	mk := func(w string, x int, d ...Damage) {
		cs = append(cs, &Case{Prop: "C08", World: w, Seed: seed, K: len(cs), Pol: serial, X: []int{x}, Srcs: []Src{{Gen: g, Damage: d}}, Setup: []Op{{K: "parse"}}})
	}
	mk("whole", 0)
	for i := 0; i < n; i++ {
		at := r.N(len(m.Text) + 1)
		switch x := r.N(10); {
		case x < 3:
			t := pick(r, m.Toks...)
			at = pick(r, t.Off, t.End, t.End-1, t.Off+1)
		case x < 5 && len(m.Parts) > 0:
			p := pick(r, m.Parts...)
			at = min(len(m.Text), p.End+r.N(4))
		case x < 6 && len(m.Spans) > 0:
			s := pick(r, m.Spans...)
			at = pick(r, s.From, s.To-1, s.To-2)
		}
		if r.P(20) {
			mk("zero", at, Damage{K: "zero", At: at, N: len(m.Text)})
		} else {
			mk("cut", at, Damage{K: "trunc", At: at})
		}
	}
	// every byte of a few literals: what comes before the cut is complete but for them
	var lits []Tok
	for i, t := range m.Toks {
		if (t.S[0] == '"' || t.S[0] == '\'') && i > 0 && m.Toks[i-1].S == "=" && t.End-t.Off > 2 {
			lits = append(lits, t)
		}
	}
	for i := 0; i < 2 && len(lits) > 0; i++ {
		t := pick(r, lits...)
		for j := 0; j < 6; j++ {
			at := r.In(t.Off+1, t.End-1)
			mk("cut", at, Damage{K: "trunc", At: at})
		}
	}
	// a last statement that stops inside a literal or brackets
	for i := 0; i < n/3; i++ {
		mk("torn", 0, Damage{K: "ins", At: len(m.Text), Data: []byte(pick(r, tornHeads...) + tornTail(r))})
	}
	var br []int
	for i, t := range m.Toks {
		if t.Bracket {
			br = append(br, i)
		}
	}
	for i := 0; i < n/4 && len(br) > 0; i++ {
		k := pick(r, br...)
		t := m.Toks[k]
		if r.P(50) {
			mk("drop", k, Damage{K: "sub", At: t.Off, Data: []byte(strings.Repeat(" ", t.End-t.Off))})
		} else {
			mk("repeat", k, Damage{K: "ins", At: t.End, Data: []byte(" " + t.S)})
		}
	}
	// several structure tokens lost, repeated, replaced or exchanged at once
	st := m.structure()
	// one closing keyword taken for another
	var ends []int
	for _, i := range st {
		if strings.HasPrefix(strings.ToLower(m.Toks[i].S), "конец") {
			ends = append(ends, i)
		}
	}
	for i := 0; i < n/5 && len(ends) > 0; i++ {
		mk("pairs", 0, Damage{K: "kw", At: pick(r, ends...), N: 2, Data: []byte(pick(r, "КонецПроцедуры", "КонецФункции", "КонецЕсли", "КонецЦикла", "КонецПопытки"))})
	}
	for i := 0; i < n/3 && len(st) > 0; i++ {
		var d []Damage
		for j := r.In(1, 3); j > 0; j-- {
			a := pick(r, st...)
			switch r.N(5) {
			case 0:
				d = append(d, Damage{K: "kw", At: a})
			case 1:
				d = append(d, Damage{K: "kw", At: a, N: 1})
			case 2, 3: // replaced by a token of this module, or by any
				w := m.Toks[pick(r, st...)].S
				if r.P(50) {
					w = pick(r, structWords...)
				}
				d = append(d, Damage{K: "kw", At: a, N: 2, Data: []byte(w)})
			case 4:
				b := pick(r, st...)
				d = append(d, Damage{K: "kw", At: a, N: 2, Data: []byte(m.Toks[b].S)}, Damage{K: "kw", At: b, N: 2, Data: []byte(m.Toks[a].S)})
			}
		}
		mk("pairs", 0, d...)
	}
	return cs
}

var structWords = strings.Fields("Процедура КонецПроцедуры Функция КонецФункции Если Тогда Иначе ИначеЕсли КонецЕсли Для Пока Цикл КонецЦикла Попытка Исключение КонецПопытки ( ) [ ]")
var structWord = map[string]bool{}

func init() {
	for _, w := range structWords {
		structWord[strings.ToLower(w)] = true
	}
}

// structure lists the tokens that open, close or divide a construct.
func (m *Module) structure() []int {
	var o []int
	for i, t := range m.Toks {
		if structWord[strings.ToLower(t.S)] && (i == 0 || m.Toks[i-1].S != ".") {
			o = append(o, i)
		}
	}
	return o
}

// kwEdits: what stands in the place of each damaged structure token.
func kwEdits(m *Module, ds []Damage) map[int][]string {
	var st map[int]bool
	o := map[int][]string{}
	for _, d := range ds {
		if d.K != "kw" {
			continue
		}
		if st == nil {
			st = map[int]bool{}
			for _, i := range m.structure() {
				st[i] = true
			}
		}
		if !st[d.At] {
			continue
		}
		switch d.N {
		case 0:
			o[d.At] = []string{}
		case 1:
			o[d.At] = []string{m.Toks[d.At].S, m.Toks[d.At].S}
		default:
			o[d.At] = []string{string(d.Data)}
		}
	}
	return o
}

// paired: whether the structure tokens, after the damage, pair up at all. A
// text whose tokens do not is not a module, whatever else it contains.
func paired(m *Module, ds []Damage) (string, bool) {
	ed := kwEdits(m, ds)
	type frame struct {
		w     string
		phase int // 0: condition, 1: body, 2: last branch
	}
	var st []frame
	close := map[string]string{"конецпроцедуры": "процедура", "конецфункции": "функция", "конецесли": "если", "конеццикла": "цикл", "конецпопытки": "попытка", ")": "(", "]": "["}
	for _, i := range m.structure() {
		ws, ok := ed[i]
		if !ok {
			ws = []string{m.Toks[i].S}
		}
		for _, w := range ws {
			w = strings.ToLower(w)
			top := &frame{}
			if len(st) > 0 {
				top = &st[len(st)-1]
			}
			bad := false
			switch w {
			case "(", "[":
				st = append(st, frame{w: w})
			case "процедура", "функция":
				bad = len(st) > 0
				st = append(st, frame{w: w, phase: 2})
			case "если":
				bad = len(st) > 0 && top.phase == 0
				st = append(st, frame{w: w})
			case "для", "пока":
				bad = len(st) > 0 && top.phase == 0
				st = append(st, frame{w: "цикл"})
			case "попытка":
				bad = len(st) > 0 && top.phase == 0
				st = append(st, frame{w: w, phase: 1})
			case "тогда":
				bad = top.w != "если" || top.phase != 0
				top.phase = 1
			case "цикл":
				bad = top.w != "цикл" || top.phase != 0
				top.phase = 2
			case "иначеесли":
				bad = top.w != "если" || top.phase != 1
				top.phase = 0
			case "иначе":
				bad = top.w != "если" || top.phase != 1
				top.phase = 2
			case "исключение":
				bad = top.w != "попытка" || top.phase != 1
				top.phase = 2
			case ")", "]":
				bad = top.w != close[w]
			case "конецесли":
				bad = top.w != "если" || top.phase == 0
			default:
				bad = top.w != close[w] || top.phase != 2
			}
			if bad {
				return fmt.Sprintf("%q (token %d, was %q) does not fit where it stands", w, i, m.Toks[i].S), false
			}
			if close[w] != "" {
				st = st[:len(st)-1]
			}
		}
	}
	if len(st) > 0 {
		return fmt.Sprintf("%q is never closed", st[len(st)-1].w), false
	}
	return "", true
}

func c08judge(c *Case, st *Stats) *Violation {
	m := Generate(*c.Srcs[0].Gen)
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	if len(r.Setup) == 0 {
		return nil
	}
	o := &r.Setup[0]
	isErr := strings.HasPrefix(o.Text, "error")
	x := c.X[0]
	switch c.World {
	case "whole":
		if o.Text != wantText(m) {
			return viol("tree", "the complete module: %s", diff(wantText(m), o.Text))
		}
	case "cut", "zero":
		if len(c.Srcs[0].Damage) > 0 {
			x = c.Srcs[0].Damage[0].At
		}
		for _, s := range m.Spans {
			if x >= s.From && x < s.To {
				st.Nontrivial = true
				st.probe("cut inside a construct ("+c.World+")", 1)
				if !isErr {
					return viol("accepted", "%s at byte %d, inside %q which goes from %d to %d, is accepted", c.World, x, s.What, s.From, s.To)
				}
				return nil
			}
		}
		if what := m.inside(x); what != "" {
			st.Nontrivial = true
			st.probe("cut inside a literal or brackets", 1)
			if !isErr {
				return viol("accepted", "%s at byte %d, inside %s, is accepted", c.World, x, what)
			}
			return nil
		}
		if c.World == "zero" {
			return nil
		}
		n, ok := m.boundary(x)
		if !ok {
			st.probe("cut inside a module statement (nothing required)", 1)
			return nil
		}
		st.Nontrivial = true
		st.probe("cut between parts", 1)
		t := m.Prefix(n)
		if w := "ok\n" + dump(t); w != o.Text {
			return viol("prefix", "cut at byte %d, after part %d: %s", x, n, diff(w, o.Text))
		}
	case "torn":
		d := c.Srcs[0].Damage
		if len(d) != 1 || d[0].At != len(m.Text) || !torn(string(d[0].Data)) {
			return nil
		}
		st.Nontrivial = true
		st.probe("last statement torn inside a literal", 1)
		if !isErr {
			return viol("accepted", "the text ends inside the literal in %q: accepted", d[0].Data)
		}
	case "pairs":
		why, ok := paired(m, c.Srcs[0].Damage)
		if ok {
			st.probe("damaged tokens still pair up (nothing required)", 1)
			return nil
		}
		st.Nontrivial = true
		st.probe("structure tokens do not pair up", 1)
		if !isErr {
			return viol("accepted", "%s: accepted", why)
		}
	case "drop", "repeat":
		if x >= len(m.Toks) || !m.Toks[x].Bracket {
			return nil
		}
		// the minimiser may have moved the keyword
		d := c.Srcs[0].Damage
		if len(d) == 0 || c.World == "drop" && d[0].At != m.Toks[x].Off || c.World == "repeat" && d[0].At != m.Toks[x].End {
			return nil
		}
		st.Nontrivial = true
		st.probe("keyword lost or repeated", 1)
		if !isErr {
			return viol("accepted", "keyword %q at byte %d %s: accepted", m.Toks[x].S, m.Toks[x].Off, map[string]string{"drop": "lost", "repeat": "repeated"}[c.World])
		}
	}
	return nil
}

// beginnings of a last statement that ends in an open literal
var tornHeads = []string{"\n;Ж = \"", "\n;Ж = '", "\n;Ж(\"", "\n;Ж[\"", "\n;Возврат \"", "\n;Ж = \"а\" \"", "\n;Ж = \"а\"\"", "\nПерем Ж; Ж = \"", "\n;Ж = Новый Ж(\"", "\n;Ж = 'а' + \""}

// tornTail: what stands in the literal the text ends in.
func tornTail(r *Rng) string {
	var b strings.Builder
	for n := r.N(7); n > 0; n-- {
		b.WriteString(pick(r, ";", ")", "]", "//", "#", "&", "|", " ", "\t", "\n|", "\n |", ",", ".", "КонецЕсли", "КонецПроцедуры;", "а", "я1", "🙂", "\x00", "=", "0", "20200101", "\\", "%", "\r", "~", "?", "\n//"))
	}
	return b.String()
}

// torn: s is one of the heads and a tail that does not end the literal.
func torn(s string) bool {
	for _, h := range tornHeads {
		if strings.HasPrefix(s, h) && !strings.ContainsAny(s[len(h):], "\"'") {
			return true
		}
	}
	return false
}

// unclosed: the start of a string literal is not a literal itself. Quotes in
// comment lines between the lines of the literal do not count.
func unclosed(s string) bool {
	in := false
	for i, line := range strings.Split(s, "\n") {
		if i == 0 || !in || !strings.HasPrefix(strings.TrimLeft(line, " \t"), "//") {
			in = in != (strings.Count(line, "\"")%2 == 1)
		}
	}
	return in
}

// inside names the literal or pair of brackets a cut at byte x tears.
func (m *Module) inside(x int) string {
	var open []int
	for i, t := range m.Toks {
		if t.Off >= x {
			break
		}
		if t.End > x && (t.S[0] == '"' && unclosed(t.S[:x-t.Off]) || t.S[0] == '\'') {
			return t.S
		}
		if t.End > x {
			break
		}
		switch t.S {
		case "(", "[":
			open = append(open, i)
		case ")", "]":
			open = open[:len(open)-1]
		}
	}
	if len(open) > 0 {
		return fmt.Sprintf("the brackets opened at byte %d", m.Toks[open[len(open)-1]].Off)
	}
	return ""
}

// boundary: if byte x lies between top-level parts, how many come before it.
func (m *Module) boundary(x int) (int, bool) {
	// tokens that end at or before x
	k := 0
	for k < len(m.Toks) && m.Toks[k].End <= x {
		k++
	}
	if k < len(m.Toks) && m.Toks[k].Off < x {
		return 0, false
	}
	// the first slash of a comment alone is an operator
	for _, t := range m.Trivs {
		if t.Kind == '/' && x == t.Off+1 {
			return 0, false
		}
	}
	n, last := 0, -1
	for n < len(m.Parts) && m.Parts[n].LastTok < k {
		last = m.Parts[n].LastTok
		n++
	}
	for i := last + 1; i < k; i++ {
		if m.Toks[i].S != ";" && m.Toks[i].S != ":" {
			return 0, false
		}
	}
	return n, true
}

// ---- C09: error locations

var locRe = regexp.MustCompile(`(?s)line: (-?\d+), column: (-?\d+) \(unexpected literal: (".*")\)`)

func c09cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 109)
	g := genSpec(r)
	g.slim(r)
	m := Generate(*g)
	if len(m.Text) == 0 {
		return nil
	}
	n := 25
	if deep {
		n = 80
	}
	var cs []*Case
	for i := 0; i < n; i++ {
		at := r.N(len(m.Text))
		if r.P(60) {
			t := pick(r, m.Toks...)
			at = pick(r, t.Off, t.End, t.Off)
		}
		var d Damage
		switch r.N(7) {
		case 0, 1:
			d = Damage{K: "trunc", At: at}
		case 2:
			d = Damage{K: "del", At: at, N: r.Log(40)}
		case 3:
			d = Damage{K: "swap", At: at, N: r.Log(30), To: at + r.Log(200)}
		default:
			d = Damage{K: "ins", At: at, Data: []byte(pick(r, " КонецЕсли ", " КонецПроцедуры ", " Если ", " ) ", " ( ", " Прервать; ", "\n Возврат 1;\n", " ВызватьИсключение; ", " \"строка\" ", "\"a\n |b\n\t|ж\"", " '20200101' ", " \"а\"\n\"б\" ", " Перем А; ", " = ", " <> ", " ~м ", " 12.5 ", " Тогда ", "\n\n\nКаждого\n\n", " Истина ", " // х\n По ", " &НаКлиенте ", " '2020.01.01 00:00' ", " \"\" ", " \"ж\" // к\n\n", "\r\nЦикл\r\n", " ё Ж ", " \t\"т\"\t", ": : :"))}
		}
		c := &Case{Prop: "C09", Seed: seed, K: i, Pol: serial, Srcs: []Src{{Gen: g, Damage: []Damage{d}}}, Setup: []Op{{K: "parse"}}}
		var pl []int
		for _, k := range m.between() {
			if k+1 < len(m.Toks) && m.Toks[k+1].End < at {
				pl = append(pl, m.Toks[k].End)
			}
		}
		if r.P(50) && len(pl) > 0 { // the same after a statement that must not stand where it does
			c.World = "second"
			c.Srcs = append(c.Srcs, Src{Gen: g, Damage: []Damage{d, {K: "ins", At: pick(r, pl...), Data: []byte(pick(r, misplaced...))}}})
			c.Setup = append(c.Setup, Op{K: "parse", S: 1, M: 1})
		}
		cs = append(cs, c)
	}
	return cs
}

func c09judge(c *Case, st *Stats) *Violation {
	m := Generate(*c.Srcs[0].Gen)
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	if len(r.Setup) == 0 || len(c.Srcs[0].Damage) != 1 || r.Setup[0].Op.M != 0 {
		return nil
	}
	text := c.text(0)
	et := r.Setup[0].Text
	if i := strings.Index(et, "\nModuleStatement{"); i >= 0 {
		et = et[:i]
	}
	if !strings.HasPrefix(et, "error") {
		return nil
	}
	x := locRe.FindStringSubmatch(et)
	if x == nil {
		st.probe("errors without a location", 1)
		return nil
	}
	st.Nontrivial = true
	st.probe("errors with a location", 1)
	line, _ := strconv.Atoi(x[1])
	col, _ := strconv.Atoi(x[2])
	lit, err := strconv.Unquote(x[3])
	if err != nil {
		return viol("location", "%s: the literal is not a quoted string", et)
	}
	lines := strings.Split(text, "\n")
	if line < 1 || line > len(lines) {
		return viol("location", "%s: the text has %d lines", et, len(lines))
	}
	rs := []rune(lines[line-1])
	if col < 0 || col > len(rs) {
		return viol("location", "%s: line %d has %d characters", et, line, len(rs))
	}
	off := 0
	for _, l := range lines[:line-1] {
		off += len(l) + 1
	}
	// byte offset of the column (an invalid byte counts as one character)
	k := 0
	for i := range lines[line-1] {
		if k == col {
			off += i
			break
		}
		k++
	}
	if k < col || col == len(rs) {
		off += len(lines[line-1])
		if k == col && col < len(rs) {
			off -= len(lines[line-1])
		}
	}
	if !standsAt(text[off:], lit) {
		return viol("location", "%s: at that place stands %q", et, cutRunes(text[off:], 20))
	}
	last := Tok{}
	for _, t := range m.Toks {
		// a token that touches the damage may be extended by it, and a string or
		// date is continued by a string that follows it
		if t.End < c.Srcs[0].Damage[0].At && t.S[0] != '"' && t.S[0] != '\'' {
			last = t
		}
	}
	if off < last.Off {
		return viol("location", "%s: byte %d is before token %q at byte %d, which the damage from byte %d on left alone", et, off, last.S, last.Off, c.Srcs[0].Damage[0].At)
	}
	if len(lit) > 0 {
		st.probe("located literal checked", 1)
	}
	if c.World == "second" {
		return c09second(c, m, r, et, off, st)
	}
	return nil
}

// statements that can stand anywhere but break a rule of context outside loops and handlers
var misplaced = []string{"\nПрервать;\n", "\nПродолжить;\n", "\nВызватьИсключение;\n", "\nbreak;\n"}

// between: the semicolons of the module a statement may follow.
func (m *Module) between() []int {
	var ret []int
	for i, t := range m.Toks {
		if t.S != ";" || i+1 < len(m.Toks) && noStatement(m.Toks[i+1].S) {
			continue
		}
		ret = append(ret, i)
	}
	return ret
}

// noStatement: the word begins or goes on with declarations, which no statement precedes.
func noStatement(s string) bool {
	switch strings.ToLower(s) {
	case "перем", "var", "процедура", "procedure", "функция", "function":
		return true
	}
	return s[0] == '&'
}

// c09second: text that cannot be parsed is reported where it stands, whatever
// misplaced statements come before it.
func c09second(c *Case, m *Module, r *Result, et string, off int, st *Stats) *Violation {
	if len(c.Srcs) != 2 || len(r.Setup) != 2 || r.Setup[1].Op.M != 1 || !utf8.ValidString(c.text(0)) || !strings.HasPrefix(et, "error syntax error. ") {
		return nil
	}
	d, e := c.Srcs[0].Damage, c.Srcs[1].Damage
	if !reflect.DeepEqual(c.Srcs[0].Gen, c.Srcs[1].Gen) || len(e) != 2 || !reflect.DeepEqual(e[0], d[0]) || e[1].K != "ins" || e[1].At > d[0].At || e[1].At > off {
		return nil
	}
	ok := false
	for _, k := range m.between() {
		// the token after it is untouched
		ok = ok || m.Toks[k].End == e[1].At && k+1 < len(m.Toks) && m.Toks[k+1].End < d[0].At
	}
	w := string(e[1].Data)
	if !ok || !slices.Contains(misplaced, w) {
		return nil
	}
	st.probe("place compared with the same text after a misplaced statement", 1)
	before := c.text(1)[:off+len(w)]
	col := utf8.RuneCountInString(before[strings.LastIndex(before, "\n")+1:])
	want := fmt.Sprintf("error syntax error. line: %d, column: %d %s", strings.Count(before, "\n")+1, col, et[strings.Index(et, "(unexpected literal: "):])
	got := r.Setup[1].Text
	if i := strings.Index(got, "\nModuleStatement{"); i >= 0 {
		got = got[:i]
	}
	if got != want {
		return viol("location", "after %q at byte %d: want %s, got %s", w, e[1].At, want, got)
	}
	return nil
}

func cutRunes(s string, n int) string {
	rs := []rune(s)
	if len(rs) > n {
		rs = rs[:n]
	}
	return string(rs)
}

// standsAt: the literal of the token at the start of s is lit. Strings and
// dates come without their quotes, labels without "~", directives without "&".
func standsAt(s, lit string) bool {
	if strings.HasPrefix(s, lit) {
		return true
	}
	if s == "" {
		return lit == ""
	}
	switch s[0] {
	case '\'':
		return strings.HasPrefix(digits(s), lit)
	case '"':
		// adjacent strings count as one, lines of a string are joined, comments between them skipped
		a, b := norm(s), norm(lit)
		n := min(8, len([]rune(b)))
		return strings.HasPrefix(a, string([]rune(b)[:n]))
	case '~', '&':
		return strings.HasPrefix(s[1:], lit)
	}
	return false
}

func digits(s string) string {
	return strings.Map(func(c rune) rune {
		if c >= '0' && c <= '9' {
			return c
		}
		return -1
	}, s)
}

var commentLine = regexp.MustCompile(`\n\s*(//|#)[^\n]*`)

func norm(s string) string {
	s = commentLine.ReplaceAllString(s, "")
	return strings.Map(func(c rune) rune {
		if c == '"' || c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			return -1
		}
		return c
	}, s)
}

// ---- C10: environment

func c10cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 110)
	src := maybeDamaged(r, 15)
	if r.P(15) {
		src = Src{Raw: oddText(r)}
	}
	if src.Gen != nil && r.P(60) {
		src.Gen.Globals = r.In(2, 9)
		src.Gen.Twins = r.P(40)
		if src.Gen.Parts+src.Gen.Tail == 0 {
			src.Gen.Parts = 1
		}
	}
	if src.Gen != nil && src.Gen.Big == "" && len(src.Damage) == 0 && r.P(8) {
		// many small procedures, some of one name
		src.Gen.Parts, src.Gen.Stmts, src.Gen.Depth, src.Gen.Twins = r.In(9, 70), r.In(0, 2), 1, r.P(50)
	}
	n := 4
	if deep {
		n = 10
	}
	var cs []*Case
	for k := 0; k < n; k++ {
		c := &Case{Prop: "C10", Seed: seed, K: k, Pol: serial, Srcs: []Src{src}}
		op := Op{K: "parse"}
		c.Setup = []Op{op, {K: "print", Margin: pick(r, 0, 2, 4)}, {K: "print", One: true}, {K: "json"}, {K: "walk"}, conf(r, Op{K: "pstmt", I: r.N(30)})}
		if r.P(30) {
			c.Setup[0].GC, c.Setup[0].GCEvery = uint64(r.Log(5000)), uint64(r.In(300, 3000))
		}
		e := &c.Env
		e.MapSeed, e.RandSeed = r.U()>>8, r.U()>>8
		if r.P(50) {
			e.Now = int64(r.U() >> 2)
			e.Step = pick(r, int64(1), 1e6, 1e9, -1e9, 3600e9, 86400e9*400)
		}
		if r.P(60) {
			e.Zone = 86400 + r.In(-14*4, 14*4)*900 + r.N(2)*17
			e.ZoneName = pick(r, "SIM", "MSK", "UTC", "-05")
		}
		if r.P(40) {
			e.Procs = r.In(2, 8)
		}
		if r.P(50) {
			e.Vars = r.U() >> 8
		}
		cs = append(cs, c)
	}
	return cs
}

func c10judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	st.Nontrivial = true
	e := c.Env
	st.fault("map iteration and hash seeds", 1)
	if e.Zone != 0 {
		st.fault("process time zone", 1)
	}
	if e.Now != 0 {
		st.fault("clock jump or skew", 1)
	}
	if e.Vars != 0 {
		st.fault("environment variables and process id", 1)
	}
	if v := common(c, r); v != nil {
		return v
	}
	base := alone(c, c.Setup...)
	cmp := func(what string, got []Outcome) *Violation {
		for i := range got {
			if got[i].Key() != base[i].Key() {
				return viol("result", "op %d (%s) under %s: %s", i, got[i].Op.K, what, diff(base[i].Key(), got[i].Key()))
			}
		}
		return nil
	}
	if v := cmp(fmt.Sprintf("%+v", e), r.Setup); v != nil {
		return v
	}
	if e.Procs > 0 {
		// another process with another environment
		q := *c
		q.Env = Env{MapSeed: e.RandSeed}
		z := []string{"Asia/Tokyo", "America/New_York", "Europe/Moscow", "Pacific/Kiritimati", "XYZ5", ""}[c.Seed%6]
		st.fault("other process environment", 1)
		return cmp("another process", oracle(&q, "TZ="+z, "GOMAXPROCS="+strconv.Itoa(e.Procs), "LANG=tr_TR.UTF-8", "LC_ALL=C", "GODEBUG=", "GOGC=20", fmt.Sprintf("SIM_HASHSEED=%d", e.MapSeed)).Setup)
	}
	return nil
}

// ---- C11: standard streams

func c11cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 111)
	src := c07src(r, false)
	if r.P(40) {
		src = maybeDamaged(r, 40)
	}
	var cs []*Case
	kinds := []string{"file", "closed", "full", "pipe"}
	for k, fds := range []string{"file", kinds[r.N(4)]} {
		c := &Case{Prop: "C11", Seed: seed, K: k, Pol: serial, Srcs: []Src{src}}
		c.Setup = []Op{{K: "parse"}, conf(r, Op{K: "print"}), {K: "json"}, {K: "walk"}, conf(r, Op{K: "pstmt", I: r.N(30)}), {K: "tok", S: 5, N: 300},
			{K: "lower", Text: []byte(pick(r, "ABCЖ", "\xd0", "ё\x00\xff", ""))}}
		for j := r.N(4); j > 0; j-- {
			c.Setup = append(c.Setup, pick(r, conf(r, Op{K: "print"}), Op{K: "reparse"}, Op{K: "walk", Mode: "panic", N: r.Log(20), I: r.N(9)}, Op{K: "walk", Mode: "nested", N: r.Log(20)}, Op{K: "walk", Mode: "part"}, Op{K: "pstmt", Mode: "default", I: r.N(30)}, Op{K: "json"}, Op{K: "edit", N: r.N(20)}))
		}
		if r.P(5) {
			c.Setup = append(c.Setup, Op{K: "churn", I: r.N(1000000), N: r.Log(200)})
		}
		c.Env.Fds = fds
		cs = append(cs, c)
	}
	return cs
}

func c11judge(c *Case, st *Stats) *Violation {
	q := *c
	q.Env.Fds = ""
	var written, read int64
	r := withFds(c.Env.Fds, &written, &read, func() *Result { return exec(c) })
	st.observe(c, r)
	st.fault("standard streams: "+c.Env.Fds, 1)
	st.Nontrivial = true
	if written != 0 {
		return viol("output", "%d bytes written to the standard streams: %q", written, sample)
	}
	if read != 0 {
		return viol("input", "%d bytes taken from standard input", read)
	}
	if v := common(c, r); v != nil {
		return v
	}
	if c.Env.Fds == "file" {
		return nil
	}
	e := oracle(&q).Setup
	for i := range r.Setup {
		if r.Setup[i].Key() != e[i].Key() {
			return viol("result", "op %d (%s) with standard streams %s: %s", i, r.Setup[i].Op.K, c.Env.Fds, diff(e[i].Key(), r.Setup[i].Key()))
		}
	}
	return nil
}

// ---- C12: walks

func c12cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 112)
	src := maybeDamaged(r, 8)
	if src.Gen != nil && r.P(50) {
		src.Gen.Parts, src.Gen.Tail = r.In(1, 4), r.In(1, 4)
	}
	c := &Case{Prop: "C12", World: "walk", Seed: seed, Srcs: []Src{src}}
	if r.P(25) {
		c.World = "edit"
		c.Setup = []Op{{K: "parse"}, {K: "parse", S: 1}, {K: "edit", S: 0, I: 1, N: r.N(12)}}
		c.Pol = serial
		for s := 0; s < 2; s++ {
			c.Final = append(c.Final, Op{K: "print", S: s, Margin: 4}, Op{K: "json", S: s}, Op{K: "walk", S: s}, Op{K: "snap", S: s}, Op{K: "print", S: s, One: true})
		}
		return []*Case{c}
	}
	c.Setup = []Op{{K: "parse"}}
	for t, n := 0, r.In(1, 3); t < n; t++ {
		var ops []Op
		for i, n := 0, r.In(1, 3); i < n; i++ {
			op := Op{K: "walk", Mode: pick(r, "", "panic", "panic", "nested", "part")}
			if op.Mode == "panic" || op.Mode == "nested" {
				op.N = r.Log(80)
				if op.Mode == "panic" {
					op.I = r.N(9)
				}
			}
			if r.P(10) {
				op.Abort = uint64(r.Log(1500))
			}
			ops = append(ops, withGC(r, op, 4))
		}
		if r.P(40) {
			ops = append(ops, readOp(r, 0))
		}
		c.Tasks = append(c.Tasks, ops)
	}
	c.Final = []Op{{K: "walk"}, {K: "snap"}, {K: "print", Margin: 4}, {K: "json"}}
	return schedules(r, c, 2, 3000)
}

func c12judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	st.Nontrivial = true
	if v := common(c, r); v != nil {
		return v
	}
	if len(r.Msgs) > 0 {
		return viol("walk", "%s", r.Msgs[0])
	}
	if c.World == "edit" {
		return c12edit(c, r, st)
	}
	var v *Violation
	r.each(func(id string, o *Outcome) {
		if v != nil || o.Op.K == "parse" || o.Aborted {
			return
		}
		op := o.Op
		calls := -1
		if op.Mode == "panic" {
			full := alone(c, c.Setup[0], Op{K: "walk", S: op.S})[1]
			fmt.Sscanf(full.Text, "%d calls", &calls)
			if op.N <= calls {
				st.fault("callback panics", 1)
				want := fmt.Sprintf("the callback's panic arrived\n%d calls\n", op.N)
				if !strings.HasPrefix(o.Text, want) {
					v = viol("walk", "%s: callback %d panicked, the caller saw %q", id, op.N, cutRunes(o.Text, 60))
					return
				}
			}
		}
		if op.Mode == "nested" {
			st.fault("callback reads and walks the tree", 1)
		}
		e := alone(c, c.Setup[0], op)[1]
		if o.Key() != e.Key() {
			v = viol("result", "%s (%s %s): differs from the same call alone: %s", id, op.K, op.Mode, diff(e.Key(), o.Key()))
		}
	})
	return v
}

func c12edit(c *Case, r *Result, st *Stats) *Violation {
	if len(r.Setup) < 3 || len(r.Final) != 10 || r.Setup[0].Key() != r.Setup[1].Key() {
		return nil
	}
	done := !strings.HasPrefix(r.Setup[2].Text, "replaced -1")
	if done {
		st.fault("callback replaces a statement", 1)
	}
	for i := 0; i < 5; i++ {
		a, b := &r.Final[i], &r.Final[i+5]
		if a.Key() != b.Key() {
			return viol("edit", "after a callback replaced a statement, %s differs from the tree edited by hand: %s", a.Op.K, diff(b.Key(), a.Key()))
		}
		if done && a.Op.K != "walk" && !strings.Contains(a.Text, editName) {
			return viol("edit", "after a callback replaced a statement, %s does not show the replacement", a.Op.K)
		}
	}
	return nil
}
