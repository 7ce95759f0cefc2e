package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"SIMMODULE/ast"
)

func init() {
	for _, p := range []*property{
		{id: "C15", cases: c15cases, judge: c15judge},
		{id: "C16", cases: c16cases, judge: c16judge},
		{id: "C17", cases: c17cases, judge: c17judge},
	} {
		props[p.id] = p
	}
}

// ---- damage to a generated module in terms of its tokens, layout and parts
//
//	kw     token At is lost (N 0), repeated (1) or replaced by Data (2)
//	lay    layout stretch At: at place To a piece of comment or line is replaced
//	       (N 0), inserted (1), deleted (2), replaced to its end (3); in blank
//	       space only layout is inserted
//	case   token At, a keyword: some letters change case
//	tear   the At-th loop or handler loses its keywords, its body stays
//	kind   the At-th procedure or function becomes the other
//	stray  a statement (Data) is written after token At
//	parts  of the list of top-level parts, number At is lost (N 0), written again
//	       before number To (1), or exchanged with To (2)
var modular = map[string]bool{"kw": true, "lay": true, "case": true, "tear": true, "kind": true, "stray": true, "parts": true}

func isModular(ds []Damage) bool {
	for _, d := range ds {
		if !modular[d.K] {
			return false
		}
	}
	return len(ds) > 0
}

func blank(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

// damaged is the module's text after the damage described in these terms.
func (m *Module) damaged(ds []Damage) []byte {
	plain := true
	for _, d := range ds {
		if d.K == "parts" {
			return m.partsText(m.partList(ds))
		}
		plain = plain && !modular[d.K]
	}
	if plain {
		return []byte(m.Text)
	}
	tok := kwEdits(m, ds)
	put := func(i int, ws ...string) { tok[i] = ws }
	lay := map[int]string{}
	var tears []construct
	for _, d := range ds {
		switch d.K {
		case "lay":
			if n := len(m.Trivs); n > 0 {
				i := d.At % n
				s, ok := lay[i]
				if ok && m.Trivs[i].Kind == ' ' {
					break // may hold a comment by now
				}
				if !ok {
					s = m.Text[m.Trivs[i].Off:m.Trivs[i].End]
				}
				lay[i] = spoilLayout(s, m.Trivs[i].Kind, d)
			}
		case "case":
			if n := m.keywords(); len(n) > 0 {
				i := n[d.At%len(n)]
				put(i, recase(m.Toks[i].S, d.N))
			}
		case "tear":
			if tears == nil {
				tears = m.constructs()
			}
			if len(tears) == 0 {
				break
			}
			t := tears[d.At%len(tears)]
			for i := t.open; i <= t.head; i++ {
				put(i)
			}
			if t.mid > 0 {
				put(t.mid, ";")
			}
			put(t.close, ";")
		case "kind":
			if ps := m.procTokens(); len(ps) > 0 {
				p := ps[d.At%len(ps)]
				a, b := "Процедура", "КонецПроцедуры"
				if strings.EqualFold(m.Toks[p[0]].S, a) {
					a, b = "Функция", "КонецФункции"
				}
				put(p[0], a)
				put(p[1], b)
			}
		case "stray":
			if d.At < len(m.Toks) {
				put(d.At, m.Toks[d.At].S, string(d.Data))
			}
		}
	}
	type piece struct {
		off, end int
		s        []string
	}
	var ps []piece
	for i, ws := range tok {
		ps = append(ps, piece{m.Toks[i].Off, m.Toks[i].End, ws})
	}
	for i, s := range lay {
		ps = append(ps, piece{m.Trivs[i].Off, m.Trivs[i].End, []string{s}})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].off < ps[j].off })
	var b []byte
	at := 0
	for _, p := range ps {
		b = append(b, m.Text[at:p.off]...)
		if _, ok := tok[m.tokAt(p.off)]; ok {
			// blanks only where there are none
			if len(b) > 0 && !blank(b[len(b)-1]) {
				b = append(b, ' ')
			}
			for i, w := range p.s {
				b = append(b, w...)
				if i < len(p.s)-1 || p.end < len(m.Text) && !blank(m.Text[p.end]) {
					b = append(b, ' ')
				}
			}
		} else {
			b = append(b, p.s[0]...)
		}
		at = p.end
	}
	return append(b, m.Text[at:]...)
}

// tokAt: the token that starts at byte off, or -1.
func (m *Module) tokAt(off int) int {
	i := sort.Search(len(m.Toks), func(i int) bool { return m.Toks[i].Off >= off })
	if i < len(m.Toks) && m.Toks[i].Off == off {
		return i
	}
	return -1
}

// spoilLayout damages a stretch of layout so that it remains layout.
func spoilLayout(s string, kind byte, d Damage) string {
	min := 0
	switch kind {
	case '/':
		min = 2
	case '#':
		min = 1
	}
	at := min + d.To%(len(s)-min+1)
	if kind == ' ' {
		for at < len(s) && !utf8.RuneStart(s[at]) {
			at++
		}
		w := string(d.Data)
		return s[:at] + w + s[at:]
	}
	w := strings.ReplaceAll(string(d.Data), "\n", "\r")
	switch {
	case d.N == 3:
		return s[:min] + w
	case d.N == 1 || at == len(s):
		return s[:at] + w + s[at:]
	case d.N == 2:
		return s[:at] + s[at+1:]
	}
	return s[:at] + w + s[at+1:]
}

// keywords lists the reserved words that stand as such. Those the tree quotes
// (directives, Выполнить) are not among them.
func (m *Module) keywords() []int {
	var o []int
	for i, t := range m.Toks {
		l := strings.ToLower(t.S)
		if reserved[l] && l != "выполнить" && (i == 0 || m.Toks[i-1].S != ".") {
			o = append(o, i)
		}
	}
	return o
}

func recase(s string, bits int) string {
	var b strings.Builder
	i := 0
	for _, c := range s {
		if bits>>(i%16)&1 == 1 {
			b.WriteRune(unicode.ToUpper(c))
		} else {
			b.WriteRune(unicode.ToLower(c))
		}
		i++
	}
	return b.String()
}

// construct is a loop or a handler: tokens open to head are its head, mid the
// word between its bodies (handlers), close its end.
type construct struct {
	open, head, mid, close int
	try                    bool
}

// constructs lists loops and handlers in the order they open.
func (m *Module) constructs() []construct {
	var o []construct
	var st []int // indexes into o, -1 for others
	for _, i := range m.structure() {
		switch strings.ToLower(m.Toks[i].S) {
		case "для", "пока":
			st = append(st, len(o))
			o = append(o, construct{open: i, head: i})
		case "попытка":
			st = append(st, len(o))
			o = append(o, construct{open: i, head: i, try: true})
		case "если":
			st = append(st, -1)
		case "цикл":
			o[st[len(st)-1]].head = i
		case "исключение":
			o[st[len(st)-1]].mid = i
		case "конеццикла", "конецпопытки":
			o[st[len(st)-1]].close = i
			st = st[:len(st)-1]
		case "конецесли":
			st = st[:len(st)-1]
		}
	}
	return o
}

// procTokens: first and last keyword of every procedure and function.
func (m *Module) procTokens() [][2]int {
	var o [][2]int
	for _, i := range m.structure() {
		switch strings.ToLower(m.Toks[i].S) {
		case "процедура", "функция":
			o = append(o, [2]int{i, 0})
		case "конецпроцедуры", "конецфункции":
			o[len(o)-1][1] = i
		}
	}
	return o
}

// ---- C15: damage that stays where it is

// Words a reader of comments and preprocessor lines might be tempted to give a
// meaning; those of one row belong together.
var layWords = [][]string{
	{"#Удаление", "#КонецУдаления"}, {"#Вставка", "#КонецВставки"},
	{"#Область", "#КонецОбласти"}, {"#Если Ложь Тогда", "#КонецЕсли"}, {"#Если Клиент Тогда", "#Иначе", "#КонецЕсли"},
	{"#Если НЕ Сервер Тогда", "#ИначеЕсли Клиент Тогда", "#КонецЕсли"},
	{"#удаление ", "#конецудаления "}, {"# Удаление", "# КонецУдаления"}, {"#Delete", "#EndDelete"}, {"#Insert", "#EndInsert"},
	{"#If False Then", "#Else", "#EndIf"}, {"#Region", "#EndRegion"}, {"#if 0", "#endif"},
	{"#Использовать", "#Использовать lib"}, {"#!/usr/bin/oscript", "#native"}, {"#include \"x\"", "#line 7"}, {"#define Если", "#pragma once"},
	{"// /*", "// */"}, {"// {", "// }"}, {"//{{", "//}}"}, {"///", "////"}, {"//-->", "//<--"}, {"//+", "//-"}, {"//@", "//@strict-types"},
	{"// BSLLS-выкл", "// BSLLS-вкл"}, {"// BSLLS:Off", "// BSLLS:On"}, {"//#Удаление", "//#КонецУдаления"}, {"//(", "//)"},
	{"// TODO", "// FIXME"}, {"// Процедура А()", "// КонецПроцедуры"}, {"// \\", "#Область \\"}, {"//\"", "//\""}, {"//|", "// |"},
	{"//&НаКлиенте", "//~М:"}, {"//\\\r", "#\\\r"}, {"//%", "#%"}, {"//\x00", "#\x00"}, {"//\ufeff", "#\ufeff"}, {"//;", "#;"},
}

// layPair writes words that belong together into different places, the first
// not after the second.
func layPair(r *Rng, m *Module) []Damage {
	ws := layWords[r.N(len(layWords))]
	var at []int
	for range ws {
		at = append(at, r.N(len(m.Trivs)))
	}
	if r.P(90) {
		sort.Ints(at)
	}
	var o []Damage
	for i, w := range ws {
		d := Damage{K: "lay", At: at[i], To: r.N(200)}
		switch k := m.Trivs[at[i]].Kind; {
		case k == ' ':
			d.Data = []byte("\n" + w + "\n")
		case k == '/':
			d.N, d.Data = 3, []byte(strings.TrimPrefix(w, "//"))
		default:
			d.N, d.Data = 3, []byte(strings.TrimPrefix(w, "#"))
		}
		o = append(o, d)
	}
	return o
}

func layDamage(r *Rng, m *Module) Damage {
	i := r.N(len(m.Trivs))
	if r.P(70) { // comments and preprocessor lines are rarer than blanks
		for k := 0; k < 20 && m.Trivs[i].Kind == ' '; k++ {
			i = r.N(len(m.Trivs))
		}
	}
	d := Damage{K: "lay", At: i, N: r.N(3), To: r.N(200)}
	if r.P(6) { // a long row
		s := layRow(r, r.Log(1500))
		if m.Trivs[i].Kind == ' ' {
			s = pick(r, " //", "\n#") + s + "\n"
		}
		d.Data = []byte(s)
		return d
	}
	if m.Trivs[i].Kind == ' ' {
		d.Data = []byte(pick(r, " ", "\t", "\n", "\r\n", "\n\n\t", " // ж\n", " // КонецЕсли;\n", " //\n", "\n#Область Ж\n", "\n#КонецЕсли\n", "\n#КонецЕсли; Х = 1;\n", "\n#Если Сервер Тогда Х = 1;\n", "\n#!\n", "\n #Вставка // \"\n#КонецВставки)\n", "\n#Если \"\n", " // \"\n", "\n\t//|\n //\n", " //\xd0\n", "\n#\xff\n", " // х\n#Если\n// у\n", "\n// /*\n", "  //\r\n"))
		return d
	}
	d.Data = []byte(pick(r, "\x00", "\xff", "\xd0", "\"", "'", ";", "//", "#", "КонецПроцедуры", "Процедура А()", "|", "\r", "\t", "ж", "\u2028", "\ufeff", "🙂", "\\", "/", "&", "~", "(", "Если", " ", "/*", "*/", "КонецЕсли; Ж", ";Ж = 1;", "КонецОбласти;", "Если Ж Тогда Ж();", "\u0085", "\v", "\f"))
	return d
}

func c15cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 115)
	g := genSpec(r)
	if r.P(80) {
		g.Plain = false
	}
	m := Generate(*g)
	if len(m.Trivs) == 0 || len(m.Toks) == 0 {
		return nil
	}
	n := 6
	if deep {
		n = 20
	}
	var cs []*Case
	mk := func(world string, srcs ...Src) {
		cs = append(cs, &Case{Prop: "C15", World: world, Seed: seed, K: len(cs), Pol: serial, Srcs: srcs,
			Setup: []Op{{K: "parse"}, {K: "parse", S: 1, M: 1}}})
	}
	for i := 0; i < n; i++ {
		switch x := r.N(10); {
		case x < 4: // layout of a complete module
			var d []Damage
			for k := r.In(1, 4); k > 0; k-- {
				d = append(d, layDamage(r, m))
			}
			for k := r.N(4); k > 0; k-- {
				d = append(d, layPair(r, m)...)
			}
			if kw := m.keywords(); len(kw) > 0 && r.P(40) {
				d = append(d, Damage{K: "case", At: r.N(len(kw)), N: r.N(1 << 16)})
			}
			mk("layout", Src{Gen: g}, Src{Gen: g, Damage: d})
		case x < 6: // layout of a module that is rejected
			g2 := *g
			var d []Damage
			if st := m.structure(); len(st) > 0 && r.P(60) {
				d = append(d, Damage{K: "kw", At: pick(r, st...), N: r.N(2)})
			} else if g2.Parts > 0 {
				g2.Poison, g2.PoisonK = []int{r.N(g2.Parts)}, []int{r.N(4)}
			}
			d2 := d[:len(d):len(d)]
			m2 := Generate(g2)
			for k := r.In(1, 4); k > 0; k-- {
				d2 = append(d2, layDamage(r, m2))
			}
			if r.P(50) && len(m2.Trivs) > 0 {
				d2 = append(d2, layPair(r, m2)...)
			}
			mk("rejected", Src{Gen: &g2, Damage: d}, Src{Gen: &g2, Damage: d2})
		default: // one literal or name
			g2 := *g
			for k := pick(r, 1, 2, 3, 8, 20); k > 0; k-- {
				var s string
				for j := pick(r, 1, 1, 1, 2, 2, 3, 5); j > 0; j-- {
					s += pick(r, "ж", "щ", "Я", "x", "_", "7", "0", "é", "漢", "ſ", "\xff", "\xd0", "\x00", "\ufeff", "'", "/", "#", "\t", "\r", "-", " ", ".", "🙂", "ё", "|", "&", "\u00a0")
				}
				g2.Lit = append(g2.Lit, LitFault{T: r.N(len(m.Toks)), K: r.N(50), S: []byte(s)})
			}
			mk("literal", Src{Gen: g}, Src{Gen: &g2})
		}
	}
	return cs
}

var placeRe = regexp.MustCompile(`line: -?\d+, column: -?\d+`)

func c15judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	if len(r.Setup) != 2 || len(c.Srcs) != 2 || c.Srcs[0].Gen == nil || c.Srcs[1].Gen == nil {
		return nil
	}
	a, b := r.Setup[0].Text, r.Setup[1].Text
	for _, d := range c.Srcs[1].Damage {
		if d.K == "lay" || d.K == "case" {
			st.Nontrivial = true
		}
	}
	switch c.World {
	case "rejected":
		a, b = placeRe.ReplaceAllString(a, "somewhere"), placeRe.ReplaceAllString(b, "somewhere")
		if strings.HasPrefix(a, "error") {
			st.probe("layout damaged in a rejected module", 1)
		}
		if a != b {
			return viol("layout", "a rejected module, differs when only its layout is damaged: %s", diff(a, b))
		}
	default:
		m0, m1 := Generate(*c.Srcs[0].Gen), Generate(*c.Srcs[1].Gen)
		if w := wantText(m0); w != a {
			return viol("tree", "the undamaged module: %s", diff(w, a))
		}
		if c.World == "literal" {
			st.fault("stored text: inside a literal or name", m1.Hit)
			if st.Nontrivial = m1.Hit > 0; m1.Hit == 0 {
				return nil
			}
		}
		if w := wantText(m1); w != b {
			return viol(c.World, "damage inside %s only: %s", map[string]string{"layout": "layout", "literal": "a literal or name"}[c.World], diff(w, b))
		}
	}
	return nil
}

// ---- C16: statements torn out of their context

func c16cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 116)
	g := genSpec(r)
	g.slim(r)
	g.Stmts = max(g.Stmts, 2)
	g.Depth = r.In(2, 4)
	if g.Big == "parts" {
		g.Parts = min(g.Parts, 40)
		g.Depth = 2
	}
	g.Ctx = r.P(70)
	if g.Parts == 0 && r.P(70) {
		g.Parts = 1
	}
	m := Generate(*g)
	n := 12
	if deep {
		n = 40
	}
	var cs []*Case
	mk := func(d ...Damage) {
		cs = append(cs, &Case{Prop: "C16", Seed: seed, K: len(cs), Pol: serial, Srcs: []Src{{Gen: g, Damage: d}}, Setup: []Op{{K: "parse"}}})
	}
	if r.P(12) {
		cs = append(cs, &Case{Prop: "C16", World: "nest", Seed: seed, Pol: serial, X: nest(r, deep), Setup: []Op{{K: "parse"}}})
		cs[0].Srcs = []Src{{Raw: []byte(nestText(cs[0].X))}}
	}
	cons, procs := len(m.constructs()), len(m.procTokens())
	var semi []int
	for i, t := range m.Toks {
		if t.S == ";" {
			semi = append(semi, i)
		}
	}
	mk()
	for i := 0; i < n; i++ {
		switch x := r.N(10); {
		case x < 5 && cons > 0:
			var d []Damage
			seen := map[int]bool{}
			for k := r.In(1, min(3, cons)); k > 0; k-- {
				if at := r.N(cons); !seen[at] {
					seen[at] = true
					d = append(d, Damage{K: "tear", At: at})
				}
			}
			if procs > 0 && r.P(15) {
				d = append(d, Damage{K: "kind", At: r.N(procs)})
			}
			mk(d...)
		case x < 7 && procs > 0:
			mk(Damage{K: "kind", At: r.N(procs)})
		case len(semi) > 0:
			mk(Damage{K: "stray", At: pick(r, semi...), Data: []byte(pick(r, "Прервать;", "Продолжить;", "ВызватьИсключение;", "Возврат 1;"))})
		}
	}
	return cs
}

// torn applies tears and changes of kind to the tree.
func (m *Module) torn(ds []Damage) {
	tear, kind := map[int]bool{}, map[int]bool{}
	nc, np := len(m.constructs()), len(m.procTokens())
	for _, d := range ds {
		if d.K == "tear" && nc > 0 {
			tear[d.At%nc] = true
		}
		if d.K == "kind" && np > 0 {
			kind[d.At%np] = true
		}
	}
	c, p := 0, 0
	var body func(b ast.Statements) ast.Statements
	body = func(b ast.Statements) (o ast.Statements) {
		for _, s := range b {
			switch x := s.(type) {
			case *ast.FunctionOrProcedure:
				if kind[p] {
					if x.Type == ast.PFTypeFunction {
						x.Type = ast.PFTypeProcedure
					} else {
						x.Type = ast.PFTypeFunction
					}
				}
				p++
				x.Body = body(x.Body)
			case *ast.IfStatement:
				x.TrueBlock = body(x.TrueBlock)
				x.IfElseBlock = body(x.IfElseBlock)
				x.ElseBlock = body(x.ElseBlock)
			case *ast.LoopStatement:
				t := tear[c]
				c++
				x.Body = body(x.Body)
				if t {
					o = append(o, x.Body...)
					continue
				}
			case ast.TryStatement:
				t := tear[c]
				c++
				x.Body = body(x.Body)
				x.Catch = body(x.Catch)
				if s = x; t {
					o = append(append(o, x.Body...), x.Catch...)
					continue
				}
			}
			o = append(o, s)
		}
		return o
	}
	m.Tree.Body = body(m.Tree.Body)
}

// outOfContext: the statement of the tree that lacks its context, if any.
// open: statements whose place the library's users may judge either way.
func outOfContext(t ast.Statements) (bad string, open bool) {
	var body func(b ast.Statements, loop, try, fn, in bool)
	body = func(b ast.Statements, loop, try, fn, in bool) {
		for _, s := range b {
			switch x := s.(type) {
			case *ast.FunctionOrProcedure:
				body(x.Body, false, false, x.Type == ast.PFTypeFunction, true)
			case *ast.IfStatement:
				body(x.TrueBlock, loop, try, fn, in)
				body(x.IfElseBlock, loop, try, fn, in)
				body(x.ElseBlock, loop, try, fn, in)
			case *ast.LoopStatement:
				body(x.Body, true, try, fn, in)
			case ast.TryStatement:
				body(x.Body, loop, try, fn, in)
				body(x.Catch, loop, true, fn, in)
			case ast.BreakStatement, ast.ContinueStatement:
				if !loop {
					bad = fmt.Sprintf("%T outside every loop", s)
				}
			case ast.ThrowStatement:
				if x.Param == nil && !try {
					bad = "an exception raised again outside every handler"
				}
			case *ast.ReturnStatement:
				if x.Param != nil && !fn {
					bad = "a value returned outside every function"
				}
				if x.Param == nil && fn {
					open = true
				}
			}
		}
	}
	body(t, false, false, false, false)
	return
}

// around describes what encloses token at.
func (m *Module) around(at int) (loop, try, fn bool) {
	type frame struct{ loop, try, fn bool }
	var st []frame
	for _, i := range m.structure() {
		if i > at {
			break
		}
		switch strings.ToLower(m.Toks[i].S) {
		case "функция":
			st = append(st, frame{fn: true})
		case "процедура", "если", "попытка", "для", "пока":
			st = append(st, frame{})
		case "цикл":
			st[len(st)-1].loop = true
		case "исключение":
			st[len(st)-1].try = true
		case "конецпроцедуры", "конецфункции", "конецесли", "конеццикла", "конецпопытки":
			st = st[:len(st)-1]
		}
	}
	for _, f := range st {
		loop, try, fn = loop || f.loop, try || f.try, fn || f.fn
	}
	return
}

// nest is a history of blocks that open and close and of statements between
// them: n > 0 opens n blocks, one in another, n < 0 closes -n; each number
// stands with the kind of the blocks or 0 and a statement.
func nest(r *Rng, deep bool) (l []int) {
	depth, most := 0, pick(r, 4, 12, 40, 130, 260)
	if deep {
		most = pick(r, 12, 130, 260, 520, 1100)
	}
	for k := r.In(3, 14); k > 0; k-- {
		n, kind := 0, r.N(6)
		switch x := r.N(10); {
		case x < 4:
			n = min(r.Log(most), most-depth)
			if r.P(20) {
				n = most - depth
			}
		case x < 8 && depth > 0:
			n = -min(r.Log(depth), depth)
			if r.P(20) {
				n = -depth
			}
		}
		depth += n
		s := 0
		if k == 1 || r.P(25) {
			s = r.In(1, 3)
		}
		l = append(l, n, kind, s)
	}
	return
}

var nestKinds = [6][2]string{
	{"Пока А Цикл ", " КонецЦикла;"}, {"Для Б = 1 По 2 Цикл ", " КонецЦикла;"}, {"Для Каждого Б Из В Цикл ", " КонецЦикла;"},
	{"Попытка ", " Исключение КонецПопытки;"}, {"Попытка Исключение ", " КонецПопытки;"}, {"Если А Тогда ", " КонецЕсли;"},
}

// nestRun goes through such a history; stm is told of every statement.
func nestRun(x []int, text func(string), stm func(s string, ok bool)) {
	var open []int
	loops, tries := 0, 0
	turn := func(k, by int) {
		if k < 3 {
			loops += by
		} else if k == 4 {
			tries += by
		}
	}
	closeTop := func() {
		k := open[len(open)-1]
		open = open[:len(open)-1]
		turn(k, -1)
		text(nestKinds[k][1])
	}
	for i := 0; i+2 < len(x); i += 3 {
		k := x[i+1] % 6
		for n := x[i]; n > 0; n-- {
			text(nestKinds[k][0])
			open = append(open, k)
			turn(k, 1)
		}
		for n := x[i]; n < 0 && len(open) > 0; n++ {
			closeTop()
		}
		switch x[i+2] {
		case 1:
			text("Прервать;")
			stm("a break", loops > 0)
		case 2:
			text("Продолжить;")
			stm("a continue", loops > 0)
		case 3:
			text("ВызватьИсключение;")
			stm("raising again", tries > 0)
		}
		text("\n")
	}
	for len(open) > 0 {
		closeTop()
	}
}

func nestText(x []int) string {
	var b strings.Builder
	nestRun(x, func(s string) { b.WriteString(s) }, func(string, bool) {})
	return b.String()
}

func c16nest(c *Case, st *Stats) *Violation {
	if len(c.Srcs) != 1 || string(c.Srcs[0].Raw) != nestText(c.X) {
		return nil
	}
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	if len(r.Setup) == 0 {
		return nil
	}
	bad := ""
	nestRun(c.X, func(string) {}, func(s string, ok bool) {
		if !ok {
			bad = s
		}
	})
	st.Nontrivial = true
	isErr := strings.HasPrefix(r.Setup[0].Text, "error")
	switch {
	case bad != "" && !isErr:
		return viol("accepted", "%s outside its context, in or after deeply nested blocks, is accepted", bad)
	case bad == "" && isErr:
		return viol("rejected", "every statement stands where it may, but: %s", firstLine(r.Setup[0].Text))
	case bad != "":
		st.probe("deep nesting: a statement out of its context", 1)
	default:
		st.probe("deep nesting: every statement in its context", 1)
	}
	return nil
}

func c16judge(c *Case, st *Stats) *Violation {
	if c.World == "nest" {
		return c16nest(c, st)
	}
	m := Generate(*c.Srcs[0].Gen)
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	if len(r.Setup) != 1 {
		return nil
	}
	got := r.Setup[0].Text
	isErr := strings.HasPrefix(got, "error")
	ds := c.Srcs[0].Damage
	if len(ds) == 1 && ds[0].K == "stray" {
		d := ds[0]
		if d.At >= len(m.Toks) || m.Toks[d.At].S != ";" {
			return nil
		}
		loop, try, fn := m.around(d.At)
		ok := map[string]bool{"Прервать;": loop, "Продолжить;": loop, "ВызватьИсключение;": try, "Возврат 1;": fn}[string(d.Data)]
		if ok {
			st.probe("a stray statement where it may stand (nothing required)", 1)
			return nil
		}
		st.Nontrivial = true
		st.probe("a stray statement outside its context", 1)
		if !isErr {
			return viol("accepted", "%q after byte %d, out of its context, is accepted", d.Data, m.Toks[d.At].End)
		}
		return nil
	}
	for _, d := range ds {
		if d.K == "stray" {
			return nil
		}
	}
	m.torn(ds)
	bad, open := outOfContext(m.Tree.Body)
	switch {
	case bad != "":
		st.Nontrivial = true
		st.probe("a statement out of its context", 1)
		if !isErr {
			return viol("accepted", "%s is accepted", bad)
		}
	case open && isErr:
		st.probe("a function that returns nothing (nothing required)", 1)
	default:
		st.Nontrivial = true
		st.probe("every statement in its context", 1)
		if w := wantText(m); w != got {
			return viol("rejected", "every statement stands where it may, but: %s", diff(w, got))
		}
	}
	return nil
}

// ---- C17: whole parts lost, repeated or reordered

// placed is a part where it stands after the damage: its number (-1-n: of the
// other version), and a name added to its list if it is a declaration.
type placed struct {
	i   int
	add string
}

func (m *Module) partList(ds []Damage) []placed {
	var l []placed
	for i := range m.Parts {
		l = append(l, placed{i: i})
	}
	for _, d := range ds {
		if d.K != "parts" || len(l) == 0 {
			continue
		}
		i, j := d.At%len(l), d.To%len(l)
		switch d.N {
		case 0:
			l = append(l[:i:i], l[i+1:]...)
		case 1:
			x := l[i]
			l = append(l[:j:j], append([]placed{x}, l[j:]...)...)
		case 2:
			l[i], l[j] = l[j], l[i]
		case 4: // a part of the other version of the module
			if o := m.other(); o != nil && len(o.Parts) > 0 {
				l = append(l[:j:j], append([]placed{{i: -1 - d.At%len(o.Parts)}}, l[j:]...)...)
			}
		case 5: // a declaration lists a variable of this or another declaration
			_, a, _ := m.partKind(l[i].i)
			_, b, _ := m.partKind(l[j].i)
			if len(a) > 0 && len(b) > 0 {
				l[i].add = b[d.To/7%len(b)]
			}
		case 3: // cut in two places and put together the other way round
			l = append(l[i:len(l):len(l)], l[:i]...)
		}
	}
	return l
}

// partKind: 0 declaration, 1 procedure or function, 2 statement.
func (m *Module) partKind(i int) (kind int, names []string, item ast.Statement) {
	if i < 0 {
		return m.other().partKind(-1 - i)
	}
	g, b := 0, 0
	if i > 0 {
		g, b = m.Parts[i-1].Globals, m.Parts[i-1].Body
	}
	p := m.Parts[i]
	if p.Globals > g {
		return 0, m.GlobalN[g:p.Globals], nil
	}
	item = m.Tree.Body[b]
	if _, ok := item.(*ast.FunctionOrProcedure); ok {
		return 1, nil, item
	}
	return 2, nil, item
}

func (m *Module) partsText(l []placed) []byte {
	var b []byte
	for _, x := range l {
		m, i := m, x.i
		if i < 0 {
			m, i = m.other(), -1-i
		}
		f := 0
		if i > 0 {
			f = m.Parts[i-1].LastTok + 1
		}
		for m.Toks[f].S == ";" || m.Toks[f].S == ":" {
			f++
		}
		p := m.Parts[i]
		if x.add != "" {
			k := f // the name after the keyword
			for !strings.EqualFold(m.Toks[k].S, "Перем") {
				k++
			}
			b = append(b, m.Text[m.Toks[f].Off:m.Toks[k+1].End]...)
			b = append(append(append(b, ", "...), x.add...), ' ')
			f = k + 2
		}
		b = append(b, m.Text[m.Toks[f].Off:m.Toks[p.LastTok].End]...)
		if k, _, item := m.partKind(i); k == 2 {
			if _, ok := item.(*ast.GoToLabelStatement); ok {
				b = append(b, ':')
			} else {
				b = append(b, ';')
			}
		}
		b = append(b, '\n')
	}
	return b
}

func c17cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 117)
	g := genSpec(r)
	g.Parts, g.Tail, g.Globals = r.N(5), r.N(5), r.N(4)
	g.Stmts, g.Depth = r.In(1, 3), r.In(1, 2)
	g.slim(r)
	kinds := []int{0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 5}
	if r.P(50) { // parts of two versions of the module get mixed
		g.Names, g.Other = r.U()>>16, r.U()>>16
		g.Globals = max(g.Globals, r.In(1, 4))
		kinds = append(kinds, 4, 4, 4)
	}
	m := Generate(*g)
	if len(m.Parts) == 0 {
		return nil
	}
	n := 16
	if deep {
		n = 50
	}
	var cs []*Case
	for i := 0; i < n; i++ {
		var d []Damage
		for k := r.In(1, 3); k > 0; k-- {
			d = append(d, Damage{K: "parts", At: r.N(len(m.Parts)), To: r.N(1000), N: pick(r, kinds...)})
		}
		c := &Case{Prop: "C17", Seed: seed, K: i, Pol: serial, Srcs: []Src{{Gen: g, Damage: d}}, Setup: []Op{{K: "parse"}}}
		if r.P(30) { // and again on the same node
			c.Setup = append(c.Setup, Op{K: "reparse"})
		}
		cs = append(cs, c)
	}
	return cs
}

func c17judge(c *Case, st *Stats) *Violation {
	m := Generate(*c.Srcs[0].Gen)
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	var t ast.ModuleStatement
	bad, open := "", false
	state := 0
	seen := map[string]bool{}
	for _, x := range m.partList(c.Srcs[0].Damage) {
		i := x.i
		k, names, item := m.partKind(i)
		switch {
		case k == 0 && state == 1:
			bad = "a module variable after a procedure"
		case k < 2 && state == 2:
			bad = "a declaration after module statements"
		}
		state = max(state, k)
		if k > 0 {
			if pf, ok := item.(*ast.FunctionOrProcedure); ok {
				n := strings.ToLower(pf.Name)
				open = open || seen[n]
				seen[n] = true
			}
			t.Body = append(t.Body, item)
			continue
		}
		if t.GlobalVariables == nil {
			t.GlobalVariables = map[string]ast.GlobalVariables{}
		}
		var attrs ast.GlobalVariables
		for _, n := range names {
			if _, ok := t.GlobalVariables[n]; ok {
				bad = "a module variable declared twice"
			}
			if i < 0 {
				t.GlobalVariables[n] = m.other().Tree.GlobalVariables[n]
			} else {
				t.GlobalVariables[n] = m.Tree.GlobalVariables[n]
			}
			attrs = t.GlobalVariables[n]
		}
		if x.add != "" {
			if _, ok := t.GlobalVariables[x.add]; ok {
				bad = "a module variable declared twice in its list"
			}
			attrs.Var = ast.VarStatement{Name: x.add}
			t.GlobalVariables[x.add] = attrs
		}
	}
	st.Nontrivial = true
	w := "ok\n" + dump(t)
	for i := range r.Setup {
		got := r.Setup[i].Text
		isErr := strings.HasPrefix(got, "error")
		switch {
		case bad != "":
			st.probe("parts in an order that is not allowed", 1)
			if !isErr {
				return viol("accepted", "%s is accepted", bad)
			}
		case open && isErr:
			st.probe("a procedure written twice (nothing required)", 1)
		default:
			st.probe("parts in an order that is allowed", 1)
			if got != w {
				return viol("tree", "not the tree of the parts as they stand: %s", diff(w, got))
			}
		}
	}
	return nil
}
