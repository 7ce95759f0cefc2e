package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"SIMMODULE/ast"
)

// GenSpec determines a well-formed module: the same spec always gives the same
// text and the same expected tree. Drop lists statements and parts left out
// (used by the minimiser).
type GenSpec struct {
	Seed    uint64     `json:"seed"`
	Parts   int        `json:"parts"`             // procedures, functions and variable declarations
	Stmts   int        `json:"stmts"`             // statements per body, at most
	Depth   int        `json:"depth"`             // nesting of blocks and expressions, at most
	Tail    int        `json:"tail"`              // module statements
	Big     string     `json:"big,omitempty"`     // one oversized dimension
	BigN    int        `json:"bign,omitempty"`    //
	DotKw   bool       `json:"dotkw,omitempty"`   // keywords as names after a dot
	LeadSep bool       `json:"leadsep,omitempty"` // empty statements
	Plain   bool       `json:"plain,omitempty"`   // single spaces only, canonical keywords
	Globals int        `json:"globals,omitempty"`
	Poison  []int      `json:"poison,omitempty"` // parts that break a context rule (with PoisonK)
	PoisonK []int      `json:"poisonk,omitempty"`
	Only    int        `json:"only,omitempty"` // 1-based: only this procedure or function, nothing else
	Drop    []int      `json:"drop,omitempty"`
	CRLF    bool       `json:"crlf,omitempty"`
	Quirk   bool       `json:"quirk,omitempty"` // also forms the parser accepts though 1C does not (no expected tree)
	Ctx     bool       `json:"ctx,omitempty"`   // many statements that need a context
	Lit     []LitFault `json:"lit,omitempty"`   // damage inside literals and names
	Twins   bool       `json:"twins,omitempty"` // module variables whose names differ in letter case only
	Names   uint64     `json:"names,omitempty"` // module variables and procedures take their names from here (two versions of one module)
	Other   uint64     `json:"other,omitempty"` // seed of the other version
	V       int        `json:"v,omitempty"`     // 2: names reused between procedures; 1: the whole expression grammar and more statement forms (0: as older replay files have it)
}

// LitFault replaces the K-th character that may be replaced of token T, if T is
// a literal or a name in an expression, by S.
type LitFault struct {
	T int    `json:"t"`
	K int    `json:"k"`
	S []byte `json:"s"`
}

type Tok struct {
	S        string
	Off, End int
	Bracket  bool
	Glue     bool // no trivia before this token
}

// Span is a construct that is incomplete when cut at a byte in [From, To).
type Span struct {
	From, To int
	What     string
	open     int // token index of the opening keyword
	openSkip int // bytes of it that must be there (-1: all)
	close    int // token index of the closing token
}

// Part is a top-level part: text up to End holds it completely.
type Part struct {
	LastTok int
	Start   int
	End     int
	Globals int // number of module variables up to here
	Body    int // number of body entries up to here
}

// Triv is a stretch of layout.
type Triv struct {
	Off, End int
	Kind     byte // ' ' blank, '/' comment, '#' preprocessor line
}

type Module struct {
	Spec    GenSpec
	Text    string
	Toks    []Tok
	Trivs   []Triv
	Spans   []Span
	Parts   []Part
	Tree    ast.ModuleStatement
	GlobalN []string
	IDs     int // statements and parts numbered so far
	Procs   []string
	Hit     int // damage inside literals and names that took effect
	twinMod *Module
}

type gen struct {
	*Module
	r      *Rng
	drop   map[int]bool
	names  map[string]bool
	inLoop int
	inTry  int
	fn     bool
	budget int

	pending int             // names of the declaration that is being written
	twin    map[string]bool // names of module variables, exactly
	locals  []string        // names of parameters and local variables
}

func Generate(sp GenSpec) *Module {
	g := &gen{Module: &Module{Spec: sp}, r: NewRng(sp.Seed, 77), drop: map[int]bool{}, names: map[string]bool{}}
	for _, d := range sp.Drop {
		g.drop[d] = true
	}
	g.budget = 60 + 40*sp.Stmts
	g.module()
	g.render()
	return g.Module
}

// other is the other version of the module.
func (m *Module) other() *Module {
	if m.Spec.Other == 0 {
		return nil
	}
	sp := m.Spec
	sp.Seed, sp.Other, sp.Drop, sp.Lit = sp.Other, 0, nil, nil
	if m.twinMod == nil {
		m.twinMod = Generate(sp)
	}
	return m.twinMod
}

// ---- tokens

func (g *gen) t(s string)    { g.Toks = append(g.Toks, Tok{S: s}) }
func (g *gen) glue(s string) { g.Toks = append(g.Toks, Tok{S: s, Glue: true}) }
func (g *gen) br(s string)   { g.Toks = append(g.Toks, Tok{S: g.kw(s), Bracket: true}) }
func (g *gen) k(s string)    { g.t(g.kw(s)) }

func (g *gen) kw(s string) string {
	x := g.r.N(12)
	if g.Spec.Plain {
		return s
	}
	switch {
	case x < 7:
		return s
	case x < 9:
		return strings.ToLower(s)
	case x < 11:
		return strings.ToUpper(s)
	}
	var b strings.Builder
	for _, c := range s {
		if g.r.P(50) {
			b.WriteRune(unicode.ToUpper(c))
		} else {
			b.WriteRune(unicode.ToLower(c))
		}
	}
	return b.String()
}

var letters = []rune("абвгдежзийклмнопрстуфхцчшщъыьэюяёАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯЁabcxyzABCXYZ_")
var longWords = []string{"ВариантИнтерфейсаКлиентскогоПриложения", "РезультатВыполненияФоновогоЗадания", "ПолучитьЗначениеРеквизитаОбъектаПоСсылке", "СостоянияОригиналовПервичныхДокументов"}
var rareLetters = []rune("іїєґўҐЎЄѣΩßŁé漢ﬁ𝒳ǅºßİıſ")
var words = []string{"Контекст", "Форма", "Элементы", "Ссылка", "Запрос", "Выборка", "Результат", "Сообщить", "ТипЗнч", "Данные", "Параметры", "Count", "item", "Ключ", "Значение", "ё", "Ё1", "_a", "Я"}

var reserved = map[string]bool{}

func init() {
	for _, k := range strings.Fields("процедура перем перейти конецпроцедуры знач если тогда иначеесли иначе конецесли для каждого из по цикл конеццикла прервать продолжить попытка новый исключение пока конецпопытки функция конецфункции возврат вызватьисключение и или истина ложь неопределено не экспорт выполнить") {
		reserved[k] = true
	}
}

func (g *gen) ident() string {
	if g.r.P(60) {
		w := pick(g.r, words...)
		if g.Spec.V >= 1 {
			if g.r.P(12) {
				w = pick(g.r, longWords...)
			}
			switch g.r.N(12) {
			case 0:
				w = strings.ToUpper(w)
			case 1:
				w = strings.ToLower(w)
			case 2, 3, 4, 5:
				w += strconv.Itoa(g.r.N(100))
			}
			return w
		}
		if g.r.P(40) {
			w += strconv.Itoa(g.r.N(100))
		}
		return w
	}
	n := g.r.In(1, 9)
	if g.Spec.Big == "ident" && g.r.P(15) {
		n = g.Spec.BigN
	}
	for {
		rs := make([]rune, n)
		for i := range rs {
			rs[i] = pick(g.r, letters...)
			if g.Spec.V >= 1 && g.r.P(4) {
				rs[i] = pick(g.r, rareLetters...)
			}
			if i > 0 && g.r.P(10) {
				rs[i] = rune('0' + g.r.N(10))
			}
		}
		s := string(rs)
		if !reserved[strings.ToLower(s)] {
			return s
		}
	}
}

// shared is a name both versions of a module have.
func (g *gen) shared(kind uint64, i int) string {
	own := g.r
	g.r = NewRng(g.Spec.Names, kind, uint64(i))
	s := g.ident()
	g.r = own
	return s
}

// newName is a name not yet used here, whatever its letter case.
func (g *gen) newName(first string) string {
	s := first
	for i := 0; g.names[strings.ToLower(s)] || reserved[strings.ToLower(s)]; i++ {
		s = first + strconv.Itoa(i+len(g.names))
	}
	g.names[strings.ToLower(s)] = true
	return s
}

// globalName is the name of a new module variable.
func (g *gen) globalName() string {
	if g.Spec.V < 2 {
		return g.fresh()
	}
	if g.Spec.Names != 0 {
		return g.newName(g.shared(1, len(g.GlobalN)+g.pending))
	}
	if g.Spec.Twins && len(g.GlobalN) > 0 && g.r.P(40) {
		s := pick(g.r, g.GlobalN...)
		if x := pick(g.r, strings.ToUpper(s), strings.ToLower(s)); !g.twin[x] {
			g.twin[x] = true
			return x
		}
	}
	s := g.newName(g.ident())
	if g.twin == nil {
		g.twin = map[string]bool{}
	}
	g.twin[s] = true
	return s
}

// localName is the name of a parameter or a variable of a procedure.
func (g *gen) localName() string {
	s := g.ident()
	if len(g.locals) > 0 && g.r.P(30) {
		s = pick(g.r, g.locals...)
	} else if len(g.GlobalN) > 0 && g.r.P(10) {
		s = pick(g.r, g.GlobalN...)
	}
	s = g.newName(s)
	g.locals = append(g.locals, s)
	return s
}

func (g *gen) fresh() string {
	for {
		s := g.ident()
		if !g.names[s] {
			g.names[s] = true
			return s
		}
		s += strconv.Itoa(len(g.names))
		if !g.names[s] && !reserved[strings.ToLower(s)] {
			g.names[s] = true
			return s
		}
	}
}

// ---- expressions

func v(n string) ast.VarStatement { return ast.VarStatement{Name: n} }

func (g *gen) number() float64 {
	var s string
	switch g.r.N(4) {
	case 0:
		s = strconv.Itoa(g.r.N(10))
	case 1:
		s = strconv.Itoa(g.r.N(100000))
	case 2:
		s = fmt.Sprintf("%d.%d", g.r.N(1000), g.r.N(1000))
	default:
		s = strconv.Itoa(g.r.N(300))
	}
	if f := g.fault(); f != nil && f.S[0] >= '0' && f.S[0] <= '9' {
		b := []byte(s)
		if k := f.K % len(b); b[k] != '.' {
			b[k] = f.S[0]
			s = string(b)
			g.Hit++
		}
	}
	g.t(s)
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func (g *gen) str() string {
	n := g.r.In(0, 8)
	if g.Spec.Big == "string" && g.r.P(20) {
		n = g.Spec.BigN
	}
	var src, val strings.Builder
	var plain [][2]int // characters and where they stand in source and value
	src.WriteByte('"')
	for i := 0; i < n; i++ {
		if g.Spec.V >= 1 && g.r.P(4) {
			switch g.r.N(3) {
			case 0: // a comment line inside the literal
				src.WriteString("\n" + pick(g.r, "", "\t") + "//" + pick(g.r, " x\n", "\"\n", "\n\t// y\n", " #\n ", " а|б\n", "|\n", " ; \"\" (\n", "/ \\\n\n", "\n//\n// z|\n") + "|")
				val.WriteString("\n|")
			default: // two literals in a row are one
				src.WriteString("\"" + pick(g.r, " ", "\n", "\n\t", "") + " \"")
			}
			continue
		}
		switch x := g.r.N(20); {
		case x == 0:
			src.WriteString(`""`)
			val.WriteString(`""`)
		case x == 1:
			src.WriteString("\n" + strings.Repeat(pick(g.r, " ", "\t"), g.r.N(4)) + "|")
			val.WriteString("\n|")
		case x == 2:
			c := pick(g.r, "//", "#", "'", ";", "КонецЕсли", "|", "&", "🙂", "\t", "%1")
			src.WriteString(c)
			val.WriteString(c)
		default:
			c := string(pick(g.r, letters...))
			plain = append(plain, [2]int{src.Len(), val.Len()})
			src.WriteString(c)
			val.WriteString(c)
		}
	}
	src.WriteByte('"')
	s, w := src.String(), val.String()
	if f := g.fault(); f != nil && len(plain) > 0 {
		p := plain[f.K%len(plain)]
		_, n := utf8.DecodeRuneInString(s[p[0]:])
		s = s[:p[0]] + string(f.S) + s[p[0]+n:]
		w = w[:p[1]] + string([]rune(string(f.S))) + w[p[1]+n:]
		g.Hit++
	}
	g.t(s)
	return w
}

// fault: the damage to the token about to be written.
func (g *gen) fault() *LitFault {
	for i := range g.Spec.Lit {
		if g.Spec.Lit[i].T == len(g.Toks) && len(g.Spec.Lit[i].S) > 0 {
			return &g.Spec.Lit[i]
		}
	}
	return nil
}

// dateTok writes a date literal; anything but digits in it is ignored.
func (g *gen) dateTok(s string) {
	if f := g.fault(); f != nil && !bytes.ContainsAny(f.S, "0123456789'\"\n") {
		k := 1 + f.K%(len(s)-1)
		s = s[:k] + string(f.S) + s[k:]
		g.Hit++
	}
	g.t(s)
}

func (g *gen) date() time.Time {
	y, m, d := g.r.In(1, 3999), g.r.In(1, 12), g.r.In(1, 28)
	hh, mm, ss := g.r.N(24), g.r.N(60), g.r.N(60)
	switch g.r.N(4) {
	case 0:
		hh, mm, ss = 0, 0, 0
		sep := pick(g.r, "", "-", ".", " ")
		g.dateTok(fmt.Sprintf("'%04d%s%02d%s%02d'", y, sep, m, sep, d))
	case 1:
		ss = 0
		g.dateTok(fmt.Sprintf("'%04d%02d%02d%02d%02d'", y, m, d, hh, mm))
	case 2:
		g.dateTok(pick(g.r, "'00000000'", "'00000000000000'", "'0000.00.00 00:00'"))
		return time.Time{}
	default:
		g.dateTok(fmt.Sprintf("'%04d%02d%02d%02d%02d%02d'", y, m, d, hh, mm, ss))
	}
	return time.Date(y, time.Month(m), d, hh, mm, ss, 0, time.UTC)
}

// many is n, or once in a while a middling number.
func (g *gen) many(n int) int {
	if g.Spec.V >= 2 && g.Spec.Big == "" && g.r.P(2) {
		return g.r.In(4, 40)
	}
	return n
}

func (g *gen) args(depth int) ast.ExprStatements {
	n := g.many(g.r.N(4))
	if n > 3 {
		depth = min(depth, 1)
	}
	if g.Spec.Big == "args" && g.r.P(10) {
		n = g.Spec.BigN
		depth = 0
	}
	g.t("(")
	var l ast.Statements
	if n == 0 {
		l = ast.Statements{nil}
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		if g.r.P(15) {
			l = append(l, nil)
		} else {
			l = append(l, g.expr(depth-1))
		}
	}
	g.t(")")
	return ast.ExprStatements{Statements: l}
}

// name is an identifier with optional call and index.
func (g *gen) name(depth int, afterDot bool) ast.Statement {
	n := g.ident()
	if afterDot && g.Spec.DotKw && g.r.P(30) {
		n = g.kw(pick(g.r, "Истина", "Функция", "Если", "КонецЕсли", "Новый", "Выполнить", "Процедура", "Не"))
	}
	if f := g.fault(); f != nil {
		rs := []rune(n)
		if c := []rune(string(f.S)); len(c) == 1 && (c[0] == '_' || unicode.IsLetter(c[0])) {
			rs[f.K%len(rs)] = c[0]
			if w := string(rs); afterDot || !reserved[strings.ToLower(w)] {
				n = w
				g.Hit++
			}
		}
	}
	g.t(n)
	var s ast.Statement = v(n)
	if depth > 0 && g.r.P(35) {
		s = ast.MethodStatement{Name: n, Param: g.args(depth)}
	}
	for depth > 0 && g.r.P(12) {
		g.t("[")
		e := g.expr(depth - 1)
		g.t("]")
		s = ast.ItemStatement{Object: s, Item: e}
	}
	return s
}

func (g *gen) chain(depth int) ast.Statement {
	s := g.name(depth, false)
	n := g.many(0)
	if n > 0 {
		depth = min(depth, 1)
	}
	if g.Spec.Big == "chain" && g.r.P(10) {
		n = g.Spec.BigN
		depth = 0
	}
	for ; n > 0 || g.r.P(30); n-- {
		g.t(".")
		u := g.name(depth, true)
		s = ast.CallChainStatement{Unit: u, Call: s}
	}
	return s
}

func (g *gen) newObj(depth int) ast.Statement {
	g.k("Новый")
	switch g.r.N(3) {
	case 0:
		n := g.ident()
		g.t(n)
		return ast.NewObjectStatement{Constructor: n, Param: g.args(depth)}
	case 1:
		return ast.NewObjectStatement{Param: g.args(depth)}
	}
	n := g.ident()
	g.t(n)
	return ast.NewObjectStatement{Constructor: n}
}

func (g *gen) ternary(depth int) ast.Statement {
	g.t("?")
	g.t("(")
	a := g.expr(depth - 1)
	g.t(",")
	b := g.expr(depth - 1)
	g.t(",")
	c := g.expr(depth - 1)
	g.t(")")
	return ast.TernaryStatement{Expression: a, TrueBlock: b, ElseBlock: c}
}

func (g *gen) paren(depth int) ast.Statement {
	g.t("(")
	e := g.expr(depth - 1)
	g.t(")")
	return ast.ExprStatements{Statements: ast.Statements{e}}
}

func (g *gen) atom(depth int) ast.Statement {
	if g.budget <= 0 {
		depth = 0
	}
	g.budget--
	if depth <= 0 {
		switch g.r.N(8) {
		case 0, 1:
			return g.number()
		case 2:
			return g.str()
		case 3:
			b := g.r.P(50)
			g.k(map[bool]string{true: "Истина", false: "Ложь"}[b])
			return b
		case 4:
			g.k("Неопределено")
			return ast.UndefinedStatement{}
		default:
			n := g.ident()
			g.t(n)
			return v(n)
		}
	}
	if g.Spec.V >= 1 && g.r.P(8) {
		if g.r.P(30) {
			g.t("+")
			return g.atom(depth - 1)
		}
		g.t("-")
		switch e := g.atom(depth - 1).(type) {
		case float64:
			return -e
		case ast.IUnary:
			return e.UnaryMinus()
		default:
			return e
		}
	}
	switch g.r.N(16) {
	case 0, 1:
		return g.number()
	case 2, 3:
		return g.str()
	case 4:
		return g.date()
	case 5:
		g.t("-")
		return -g.number()
	case 6:
		g.t("-")
		n := g.ident()
		g.t(n)
		return v(n)
	case 7:
		return g.paren(depth)
	case 8:
		return g.ternary(depth)
	case 9:
		return g.newObj(depth)
	case 10, 11:
		return g.chain(depth)
	default:
		return g.chain(depth - 1)
	}
}

func (g *gen) binary(depth, level int) ast.Statement {
	if level == 4 {
		return g.atom(depth)
	}
	l := g.binary(depth, level+1)
	p := 14
	if depth <= 0 || g.budget <= 0 {
		p = 2
	}
	for g.r.P(p) {
		var op ast.OperationType
		switch level {
		case 0:
			g.k("ИЛИ")
			op = ast.OpOr
		case 1:
			g.k("И")
			op = ast.OpAnd
		case 2:
			i := g.r.N(2)
			g.t([]string{"+", "-"}[i])
			op = []ast.OperationType{ast.OpPlus, ast.OpMinus}[i]
		case 3:
			i := g.r.N(3)
			g.t([]string{"*", "/", "%"}[i])
			op = []ast.OperationType{ast.OpMul, ast.OpDiv, ast.OpMod}[i]
		}
		rgt := g.binary(depth, level+1)
		l = &ast.ExpStatement{Left: l, Right: rgt, Operation: op}
		if g.r.P(50) {
			break
		}
	}
	if level == 2 && depth > 0 && g.r.P(14) {
		i := g.r.N(6)
		g.t([]string{"=", ">", "<", "<>", "<=", ">="}[i])
		op := []ast.OperationType{ast.OpEq, ast.OpGt, ast.OpLt, ast.OpNe, ast.OpLe, ast.OpGe}[i]
		l = &ast.ExpStatement{Left: l, Right: g.binary(depth, 3), Operation: op}
	}
	return l
}

// The operators of 1C as the grammar ranks them, loosest first. "Не" ranks
// between levels 4 and 5: it takes everything to its right that binds tighter.
type binop struct {
	s  string
	op ast.OperationType
}

var ranks = [][]binop{
	{{"ИЛИ", ast.OpOr}}, {{"И", ast.OpAnd}}, {{"<>", ast.OpNe}}, {{"<=", ast.OpLe}}, {{">=", ast.OpGe}},
	{{"=", ast.OpEq}}, {{">", ast.OpGt}, {"<", ast.OpLt}},
	{{"+", ast.OpPlus}, {"-", ast.OpMinus}}, {{"*", ast.OpMul}, {"/", ast.OpDiv}, {"%", ast.OpMod}},
}

var rankP = []int{6, 7, 3, 3, 3, 5, 5, 10, 10}

const rankNot = 5

// ranked generates operators of rank level and tighter around atoms. open says
// that the expression ends in the operand of a "Не", which would take a
// tighter operator for itself.
func (g *gen) ranked(depth, level int) (e ast.Statement, open bool) {
	if level == len(ranks) {
		if depth > 0 && g.budget > 0 && g.r.P(4) {
			g.k("Не")
			e, _ = g.ranked(depth-1, rankNot)
			if b, ok := e.(bool); ok {
				return !b, true
			}
			if n, ok := e.(ast.INot); ok {
				return n.Not(), true
			}
			return e, true
		}
		return g.atom(depth), false
	}
	e, open = g.ranked(depth, level+1)
	p := rankP[level]
	if depth <= 0 || g.budget <= 0 {
		p = 1
	}
	for !(open && level >= rankNot) && g.r.P(p) {
		o := pick(g.r, ranks[level]...)
		if o.op == ast.OpOr || o.op == ast.OpAnd {
			g.k(o.s)
		} else {
			g.t(o.s)
		}
		var rgt ast.Statement
		rgt, open = g.ranked(depth, level+1)
		e = &ast.ExpStatement{Left: e, Right: rgt, Operation: o.op}
	}
	return e, open
}

func (g *gen) expr(depth int) ast.Statement {
	if g.Spec.Big == "ops" && g.r.P(8) { // a long row of operators
		e := g.atom(0)
		for n := g.Spec.BigN; n > 0; n-- {
			i := g.r.N(2)
			g.t([]string{"+", "-"}[i])
			e = &ast.ExpStatement{Left: e, Right: g.atom(0), Operation: []ast.OperationType{ast.OpPlus, ast.OpMinus}[i]}
		}
		return e
	}
	if g.Spec.V >= 1 {
		if depth > 0 && g.r.P(5) {
			g.k("Не")
			e, _ := g.ranked(depth-1, rankNot)
			if b, ok := e.(bool); ok {
				return !b
			}
			if n, ok := e.(ast.INot); ok {
				return n.Not()
			}
			return e
		}
		e, _ := g.ranked(depth, 0)
		return e
	}
	if depth > 0 && g.r.P(8) {
		g.k("Не")
		if g.r.P(50) {
			return g.paren(depth)
		}
		return g.chain(depth)
	}
	return g.binary(depth, 0)
}

// ---- statements

func (g *gen) span(open, skip int, what string) int {
	g.Spans = append(g.Spans, Span{What: what, open: open, openSkip: skip})
	return len(g.Spans) - 1
}

func (g *gen) closeSpan(i int) { g.Spans[i].close = len(g.Toks) - 1 }

func (g *gen) next() (id int, dropped bool) {
	g.IDs++
	return g.IDs, g.drop[g.IDs]
}

// depths: of n blocks of an extremely deep one, one goes on.
func (g *gen) depths(n, depth int) func(i int) int {
	if depth <= g.Spec.Depth || n == 0 {
		return func(int) int { return depth }
	}
	k := g.r.N(n)
	return func(i int) int {
		if i == k {
			return depth
		}
		return 0
	}
}

// body generates "stmt; stmt; ..." and returns the statements kept.
func (g *gen) body(n, depth int) ast.Statements {
	var l ast.Statements
	switch {
	case g.Spec.Big == "body" && g.r.P(25):
		n = g.Spec.BigN
	case g.Spec.Big == "deep" && depth > g.Spec.Depth:
		n = 1 + g.r.N(5)/4
	case g.Spec.Big == "deep" && depth == g.Spec.Depth && g.r.P(30):
		n, depth = max(n, 1), g.Spec.BigN
	}
	ds := g.depths(n, depth)
	for g.Spec.LeadSep && g.r.P(25) {
		g.t(";")
	}
	sep := true
	for i := 0; i < n; i++ {
		_, dropped := g.next()
		mark, sm := len(g.Toks), len(g.Spans)
		if !sep {
			g.t(";")
		}
		s := g.stmt(ds(i))
		if dropped {
			g.Toks, g.Spans = g.Toks[:mark], g.Spans[:sm]
			continue
		}
		l = append(l, s)
		sep = false
		if _, lab := s.(*ast.GoToLabelStatement); lab {
			g.t(":")
			sep = true
		} else if g.r.P(70) {
			g.t(";")
			sep = true
			for g.Spec.LeadSep && g.r.P(15) {
				g.t(";")
			}
		}
	}
	return l
}

func (g *gen) n() int {
	if g.budget <= 0 {
		return g.r.N(2)
	}
	return g.r.In(0, g.Spec.Stmts)
}

func (g *gen) stmt(depth int) ast.Statement {
	g.budget--
	if depth <= 0 || g.budget <= 0 && depth <= g.Spec.Depth {
		return g.simple(1)
	}
	x := 0
	if depth <= g.Spec.Depth || g.r.P(10) {
		x = g.r.N(12)
	} else {
		x = g.r.N(5)
	}
	switch x {
	case 0, 1:
		return g.ifStmt(depth)
	case 2, 3:
		return g.loop(depth)
	case 4:
		sp := g.span(len(g.Toks), -1, "Попытка")
		g.br("Попытка")
		ds := g.depths(2, depth-1)
		b := g.body(g.n(), ds(0))
		g.br("Исключение")
		g.inTry++
		c := g.body(g.n(), ds(1))
		g.inTry--
		g.br("КонецПопытки")
		g.closeSpan(sp)
		return ast.TryStatement{Body: b, Catch: c}
	default:
		return g.simple(depth)
	}
}

func (g *gen) ifStmt(depth int) ast.Statement {
	sp := g.span(len(g.Toks), -1, "Если")
	s := &ast.IfStatement{}
	g.br("Если")
	s.Expression = g.expr(min(depth, 2))
	g.k("Тогда")
	ds := g.depths(2, depth-1)
	els := g.Spec.V >= 2 && ds(1) > g.Spec.Depth
	s.TrueBlock = g.body(g.n(), ds(0))
	n := 0
	if depth <= g.Spec.Depth && g.r.P(40) {
		n = g.many(g.r.In(1, 4))
	}
	if g.Spec.Big == "elseif" && g.r.P(20) {
		n = g.Spec.BigN
	}
	for i := 0; i < n; i++ {
		_, dropped := g.next()
		mark, sm := len(g.Toks), len(g.Spans)
		g.k("ИначеЕсли")
		e := &ast.IfStatement{Expression: g.expr(1)}
		g.k("Тогда")
		e.TrueBlock = g.body(g.r.N(3), min(depth-1, 1))
		if dropped {
			g.Toks, g.Spans = g.Toks[:mark], g.Spans[:sm]
			continue
		}
		s.IfElseBlock = append(s.IfElseBlock, e)
	}
	if g.r.P(35) || els {
		g.k("Иначе")
		s.ElseBlock = g.body(g.n(), ds(1))
	}
	g.br("КонецЕсли")
	g.closeSpan(sp)
	return s
}

func (g *gen) loop(depth int) ast.Statement {
	sp := g.span(len(g.Toks), -1, "Цикл")
	s := &ast.LoopStatement{}
	switch g.r.N(3) {
	case 0:
		g.br("Для")
		g.k("Каждого")
		n := g.ident()
		g.t(n)
		s.For = n
		g.k("Из")
		switch g.r.N(6) {
		case 0:
			s.In = g.newObj(1)
		case 1:
			s.In = g.ternary(1)
		case 2:
			g.t("(")
			s.In = g.newObj(1)
			g.t(")")
		default:
			s.In = g.chain(min(depth, 2))
		}
	case 1:
		g.br("Для")
		if g.Spec.V >= 1 {
			l := g.chain(g.r.N(2))
			g.t("=")
			rgt, _ := g.ranked(1, 6)
			s.For = &ast.ExpStatement{Left: l, Operation: ast.OpEq, Right: rgt}
			g.k("По")
			s.To = g.expr(1)
			break
		}
		n := g.ident()
		g.t(n)
		g.t("=")
		s.For = &ast.ExpStatement{Left: v(n), Operation: ast.OpEq, Right: g.binary(1, 2)}
		// a comparison after "=" would regroup: keep only arithmetic on the right
		if e, ok := s.For.(*ast.ExpStatement).Right.(*ast.ExpStatement); ok {
			switch e.Operation {
			case ast.OpEq, ast.OpGt, ast.OpLt, ast.OpNe, ast.OpLe, ast.OpGe:
				return g.redoFor(sp, depth)
			}
		}
		g.k("По")
		s.To = g.expr(1)
	default:
		g.br("Пока")
		s.WhileExpr = g.expr(min(depth, 2))
	}
	g.k("Цикл")
	g.inLoop++
	s.Body = g.body(g.n(), depth-1)
	g.inLoop--
	g.br("КонецЦикла")
	g.closeSpan(sp)
	return s
}

// redoFor replaces the loop header just written by a plain one.
func (g *gen) redoFor(sp, depth int) ast.Statement {
	g.Toks = g.Toks[:g.Spans[sp].open]
	g.br("Для")
	n := g.ident()
	g.t(n)
	g.t("=")
	f := &ast.ExpStatement{Left: v(n), Operation: ast.OpEq, Right: g.number()}
	g.k("По")
	s := &ast.LoopStatement{For: f, To: g.number()}
	g.k("Цикл")
	g.inLoop++
	s.Body = g.body(g.n(), depth-1)
	g.inLoop--
	g.br("КонецЦикла")
	g.closeSpan(sp)
	return s
}

// quirk writes a statement that only the parser here accepts.
func (g *gen) quirk(ed int) ast.Statement {
	switch g.r.N(8) {
	case 0:
		g.str()
	case 1:
		g.number()
	case 2:
		g.t(g.ident())
		g.t("=")
		g.t("~" + g.ident())
	case 3:
		g.k("Неопределено")
	case 4:
		g.k("Выполнить")
		g.t("(")
		g.expr(ed)
		g.t(")")
		g.t(".")
		g.t(g.ident())
		g.t("[")
		g.expr(ed)
		g.t("]")
	case 5:
		g.date()
	case 6:
		g.k("Не")
		g.k("Перейти")
		g.t("~" + g.ident())
	default:
		g.k("Истина")
	}
	return ast.UndefinedStatement{}
}

func (g *gen) simple(depth int) ast.Statement {
	ed := min(depth, g.Spec.Depth, 3)
	if g.Spec.Quirk && g.r.P(15) {
		return g.quirk(ed)
	}
	if g.Spec.Ctx && g.r.P(35) {
		switch g.r.N(4) {
		case 0:
			if g.inLoop > 0 {
				g.k("Прервать")
				return ast.BreakStatement{}
			}
		case 1:
			if g.inLoop > 0 {
				g.k("Продолжить")
				return ast.ContinueStatement{}
			}
		case 2:
			if g.inTry > 0 {
				g.k("ВызватьИсключение")
				return ast.ThrowStatement{}
			}
		case 3:
			if g.fn {
				g.k("Возврат")
				return &ast.ReturnStatement{Param: g.expr(1)}
			}
		}
	}
	switch g.r.N(16) {
	case 0:
		if g.inLoop > 0 {
			g.k("Прервать")
			return ast.BreakStatement{}
		}
	case 1:
		if g.inLoop > 0 {
			g.k("Продолжить")
			return ast.ContinueStatement{}
		}
	case 2:
		g.k("Возврат")
		if g.fn {
			return &ast.ReturnStatement{Param: g.expr(ed)}
		}
		return &ast.ReturnStatement{}
	case 3:
		g.k("ВызватьИсключение")
		if g.inTry > 0 && g.r.P(50) {
			return ast.ThrowStatement{}
		}
		return ast.ThrowStatement{Param: g.expr(ed)}
	case 4:
		n := g.ident()
		g.t("~" + n)
		return &ast.GoToLabelStatement{Name: n}
	case 5:
		g.k("Перейти")
		n := g.ident()
		g.t("~" + n)
		return ast.GoToStatement{Label: &ast.GoToLabelStatement{Name: n}}
	case 6:
		n := g.kw("Выполнить")
		g.t(n)
		switch g.r.N(3) {
		case 0:
			return ast.MethodStatement{Name: n, Param: ast.ExprStatements{Statements: ast.Statements{g.str()}}}
		case 1:
			w := g.ident()
			g.t(w)
			return ast.MethodStatement{Name: n, Param: ast.ExprStatements{Statements: ast.Statements{v(w)}}}
		}
		g.t("(")
		e := g.expr(ed)
		g.t(")")
		return ast.MethodStatement{Name: n, Param: ast.ExprStatements{Statements: ast.Statements{e}}}
	case 7, 8, 9:
		n := g.ident()
		g.t(n)
		return ast.MethodStatement{Name: n, Param: g.args(ed)}
	case 10:
		return g.ternary(ed)
	}
	if g.Spec.V >= 1 && g.r.P(25) {
		switch g.r.N(4) {
		case 0:
			return g.newObj(ed)
		case 1:
			return g.paren(max(ed, 1))
		case 2:
			// a chain that ends in a call
			s := g.chain(ed)
			g.t(".")
			n := g.ident()
			g.t(n)
			return ast.CallChainStatement{Unit: ast.MethodStatement{Name: n, Param: g.args(ed)}, Call: s}
		default:
			// an expression that does not start like an assignment
			g.t("(")
			a := g.expr(ed - 1)
			g.t(")")
			i := g.r.N(len(ranks))
			o := pick(g.r, ranks[i]...)
			if i < 2 {
				g.k(o.s)
			} else {
				g.t(o.s)
			}
			b, _ := g.ranked(ed-1, i+1)
			return &ast.ExpStatement{Left: ast.ExprStatements{Statements: ast.Statements{a}}, Operation: o.op, Right: b}
		}
	}
	l := g.chain(min(ed, 1))
	g.t("=")
	e := g.expr(ed)
	return ast.AssignmentStatement{Var: l, Expr: ast.ExprStatements{Statements: ast.Statements{e}}}
}

// ---- declarations

var directives = []string{"&НаКлиенте", "&НаСервере", "&НаСервереБезКонтекста", "&НаКлиентеНаСервереБезКонтекста", "&НаКлиентеНаСервере"}

func (g *gen) global() {
	_, dropped := g.next()
	mark, sm := len(g.Toks), len(g.Spans)
	dir := ""
	if g.r.P(30) {
		dir = g.kw(pick(g.r, directives...))
		g.span(len(g.Toks), 1, "Перем")
		g.t(dir)
	} else {
		g.span(len(g.Toks), -1, "Перем")
	}
	sp := len(g.Spans) - 1
	g.k("Перем")
	n := g.many(g.r.In(1, 3))
	var names []string
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		g.pending = i
		s := g.globalName()
		names = append(names, s)
		g.t(s)
	}
	g.pending = 0
	exp := g.r.P(40)
	if exp {
		g.k("Экспорт")
	}
	g.t(";")
	g.closeSpan(sp)
	if dropped {
		g.Toks, g.Spans = g.Toks[:mark], g.Spans[:sm]
		return
	}
	if g.Tree.GlobalVariables == nil {
		g.Tree.GlobalVariables = map[string]ast.GlobalVariables{}
	}
	for _, s := range names {
		g.Tree.GlobalVariables[s] = ast.GlobalVariables{Directive: dir, Var: v(s), Export: exp}
		g.GlobalN = append(g.GlobalN, s)
	}
	g.part()
}

func (g *gen) part() {
	g.Parts = append(g.Parts, Part{LastTok: len(g.Toks) - 1, Globals: len(g.GlobalN), Body: len(g.Tree.Body)})
}

func (g *gen) proc(idx int) {
	_, dropped := g.next()
	mark, sm := len(g.Toks), len(g.Spans)
	p := &ast.FunctionOrProcedure{Type: ast.PFTypeProcedure, ExplicitVariables: map[string]ast.VarStatement{}}
	if g.r.P(40) {
		p.Type = ast.PFTypeFunction
	}
	if g.r.P(30) {
		p.Directive = g.kw(pick(g.r, directives...))
		g.span(len(g.Toks), 1, "Процедура")
		g.t(p.Directive)
	} else {
		g.span(len(g.Toks), -1, "Процедура")
	}
	sp := len(g.Spans) - 1
	if p.Type == ast.PFTypeFunction {
		g.br("Функция")
	} else {
		g.br("Процедура")
	}
	p.Name = g.ident()
	if g.Spec.Names != 0 {
		p.Name = g.shared(2, idx)
		switch g.r.N(6) {
		case 0:
			p.Name = strings.ToUpper(p.Name)
		case 1:
			p.Name = strings.ToLower(p.Name)
		}
	}
	g.t(p.Name)
	g.t("(")
	saved := g.names
	g.names = map[string]bool{}
	n := g.many(g.r.N(4))
	if g.Spec.Big == "params" && g.r.P(30) {
		n = g.Spec.BigN
	}
	for i := 0; i < n; i++ {
		if i > 0 || g.Spec.Quirk && g.r.P(40) {
			g.t(",")
		}
		var q ast.ParamStatement
		if g.r.P(25) {
			g.k("Знач")
			q.IsValue = true
		}
		if g.Spec.V >= 2 {
			q.Name = g.localName()
		} else {
			q.Name = g.ident()
		}
		g.t(q.Name)
		if g.r.P(25) {
			g.t("=")
			switch g.r.N(6) {
			case 0:
				q.Default = g.str()
			case 1:
				g.t("-")
				q.Default = -g.number()
			case 2:
				g.k("Истина")
				q.Default = true
			case 3:
				g.k("Неопределено")
				q.Default = ast.UndefinedStatement{}
			case 4:
				q.Default = g.date()
			default:
				q.Default = g.number()
			}
		}
		p.Params = append(p.Params, q)
	}
	g.t(")")
	if g.r.P(30) {
		g.k("Экспорт")
		p.Export = true
	}
	for g.r.P(25) {
		vs := g.span(len(g.Toks), -1, "Перем")
		g.k("Перем")
		n := g.many(g.r.In(1, 3))
		if g.Spec.Big == "vars" && g.r.P(30) {
			n = g.Spec.BigN
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				g.t(",")
			}
			s := ""
			if g.Spec.V >= 2 {
				s = g.localName()
			} else {
				s = g.fresh()
			}
			g.t(s)
			p.ExplicitVariables[s] = v(s)
		}
		g.t(";")
		g.closeSpan(vs)
	}
	g.names = saved
	g.fn = p.Type == ast.PFTypeFunction
	sn := g.n() + 1
	if g.r.P(10) || g.Spec.Names != 0 && g.r.P(15) {
		sn = 0
	}
	p.Body = g.body(sn, g.Spec.Depth)
	for i, x := range g.Spec.Poison {
		if x == idx {
			if len(p.Body) > 0 {
				g.t(";")
			}
			switch k := g.Spec.PoisonK[i]; {
			case k == 0:
				g.k("Прервать")
			case k == 1:
				g.k("Продолжить")
			case k == 2:
				g.k("ВызватьИсключение")
			case p.Type == ast.PFTypeProcedure:
				g.k("Возврат")
				g.t("1")
			default:
				g.k("Прервать")
			}
			g.t(";")
		}
	}
	g.fn = false
	if p.Type == ast.PFTypeFunction {
		g.br("КонецФункции")
	} else {
		g.br("КонецПроцедуры")
	}
	g.closeSpan(sp)
	if dropped {
		g.Toks, g.Spans = g.Toks[:mark], g.Spans[:sm]
		return
	}
	g.Tree.Body = append(g.Tree.Body, p)
	g.Procs = append(g.Procs, p.Name)
	g.part()
}

func (g *gen) module() {
	for i := 0; i < g.Spec.Globals; i++ {
		g.global()
	}
	for i := 0; i < g.Spec.Parts; i++ {
		mark, sm := len(g.Toks), len(g.Spans)
		nb, np, npart := len(g.Tree.Body), len(g.Procs), len(g.Parts)
		g.budget = 60 + 40*g.Spec.Stmts
		g.proc(i)
		if g.Spec.Only > 0 && g.Spec.Only != i+1 {
			g.Toks, g.Spans = g.Toks[:mark], g.Spans[:sm]
			g.Tree.Body, g.Procs, g.Parts = g.Tree.Body[:nb], g.Procs[:np], g.Parts[:npart]
		}
	}
	if g.Spec.Only > 0 {
		return
	}
	// module statements
	sep := true
	for i := 0; i < g.Spec.Tail; i++ {
		_, dropped := g.next()
		mark, sm := len(g.Toks), len(g.Spans)
		if !sep {
			g.t(";")
		}
		g.budget = 60 + 40*g.Spec.Stmts
		s := g.stmt(g.Spec.Depth)
		if dropped {
			g.Toks, g.Spans = g.Toks[:mark], g.Spans[:sm]
			continue
		}
		g.Tree.Body = append(g.Tree.Body, s)
		g.part()
		sep = false
		if _, lab := s.(*ast.GoToLabelStatement); lab {
			g.t(":")
			sep = true
		} else if g.r.P(80) {
			g.t(";")
			sep = true
		}
	}
}

// ---- layout

// layRow is a long text without a line end.
func layRow(r *Rng, n int) string {
	if r.P(40) {
		return strings.Repeat(pick(r, "x", "ж ", "-", "\"", "🙂", "Я", ";", "="), n)
	}
	var b strings.Builder
	for b.Len() < 2*n {
		b.WriteString(pick(r, "x ", "строка ", "; а = 1; ", "\"", "'", " Прервать; ", "КонецЕсли; ", "----", "//", "#", "&", "|", ")", "КонецПроцедуры ", "\t", "\xd0", "~м: ", "\r", "🙂"))
	}
	return b.String()
}

func wordy(c rune) bool { return c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) }

func (g *gen) render() {
	r := NewRng(g.Spec.Seed, 99)
	var b strings.Builder
	nl := "\n"
	if g.Spec.CRLF {
		nl = "\r\n"
	}
	put := func(kind byte, s string) {
		if s == "" {
			return
		}
		g.Trivs = append(g.Trivs, Triv{b.Len(), b.Len() + len(s), kind})
		b.WriteString(s)
	}
	long := 0
	triv := func(need bool) {
		if g.Spec.Big == "layout" && r.P(4) && long < 6 {
			long++
			n := r.In(1, g.Spec.BigN)
			switch r.N(5) {
			case 0:
				put(' ', strings.Repeat(" ", n))
			case 1:
				put(' ', strings.Repeat(nl, n))
			case 2:
				put(' ', " ")
				put('/', "// "+layRow(r, n))
				put(' ', nl)
			case 3:
				put(' ', nl)
				put('#', "#Область "+layRow(r, n))
				put(' ', nl)
			default:
				for i := min(n, 200); i > 0; i-- {
					put(' ', nl+"\t")
					put('/', "// строка "+strconv.Itoa(i))
				}
				put(' ', nl)
			}
			return
		}
		if g.Spec.Plain {
			put(' ', " ")
			return
		}
		x := r.N(100)
		switch {
		case x < 55:
			put(' ', " ")
		case x < 70:
			put(' ', strings.Repeat(nl, 1+r.N(8)/6)+strings.Repeat("\t", r.N(4)))
		case x < 76:
			put(' ', pick(r, "  ", " \t", nl+nl, "\t", nl+nl+nl, nl+nl))
		case x < 80:
			put(' ', " ")
			put('/', "//"+pick(r, "", " комментарий", " \"кавычка", "/// 'x", " КонецПроцедуры", " ё\t#", " {", "}", "(", " \\", "/*", "#Область", "+", "@", "\xd0", " \ufeff", " ~М: а = 1;", " & |", "\r "))
			put(' ', nl)
		case x < 82:
			put(' ', nl)
			put('#', pick(r, "#Область Имя", "#КонецОбласти", "#Если Сервер Тогда", "#КонецЕсли", "#", "#Удаление", "#КонецУдаления", "#Вставка", "#Иначе // нет", "#Использовать lib", "#Если \"", "# \\", "##", "#Region", "#\xff", "#Если Не ВебКлиент И (Клиент) Тогда"))
			put(' ', nl)
		default:
			if need {
				put(' ', " ")
			}
		}
	}
	for i := range g.Toks {
		t := &g.Toks[i]
		need := false
		if i > 0 {
			p := []rune(g.Toks[i-1].S)
			c := []rune(t.S)
			need = wordy(p[len(p)-1]) && wordy(c[0])
			if (p[len(p)-1] == '<' || p[len(p)-1] == '>') && (c[0] == '=' || c[0] == '>') || p[len(p)-1] == '"' && c[0] == '"' {
				need = true
			}
		}
		if i > 0 && !g.Spec.Plain && g.Spec.V >= 2 && r.P(35) {
			switch strings.ToLower(g.Toks[i-1].S) {
			case "конецпроцедуры", "конецфункции":
				put(' ', strings.Repeat(nl, r.In(1, 3)))
				need = false
			}
		}
		if !t.Glue {
			triv(need)
		}
		t.Off = b.Len()
		b.WriteString(t.S)
		t.End = b.Len()
	}
	triv(false)
	if g.Spec.V >= 1 && r.P(10) { // ends in a line without line end
		put(' ', nl)
		if r.P(50) {
			put('/', "// конец")
		} else {
			put('#', "#КонецОбласти")
		}
	}
	g.Text = b.String()
	for i := range g.Spans {
		s := &g.Spans[i]
		o := g.Toks[s.open]
		s.From = o.End
		if s.openSkip >= 0 {
			s.From = o.Off + s.openSkip
		}
		s.To = g.Toks[s.close].End
	}
	start := 0
	for i := range g.Parts {
		g.Parts[i].End = g.Toks[g.Parts[i].LastTok].End
		g.Parts[i].Start = start
		start = g.Parts[i].End
	}
}

// Prefix is the expected tree of the first n parts.
func (m *Module) Prefix(n int) ast.ModuleStatement {
	var t ast.ModuleStatement
	if n == 0 {
		return t
	}
	p := m.Parts[n-1]
	if p.Globals > 0 {
		t.GlobalVariables = map[string]ast.GlobalVariables{}
		for _, k := range m.GlobalN[:p.Globals] {
			t.GlobalVariables[k] = m.Tree.GlobalVariables[k]
		}
	}
	t.Body = m.Tree.Body[:p.Body]
	return t
}
