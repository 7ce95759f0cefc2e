package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"

	"SIMMODULE/ast"
	"SIMMODULE/zzverif/hook"
)

// ---- C18: work that is over is given back

// A history is lived through again and again, each time over texts that did not
// occur before. Memory, goroutines and descriptors in use are compared between
// stages of equal length.

const churnStages = 5 // the first one warms up; more if memory grew

// nodesKept are the nodes a program holds from one run to the next.
var nodesKept []*ast.AstNode

func init() {
	props["C18"] = &property{id: "C18", cases: c18cases, judge: c18judge}
}

// usage is what the process holds when everything it can drop is dropped.
type usage struct {
	Heap, C, Go, Fds int
}

func measure() usage {
	lastResult = nil
	textMemo = map[*Case][]string{}
	hook.DropPools()
	for i := 0; i < 3; i++ {
		// finalizers start goroutines, which may let more go
		exec(&Case{Setup: []Op{{K: "elapse"}, {K: "gc"}}})
		lastResult = nil
	}
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	u := usage{Heap: int(ms.HeapAlloc), C: int(ast.SimCHeap()), Go: runtime.NumGoroutine()}
	if d, err := os.ReadDir("/proc/self/fd"); err == nil {
		u.Fds = len(d)
	}
	return u
}

// every name, literal and number in it differs from round to round
var churnText = []string{
	"Перем Счет§, Итог§ Экспорт;\n&НаСервере\nПроцедура Записать§(Знач Ссылка§, Отказ§ = Ложь) Экспорт\n\tПерем Кэш§;\n\tЕсли Ссылка§.Код§ = \"код §\" И НЕ Отказ§ Тогда\n\t\tКэш§ = Новый Структура§(\"ключ§, поле§\", §);\n\tИначеЕсли Отказ§ Тогда\n\t\tВозврат;\n\tИначе\n\t\tВызватьИсключение \"нет §\";\n\tКонецЕсли;\nКонецПроцедуры\n",
	"Функция Считать§(Путь§)\n\tДля Каждого Строка§ Из Путь§.Строки§() Цикл\n\t\tПопытка\n\t\t\tСумма§ = Строка§[§] + §.5 * (Строка§.Цена§ - 1);\n\t\t\tЕсли Сумма§ > § Тогда Прервать; КонецЕсли;\n\t\tИсключение\n\t\t\tСообщить§(\"строка §\n\t\t\t|вторая §\");\n\t\tКонецПопытки;\n\tКонецЦикла;\n\tВозврат ?(Путь§ = Неопределено, '20200101', Сумма§);\nКонецФункции\n",
	"Имя§ = \"знак §\";\nМодуль§.Запустить§(Имя§, \"цель §\");\nПока Имя§.Есть§() Цикл\n\tПродолжить;\nКонецЦикла;\n~Метка§:\nПерейти ~Метка§;\n",
	"Имя§=Дата§;\n", "Вызов§();\n", "А=\"§\";", "Перем Х§;", "Процедура П§() КонецПроцедуры",
}

func c18cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 118)
	c := &Case{Prop: "C18", Seed: seed, Pol: serial}
	var cs []*Case
	rounds := pick(r, 60, 200, 600)
	if deep {
		rounds *= 4
	}
	n := r.In(1, 3)
	for i := 0; i < n; i++ {
		var s Src
		switch {
		case rounds <= 200 && r.P(35):
			s.Gen = genSpec(r)
			s.Gen.narrow(r)
		default:
			k := r.In(1, 3)
			if rounds > 200 {
				k = 1
			}
			x := 0 // declarations before statements
			for j := 0; j < k; j++ {
				x = r.In(x, len(churnText)-1)
				s.Raw = append(s.Raw, churnText[x]...)
			}
		}
		switch r.N(5) {
		case 0:
			s.Damage = append(s.Damage, Damage{K: "trunc", At: r.N(400)})
		case 1:
			s.Damage = append(s.Damage, Damage{K: "ins", At: r.N(300), Data: []byte(pick(r, "\xd0", "\"", " Прервать; ", "\x00", ")", " КонецЕсли ", "#", "~", " '20", "&", ".", "\n|", "\xff\xfe", " ВызватьИсключение; ", "!"))})
		}
		c.Srcs = append(c.Srcs, s)
	}
	read := func(s int) Op {
		switch r.N(8) {
		case 0, 1:
			return conf(r, Op{K: "print", S: s})
		case 2:
			return conf(r, Op{K: "pstmt", S: s, I: r.N(30)})
		case 3:
			return Op{K: "json", S: s}
		case 4:
			return Op{K: "walk", S: s, Mode: pick(r, "", "part")}
		case 5:
			return Op{K: "walk", S: s, Mode: "panic", N: r.In(1, 4), I: r.N(9)}
		case 6:
			return Op{K: "reparse", S: s, M: s}
		}
		return Op{K: "srs", S: s}
	}
	ops := func(from, to int) []Op {
		var l []Op
		for i := from; i < to; i++ {
			if r.P(15) {
				l = append(l, Op{K: "tok", S: i, M: i, N: r.In(1, 60), Mode: pick(r, "", "all")})
				continue
			}
			l = append(l, Op{K: "parse", S: i, M: i})
			for j := r.N(4); j > 0; j-- {
				l = append(l, read(i))
			}
		}
		for j := r.N(3); j > 0; j-- {
			l = append(l, Op{K: "lower", Text: []byte(pick(r, "ПРОЦЕДУРА§", "Ё§Ж", "§", "", "KEY§value", "\xd0§", "Имя\x00§", "оченьДЛИННОЕимя§ПерЕМенной§которое§не§влезает", "🙂§"))})
		}
		return l
	}
	if r.P(20) {
		// one node that the program keeps, parsed and read over and over
		c.World = "again"
		c.Srcs = c.Srcs[:1]
		for j := r.In(1, 5); j > 0; j-- {
			c.Setup = append(c.Setup, read(0))
		}
		c.Setup = append(c.Setup, Op{K: "reparse"})
		if r.P(50) {
			c.Setup[0], c.Setup[len(c.Setup)-1] = c.Setup[len(c.Setup)-1], c.Setup[0]
		}
	} else if n > 1 && r.P(40) {
		c.World = "parallel"
		c.Pol = policy(r, 20000)
		for i := 0; i < n; i++ {
			c.Tasks = append(c.Tasks, ops(i, i+1))
		}
	} else {
		c.World = "serial"
		c.Setup = ops(0, n)
	}
	c.X = []int{rounds, int(seed%1000)*100000 + 1}
	cs = append(cs, c)
	return cs
}

// round is the case of the i-th repetition.
func (c *Case) round(i int) *Case {
	x := *c
	if c.World == "again" {
		i = 0
	}
	num := []byte(strconv.Itoa(c.X[1] + i))
	x.Srcs = nil
	for _, s := range c.Srcs {
		if s.Gen != nil {
			g := *s.Gen
			g.Seed += uint64(i) * 0x9e3779b97f4a7c15 >> 16
			s.Gen = &g
		} else {
			s.Raw = bytes.ReplaceAll(s.Raw, []byte("§"), num)
		}
		x.Srcs = append(x.Srcs, s)
	}
	sub := func(l []Op) []Op {
		y := append([]Op{}, l...)
		for k := range y {
			if y[k].K == "lower" {
				y[k].Text = bytes.ReplaceAll(y[k].Text, []byte("§"), num)
			}
		}
		return y
	}
	x.Setup = sub(c.Setup)
	x.Tasks = nil
	for _, l := range c.Tasks {
		x.Tasks = append(x.Tasks, sub(l))
	}
	x.Pol.Seed += uint64(i)
	return &x
}

func c18judge(c *Case, st *Stats) *Violation {
	if len(c.X) != 2 || c.X[0] < 1 {
		return nil
	}
	rounds := c.X[0]
	i := 0
	if c.World == "again" {
		nodesKept = make([]*ast.AstNode, nslots)
		defer func() { nodesKept = nil }()
	}
	until := func(n int) (u usage, v *Violation) {
		for i < n {
			x := c.round(i)
			i++
			hook.DropPools() // as collections do
			r := exec(x)
			st.observe(x, r)
			if v := common(x, r); v != nil {
				return u, v
			}
			if i%20 == 19 {
				// time passes during the history too: what is kept for a while
				// does not pile up from one measurement to the next
				exec(&Case{Setup: []Op{{K: "elapse"}}})
			}
			if i%100 == 99 {
				runtime.GC()
			}
		}
		return measure(), nil
	}
	st.Nontrivial = true
	first, v := until(rounds)
	if v != nil {
		return v
	}
	u, v := until(churnStages * rounds)
	if v != nil {
		return v
	}
	st.probe("rounds of histories", i)
	if os.Getenv("SIM_TRACE") != "" {
		fmt.Fprintln(os.Stderr, rounds, first, u)
	}
	// how long it goes on from here depends on memory, which is not part of the record
	steps, hash, sched := st.Steps, st.Hash, st.Sched
	defer func() { st.Steps, st.Hash, st.Sched = steps, hash, sched }()
	for _, w := range []struct {
		what       string
		f          func(u usage) int
		base, each int // growth that counts: this much and so much per round
		clear      int
	}{
		{"bytes of the Go heap", func(u usage) int { return u.Heap }, 1024, 4, 4 << 20},
		{"bytes of the C heap", func(u usage) int { return u.C }, 512, 4, 1 << 20},
		{"goroutines", func(u usage) int { return 100 * u.Go }, 100, 5, 200000},
		{"file descriptors", func(u usage) int { return 100 * u.Fds }, 100, 5, 20000},
	} {
		from, to, n := first, u, rounds
		for w.f(to)-w.f(from) >= w.base+w.each*(i-n) {
			if i >= 6000 || w.f(to)-w.f(first) > w.clear {
				return viol("leak", "%s in use keep growing: from %d after %d rounds to %d after %d", w.what, w.f(first), rounds, w.f(to), i)
			}
			// a bounded cache fills up; a leak goes on
			n = i
			t, v := until(2 * i)
			if v != nil {
				return v
			}
			from, to = to, t
		}
		u = to
	}
	return nil
}
