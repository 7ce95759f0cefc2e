package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unicode/utf8"
)

func init() {
	props["C13"] = &property{id: "C13", race: true, cases: c13cases, judge: c13judge}
	props["C14"] = &property{id: "C14", asan: true, cases: c14cases, judge: c14judge}
}

// ---- C13: token readers

func c13cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 113)
	if r.P(55) {
		return c13shift(seed, r)
	}
	if r.P(30) {
		return c13change(seed, r)
	}
	c := &Case{Prop: "C13", World: "interleave", Seed: seed}
	ns := r.In(1, 3)
	for i := 0; i < ns; i++ {
		c.Srcs = append(c.Srcs, c07src(r, false))
		if len(c.text(i)) > 3000 {
			c.Srcs[i] = maybeDamaged(r, 50)
		}
		textMemo = map[*Case][]string{}
	}
	var total uint64
	for t, n := 0, r.In(2, 5); t < n; t++ {
		var ops []Op
		m := r.N(ns)
		if r.P(30) {
			// two readers of one task, taking turns
			m2 := r.N(ns)
			for i, n := 0, r.In(2, 8); i < n; i++ {
				ops = append(ops, Op{K: "tok", S: t*2 + i%2, M: []int{m, m2}[i%2], N: r.Log(30)})
			}
		} else {
			for i, n := 0, r.In(0, 2); i < n; i++ {
				ops = append(ops, Op{K: "tok", S: t * 2, M: m, N: r.Log(30)})
			}
			ops = append(ops, Op{K: "tok", S: t * 2, M: m, N: 1 << 20})
		}
		for i := range ops {
			ops[i] = withGC(r, ops[i], 4)
		}
		c.Tasks = append(c.Tasks, ops)
		for _, o := range alone(c, ops...) {
			total += o.Steps
		}
	}
	return schedules(r, c, 3, total)
}

// c13shift: a source that becomes shorter, and perhaps whole again, while it is read.
func c13shift(seed uint64, r *Rng) []*Case {
	exact := r.P(65)
	c := &Case{Prop: "C13", World: "cut", Seed: seed, Pol: serial}
	if !exact {
		c.World = "cutany"
		c.Srcs = []Src{c07src(r, false)}
		if len(c.text(0)) > 3000 {
			c.Srcs[0] = maybeDamaged(r, 50)
		}
		textMemo = map[*Case][]string{}
		n := 0
		for i, k := 0, r.In(1, 4); i < k; i++ {
			n += r.Log(len(c.text(0))/2 + 2)
			l := r.N(len(c.text(0)) + 1)
			if r.P(25) {
				l = -1
			}
			c.Sw = append(c.Sw, Switch{R: n, L: l})
		}
		c.Setup = []Op{{K: "tok", N: len(c.text(0)) + 20, Mode: "all"}}
		return []*Case{c}
	}
	g := genSpec(r)
	g.slim(r)
	g.DotKw = r.P(60)
	m := Generate(*g)
	if len(m.Toks) == 0 {
		return nil
	}
	c.Srcs = []Src{{Gen: g}}
	// places where the reader carries something over to the next token
	var after []int
	for i, t := range m.Toks {
		if t.S == "." || i > 0 && t.S[0] == '"' {
			after = append(after, i)
		}
	}
	read := 0
	for i, k := 0, r.In(1, 3); i < k; i++ {
		read += r.In(1, len(m.Toks)/2+2)
		var l int
		if len(after) > 0 && r.P(30) {
			k := pick(r, after...)
			l = m.Toks[k].End
			read = max(read, k-r.N(3))
		} else if len(m.Trivs) > 0 && r.P(40) {
			t := pick(r, m.Trivs...)
			l = r.In(t.Off, t.End)
			if t.Kind != ' ' {
				l = t.Off
			}
		} else {
			l = pick(r, m.Toks...).End
		}
		c.Sw = append(c.Sw, Switch{R: read, L: l})
		if r.P(60) {
			read += r.In(1, 6)
			c.Sw = append(c.Sw, Switch{R: read, L: -1})
		}
	}
	c.Setup = []Op{{K: "tok", N: len(m.Toks) + read + 12, Mode: "all"}}
	return []*Case{c}
}

// c13change: the unread part of the source becomes another text between two
// reads (or the reader is handed another source that begins with the same text).
func c13change(seed uint64, r *Rng) []*Case {
	g := genSpec(r)
	g.slim(r)
	g.DotKw = r.P(60)
	m := Generate(*g)
	if len(m.Toks) < 2 {
		return nil
	}
	c := &Case{Prop: "C13", World: "change", Seed: seed, Pol: serial}
	k := r.In(1, len(m.Toks)-1)
	c.Srcs = []Src{{Gen: g}, {Gen: g}}
	at := m.Toks[k-1].End + 1
	if at > len(m.Text) {
		return nil
	}
	for i, n := 0, r.In(1, 3); i < n; i++ {
		var d Damage
		if r.P(50) {
			d = variant(r, m)
		} else {
			d = spoil(r, []byte(m.Text))
		}
		if d.At < at {
			d.At = r.In(at, len(m.Text))
		}
		if d.K == "dup" {
			d.To = max(d.To, at)
		}
		if d.K == "flip" && d.At >= len(m.Text) {
			continue
		}
		c.Srcs[1].Damage = append(c.Srcs[1].Damage, d)
	}
	c.Setup = []Op{{K: "tok", N: k, Mode: "all"}, {K: "tok", M: 1, N: len(c.text(1)) + 12, Mode: "all"}}
	textMemo = map[*Case][]string{}
	return []*Case{c}
}

type readLine struct {
	tok, line, col int
	err            string
}

func readLines(s string) (l []readLine) {
	for _, x := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		var r readLine
		if n, _ := fmt.Sscanf(x, "%d %d:%d", &r.tok, &r.line, &r.col); n == 3 {
			r.err = strings.SplitN(x, " ", 3)[2]
			l = append(l, r)
		}
	}
	return
}

func c13judge(c *Case, st *Stats) *Violation {
	r := exec(c)
	st.observe(c, r)
	if v := common(c, r); v != nil {
		return v
	}
	if c.World == "change" {
		if len(r.Setup) != 2 || len(c.Srcs) != 2 {
			return nil
		}
		n := r.Setup[1].Op.N
		a := readLines(r.Setup[0].Text)
		got := append(a[:len(a):len(a)], readLines(r.Setup[1].Text)...)
		want := readLines(alone(c, Op{K: "tok", M: 1, N: n + len(a), Mode: "all"})[0].Text)
		for i := range got {
			if i >= len(want) || got[i] != want[i] {
				if i < len(a) {
					return nil // the change touched what had been read
				}
				w := readLine{}
				if i < len(want) {
					w = want[i]
				}
				return viol("change", "read %d, the source having changed after read %d: %+v, want %+v", i+1, len(a), got[i], w)
			}
		}
		st.fault("unread part of the source changed between reads", 1)
		st.Nontrivial = true
		return nil
	}
	if c.World != "interleave" {
		st.Nontrivial = true
		return c13cut(c, r, st)
	}
	st.Nontrivial = r.Switches > len(c.Tasks)
	type reader struct {
		lines []readLine
		m     int
	}
	for t := range r.Tasks {
		exp := alone(c, c.Tasks[t]...)
		rd := map[int]*reader{}
		for i := range r.Tasks[t] {
			o := &r.Tasks[t][i]
			if o.Key() != exp[i].Key() {
				return viol("result", "task %d op %d: differs from the same reads alone: %s", t, i, diff(exp[i].Key(), o.Key()))
			}
			x := rd[o.Op.S]
			if x == nil {
				x = &reader{m: o.Op.M}
				rd[o.Op.S] = x
			}
			if x.m != o.Op.M {
				continue
			}
			x.lines = append(x.lines, readLines(o.Text)...)
		}
		for s, x := range rd {
			if v := progress(c.text(x.m), x.lines); v != "" {
				return viol("progress", "task %d reader %d: %s", t, s, v)
			}
		}
	}
	return nil
}

// progress: every read advances or reports the end, which stays the end.
func progress(text string, l []readLine) string {
	line, col, ended := 1, 1, false
	n := 0
	for i, x := range l {
		end := x.tok == -1 && x.err == "ok"
		if ended {
			if !end {
				return fmt.Sprintf("read %d after the end: %+v", i, x)
			}
			continue
		}
		if n++; n > len(text)+1 {
			return fmt.Sprintf("%d reads of %d bytes without an end", n, len(text))
		}
		if end {
			ended = true
			continue
		}
		if x.line < line || x.line == line && x.col <= col {
			return fmt.Sprintf("read %d does not advance: %+v after %d:%d", i, x, line, col)
		}
		line, col = x.line, x.col
	}
	return ""
}

func c13cut(c *Case, r *Result, st *Stats) *Violation {
	if len(r.Setup) == 0 {
		return nil
	}
	got := readLines(r.Setup[0].Text)
	if c.World == "cutany" {
		st.fault("source cut or restored at any byte between reads", len(c.Sw))
		// it must end: at most one read per byte and one per change
		n := 0
		for _, x := range got {
			if !(x.tok == -1 && x.err == "ok") {
				n++
			}
		}
		if len(got) == r.Setup[0].Op.N && n > len(c.text(0))+len(c.Sw)+1 {
			return viol("progress", "%d reads of %d bytes without an end", n, len(c.text(0)))
		}
		return nil
	}
	m := Generate(*c.Srcs[0].Gen)
	a := readLines(oracle(&Case{Prop: c.Prop, Seed: 1, Srcs: c.Srcs, Setup: []Op{{K: "tok", N: 1 << 20}}}).Setup[0].Text)
	// the reader sees the generator's tokens and the end, twice
	if len(a) < len(m.Toks)+1 || a[len(m.Toks)].tok != -1 {
		return viol("tokens", "%d tokens written, %d read", len(m.Toks), len(a))
	}
	idx, l := 0, len(m.Text)
	sw := c.Sw
	for i, x := range got {
		for len(sw) > 0 && i+1 >= sw[0].R {
			l = sw[0].L
			if l < 0 || l > len(m.Text) {
				l = len(m.Text)
				st.fault("source grows", 1)
			} else {
				st.fault("source shrinks", 1)
			}
			sw = sw[1:]
		}
		want := readLine{tok: -1, err: "ok"}
		if idx < len(m.Toks) && m.Toks[idx].End <= l {
			want = a[idx]
			idx++
		} else if idx < len(m.Toks) && m.Toks[idx].Off < l {
			return nil // cut inside a token: not compared
		}
		if x.tok != want.tok || x.err != want.err {
			return viol("tokens", "read %d (source cut to %d of %d bytes, changes %+v): got token %d %s, want %d %s", i+1, l, len(m.Text), c.Sw, x.tok, x.err, want.tok, want.err)
		}
	}
	return nil
}

// ---- C14: the C helper

func c14text(r *Rng) []byte {
	n := r.Log(200)
	if r.P(3) {
		n = r.Log(60000)
	}
	var b []byte
	for len(b) < n {
		switch r.N(12 + r.N(100)/97*4) {
		case 12, 13, 14, 15: // a run of one kind
			f := pick(r, func() rune { return rune('a' + r.N(26)) }, func() rune { return rune('A' + r.N(26)) }, func() rune { return 'а' + rune(r.N(32)) },
				func() rune { return 'А' + rune(r.N(32)) }, func() rune { return rune('0' + r.N(10)) }, func() rune { return ' ' })
			for k := r.Log(200); k > 0; k-- {
				b = append(b, string(f())...)
			}
		case 0, 1, 2:
			b = append(b, string(pick(r, letters...))...)
		case 3:
			b = append(b, byte('A'+r.N(26)))
		case 4:
			b = append(b, string(rune(0x400+r.N(0x60)))...)
		case 5:
			b = append(b, pick(r, "🙂", "€", "ﬁ", "İ", "ß", "ё", "Ё", "А", "Я", "П", "Р", " ", "@", "[", "`", "{", "Ѐ", "Џ", "а", "ѐ", "\u0440")...)
		case 6:
			b = append(b, byte(r.U()))
		case 7:
			b = append(b, pick(r, byte(0xd0), 0xd1, 0xc0, 0xdf, 0xe0, 0xef, 0xf0, 0xf7, 0xf8, 0xff, 0x80, 0xbf, 0x00, 0x7f))
		case 8:
			if len(b) > 0 && r.P(50) {
				b = b[:len(b)-1] // cut inside a character
			}
		case 9:
			k := r.N(9)
			for i := 0; i < k; i++ {
				b = append(b, "Процедура"[i])
			}
		case 10:
			b = append(b, byte(0xd0), byte(0x80+r.N(64)))
		default:
			b = append(b, byte(' '+r.N(95)))
		}
	}
	if r.P(30) && len(b) > 0 {
		b = append(b, pick(r, byte(0xd0), 0xd1, 0xe2, 0xf0, 0xc3))
	}
	return b
}

func c14cases(seed uint64, deep bool) []*Case {
	r := NewRng(seed, 114)
	c := &Case{Prop: "C14", Seed: seed}
	for t, n := 0, r.In(1, 4); t < n; t++ {
		var ops []Op
		for i, n := 0, r.In(1, 4); i < n; i++ {
			ops = append(ops, withGC(r, Op{K: "lower", Text: c14text(r)}, 6))
		}
		c.Tasks = append(c.Tasks, ops)
	}
	return schedules(r, c, 3, 600)
}

func refLower(b []byte) string {
	out := append([]byte{}, b...)
	for i := 0; i < len(b); i++ {
		if b[i] >= 'A' && b[i] <= 'Z' {
			out[i] = b[i] + 32
		}
		if r, n := utf8.DecodeRune(b[i:]); n == 2 {
			switch {
			case r >= 'А' && r <= 'Я':
				utf8.EncodeRune(out[i:], r+32)
			case r == 'Ё':
				utf8.EncodeRune(out[i:], 'ё')
			}
		}
	}
	return string(out)
}

func c14judge(c *Case, st *Stats) *Violation {
	t0 := cticks()
	r := exec(c)
	st.observe(c, r)
	st.Nontrivial = true
	st.probe("loop iterations in C", int(cticks()-t0))
	if v := common(c, r); v != nil {
		return v
	}
	for t := range r.Tasks {
		for i := range r.Tasks[t] {
			o := &r.Tasks[t][i]
			if !utf8.Valid(o.Op.Text) {
				st.fault("torn or invalid text", 1)
			}
			if w := refLower(o.Op.Text); heldCopy(o) != w {
				return viol("result", "task %d op %d: lower(%q): %s", t, i, clip(o.Op.Text), diff(w, heldCopy(o)))
			}
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// ---- standard streams

var sample []byte

// withFds runs f with the three standard streams in the given state and counts
// the bytes written to them and taken from them.
func withFds(kind string, written, read *int64, f func() *Result) *Result {
	var save [3]int
	for i := range save {
		d, err := syscall.Dup(i)
		if err != nil {
			panic(oracleFailure{msg: "dup: " + err.Error()})
		}
		syscall.CloseOnExec(d)
		save[i] = d
	}
	cflush()
	var files []*os.File
	scratch := os.Getenv("SIM_DIR")
	open := func(name string, flag int) int {
		x, err := os.OpenFile(name, flag, 0o600)
		if err != nil {
			panic(oracleFailure{msg: err.Error()})
		}
		files = append(files, x)
		return int(x.Fd())
	}
	in := filepath.Join(scratch, fmt.Sprintf("in%d", os.Getpid()))
	out := filepath.Join(scratch, fmt.Sprintf("out%d", os.Getpid()))
	must(os.WriteFile(in, []byte(strings.Repeat("данные\n", 100)), 0o600))
	must(os.WriteFile(out, nil, 0o600))
	var fin, fout int
	switch kind {
	case "file", "closed":
		fin, fout = open(in, os.O_RDONLY), open(out, os.O_WRONLY|os.O_APPEND)
	case "full":
		fin, fout = open("/dev/null", os.O_RDONLY), open("/dev/full", os.O_WRONLY)
	case "pipe":
		p := make([]int, 2)
		if err := syscall.Pipe(p); err != nil {
			panic(oracleFailure{msg: err.Error()})
		}
		syscall.Close(p[0])
		fin, fout = open("/dev/null", os.O_RDONLY), p[1]
		defer syscall.Close(p[1])
	}
	for i := range save {
		if kind == "closed" {
			syscall.Close(i)
			continue
		}
		fd := fout
		if i == 0 {
			fd = fin
		}
		if err := syscall.Dup2(fd, i); err != nil {
			panic(oracleFailure{msg: err.Error()})
		}
	}
	restored := false
	restore := func() {
		if restored {
			return
		}
		restored = true
		cflush()
		if kind == "file" {
			off, _ := syscall.Seek(0, 0, 1)
			*read = off
		}
		for i, d := range save {
			syscall.Dup2(d, i)
			syscall.Close(d)
		}
		if kind == "file" {
			b, _ := os.ReadFile(out)
			*written = int64(len(b))
			sample = b
			if len(sample) > 80 {
				sample = sample[:80]
			}
		}
		for _, x := range files {
			x.Close()
		}
		os.Remove(in)
		os.Remove(out)
	}
	defer restore()
	r := f()
	return r
}

func must(err error) {
	if err != nil {
		panic(oracleFailure{msg: err.Error()})
	}
}
