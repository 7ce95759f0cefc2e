package main

import (
	"encoding/json"
	"time"

	"SIMMODULE/zzverif/hook"
)

// minimiser shrinks a failing list of cases; bad replays a candidate in a fresh process.
type minimiser struct {
	until time.Time
	tries int
	bad   func([]*Case) bool
	best  []*Case
}

func clone(cs []*Case) []*Case {
	b, _ := json.Marshal(cs)
	var o []*Case
	json.Unmarshal(b, &o)
	return o
}

func (m *minimiser) try(cs []*Case) bool {
	if time.Now().After(m.until) || !usable(last(cs)) {
		return false
	}
	m.tries++
	if m.bad(cs) {
		m.best = clone(cs)
		return true
	}
	return false
}

// shrink removes elements of a list of n, keeping the failure: make builds the
// candidate from the indices that stay.
func (m *minimiser) shrink(n int, make func(keep []int) []*Case) {
	keep := []int{}
	for i := 0; i < n; i++ {
		keep = append(keep, i)
	}
	for size := (n + 1) / 2; size >= 1; {
		progress := false
		for i := 0; i < len(keep); {
			e := min(len(keep), i+size)
			c := append(append([]int{}, keep[:i]...), keep[e:]...)
			if time.Now().After(m.until) {
				return
			}
			if cand := make(c); cand != nil && m.try(cand) {
				keep = c
				progress = true
			} else {
				i = e
			}
		}
		if size == 1 && !progress {
			break
		}
		if size > 1 {
			size = (size + 1) / 2
		} else if !progress {
			break
		}
	}
}

// usable: every tree is parsed before it is used.
func usable(c *Case) bool {
	have := map[int]bool{}
	ok := true
	scan := func(ops []Op, have map[int]bool) {
		for _, op := range ops {
			switch op.K {
			case "parse":
				have[op.S] = true
			case "drop":
				have[op.S] = false
			case "tok", "lower", "gc", "churn", "elapse":
			default:
				ok = ok && have[op.S]
			}
		}
	}
	scan(c.Setup, have)
	all := map[int]bool{}
	for k := range have {
		all[k] = true
	}
	for _, t := range c.Tasks {
		h := map[int]bool{}
		for k := range have {
			h[k] = true
		}
		scan(t, h)
		for k := range h {
			all[k] = true
		}
	}
	scan(c.Final, all)
	return ok
}

func last(cs []*Case) *Case { return cs[len(cs)-1] }

func (m *minimiser) run(cs []*Case) []*Case {
	m.best = clone(cs)
	for round := 0; round < 3; round++ {
		before, _ := json.Marshal(m.best)
		m.round()
		after, _ := json.Marshal(m.best)
		if string(before) == string(after) || time.Now().After(m.until) {
			break
		}
	}
	m.dropUnused()
	return m.best
}

func (m *minimiser) round() {
	// history of the process
	base := m.best
	if n := len(base) - 1; n > 0 {
		m.shrink(n, func(keep []int) []*Case {
			var o []*Case
			for _, i := range keep {
				o = append(o, base[i])
			}
			return append(o, last(base))
		})
	}
	edit := func(f func(c *Case)) bool {
		o := clone(m.best)
		f(last(o))
		return m.try(o)
	}
	// environment
	edit(func(c *Case) { c.Env = Env{Fds: c.Env.Fds} })
	edit(func(c *Case) { c.Env.Now, c.Env.Step = 0, 0 })
	edit(func(c *Case) { c.Env.Zone, c.Env.ZoneName = 0, "" })
	edit(func(c *Case) { c.Env.Procs = 0 })
	edit(func(c *Case) { c.Env.MapSeed = 0 })
	edit(func(c *Case) { c.Env.Sched = 0 })
	// tasks
	b := clone(m.best)
	if n := len(last(b).Tasks); n > 1 {
		m.shrink(n, func(keep []int) []*Case {
			if len(keep) == 0 {
				return nil
			}
			o := clone(b)
			c := last(o)
			var ts [][]Op
			to := map[int]int{}
			for k, i := range keep {
				ts = append(ts, c.Tasks[i])
				to[i] = k
			}
			c.Tasks = ts
			var sc []hook.Seg
			for _, s := range c.Script {
				if k, ok := to[s.T]; ok {
					sc = append(sc, hook.Seg{T: k, N: s.N})
				} else if s.T >= len(b[len(b)-1].Tasks) {
					sc = append(sc, s)
				}
			}
			c.Script = sc
			return o
		})
	}
	// operations
	lists := func(c *Case) []*[]Op {
		l := []*[]Op{&c.Setup, &c.Final}
		for i := range c.Tasks {
			l = append(l, &c.Tasks[i])
		}
		return l
	}
	for k := range lists(last(m.best)) {
		b := clone(m.best)
		n := len(*lists(last(b))[k])
		m.shrink(n, func(keep []int) []*Case {
			o := clone(b)
			p := lists(last(o))[k]
			var ops []Op
			for _, i := range keep {
				ops = append(ops, (*p)[i])
			}
			*p = ops
			return o
		})
		// faults and arguments of the operations that stay
		for i := range *lists(last(m.best))[k] {
			for _, f := range []func(*Op){
				func(o *Op) { o.GC, o.GCEvery = 0, 0 },
				func(o *Op) { o.Abort = 0 },
				func(o *Op) { o.Margin, o.One = 0, false },
				func(o *Op) { o.I = 0 },
			} {
				o := clone(m.best)
				op := &(*lists(last(o))[k])[i]
				was := *op
				f(op)
				if opEq(was, *op) {
					continue
				}
				m.try(o)
			}
			// text of an operation
			if n := len((*lists(last(m.best))[k])[i].Text); n > 0 {
				b := clone(m.best)
				m.shrink(n, func(keep []int) []*Case {
					o := clone(b)
					op := &(*lists(last(o))[k])[i]
					t := op.Text
					op.Text = []byte{}
					for _, x := range keep {
						op.Text = append(op.Text, t[x])
					}
					return o
				})
			}
		}
	}
	m.dropUnused()
	// schedule
	if n := len(last(m.best).Script); n > 0 {
		b := clone(m.best)
		m.shrink(n, func(keep []int) []*Case {
			o := clone(b)
			c := last(o)
			sc := []hook.Seg{}
			for _, i := range keep {
				if k := len(sc); k > 0 && sc[k-1].T == c.Script[i].T {
					sc[k-1].N += c.Script[i].N
				} else {
					sc = append(sc, c.Script[i])
				}
			}
			c.Script = sc
			return o
		})
	}
	if last(m.best).World == "nest" {
		m.nest()
		return
	}
	// sources
	for i := range last(m.best).Srcs {
		b := clone(m.best)
		s := &last(b).Srcs[i]
		if n := len(s.Damage); n > 1 {
			m.shrink(n, func(keep []int) []*Case {
				o := clone(b)
				x := &last(o).Srcs[i]
				var d []Damage
				for _, k := range keep {
					d = append(d, x.Damage[k])
				}
				x.Damage = d
				return o
			})
		}
		s = &last(m.best).Srcs[i]
		free := !positional(last(m.best).Prop)
		if s.Gen != nil && (len(s.Damage) > 0 || len(s.Gen.Poison) > 0) && free && last(m.best).World != "alone" {
			edit(func(c *Case) {
				t, _ := c.Srcs[i].Build()
				c.Srcs[i] = Src{Raw: []byte(t)}
			})
		}
		if s = &last(m.best).Srcs[i]; s.Rep > 1 {
			for last(m.best).Srcs[i].Rep > 1 && edit(func(c *Case) { c.Srcs[i].Rep /= 2 }) {
			}
			edit(func(c *Case) {
				if c.Srcs[i].Rep < 50 {
					t, _ := c.Srcs[i].Build()
					c.Srcs[i] = Src{Raw: []byte(t)}
				}
			})
		}
		s = &last(m.best).Srcs[i]
		if s.Gen == nil && s.Rep <= 1 {
			b := clone(m.best)
			m.shrink(len(s.Raw), func(keep []int) []*Case {
				o := clone(b)
				x := &last(o).Srcs[i]
				raw := x.Raw
				x.Raw = []byte{}
				for _, k := range keep {
					x.Raw = append(x.Raw, raw[k])
				}
				return o
			})
		}
		if s.Gen != nil {
			m.gens(i)
		}
	}
	// simpler faults: an earlier abort
	for k := range lists(last(m.best)) {
		for i := range *lists(last(m.best))[k] {
			for {
				o := clone(m.best)
				op := &(*lists(last(o))[k])[i]
				if op.Abort < 2 {
					break
				}
				op.Abort /= 2
				if !m.try(o) {
					break
				}
			}
		}
	}
}

// nest shrinks the history of a deeply nested text: its steps, then the number
// of blocks a step opens or closes.
func (m *minimiser) nest() {
	set := func(c *Case, x []int) []*Case {
		c.X = x
		c.Srcs = []Src{{Raw: []byte(nestText(x))}}
		o := clone(m.best)
		o[len(o)-1] = c
		return o
	}
	x := last(m.best).X
	m.shrink(len(x)/3, func(keep []int) []*Case {
		y := []int{}
		for _, i := range keep {
			y = append(y, x[3*i:3*i+3]...)
		}
		return set(last(clone(m.best)), y)
	})
	for i := 0; i < len(last(m.best).X); i += 3 {
		for by := 1 << 12; by > 0; {
			c := last(clone(m.best))
			n := c.X[i]
			if n > 0 {
				n = max(0, n-by)
			} else {
				n = min(0, n+by)
			}
			if n == c.X[i] {
				break
			}
			c.X[i] = n
			if !m.try(set(c, c.X)) {
				by /= 2
			}
		}
	}
}

// positional: the oracle needs the generated module and the damage as such.
func positional(prop string) bool {
	switch prop {
	case "C08", "C09", "C15", "C16", "C17":
		return true
	}
	return false
}

func opEq(a, b Op) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

// gens shrinks generated source i. The specs derived from it (procedures alone)
// shrink with it.
func (m *minimiser) gens(i int) {
	all := func(o []*Case, f func(g *GenSpec)) []*Case {
		c := last(o)
		seed := c.Srcs[i].Gen.Seed
		for k := range c.Srcs {
			if g := c.Srcs[k].Gen; g != nil && g.Seed == seed {
				f(g)
			}
		}
		return o
	}
	if ds := last(m.best).Srcs[i].Damage; len(ds) > 0 && !isModular(ds) && positional(last(m.best).Prop) {
		return // positions refer to the text as it is
	}
	g := last(m.best).Srcs[i].Gen
	mod := Generate(*g)
	have := map[int]bool{}
	for _, d := range g.Drop {
		have[d] = true
	}
	var ids []int
	for k := 1; k <= mod.IDs; k++ {
		if !have[k] {
			ids = append(ids, k)
		}
	}
	b := clone(m.best)
	m.shrink(len(ids), func(keep []int) []*Case {
		stay := map[int]bool{}
		for _, k := range keep {
			stay[ids[k]] = true
		}
		drop := append([]int{}, g.Drop...)
		for _, id := range ids {
			if !stay[id] {
				drop = append(drop, id)
			}
		}
		return all(clone(b), func(g *GenSpec) { g.Drop = drop })
	})
	m.try(all(clone(m.best), func(g *GenSpec) { g.CRLF = false }))
	m.try(all(clone(m.best), func(g *GenSpec) { g.Globals = 0 }))
	m.try(all(clone(m.best), func(g *GenSpec) { g.Tail = 0 }))
}

// dropUnused removes sources no operation names.
func (m *minimiser) dropUnused() {
	o := clone(m.best)
	c := last(o)
	if len(c.Srcs) < 2 || c.World == "alone" || positional(c.Prop) {
		return
	}
	used := map[int]bool{}
	if c.Prop == "C05" {
		used[0] = true
	}
	ls := []*[]Op{&c.Setup, &c.Final}
	for i := range c.Tasks {
		ls = append(ls, &c.Tasks[i])
	}
	for _, l := range ls {
		for _, op := range *l {
			if op.K == "parse" || op.K == "tok" {
				used[op.M] = true
			}
		}
	}
	if len(used) == len(c.Srcs) {
		return
	}
	to := map[int]int{}
	var ss []Src
	for i := range c.Srcs {
		if used[i] {
			to[i] = len(ss)
			ss = append(ss, c.Srcs[i])
		}
	}
	c.Srcs = ss
	for _, l := range ls {
		for i := range *l {
			if op := &(*l)[i]; op.K == "parse" || op.K == "tok" {
				op.M = to[op.M]
			}
		}
	}
	m.try(o)
}
