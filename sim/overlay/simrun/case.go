package main

import (
	"bytes"
	"fmt"
	"strconv"

	"SIMMODULE/zzverif/hook"
)

// Damage is one storage fault applied to a module's bytes.
//
// Other kinds are damage to a generated module in terms of its tokens, layout or
// parts (see modular).
type Damage struct {
	K    string `json:"k"` // trunc zero flip sub del dup swap ins, or one of modular
	At   int    `json:"at"`
	N    int    `json:"n,omitempty"`
	To   int    `json:"to,omitempty"`
	Data []byte `json:"data,omitempty"`
}

// Src is one source text: generated, then damaged; or raw bytes.
type Src struct {
	Gen    *GenSpec `json:"gen,omitempty"`
	Raw    []byte   `json:"raw,omitempty"`
	Rep    int      `json:"rep,omitempty"` // raw bytes repeated, § in them the number of the repetition
	Head   []byte   `json:"head,omitempty"`
	Tail   []byte   `json:"tail,omitempty"`
	Damage []Damage `json:"damage,omitempty"`
}

func (d Damage) apply(b []byte) []byte {
	n := len(b)
	at := d.At
	if at > n {
		at = n
	}
	end := min(n, at+d.N)
	switch d.K {
	case "trunc":
		return b[:at:at]
	case "zero":
		c := append([]byte{}, b...)
		for i := at; i < end; i++ {
			c[i] = 0
		}
		return c
	case "flip":
		if at == n {
			return b
		}
		c := append([]byte{}, b...)
		c[at] ^= 1 << (d.N & 7)
		return c
	case "sub":
		c := append([]byte{}, b...)
		copy(c[at:], d.Data)
		return c
	case "del":
		return append(append([]byte{}, b[:at]...), b[end:]...)
	case "dup":
		to := min(d.To, n)
		c := append([]byte{}, b[:to]...)
		c = append(c, b[at:end]...)
		return append(c, b[to:]...)
	case "swap":
		to := min(max(d.To, end), n)
		e2 := min(n, to+d.N)
		c := append([]byte{}, b[:at]...)
		c = append(c, b[to:e2]...)
		c = append(c, b[end:to]...)
		c = append(c, b[at:end]...)
		return append(c, b[e2:]...)
	case "ins":
		c := append([]byte{}, b[:at]...)
		c = append(c, d.Data...)
		return append(c, b[at:]...)
	}
	panic("unknown damage " + d.K)
}

// Build returns the text and, for an undamaged generated module, the module.
func (s *Src) Build() (string, *Module) {
	var m *Module
	var b []byte
	if s.Gen != nil {
		m = Generate(*s.Gen)
		b = m.damaged(s.Damage)
	} else {
		b = s.Raw
		if s.Rep > 1 {
			c := make([]byte, 0, len(b)*s.Rep)
			num := bytes.Contains(b, []byte("§"))
			for i := 0; i < s.Rep; i++ {
				if num {
					c = append(c, bytes.ReplaceAll(b, []byte("§"), strconv.AppendInt(nil, int64(i), 10))...)
					continue
				}
				c = append(c, b...)
			}
			b = c
		}
		b = append(append(s.Head[:len(s.Head):len(s.Head)], b...), s.Tail...)
	}
	for _, d := range s.Damage {
		if !modular[d.K] {
			b = d.apply(b)
		}
		m = nil
	}
	if m != nil && (len(m.Spec.Poison) > 0 || m.Spec.Quirk) {
		m = nil
	}
	return string(b), m
}

// Op is one operation of the library's user.
type Op struct {
	K       string `json:"k"` // parse reparse print pstmt json walk srs snap gc tok lower churn drop query elapse
	S       int    `json:"s,omitempty"`
	M       int    `json:"m,omitempty"`
	Margin  int    `json:"margin,omitempty"`
	One     bool   `json:"one,omitempty"`
	I       int    `json:"i,omitempty"`
	N       int    `json:"n,omitempty"`
	Mode    string `json:"mode,omitempty"`
	Abort   uint64 `json:"abort,omitempty"`
	GC      uint64 `json:"gc,omitempty"`
	GCEvery uint64 `json:"gcevery,omitempty"`
	Text    []byte `json:"text,omitempty"`
}

// Env is what surrounds the process.
type Env struct {
	MapSeed  uint64 `json:"mapseed,omitempty"`
	RandSeed uint64 `json:"randseed,omitempty"`
	Sched    uint64 `json:"sched,omitempty"` // order of goroutines the library starts by itself
	Now      int64  `json:"now,omitempty"`
	Step     int64  `json:"step,omitempty"`
	Zone     int    `json:"zone,omitempty"` // seconds east of UTC of time.Local, plus one day (0: UTC)
	ZoneName string `json:"zonename,omitempty"`
	Procs    int    `json:"procs,omitempty"`
	Vars     uint64 `json:"vars,omitempty"` // values of the environment variables the library asks for (0: the real ones)
	Fds      string `json:"fds,omitempty"`  // state of the standard streams
}

type Case struct {
	Prop   string      `json:"prop"`
	World  string      `json:"world,omitempty"`
	Seed   uint64      `json:"seed"`
	K      int         `json:"k,omitempty"`
	Srcs   []Src       `json:"srcs,omitempty"`
	Setup  []Op        `json:"setup,omitempty"`
	Tasks  [][]Op      `json:"tasks,omitempty"`
	Final  []Op        `json:"final,omitempty"`
	Pol    hook.Policy `json:"policy"`
	Script []hook.Seg  `json:"script,omitempty"`
	Env    Env         `json:"env"`
	X      []int       `json:"x,omitempty"`
	Sw     []Switch    `json:"sw,omitempty"` // C13: changes of the sources while they are read
}

// Switch cuts source M to its first L bytes (-1: whole again) before read R.
type Switch struct {
	M int `json:"m"`
	R int `json:"r,omitempty"`
	L int `json:"l"`
}

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func viol(class, f string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(f, a...)}
}

// Replay is a replay file.
type Replay struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	VerifSeed uint64    `json:"verif_seed"`
	Binary    string    `json:"binary"`
	Note      string    `json:"note,omitempty"`
	Texts     []string  `json:"texts,omitempty"` // for the reader: the sources, built
	Cases     []*Case   `json:"cases"`
}
