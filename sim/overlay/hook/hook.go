// Package hook is the simulator's scheduler. Instrumented library code calls P
// before every statement; exactly one task runs at any time and the scheduler
// decides, at any call of P, whether another one continues instead. Everything
// here is invisible to the race detector, so the hand-over adds no
// happens-before edge between tasks.
package hook

import (
	"fmt"
	"sync"
	"unsafe"
)

type (
	Abort    struct{} // injected fault: the operation is cut short
	Budget   struct{} // the operation exceeded its step budget
	Deadlock struct{} // every task waits for another one
)

const never = ^uint64(0)

const (
	ready = iota
	blocked
	done
)

type Task struct {
	ID      int
	Steps   uint64
	next    uint64
	Site    uint32
	state   int
	waiting unsafe.Pointer
	dead    bool
	wake    chan struct{}
	run     *Run
	side    bool // a goroutine the library started
	onChan  bool // waits at channels
	keys    [16]unsafe.Pointer
	nkeys   int
	gave    [8]struct {
		p unsafe.Pointer
		n int
	}

	resumed  uint64 // Steps when last resumed
	segEnd   uint64
	OpStart  uint64
	budgetAt uint64
	abortAt  uint64
	gcAt     uint64
	gcEvery  uint64
	overs    int
	Locks    int  // simulated locks held: an abort waits until it is 0
	Aborted  bool // the abort of the current operation fired
	GCs      int
	prio     uint64
}

// Seg is one stretch of the schedule: task T runs for N steps (0: until it ends or blocks).
type Seg struct {
	T    int    `json:"t"`
	N    uint64 `json:"n"`
	Site uint32 `json:"-"`
}

type Policy struct {
	Kind    string   `json:"kind"` // script, random, rr, pct, sites
	Quantum uint64   `json:"quantum,omitempty"`
	Points  []uint64 `json:"points,omitempty"` // pct: global steps of priority changes
	Mod     uint64   `json:"mod,omitempty"`    // sites: one site in Mod is a preemption candidate
	Seed    uint64   `json:"seed"`
	Max     int      `json:"max,omitempty"` // most preemptions
}

type Run struct {
	Tasks    []*Task // without the library's goroutines that have ended
	ntasks   int
	Policy   Policy
	Script   []Seg
	pos      int
	Rec      []Seg
	rng      uint64
	envRng   uint64
	Hash     uint64 // of the sequence of (task, site) at switches
	Switches int
	Blocks   int
	Dead     bool
	polled   uint64 // chanMoves when waiting channel operations last tried again
	total    uint64
	ptIdx    int
	lowPrio  uint64
	wg       sync.WaitGroup
	ended    chan struct{}
	Crash    string // a panic nobody recovers in a goroutine the library started
}

// sides are the library's goroutines that have not ended. Those that wait at
// the end of a run stay for the next one.
var sides []*Task

var cur *Task

// Live is the number of simulated steps executed by this process.
var Live uint64

//go:norace
func mix(p *uint64) uint64 {
	*p += 0x9e3779b97f4a7c15
	z := *p
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// P is called by instrumented code before every statement.
//
//go:norace
func P(site uint32) {
	t := cur
	if t == nil {
		return
	}
	t.Steps++
	Seen[site&(NSites-1)] = 1
	t.Site = site
	if t.Steps >= t.next {
		t.slow()
	}
}

// NSites bounds the numbers of code sites.
const NSites = 1 << 14

// Seen marks the code sites that simulated tasks reached in this process.
var Seen [NSites]byte

// Yield is a scheduling point in harness code.
//
//go:norace
func Yield() { P(0) }

//go:norace
func Cur() *Task { return cur }

//go:norace
func Active() bool { return cur != nil }

// Rnd is randomness for environment decisions (pool contents and the like).
//
//go:norace
func Rnd() uint64 {
	if cur == nil {
		return 0
	}
	return mix(&cur.run.envRng)
}

//go:norace
func (t *Task) arm() {
	n := t.segEnd
	if t.budgetAt < n {
		n = t.budgetAt
	}
	if t.abortAt < n {
		n = t.abortAt
	}
	if t.gcAt < n {
		n = t.gcAt
	}
	t.next = n
}

//go:norace
func (t *Task) slow() {
	if t.dead {
		panic(Deadlock{})
	}
	if t.Steps >= t.budgetAt {
		t.overs++
		t.budgetAt = t.Steps + 1000
		t.arm()
		panic(Budget{})
	}
	if t.Steps >= t.gcAt {
		t.GCs++
		if t.gcEvery > 0 {
			t.gcEvery += t.gcEvery / 16 // few enough of them in long operations
			t.gcAt = t.Steps + t.gcEvery
		} else {
			t.gcAt = never
		}
		t.arm()
		Collect()
	}
	if t.Steps >= t.abortAt {
		if t.Locks > 0 {
			t.abortAt = t.Steps + 1
		} else {
			t.abortAt = never
			t.Aborted = true
			t.arm()
			panic(Abort{})
		}
	}
	if t.Steps >= t.segEnd {
		r := t.run
		n := r.decide(t)
		if n != t {
			r.note(t)
			t.handoff(n)
		} else {
			r.quantum(t)
		}
	}
	t.arm()
}

// note records the stretch t has just run.
//
//go:norace
func (r *Run) note(t *Task) {
	if t.Steps == t.resumed {
		return
	}
	if len(r.Rec) < cap(r.Rec) {
		r.Rec = append(r.Rec, Seg{t.ID, t.Steps - t.resumed, t.Site})
	}
	r.Switches++
	r.total += t.Steps - t.resumed
	h := r.Hash ^ (uint64(t.ID)<<32 | uint64(t.Site))
	r.Hash = h*0x100000001b3 + 0x9e37
}

//go:norace
func (t *Task) handoff(n *Task) {
	t.run.quantum(n)
	n.resumed = n.Steps
	n.arm()
	raceDisable()
	cur = n
	n.wake <- struct{}{}
	<-t.wake
	raceEnable()
}

// nth returns the k-th ready task (counting from 0), or nil.
//
//go:norace
func (r *Run) nth(k int, not *Task) *Task {
	for _, t := range r.Tasks {
		if t.state == ready && t != not {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

//go:norace
func (r *Run) nready(not *Task) int {
	n := 0
	for _, t := range r.Tasks {
		if t.state == ready && t != not {
			n++
		}
	}
	return n
}

// decide picks who continues when t reaches a preemption point.
//
//go:norace
func (r *Run) decide(t *Task) *Task {
	switch r.Policy.Kind {
	case "script":
		return r.scripted(t)
	case "pct":
		now := r.total + t.Steps - t.resumed
		if r.ptIdx < len(r.Policy.Points) && now >= r.Policy.Points[r.ptIdx] {
			r.ptIdx++
			r.lowPrio--
			t.prio = r.lowPrio
		}
		return r.top()
	case "sites":
		if r.Switches >= r.Policy.Max {
			return t
		}
		s := uint64(t.Site) + r.Policy.Seed
		if mix(&s)%r.Policy.Mod != 0 || mix(&r.rng)&1 == 0 {
			return t
		}
	default:
		if r.Switches >= r.Policy.Max {
			return t
		}
	}
	n := r.nready(t)
	if n == 0 {
		return t
	}
	return r.nth(int(mix(&r.rng)%uint64(n)), t)
}

//go:norace
func (r *Run) top() *Task {
	var b *Task
	for _, t := range r.Tasks {
		if t.state == ready && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

// scripted returns the task of the next usable script entry.
//
//go:norace
func (r *Run) scripted(t *Task) *Task {
	for r.pos < len(r.Script) {
		s := r.Script[r.pos]
		for _, x := range r.Tasks {
			if x.ID == s.T && x.state == ready {
				return x
			}
		}
		r.pos++
	}
	if t != nil && t.state == ready {
		return t
	}
	return r.nth(0, nil)
}

// quantum sets how long t may run before the next decision.
//
//go:norace
func (r *Run) quantum(t *Task) {
	switch r.Policy.Kind {
	case "script":
		t.segEnd = never
		if r.pos < len(r.Script) && r.Script[r.pos].T == t.ID {
			if n := r.Script[r.pos].N; n > 0 {
				t.segEnd = t.Steps + n
			}
			r.pos++
		}
	case "pct":
		t.segEnd = never
		if r.ptIdx < len(r.Policy.Points) {
			p := r.Policy.Points[r.ptIdx]
			if p <= r.total {
				t.segEnd = t.Steps + 1
			} else {
				t.segEnd = t.Steps + (p - r.total)
			}
		}
	case "sites":
		t.segEnd = t.Steps + 1
	case "rr":
		t.segEnd = t.Steps + r.Policy.Quantum
	default:
		// geometric-like: uniform in [1, 2q)
		t.segEnd = t.Steps + 1 + mix(&r.rng)%(2*r.Policy.Quantum)
	}
	if r.Policy.Kind != "script" && r.Policy.Kind != "pct" && r.Switches >= r.Policy.Max {
		t.segEnd = never
	}
}

// leave picks who continues when the running task ends or blocks.
//
//go:norace
func (r *Run) leave() *Task {
	switch r.Policy.Kind {
	case "script":
		return r.scripted(nil)
	case "pct":
		return r.top()
	}
	n := r.nready(nil)
	if n == 0 {
		return nil
	}
	return r.nth(int(mix(&r.rng)%uint64(n)), nil)
}

// Block parks the running task until Unblock(p).
//
//go:norace
func Block(p unsafe.Pointer) {
	t := cur
	r := t.run
	if t.dead || r.Dead && !t.side {
		panic(Deadlock{})
	}
	t.state, t.waiting = blocked, p
	r.Blocks++
	n := r.leave()
	if n == nil {
		n = r.idle()
	}
	if n == nil && !t.side {
		r.Dead = true
		t.state, t.dead = ready, true
		panic(Deadlock{})
	}
	if n == nil {
		n = r.stuck()
	}
	if n == nil { // only goroutines of the library are left, and they wait
		r.note(t)
		r.end()
		t.park()
		t.arm()
		return
	}
	t.Steps++ // a blocked attempt is progress of the schedule
	r.note(t)
	t.handoff(n)
	t.arm()
	if t.dead {
		panic(Deadlock{})
	}
}

//go:norace
func Unblock(p unsafe.Pointer) {
	t := cur
	if t == nil {
		return
	}
	for _, x := range t.run.Tasks {
		if x.state == blocked && x.waitsFor(p) {
			x.state, x.waiting = ready, nil
		}
	}
}

// idle picks who continues when nobody is ready: time passes until the next timer,
// or something outside the simulation may have made a channel ready.
//
//go:norace
func (r *Run) idle() *Task {
	for k := 0; k < 1000; k++ {
		waits := false
		for _, x := range r.Tasks {
			waits = waits || x.state == blocked && !x.side
		}
		if !waits {
			return nil
		}
		if chanMoves != r.polled {
			r.polled = chanMoves
			for _, x := range r.Tasks {
				if x.state == blocked && x.onChan {
					x.state, x.waiting = ready, nil
				}
			}
		} else if !fireTimer(k > 50) {
			return nil
		}
		if n := r.leave(); n != nil {
			return n
		}
	}
	return nil
}

// Pass lets another task go on where the running one asks for it.
//
//go:norace
func Pass() {
	t := cur
	r := t.run
	if r.Policy.Kind == "script" && r.pos < len(r.Script) {
		return // the script says
	}
	if n := r.nready(t); n > 0 {
		k := r.nth(int(mix(&r.rng)%uint64(n)), t)
		r.note(t)
		t.handoff(k)
		t.arm()
		if t.dead {
			panic(Deadlock{})
		}
	}
}

// stuck returns a caller that waits though nobody is left who could wake it.
//
//go:norace
func (r *Run) stuck() *Task {
	for _, x := range r.Tasks {
		if x.state == blocked && !x.side {
			r.Dead = true
			x.state, x.dead = ready, true
			return x
		}
	}
	return nil
}

//go:norace
func (r *Run) end() {
	raceDisable()
	cur = nil
	r.ended <- struct{}{}
	raceEnable()
}

//go:norace
func (t *Task) finish() {
	r := t.run
	t.state = done
	r.note(t)
	if t.side {
		r.Tasks = without(r.Tasks, t)
		sides = without(sides, t)
	}
	n := r.leave()
	if n == nil {
		n = r.idle()
	}
	if n == nil {
		n = r.stuck()
	}
	if n == nil {
		r.end()
		return
	}
	r.quantum(n)
	n.resumed = n.Steps
	n.arm()
	raceDisable()
	cur = n
	n.wake <- struct{}{}
	raceEnable()
}

//go:norace
func without(l []*Task, t *Task) []*Task {
	for i := range l {
		if l[i] == t {
			for ; i+1 < len(l); i++ { // not copy, which the race detector sees
				l[i] = l[i+1]
			}
			l[len(l)-1] = nil
			return l[:len(l)-1]
		}
	}
	return l
}

//go:norace
func (t *Task) park() {
	raceDisable()
	<-t.wake
	raceEnable()
}

// Held counts the simulated locks the running task holds.
//
//go:norace
func Held(d int) {
	if t := cur; t != nil {
		t.Locks = max(0, t.Locks+d)
	}
}

// BeginOp starts an operation of the running task: at most budget steps, an
// injected panic at its abort-th step (0: none), a collection at its gc-th step.
//
//go:norace
func BeginOp(budget, abort, gc, gcEvery uint64) {
	t := cur
	t.OpStart = t.Steps
	t.budgetAt, t.abortAt, t.gcAt = never, never, never
	t.overs, t.Aborted, t.Locks = 0, false, 0
	t.gcEvery = gcEvery
	if budget > 0 {
		t.budgetAt = t.Steps + budget
	}
	if abort > 0 {
		t.abortAt = t.Steps + abort
	}
	if gc > 0 {
		t.gcAt = t.Steps + gc
	}
	t.arm()
}

// EndOp returns the operation's step count and whether the abort fired or the budget ran out.
//
//go:norace
func EndOp() (uint64, bool, bool) {
	t := cur
	n := t.Steps - t.OpStart
	Live += n
	t.budgetAt, t.abortAt, t.gcAt = never, never, never
	t.arm()
	return n, t.Aborted, t.overs > 0
}

// Go runs a goroutine started by the library as a task of the current run, or
// of the next one.
//
//go:norace
func Go(f func()) {
	var t *Task
	if cur == nil {
		t = newTask()
	} else {
		t = cur.run.add()
	}
	t.side = true
	sides = append(sides, t)
	go func() {
		t.park()
		defer t.finish()
		defer sideEnd(t)
		f()
	}()
}

var sideMu sync.Mutex

// sideEnd: the process would end with a panic nobody recovers.
func sideEnd(t *Task) {
	if p := recover(); p != nil {
		if t.run.Crash == "" {
			t.run.Crash = fmt.Sprint(p)
		}
	}
	sideMu.Lock() // an edge to the end of the run
	sideMu.Unlock()
}

//go:norace
func newTask() *Task {
	return &Task{next: never, segEnd: never, budgetAt: never, abortAt: never, gcAt: never, wake: make(chan struct{}, 1)}
}

//go:norace
func (r *Run) add() *Task {
	t := newTask()
	r.adopt(t)
	return t
}

//go:norace
func (r *Run) adopt(t *Task) {
	t.ID, t.run = r.ntasks, r
	r.ntasks++
	t.prio = mix(&r.rng) | 1<<62
	r.Tasks = append(r.Tasks, t)
}

// Exec runs the functions as tasks under the policy and returns when all have ended.
//
//go:norace
func (r *Run) Exec(fs []func()) {
	r.rng = r.Policy.Seed ^ 0x5bd1e995
	r.envRng = r.Policy.Seed ^ 0x1234567
	r.lowPrio = 1 << 30
	r.polled = never
	r.Rec = make([]Seg, 0, 4096)
	if r.Policy.Max == 0 {
		r.Policy.Max = 4000
	}
	if r.Policy.Quantum == 0 {
		r.Policy.Quantum = 1
	}
	if r.Policy.Mod == 0 {
		r.Policy.Mod = 1
	}
	ts := make([]*Task, len(fs))
	for i := range fs {
		ts[i] = r.add()
	}
	k := 0
	for _, t := range sides {
		if t.state != done {
			r.adopt(t)
			sides[k] = t
			k++
		}
	}
	sides = sides[:k]
	r.ended = make(chan struct{}, 1)
	r.wg.Add(len(fs))
	for i, f := range fs {
		go r.body(ts[i], f)
	}
	n := r.leave()
	r.quantum(n)
	n.resumed = n.Steps
	n.arm()
	raceDisable()
	cur = n
	n.wake <- struct{}{}
	raceEnable()
	r.wg.Wait()
	raceDisable()
	<-r.ended
	raceEnable()
	sideMu.Lock()
	sideMu.Unlock()
}

func (r *Run) body(t *Task, f func()) {
	defer r.wg.Done()
	t.park()
	defer t.finish()
	f()
}
