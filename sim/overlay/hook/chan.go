package hook

import (
	"reflect"
	"sync"
	"time"
	"unsafe"
)

// Channel operations, select statements and timers of the library. Waiting is a
// scheduling decision, as for the locks; values go through real channels, so that
// the race detector sees the edges the program itself makes.

// meet is an operation waiting at an unbuffered channel: a sender with its value
// or, where recv is set, a receiver with room for one.
type meet struct {
	p    unsafe.Pointer
	recv bool
	val  chan any      // holds the value, or receives it
	done chan struct{} // filled by the other side
	g    *group
	seq  int
	idx  int
}

// group is the waiting operations of one statement, of which one takes place.
type group struct {
	taken bool
	idx   int
}

var (
	meets   []meet // not in order; those without a channel are free
	meetSeq int
	anyChan byte // what a select waits for
)

// chanMoves counts what may have let a waiting channel operation go on.
var chanMoves uint64

func chanKey(ch any) unsafe.Pointer { return reflect.ValueOf(ch).UnsafePointer() }

// blockChan is Block for an operation on channels, which may also be let go on by
// something outside the simulation, such as the cancelling of a context.
//
//go:norace
func blockChan(cs []Comm) {
	t := cur
	t.onChan, t.nkeys = true, 0
	for _, c := range cs {
		if t.nkeys == len(t.keys) {
			t.nkeys = -1 // too many: anything may be it
			break
		}
		t.keys[t.nkeys] = c.key()
		t.nkeys++
	}
	defer func() { t.onChan = false }()
	Block(unsafe.Pointer(&anyChan))
}

// waitsFor tells if moving something at p may let the blocked task go on.
//
//go:norace
func (t *Task) waitsFor(p unsafe.Pointer) bool {
	if t.waiting != unsafe.Pointer(&anyChan) {
		return t.waiting == p
	}
	for i := 0; i < t.nkeys; i++ {
		if t.keys[i] == p {
			return true
		}
	}
	return t.nkeys < 0
}

// gave counts what the running task sent into a channel with room and has not taken
// back: until then it may hold what the channel guards.
//
//go:norace
func gave(p unsafe.Pointer, d int) {
	t := cur
	if t == nil {
		return
	}
	for i := range t.gave {
		x := &t.gave[i]
		if x.p == p && x.n > 0 || d > 0 && x.n == 0 {
			x.p = p
			x.n += d
			Held(d)
			return
		}
	}
}

//go:norace
func moved() { chanMoves++ }

// A Comm is a case of a select statement.
type Comm interface {
	key() unsafe.Pointer
	try() bool
	wait(g *group, i int)
	settle()
}

type Recv[T any] struct {
	V   T
	OK  bool
	ch  <-chan T
	val chan any
}

func SelRecv[T any](ch <-chan T) *Recv[T] { return &Recv[T]{ch: ch} }

func (c *Recv[T]) key() unsafe.Pointer { return chanKey(c.ch) }

func (c *Recv[T]) try() bool {
	select {
	case c.V, c.OK = <-c.ch:
		if c.OK {
			gave(chanKey(c.ch), -1)
		}
		Unblock(chanKey(c.ch))
		return true
	default:
	}
	if c.ch == nil || cap(c.ch) > 0 {
		return false
	}
	if val, done := takeMeet(chanKey(c.ch), false); val != nil {
		c.V, _ = (<-val).(T)
		c.OK = true
		done <- struct{}{}
		Unblock(chanKey(c.ch))
		return true
	}
	return false
}

func (c *Recv[T]) wait(g *group, i int) {
	if c.ch != nil && cap(c.ch) == 0 {
		c.val = make(chan any, 1)
		addMeet(meet{p: chanKey(c.ch), recv: true, val: c.val, g: g, idx: i})
	}
}

func (c *Recv[T]) settle() {
	c.V, _ = (<-c.val).(T)
	c.OK = true
}

type Send[T any] struct {
	v    T
	ch   chan<- T
	done chan struct{}
}

// SelSend is used in two steps so that v is converted as by the statement.
func SelSend[T any](ch chan<- T) func(T) *Send[T] {
	return func(v T) *Send[T] { return &Send[T]{ch: ch, v: v} }
}

func (c *Send[T]) key() unsafe.Pointer { return chanKey(c.ch) }

func (c *Send[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.ch <- c.v: // or it is closed
		gave(chanKey(c.ch), 1)
		Unblock(chanKey(c.ch))
		return true
	default:
	}
	if cap(c.ch) > 0 {
		return false
	}
	if val, _ := takeMeet(chanKey(c.ch), true); val != nil {
		val <- c.v
		Unblock(chanKey(c.ch))
		return true
	}
	return false
}

func (c *Send[T]) wait(g *group, i int) {
	if c.ch != nil && cap(c.ch) == 0 {
		val := make(chan any, 1)
		val <- c.v
		c.done = make(chan struct{}, 1)
		addMeet(meet{p: chanKey(c.ch), val: val, done: c.done, g: g, idx: i})
	}
}

func (c *Send[T]) settle() { <-c.done }

// Select performs one of the cases and returns its number, or -1 for the default.
func Select(def bool, cs ...Comm) int {
	if !Active() {
		// the package's initialisation: nothing is simulated yet
		for {
			for i, c := range cs {
				if c.try() {
					return i
				}
			}
			if def {
				return -1
			}
			time.Sleep(time.Millisecond)
		}
	}
	Yield()
	for {
		if n := len(cs); n > 0 {
			k := int(Rnd() % uint64(n))
			for i := range cs {
				if j := (i + k) % n; cs[j].try() {
					moved()
					return j
				}
			}
		}
		if def {
			Pass()
			return -1
		}
		if hurry() {
			continue
		}
		if g := waitFor(cs); g.taken {
			cs[g.idx].settle()
			moved()
			return g.idx
		}
	}
}

func waitFor(cs []Comm) *group {
	g := &group{}
	defer dropMeets(g)
	for i, c := range cs {
		c.wait(g, i)
	}
	blockChan(cs)
	return g
}

// ChanSend is ch <- v.
func ChanSend[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		Select(false, SelSend(ch)(v))
	}
}

// ChanRecv is <-ch.
func ChanRecv[T any](ch <-chan T) T {
	v, _ := ChanRecv2(ch)
	return v
}

func ChanRecv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	c := SelRecv(ch)
	Select(false, c)
	return c.V, c.OK
}

// ChanRange is what "for range ch" ranges over.
func ChanRange[T any](ch <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := ChanRecv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// ChanClose is close(ch).
func ChanClose[T any](ch chan<- T) {
	close(ch)
	moved()
	Unblock(chanKey(ch))
}

//go:norace
func addMeet(m meet) {
	meetSeq++
	m.seq = meetSeq
	for i := range meets {
		if meets[i].p == nil {
			meets[i] = m
			return
		}
	}
	l := make([]meet, 2*len(meets)+16)
	for i := range meets { // not copy, which the race detector sees
		l[i] = meets[i]
	}
	l[len(meets)] = m
	meets = l
}

// takeMeet takes the sender or receiver that has waited longest.
//
//go:norace
func takeMeet(p unsafe.Pointer, recv bool) (chan any, chan struct{}) {
	k := -1
	for i := range meets {
		m := &meets[i]
		if m.p == p && m.recv == recv && !m.g.taken && (k < 0 || m.seq < meets[k].seq) {
			k = i
		}
	}
	if k < 0 {
		return nil, nil
	}
	m := meets[k]
	m.g.taken, m.g.idx = true, m.idx
	return m.val, m.done
}

//go:norace
func dropMeets(g *group) {
	for i := range meets {
		if meets[i].g == g {
			meets[i] = meet{}
		}
	}
}

// ---- timers

// A timer is due when nothing else can go on, the one set for the earliest time
// first, or at a seeded moment before.
type timer struct {
	at    int64
	every int64
	seq   int
	p     unsafe.Pointer
	fire  func()
}

var (
	timers   []*timer
	timerNow int64
	timerSeq int
)

// A clock is a time.Timer or time.Ticker of the simulator: the runtime knows
// nothing of it. Package time hands it back to be stopped or set again.
type clock struct {
	c    <-chan time.Time
	init bool // stays false, which is how package time tells them apart
	seq  int
	p    unsafe.Pointer
	fire func()
	room chan time.Time
	edge sync.Mutex // from setting the timer to what it runs
}

func init() {
	time.SimTimer, time.SimTicker, time.SimAfterFunc = setTimer, setTicker, stdAfterFunc
}

//go:norace
func setTimer(t *time.Timer, d time.Duration, set bool) bool {
	k := (*clock)(unsafe.Pointer(t))
	was := k.stop()
	if set {
		k.mark()
		k.seq = addTimer(d, 0, k.p, k.fire)
	}
	return was
}

//go:norace
func setTicker(t *time.Ticker, d time.Duration) {
	k := (*clock)(unsafe.Pointer(t))
	k.stop()
	if d > 0 {
		k.seq = addTimer(d, d, k.p, k.fire)
	}
}

// stdAfterFunc makes the timers of contexts, say.
func stdAfterFunc(d time.Duration, f func()) *time.Timer {
	if !Active() {
		return nil
	}
	return AfterFunc(d, f)
}

func (k *clock) mark() {
	k.edge.Lock()
	k.edge.Unlock()
}

// stop tells if the timer was still to fire. What it sent is not received any more.
//
//go:norace
func (k *clock) stop() bool {
	was := dropTimer(k.seq)
	if k.room != nil {
		select {
		case <-k.room:
			was = true
		default:
		}
	}
	return was
}

//go:norace
func newClock(d, every time.Duration, f func()) *clock {
	k := &clock{}
	k.mark()
	if f == nil {
		k.room = make(chan time.Time, 1)
		k.c = k.room
		k.p = chanKey(k.room)
		k.fire = sendTime(k.room)
	} else {
		k.c = make(chan time.Time)
		k.fire = func() { Go(func() { k.mark(); f() }) }
	}
	k.seq = addTimer(d, every, k.p, k.fire)
	return k
}

//go:norace
func addTimer(d time.Duration, every time.Duration, p unsafe.Pointer, fire func()) int {
	timerSeq++
	putTimer(&timer{timerNow + max(0, int64(d)), int64(every), timerSeq, p, fire})
	return timerSeq
}

//go:norace
func putTimer(t *timer) {
	l := make([]*timer, len(timers)+1)
	for i := range timers { // not copy, which the race detector sees
		l[i] = timers[i]
	}
	l[len(timers)] = t
	timers = l
}

//go:norace
func dropTimer(seq int) bool {
	for i, t := range timers {
		if t.seq == seq {
			var l []*timer
			if len(timers) > 1 {
				l = make([]*timer, len(timers)-1)
			}
			n := 0
			for j := range timers {
				if j != i {
					l[n] = timers[j]
					n++
				}
			}
			timers = l
			return true
		}
	}
	return false
}

// Elapse lets so much time pass that every timer has fired, those that repeat a few times.
func Elapse() {
	for k := 0; k < 1000 && fireTimer(k >= 3); k++ {
		for i := 0; i < 10 && cur.run.nready(cur) > 0; i++ {
			Pass()
		}
	}
}

// fireTimer fires the next timer, or the next that does not repeat.
//
//go:norace
func fireTimer(once bool) bool {
	k := -1
	for i, t := range timers {
		if once && t.every > 0 {
			continue
		}
		if k < 0 || t.at < timers[k].at || t.at == timers[k].at && t.seq < timers[k].seq {
			k = i
		}
	}
	if k < 0 {
		return false
	}
	t := timers[k]
	dropTimer(t.seq)
	timerNow = max(timerNow, t.at)
	if t.every > 0 {
		t.at = timerNow + t.every
		putTimer(t)
	}
	t.fire()
	chanMoves++
	if t.p != nil {
		Unblock(t.p)
	}
	return true
}

// hurry fires a timer early: time passes while other tasks do not get to run.
//
//go:norace
func hurry() bool { return len(timers) > 0 && Rnd()%8 == 0 && fireTimer(false) }

func sendTime(c chan time.Time) func() {
	return func() {
		select {
		case c <- time.Now():
		default:
		}
	}
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func Sleep(d time.Duration) {
	if !Active() {
		time.Sleep(d)
		return
	}
	ChanRecv(After(d))
}

func NewTimer(d time.Duration) *time.Timer {
	if !Active() {
		return time.NewTimer(d)
	}
	return (*time.Timer)(unsafe.Pointer(newClock(d, 0, nil)))
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	if !Active() {
		return time.AfterFunc(d, f)
	}
	return (*time.Timer)(unsafe.Pointer(newClock(d, 0, f)))
}

func NewTicker(d time.Duration) *time.Ticker {
	if !Active() || d <= 0 {
		return time.NewTicker(d)
	}
	return (*time.Ticker)(unsafe.Pointer(newClock(d, d, nil)))
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Gosched is runtime.Gosched.
func Gosched() {
	if Active() {
		Yield()
		Pass()
	}
}
