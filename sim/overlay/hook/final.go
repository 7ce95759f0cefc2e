package hook

import (
	"reflect"
	"runtime"
	"sort"
	"sync"
)

// Finalizers the library sets are run by simulated tasks, started by the
// collection that found their object unreachable.

type finalizer struct {
	seq int
	run func()
}

var (
	finMu  sync.Mutex
	finSeq int
	finQ   []finalizer
)

// SetFinalizer is runtime.SetFinalizer.
func SetFinalizer(obj, f any) {
	if f == nil {
		runtime.SetFinalizer(obj, nil)
		return
	}
	seq := nextFin()
	v := reflect.ValueOf(f)
	w := reflect.MakeFunc(v.Type(), func(a []reflect.Value) []reflect.Value {
		finMu.Lock()
		finQ = append(finQ, finalizer{seq, func() { v.Call(a) }})
		finMu.Unlock()
		o := make([]reflect.Value, v.Type().NumOut())
		for i := range o {
			o[i] = reflect.Zero(v.Type().Out(i))
		}
		return o
	})
	runtime.SetFinalizer(obj, w.Interface())
}

//go:norace
func nextFin() int {
	finSeq++
	return finSeq
}

// Collect is a garbage collection, after which the finalizers it made due start.
//
//go:norace
func Collect() {
	raceDisable()
	runtime.GC()
	for finSeq > 0 && !runtime.SimFinIdle() {
		runtime.Gosched()
	}
	raceEnable()
	if finSeq == 0 {
		return
	}
	finMu.Lock()
	q := finQ
	finQ = nil
	finMu.Unlock()
	sort.Slice(q, func(i, j int) bool { return q[i].seq < q[j].seq })
	for _, f := range q {
		Go(f.run)
	}
}

// PoolGen counts how often the pools were dropped, as collections do.
var PoolGen int

func DropPools() { PoolGen++ }
