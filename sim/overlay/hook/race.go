//go:build race

package hook

import (
	"runtime"
	"unsafe"
)

const RaceOn = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceErrors() int              { return runtime.RaceErrors() }
