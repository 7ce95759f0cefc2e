//go:build !race

package hook

import "unsafe"

const RaceOn = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceRelease(p unsafe.Pointer) {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }
