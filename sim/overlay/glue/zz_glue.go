package ast

/*
#include <stdio.h>
#include <malloc.h>
unsigned long zzsim_cticks __attribute__((weak));
void (*zzsim_hook)(void) __attribute__((weak));
extern void zzsimYield(void);
static void sim_hook_on(void) { zzsim_hook = zzsimYield; }
static unsigned long sim_ticks(void) { return zzsim_cticks; }
static unsigned long sim_cheap(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static void sim_fflush(void) { fflush(NULL); }
*/
import "C"

import "SIMMODULE/zzverif/hook"

// This file is part of the simulator: it joins loops in the library's C code
// to the scheduler. It sits in this package because cgo needs a directory that
// exists.

//export zzsimYield
func zzsimYield() { hook.Yield() }

func SimCOn()           { C.sim_hook_on() }
func SimCFlush()        { C.sim_fflush() }
func SimCTicks() uint64 { return uint64(C.sim_ticks()) }

// SimCHeap is what malloc has given out and not got back.
func SimCHeap() uint64 { return uint64(C.sim_cheap()) }
