//go:build race

package main

import (
	"runtime"
	"unsafe"
)

const raceBuild = true

// handover is the synchronisation of a program that creates something in one
// goroutine and uses it in others: what happens before give happens before
// whatever follows take.
type handover struct{ x int64 }

func (h *handover) give() { runtime.RaceReleaseMerge(unsafe.Pointer(&h.x)) }
func (h *handover) take() { runtime.RaceAcquire(unsafe.Pointer(&h.x)) }

// raceRead and raceWrite tell the race detector what a system call on a
// socket does with the memory it is given.
func raceRead(p []byte) {
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}

func raceWrite(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}
