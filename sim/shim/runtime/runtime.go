// Package runtime is the simulated stand-in for the standard package.
package runtime

import "verifsim/sim"

func Gosched() { sim.Op(-80) }
func Stack(buf []byte, all bool) int {
	return copy(buf, "goroutine 1 [running]:\nsimulated stack\n")
}
func NumGoroutine() int { return 1 }
func LockOSThread()     {}
func UnlockOSThread()   {}
