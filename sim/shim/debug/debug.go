// Package debug is the simulated stand-in for runtime/debug.
package debug

import "verifsim/shim/os"

func Stack() []byte { return []byte("goroutine 1 [running]:\nsimulated stack\n") }
func PrintStack()   { os.Stderr.Write(Stack()) }
