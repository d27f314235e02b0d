package sim

import (
	"runtime"
	"strconv"
	"strings"
	"unsafe"
)

func realG() uintptr

// goidWord is the index of the goroutine id among the words of a goroutine descriptor, found by
// comparing descriptors with the ids printed in stack traces.
var goidWord = findGoidWord()

func findGoidWord() int {
	cand := map[int]int{}
	const n = 12
	for i := 0; i < n; i++ {
		done := make(chan bool)
		go func() {
			defer close(done)
			b := make([]byte, 64)
			f := strings.Fields(string(b[:runtime.Stack(b, false)]))
			id, _ := strconv.ParseInt(f[1], 10, 64)
			g := realG()
			for w := 0; w < 50; w++ {
				if *(*int64)(unsafe.Pointer(g + uintptr(w*8))) == id {
					cand[w]++
				}
			}
		}()
		<-done
	}
	for w := 0; w < 50; w++ {
		if cand[w] == n {
			return w
		}
	}
	return -1
}
