package sim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

//go:noescape
//go:linkname realMapIterInit reflect.mapiterinit
func realMapIterInit(rtype, m, it unsafe.Pointer)

// mapIt is the layout of the iterator of the runtime, as far as it is needed.
type mapIt struct {
	_      [8]unsafe.Pointer
	start  uintptr
	offset uint8
	_      bool
	b      uint8
	_      uint8
	_      [2]uintptr
}

// MapIterInit stands in for reflect.mapiterinit in instrumented packages: the place where the
// iteration of a small map starts is decided by the simulator.
func MapIterInit(rtype, m, it unsafe.Pointer) {
	zero := *(*mapIt)(it)
	realMapIterInit(rtype, m, it)
	x := (*mapIt)(it)
	if !active || m == nil || *(*int)(m) < 2 || x.b != 0 {
		return
	}
	want := uint8(R.P.Draw(8))
	for n := 0; x.offset != want && n < 4000; n++ {
		*x = zero
		realMapIterInit(rtype, m, it)
	}
}

// MapKeys stands in for v.MapKeys().
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	if !active || len(keys) < 2 {
		return keys
	}
	names := make(map[int]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		idx[i] = i
		if k.CanInterface() {
			names[i] = fmt.Sprintf("%T|%v", k.Interface(), k.Interface())
		}
	}
	sort.SliceStable(idx, func(i, j int) bool { return names[idx[i]] < names[idx[j]] })
	c := R.P.Draw(len(keys))
	out := make([]reflect.Value, len(keys))
	for i := range idx {
		out[i] = keys[idx[(i+c)%len(keys)]]
	}
	return out
}
