package sim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Channels stay native Go channels (buffer and closed flag); blocking, hand-off and wake-up
// are simulated with Go's semantics (FIFO wait queues, direct hand-off).

type selState struct {
	t    *Task
	done bool
	idx  int
}

type rwait[T any] struct {
	sel *selState
	idx int
	rc  *RCase[T]
}
type swait[T any] struct {
	sel    *selState
	idx    int
	sc     *SCase[T]
	closed bool
}
type chanState[T any] struct {
	recvq []*rwait[T]
	sendq []*swait[T]
}

func chanKey[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func rKey[T any](ch <-chan T) unsafe.Pointer  { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func sKey[T any](ch chan<- T) unsafe.Pointer  { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func bidi[T any](p unsafe.Pointer) chan T     { return *(*chan T)(unsafe.Pointer(&p)) }

func stateOf[T any](p unsafe.Pointer, create bool) *chanState[T] {
	if x, ok := R.chans[p]; ok {
		return x.(*chanState[T])
	}
	if !create {
		return nil
	}
	s := &chanState[T]{}
	R.chans[p] = s
	return s
}

func (s *chanState[T]) popRecv() *rwait[T] {
	for len(s.recvq) > 0 {
		w := s.recvq[0]
		s.recvq = s.recvq[1:]
		if !w.sel.done && !w.sel.t.dead {
			return w
		}
	}
	return nil
}
func (s *chanState[T]) popSend() *swait[T] {
	for len(s.sendq) > 0 {
		w := s.sendq[0]
		s.sendq = s.sendq[1:]
		if !w.sel.done && !w.sel.t.dead {
			return w
		}
	}
	return nil
}

// Case is one communication of a select.
type Case interface {
	try() bool
	maybe() bool
	enqueue(sel *selState, i int)
	dequeue(sel *selState)
	finish()
}

// RCase is a receive.
type RCase[T any] struct {
	p  unsafe.Pointer
	V  T
	OK bool
}

// CRecv makes a receive case.
func CRecv[T any](ch <-chan T) *RCase[T] { return &RCase[T]{p: rKey(ch)} }

func (c *RCase[T]) try() bool {
	if c.p == nil {
		return false
	}
	ch := bidi[T](c.p)
	st := stateOf[T](c.p, false)
	select {
	case v, ok := <-ch:
		c.V, c.OK = v, ok
		if ok && st != nil {
			if w := st.popSend(); w != nil {
				ch <- w.sc.v // room was just made
				w.sel.done = true
				w.sel.idx = w.idx
				R.markReady(w.sel.t)
			}
		}
		return true
	default:
	}
	if st != nil {
		if w := st.popSend(); w != nil {
			c.V, c.OK = w.sc.v, true
			w.sel.done = true
			w.sel.idx = w.idx
			R.markReady(w.sel.t)
			return true
		}
	}
	return false
}

// maybe reports whether a waiting receive could proceed because of something done outside the
// simulator (a context closing its native channel). Pure.
func (c *RCase[T]) maybe() bool {
	if c.p == nil {
		return false
	}
	ch := bidi[T](c.p)
	if len(ch) > 0 {
		return true
	}
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

func (c *RCase[T]) enqueue(sel *selState, i int) {
	if c.p == nil {
		return
	}
	st := stateOf[T](c.p, true)
	st.recvq = append(st.recvq, &rwait[T]{sel, i, c})
}
func (c *RCase[T]) dequeue(sel *selState) {
	if c.p == nil {
		return
	}
	st := stateOf[T](c.p, false)
	if st == nil {
		return
	}
	for i, w := range st.recvq {
		if w.sel == sel {
			st.recvq = append(st.recvq[:i:i], st.recvq[i+1:]...)
			break
		}
	}
	if len(st.recvq) == 0 && len(st.sendq) == 0 {
		delete(R.chans, c.p)
	}
}
func (c *RCase[T]) finish() {}

// SCase is a send.
type SCase[T any] struct {
	p      unsafe.Pointer
	v      T
	closed bool
}

// CSend makes a send case.
func CSend[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{p: sKey(ch), v: v} }
}

func (c *SCase[T]) try() bool {
	if c.p == nil {
		return false
	}
	ch := bidi[T](c.p)
	if st := stateOf[T](c.p, false); st != nil {
		if w := st.popRecv(); w != nil {
			w.rc.V, w.rc.OK = c.v, true
			w.sel.done = true
			w.sel.idx = w.idx
			R.markReady(w.sel.t)
			return true
		}
	}
	select {
	case ch <- c.v:
		return true
	default:
		return false
	}
}
func (c *SCase[T]) maybe() bool { return false }
func (c *SCase[T]) enqueue(sel *selState, i int) {
	if c.p == nil {
		return
	}
	st := stateOf[T](c.p, true)
	st.sendq = append(st.sendq, &swait[T]{sel: sel, idx: i, sc: c})
}
func (c *SCase[T]) dequeue(sel *selState) {
	if c.p == nil {
		return
	}
	st := stateOf[T](c.p, false)
	if st == nil {
		return
	}
	for i, w := range st.sendq {
		if w.sel == sel {
			st.sendq = append(st.sendq[:i:i], st.sendq[i+1:]...)
			break
		}
	}
	if len(st.recvq) == 0 && len(st.sendq) == 0 {
		delete(R.chans, c.p)
	}
}
func (c *SCase[T]) finish() {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// Select performs a select; it returns the index of the case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if !active {
		if R != nil && R.over {
			Op(0)
		}
		for i, c := range cases {
			if nativeTry(c) {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("verifsim: blocking select outside a run")
	}
	r := R
	r.yield(-10, true)
	return r.selectNow(hasDefault, cases)
}

func nativeTry(c Case) bool { return c.try() }

func (r *Run) selectNow(hasDefault bool, cases []Case) int {
	order := make([]int, len(cases))
	for i := range order {
		order[i] = i
	}
	if len(cases) > 1 {
		k := r.P.Draw(permCount(len(cases)))
		for i := 0; i < len(order)-1; i++ {
			m := len(order) - i
			j := i + k%m
			k /= m
			order[i], order[j] = order[j], order[i]
		}
	}
	for _, i := range order {
		if cases[i].try() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	sel := &selState{t: r.cur}
	for i, c := range cases {
		c.enqueue(sel, i)
	}
	for {
		r.Block("channel", func() bool {
			for _, c := range cases {
				if c.maybe() {
					return true
				}
			}
			return false
		})
		if sel.done {
			break
		}
		// woken by a native event: retry
		for _, i := range order {
			if cases[i].maybe() {
				sel.done = true // take ourselves out of every queue before trying
				for _, c := range cases {
					c.dequeue(sel)
				}
				if cases[i].try() {
					return i
				}
				sel = &selState{t: r.cur}
				for k, c := range cases {
					c.enqueue(sel, k)
				}
			}
		}
	}
	for _, c := range cases {
		c.dequeue(sel)
	}
	cases[sel.idx].finish()
	return sel.idx
}

func permCount(n int) int {
	p := 1
	for i := 2; i <= n && i <= 8; i++ {
		p *= i
	}
	return p
}

// SendTo implements ch <- v as SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, &SCase[T]{p: sKey(ch), v: v}) }
}

// Recv implements <-ch.
func Recv[T any](ch <-chan T) T {
	c := &RCase[T]{p: rKey(ch)}
	Select(false, c)
	return c.V
}

// Recv2 implements v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := &RCase[T]{p: rKey(ch)}
	Select(false, c)
	return c.V, c.OK
}

// Close implements close(ch).
func Close[T any](ch chan<- T) {
	Op(-11)
	close(ch)
	if !active {
		return
	}
	st := stateOf[T](sKey(ch), false)
	if st == nil {
		return
	}
	for {
		w := st.popRecv()
		if w == nil {
			break
		}
		var z T
		w.rc.V, w.rc.OK = z, false
		w.sel.done = true
		w.sel.idx = w.idx
		R.markReady(w.sel.t)
	}
	for {
		w := st.popSend()
		if w == nil {
			break
		}
		w.sc.closed = true
		w.sel.done = true
		w.sel.idx = w.idx
		R.markReady(w.sel.t)
	}
}

// trySendNow delivers from scheduler context (timers): never blocks.
func trySendNow[T any](ch chan T, v T) bool {
	c := &SCase[T]{p: chanKey(ch), v: v}
	return c.try()
}

// BlockForever implements select{}.
func BlockForever() {
	if !active {
		Op(0)
		panic("verifsim: select{} outside a run")
	}
	R.Block("select{}", nil)
}

// ChanIt iterates over a channel.
type ChanIt[T any] struct{ ch <-chan T }

// ChanIter starts for v := range ch.
func ChanIter[T any](ch <-chan T) (v T, it *ChanIt[T]) { return v, &ChanIt[T]{ch} }

// Next receives the next element.
func (it *ChanIt[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// ---- maps ----

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR marks a map read: fatal if another task is in the middle of a write.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if active && m != nil {
		p := mapPtr[M, K, V](m)
		r := R
		for _, t := range r.tasks {
			if t != r.cur && t.mwin == p && !t.ended && !t.dead {
				Fatal("concurrent map read and map write")
			}
		}
	}
	return m
}

// MW marks a map write: opens a window in which no other task may touch the map.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	if active && m != nil {
		p := mapPtr[M, K, V](m)
		r := R
		for _, t := range r.tasks {
			if t != r.cur && t.mwin == p && !t.ended && !t.dead {
				Fatal("concurrent map writes")
			}
		}
		if r.cur.dead {
			Op(0)
		}
		r.cur.mwin = p
		r.yieldKeep(-12, true)
	}
	return m
}

// MapIt iterates over a map in an order decided by the simulator.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts for k, v := range m.
func MapIter[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIt[K, V]) {
	it = &MapIt[K, V]{m: m}
	MR[M, K, V](m)
	it.keys = SortedKeys[M, K, V](m)
	if active && len(it.keys) > 1 {
		c := R.P.Draw(8)
		if c != 0 {
			g := NewRng(uint64(c))
			for i := len(it.keys) - 1; i > 0; i-- {
				j := g.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return
}

// SortedKeys returns the keys in a deterministic order.
func SortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return keys
	case []int:
		sort.Ints(ks)
		return keys
	case []int64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return keys
	}
	names := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		names[i] = fmt.Sprintf("%T|%v", any(k), safeVal(reflect.ValueOf(&k).Elem()))
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return names[idx[i]] < names[idx[j]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	return out
}

func safeVal(v reflect.Value) interface{} { return v.Interface() }

// Next advances; entries deleted meanwhile are skipped.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		kk := it.keys[it.i]
		it.i++
		vv, ok := MR[map[K]V, K, V](it.m)[kk]
		if !ok {
			continue
		}
		if k != nil {
			*k = kk
		}
		if v != nil {
			*v = vv
		}
		return true
	}
	return false
}

// Asg implements a shared assignment x = v as Asg(&x, site)(v): the value is computed, then
// another task may run, then it is stored.
func AsgY[T any](p *T, site int) func(T) {
	return func(v T) {
		Y(site)
		*p = v
	}
}

// AsgZ is AsgY in code whose scheduling points can be switched off.
func AsgZ[T any](p *T, site int) func(T) {
	return func(v T) {
		Z(site)
		*p = v
	}
}

// MKey converts a key expression to the map's key type.
func MKey[M ~map[K]V, K comparable, V any](m M, k K) K { return k }
