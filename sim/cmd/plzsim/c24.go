package main

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"verifsim/sim"
)

func init() {
	register(&Prop{ID: "C24", Run: runC24, MaxPoints: 2000000, MaxSim: 10 * time.Minute,
		Real: []string{"reflect2 (default implementation), the Go runtime's maps, allocator and garbage collector"},
		Stub: []string{"the program using it is generated", "goroutines are simulated; they interleave between operations and at every access to the type cache", "garbage collections are forced at chosen points and freed memory is overwritten"}})
}

// Types the programs work on.
type (
	rOne   struct{ P *rPair }
	rPair  struct{ A, B int }
	rInner struct {
		N int8
		S string
	}
	rWide struct {
		X int8
		rPadding
		Inner rInner
		Name  string `plz:"name"`
		Ptr   *rPair
		List  []string
		Any   interface{}
		Err   error
		M     map[string]int
		Arr   [2]string
		F     float32
		Last  bool
	}
	rPadding struct {
		Promoted string
		Deep     rInner
	}
	rNest  struct{ One [1]rOne }
	rEmpty struct{}
	RBase  struct {
		Pad  int16
		Base string
		More rInner
	}
	rEmb struct {
		Tick bool
		*RBase
		Tail string
	}
	rNamed  string
	rHollow struct {
		E rEmpty
		P *rPair
	}
	rErr  struct{ N int }
	rChan chan int
)

func (e rErr) Error() string    { return fmt.Sprint("rErr ", e.N) }
func (p *rPair) String() string { return fmt.Sprint("pair ", p.A, p.B) }

// Types whose pointer type is in the program.
var rNames = map[reflect.Type]string{
	reflect.TypeOf(*new(rPair)): "main.rPair", reflect.TypeOf(*new(RBase)): "main.RBase",
}

// Different types of the same name.
func rTwin1() reflect.Type {
	type rTwin struct{ A, B string }
	return reflect.TypeOf(rTwin{})
}

func rTwin2() reflect.Type {
	type rTwin struct {
		N int8
		P *rPair
		S string
	}
	return reflect.TypeOf(rTwin{})
}

var rTypes = []reflect.Type{
	rTwin1(), rTwin2(), reflect.SliceOf(rTwin1()), reflect.SliceOf(rTwin2()), reflect.MapOf(reflect.TypeOf(0), rTwin1()), reflect.MapOf(reflect.TypeOf(0), rTwin2()),
	reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(float64(0)),
	reflect.TypeOf(rNamed("")), reflect.TypeOf(complex128(0)), reflect.TypeOf(time.Duration(0)),
	reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf([]byte{}), reflect.TypeOf([]*rPair{}), reflect.TypeOf([]rPair{}),
	reflect.TypeOf([]interface{}{}), reflect.TypeOf([]error{}), reflect.TypeOf([][]string{}), reflect.TypeOf([]map[string]int{}), reflect.TypeOf([]rWide{}),
	reflect.TypeOf([][2]string{}), reflect.TypeOf([]rOne{}), reflect.TypeOf([]rEmpty{}),
	reflect.TypeOf([3]int{}), reflect.TypeOf([1]*rPair{}), reflect.TypeOf([2]string{}), reflect.TypeOf([2]*rPair{}), reflect.TypeOf([1]string{}),
	reflect.TypeOf([2]interface{}{}), reflect.TypeOf([2]rWide{}), reflect.TypeOf([1][1]*rPair{}), reflect.TypeOf([0]int{}), reflect.TypeOf([1]map[string]int{}),
	reflect.TypeOf(rPair{}), reflect.TypeOf(rOne{}), reflect.TypeOf(rWide{}), reflect.TypeOf(rNest{}), reflect.TypeOf(rEmpty{}), reflect.TypeOf(rInner{}),
	reflect.TypeOf(map[int]int{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf(map[interface{}]string{}),
	reflect.TypeOf(map[rPair]*rPair{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[int]rWide{}), reflect.TypeOf(map[int8][]string{}),
	reflect.TypeOf(map[[2]string]error{}), reflect.TypeOf(map[*rPair]int{}), reflect.TypeOf(map[string]map[int]int{}), reflect.TypeOf(map[error]int{}),
	reflect.TypeOf((*rPair)(nil)), reflect.TypeOf((**rPair)(nil)), reflect.TypeOf((*[]string)(nil)), reflect.TypeOf((rChan)(nil)), reflect.TypeOf((*map[string]int)(nil)),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
	reflect.TypeOf(uintptr(0)), reflect.TypeOf(unsafe.Pointer(nil)),
	reflect.TypeOf(struct{ P unsafe.Pointer }{}), reflect.TypeOf(rEmb{}), reflect.TypeOf([]rEmb{}), reflect.TypeOf([1]rChan{}), reflect.TypeOf(rHollow{}), reflect.TypeOf([1]struct{ P map[string]int }{}),
	reflect.TypeOf((func())(nil)),
}

type rAPI interface {
	TypeOf(obj interface{}) reflect2.Type
	Type2(type1 reflect.Type) reflect2.Type
}

// cell is a variable of the program: reflect2 works on got, the model on want.
type cell struct {
	got, want reflect.Value // pointers
}

type rTask struct {
	r     *sim.Run
	api   rAPI
	cells map[reflect.Type][]*cell
	types []reflect.Type
	uniq  int
	gc    bool
	safe  bool // the implementation without unsafe operations
	log   []string
	junk  [][]*rPair
}

// gen makes a value; both worlds get their own copy.
func (t *rTask) gen(T reflect.Type, depth int) reflect.Value {
	g := t.r.W
	v := reflect.New(T).Elem()
	if g.Draw(8) == 1 {
		return v
	}
	t.uniq++
	n := t.uniq
	switch T.Kind() {
	case reflect.Bool:
		v.SetBool(g.Draw(2) == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(n%100) + 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(n%200) + 1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(n) + 0.5)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(n), 1))
	case reflect.String:
		v.SetString(strings.Repeat("s", g.Draw(3)) + fmt.Sprint("text", n))
	case reflect.Slice:
		k := g.Draw(5)
		v.Set(reflect.MakeSlice(T, k, k+g.Draw(3)))
		for i := 0; i < k; i++ {
			v.Index(i).Set(t.gen(T.Elem(), depth+1))
		}
	case reflect.Array:
		for i := 0; i < T.Len(); i++ {
			v.Index(i).Set(t.gen(T.Elem(), depth+1))
		}
	case reflect.Struct:
		for i := 0; i < T.NumField(); i++ {
			if T.Field(i).PkgPath == "" {
				v.Field(i).Set(t.gen(T.Field(i).Type, depth+1))
			} else if T.Field(i).Type == reflect.TypeOf(rPadding{}) {
				v.FieldByName("Promoted").SetString(fmt.Sprint("promoted", n))
				v.FieldByName("Deep").Set(reflect.ValueOf(rInner{int8(n % 100), fmt.Sprint("deep", n)}))
			}
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(T))
		k := g.Draw(5)
		if g.Draw(8) == 1 {
			k = 9 + g.Draw(20)
		}
		for i := 0; i < k; i++ {
			v.SetMapIndex(t.gen(T.Key(), depth+1), t.gen(T.Elem(), depth+1))
		}
	case reflect.Ptr:
		if depth < 4 {
			p := reflect.New(T.Elem())
			p.Elem().Set(t.gen(T.Elem(), depth+1))
			v.Set(p)
		}
	case reflect.Chan:
		v.Set(reflect.MakeChan(T, 1))
	case reflect.Func:
		v.Set(reflect.ValueOf(func() {}))
	case reflect.UnsafePointer:
		v.Set(reflect.ValueOf(unsafe.Pointer(&rPair{n, n})))
	case reflect.Interface:
		var x interface{}
		switch {
		case T.NumMethod() == 0:
			x = []interface{}{n, fmt.Sprint("any", n), rPair{n, n}, &rPair{n, n + 1}, rOne{&rPair{n, 3}}, true, nil, rErr{n}, int8(n % 100), [2]string{"x", fmt.Sprint(n)}}[g.Draw(10)]
		case T == reflect.TypeOf((*error)(nil)).Elem():
			x = []interface{}{rErr{n}, rErr{n + 1}}[g.Draw(2)]
			if depth == 0 && g.Draw(2) == 1 {
				x = errors.New(fmt.Sprint("plain", n))
			}
		default:
			x = &rPair{n, n + 2}
		}
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
	}
	return v
}

// deepCopy copies v into new memory; pointers that are map keys or unsafe stay shared.
func deepCopy(v reflect.Value) reflect.Value {
	o := reflect.New(v.Type()).Elem()
	o.Set(v)
	switch v.Kind() {
	case reflect.Slice:
		if !v.IsNil() {
			o.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Cap()))
			for i := 0; i < v.Len(); i++ {
				o.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			o.Index(i).Set(deepCopy(v.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				o.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			o.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				o.SetMapIndex(k, deepCopy(v.MapIndex(k)))
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			o.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			o.Set(deepCopy(v.Elem()))
		}
	}
	return o
}

// same compares deeply; functions by identity.
func same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.Kind() == reflect.Func {
		return a.Pointer() == b.Pointer()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

var noAddr = regexp.MustCompile("0x[0-9a-f]+")

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	return abbr(noAddr.ReplaceAllString(fmt.Sprintf("%s(%+v)", v.Type(), v.Interface()), "ADDR"))
}

func (t *rTask) pair(T reflect.Type) *cell {
	v := t.gen(T, 0)
	c := &cell{got: reflect.New(T), want: reflect.New(T)}
	c.got.Elem().Set(v)
	c.want.Elem().Set(deepCopy(v))
	if T.Kind() == reflect.Func || T.Kind() == reflect.UnsafePointer || T.Kind() == reflect.Chan {
		c.want.Elem().Set(v)
	}
	return c
}

func (t *rTask) cell(T reflect.Type) *cell {
	cs := t.cells[T]
	if len(cs) < 3 && (len(cs) == 0 || t.r.W.Chance(1, 3)) {
		c := t.pair(T)
		t.cells[T] = append(cs, c)
		return c
	}
	return cs[t.r.W.Draw(len(cs))]
}

func (t *rTask) fail(class, format string, a ...interface{}) {
	t.r.Fail(class, "%s; before: %s", fmt.Sprintf(format, a...), abbr(strings.Join(t.log, "; ")))
}

func (t *rTask) eq(what string, got, want reflect.Value) {
	if !same(got, want) {
		t.fail("wrong-value", "%s gives %s, expected %s", what, show(got), show(want))
	}
}

// disturb collects garbage, moves the stack or only yields.
func (t *rTask) disturb() {
	r := t.r
	if t.gc {
		switch r.F.Draw(40) {
		case 1:
			r.Fault("garbage collection")
			runtime.GC()
		case 2:
			r.Fault("stack growth")
			deepStack(200)
		case 3:
			r.Fault("garbage collection and allocation")
			runtime.GC()
			var l []*rPair
			for i := 0; i < 200; i++ {
				l = append(l, &rPair{-1, -1})
			}
			t.junk = append(t.junk[:len(t.junk)%4], l)
		}
	}
	r.Yield()
}

//go:noinline
func deepStack(n int) int {
	var a [64]int
	if n == 0 {
		return 0
	}
	a[n%64] = n
	return deepStack(n-1) + a[n%64]
}

// wrap makes a typed pointer from what an Unsafe operation returned.
func wrap(T reflect.Type, p unsafe.Pointer) reflect.Value { return reflect.NewAt(T, p) }

func (t *rTask) step() {
	r := t.r
	T := t.types[r.W.Draw(len(t.types))]
	c := t.cell(T)
	var typ reflect2.Type
	switch {
	case T.Kind() != reflect.Interface && r.W.Chance(1, 2):
		typ = t.api.TypeOf(c.want.Elem().Interface())
	case r.W.Chance(1, 3):
		typ = t.api.Type2(reflect.PtrTo(T)).(reflect2.PtrType).Elem()
	default:
		typ = t.api.Type2(T)
	}
	if typ == nil || typ.Type1() != T || typ.Kind() != T.Kind() || typ.String() != T.String() {
		t.fail("wrong-type", "the type of a %s is %v", T, typ)
	}
	t.disturb()
	uns := r.W.Chance(1, 2) && !t.safe
	op := r.W.Draw(14)
	if t.safe && (op == 4 || op == 5 || op == 3 && !nullable(T)) {
		return // not part of the safe implementation
	}
	desc := fmt.Sprintf("%s op %d unsafe %v", T, op, uns)
	gp := unsafe.Pointer(c.got.Pointer())
	gi := c.got.Interface()
	switch op {
	case 0:
		var p reflect.Value
		if uns {
			p = wrap(T, typ.UnsafeNew())
		} else {
			p = reflect.ValueOf(typ.New())
		}
		t.disturb()
		if p.Type() != reflect.PtrTo(T) || p.IsNil() {
			t.fail("wrong-value", "New of %s is a %s", T, p.Type())
		}
		t.eq("New", p.Elem(), reflect.Zero(T))
	case 1:
		var v interface{}
		if uns {
			v = typ.UnsafeIndirect(gp)
		} else {
			v = typ.Indirect(gi)
		}
		t.disturb()
		want := c.want.Elem()
		if T.Kind() == reflect.Interface {
			want = want.Elem()
		}
		t.eq(desc+" Indirect", reflect.ValueOf(v), want)
	case 2:
		d := t.cell(T)
		if uns {
			typ.UnsafeSet(unsafe.Pointer(d.got.Pointer()), gp)
		} else {
			typ.Set(d.got.Interface(), gi)
		}
		d.want.Elem().Set(c.want.Elem())
		t.disturb()
		t.eq(desc+" Set", d.got.Elem(), d.want.Elem())
	case 3:
		want := false
		switch T.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface, reflect.UnsafePointer:
			want = c.want.Elem().IsNil()
			if T.Kind() == reflect.Interface && !want {
				e := c.want.Elem().Elem()
				if e.Kind() == reflect.Ptr && e.IsNil() {
					return
				}
			}
		}
		var got bool
		if nullable(T) && (!typ.IsNil(nil) || !t.safe && !typ.UnsafeIsNil(nil)) {
			t.fail("wrong-nil", "nothing is not nil as a %s", T)
		}
		if uns {
			got = typ.UnsafeIsNil(gp)
		} else {
			got = typ.IsNil(gi)
		}
		if got != want {
			t.fail("wrong-nil", "IsNil of %s is %v", show(c.want.Elem()), got)
		}
		if typ.IsNullable() != reflect2.IsNullable(T.Kind()) || typ.IsNullable() != nullable(T) {
			t.fail("wrong-nil", "%s is nullable: %v", T, typ.IsNullable())
		}
	case 4:
		p := typ.PackEFace(gp)
		if p != gi {
			t.fail("wrong-value", "PackEFace of %s is not a pointer to the variable", T)
		}
		if typ.RType() != reflect2.RTypeOf(reflect.Zero(T).Interface()) && T.Kind() != reflect.Interface {
			t.fail("wrong-type", "the descriptor of %s differs from its values'", T)
		}
		if _, ok := t.api.(defaultAPI); ok {
			if pt := reflect2.TypeOfPtr(gi); pt.Type1() != reflect.PtrTo(T) || pt.Elem().Type1() != T || reflect2.PtrTo(typ).Type1() != reflect.PtrTo(T) {
				t.fail("wrong-type", "the pointer type of %s is %s", T, pt)
			}
		}
		if typ.LikePtr() != likePtr(T) {
			t.fail("wrong-type", "a %s is like a pointer: %v", T, typ.LikePtr())
		}
		if reflect2.PtrOf(gi) != gp || reflect2.RTypeOf(gi) != t.api.Type2(reflect.PtrTo(T)).RType() || reflect2.IsNil(gi) {
			t.fail("wrong-type", "pointer or descriptor of a *%s is wrong", T)
		}
		if n, ok := rNames[T]; ok && reflect2.TypeByName(n).Type1() != T {
			t.fail("wrong-type", "TypeByName(%s) gives %v", n, reflect2.TypeByName(n))
		}
		e := reflect.TypeOf((*error)(nil)).Elem()
		if typ.Implements(t.api.Type2(e)) != T.Implements(e) || typ.AssignableTo(t.api.Type2(e)) != T.AssignableTo(e) {
			t.fail("wrong-type", "%s implements error: %v", T, typ.Implements(t.api.Type2(e)))
		}
	case 5:
		t.mismatch(typ, c)
	default:
		switch T.Kind() {
		case reflect.Slice:
			t.sliceOp(typ.(reflect2.SliceType), T, c, op-6, uns)
		case reflect.Array:
			t.arrayOp(typ.(reflect2.ArrayType), T, c, uns)
		case reflect.Struct:
			if t.safe {
				return
			}
			t.structOp(typ.(reflect2.StructType), T, c, uns)
		case reflect.Map:
			t.mapOp(typ.(reflect2.MapType), T, c, op-6, uns)
		}
	}
	t.log = append(t.log, desc)
	if len(t.log) > 8 {
		t.log = t.log[1:]
	}
}

// likePtr tells whether an interface holds the value itself instead of its address.
func likePtr(T reflect.Type) bool {
	switch T.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return T.Len() == 1 && likePtr(T.Elem())
	case reflect.Struct:
		return T.NumField() == 1 && likePtr(T.Field(0).Type)
	}
	return false
}

func nullable(T reflect.Type) bool {
	switch T.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface:
		return true
	}
	return false
}

// mismatch: an argument of another type is refused and nothing changes.
func (t *rTask) mismatch(typ reflect2.Type, c *cell) {
	T := typ.Type1()
	other := t.types[t.r.W.Draw(len(t.types))]
	if other == T {
		return
	}
	o := t.cell(other)
	gi, oi := c.got.Interface(), o.got.Interface()
	ops := []func(){func() { typ.Set(gi, oi) }, func() { typ.Set(oi, gi) }, func() { typ.Indirect(oi) }, func() { typ.IsNil(oi) }}
	switch x := typ.(type) {
	case reflect2.SliceType:
		ops = append(ops, func() { x.GetIndex(oi, 0) }, func() { x.LengthOf(oi) }, func() { x.Grow(oi, 1) }, func() { x.SetNil(oi) }, func() { x.Append(oi, oi) })
		if T.Elem() != other {
			ops = append(ops, func() { x.Append(gi, oi) })
			if c.want.Elem().Len() > 0 {
				ops = append(ops, func() { x.SetIndex(gi, 0, oi) })
			}
		}
	case reflect2.ArrayType:
		ops = append(ops, func() { x.GetIndex(oi, 0) })
		if T.Elem() != other && T.Len() > 0 {
			ops = append(ops, func() { x.SetIndex(gi, 0, oi) })
		}
	case reflect2.MapType:
		ops = append(ops, func() { x.Iterate(oi) }, func() { x.TryGetIndex(oi, oi) }, func() { x.GetIndex(oi, oi) })
		if T.Key() != other {
			ops = append(ops, func() { x.GetIndex(gi, oi) }, func() { x.TryGetIndex(gi, oi) }, func() { x.SetIndex(gi, oi, oi) })
		}
	case reflect2.StructType:
		if T.NumField() > 0 {
			ops = append(ops, func() { x.Field(0).Get(oi) }, func() { x.Field(0).Set(oi, gi) })
			if T.Field(0).Type != other {
				ops = append(ops, func() { x.Field(0).Set(gi, oi) })
			}
		}
	}
	k := t.r.W.Draw(len(ops))
	if _, panicked := try(ops[k]); !panicked {
		t.fail("accepted", "operation %d of %s accepted a %s", k, T, other)
	}
	t.eq("after a refused operation, the variable", c.got.Elem(), c.want.Elem())
	t.eq("after a refused operation, the argument", o.got.Elem(), o.want.Elem())
}

func (t *rTask) sliceOp(typ reflect2.SliceType, T reflect.Type, c *cell, op int, uns bool) {
	r := t.r
	gp, gi := unsafe.Pointer(c.got.Pointer()), c.got.Interface()
	s := c.want.Elem()
	E := T.Elem()
	switch op {
	case 0, 1, 2: // append
		e := t.pair(E)
		n := s.Len()
		if n > 0 && !t.safe && r.W.Draw(4) == 1 {
			k := r.W.Draw(n) // an element of the slice itself
			e = &cell{wrap(E, typ.UnsafeGetIndex(gp, k)), s.Index(k).Addr()}
		}
		old := reflect.New(E).Elem()
		old.Set(e.want.Elem())
		if uns {
			typ.UnsafeAppend(gp, unsafe.Pointer(e.got.Pointer()))
		} else {
			typ.Append(gi, e.got.Interface())
		}
		t.disturb()
		t.grow(c, T, n+1)
		s.Index(n).Set(old)
		t.eq("Append", c.got.Elem(), s)
	case 3: // grow or shrink
		n := r.W.Draw(2*s.Len() + 4)
		if r.W.Draw(10) == 1 {
			n = s.Cap() + r.W.Draw(30)
			if E.Size() <= 8 && r.W.Draw(8) == 1 {
				n += 1000 + r.W.Draw(1000)
			}
		}
		if uns {
			typ.UnsafeGrow(gp, n)
		} else {
			typ.Grow(gi, n)
		}
		t.disturb()
		t.grow(c, T, n)
		t.eq(fmt.Sprintf("Grow to %d", n), c.got.Elem(), s)
	case 4:
		n := r.W.Draw(4)
		k := n + r.W.Draw(4)
		var p reflect.Value
		if uns {
			p = wrap(T, typ.UnsafeMakeSlice(n, k))
		} else {
			p = reflect.ValueOf(typ.MakeSlice(n, k))
		}
		t.disturb()
		if p.Type() != reflect.PtrTo(T) || p.Elem().Cap() != k || p.Elem().Len() != n || p.Elem().IsNil() {
			t.fail("wrong-value", "MakeSlice(%d, %d) of %s gives %s", n, k, T, show(p))
		}
		c.got.Elem().Set(p.Elem())
		s.Set(reflect.MakeSlice(T, n, k))
		t.eq("MakeSlice", c.got.Elem(), s)
	case 5:
		if r.W.Chance(1, 2) {
			if uns {
				typ.UnsafeSetNil(gp)
			} else {
				typ.SetNil(gi)
			}
			s.Set(reflect.Zero(T))
			t.eq("SetNil", c.got.Elem(), s)
		}
		var l, k int
		if uns {
			l, k = typ.UnsafeLengthOf(gp), typ.UnsafeCap(gp)
		} else {
			l, k = typ.LengthOf(gi), typ.Cap(gi)
		}
		if l != s.Len() || k != s.Cap() || c.got.Elem().Cap() != k {
			t.fail("wrong-value", "length and capacity of %s are %d and %d, expected %d and %d", T, l, k, s.Len(), s.Cap())
		}
	default:
		if s.Len() == 0 {
			return
		}
		i := r.W.Draw(s.Len())
		if op == 6 {
			e := t.pair(E)
			if uns {
				typ.UnsafeSetIndex(gp, i, unsafe.Pointer(e.got.Pointer()))
			} else {
				typ.SetIndex(gi, i, e.got.Interface())
			}
			s.Index(i).Set(e.want.Elem())
			t.disturb()
			t.eq("SetIndex", c.got.Elem(), s)
			return
		}
		var p reflect.Value
		if uns {
			p = wrap(E, typ.UnsafeGetIndex(gp, i))
		} else {
			p = reflect.ValueOf(typ.GetIndex(gi, i))
		}
		t.disturb()
		if p.Type() != reflect.PtrTo(E) {
			t.fail("wrong-value", "GetIndex of %s gives a %s", T, p.Type())
		}
		t.eq("GetIndex", p.Elem(), s.Index(i))
		if typ.Elem().Type1() != E {
			t.fail("wrong-type", "the element type of %s is %s", T, typ.Elem().Type1())
		}
	}
}

// grow makes the model's slice n long; a larger backing array has the capacity the code chose.
func (t *rTask) grow(c *cell, T reflect.Type, n int) {
	s := c.want.Elem()
	if n <= s.Cap() {
		if c.got.Elem().Cap() != s.Cap() {
			t.fail("wrong-value", "the capacity of %s became %d, %d was enough", T, c.got.Elem().Cap(), s.Cap())
		}
		s.Set(s.Slice(0, n))
		return
	}
	k := c.got.Elem().Cap()
	if k < n {
		t.fail("wrong-value", "a %s has capacity %d, %d are needed", T, k, n)
	}
	o := reflect.MakeSlice(T, n, k)
	reflect.Copy(o, s)
	s.Set(o)
}

func (t *rTask) arrayOp(typ reflect2.ArrayType, T reflect.Type, c *cell, uns bool) {
	gp, gi := unsafe.Pointer(c.got.Pointer()), c.got.Interface()
	E := T.Elem()
	if typ.Len() != T.Len() || typ.Elem().Type1() != E {
		t.fail("wrong-type", "%s has length %d and elements %s", T, typ.Len(), typ.Elem().Type1())
	}
	if T.Len() == 0 {
		return
	}
	i := t.r.W.Draw(T.Len())
	if t.r.W.Chance(1, 2) {
		e := t.pair(E)
		if uns {
			typ.UnsafeSetIndex(gp, i, unsafe.Pointer(e.got.Pointer()))
		} else {
			typ.SetIndex(gi, i, e.got.Interface())
		}
		c.want.Elem().Index(i).Set(e.want.Elem())
		t.disturb()
		t.eq("SetIndex", c.got.Elem(), c.want.Elem())
		return
	}
	var p reflect.Value
	if uns {
		p = wrap(E, typ.UnsafeGetIndex(gp, i))
	} else {
		p = reflect.ValueOf(typ.GetIndex(gi, i))
	}
	t.disturb()
	if p.Type() != reflect.PtrTo(E) {
		t.fail("wrong-value", "GetIndex of %s gives a %s", T, p.Type())
	}
	t.eq("GetIndex", p.Elem(), c.want.Elem().Index(i))
}

func (t *rTask) structOp(typ reflect2.StructType, T reflect.Type, c *cell, uns bool) {
	gp, gi := unsafe.Pointer(c.got.Pointer()), c.got.Interface()
	if typ.NumField() != T.NumField() {
		t.fail("wrong-type", "%s has %d fields", T, typ.NumField())
	}
	if T.NumField() == 0 {
		return
	}
	i := t.r.W.Draw(T.NumField())
	sf := T.Field(i)
	index := []int{i}
	var f reflect2.StructField
	switch t.r.W.Draw(5) {
	case 0:
		f = typ.Field(i)
	case 1:
		f = typ.FieldByName(sf.Name)
	case 2:
		f = typ.FieldByIndex([]int{i})
	case 3:
		f = typ.FieldByNameFunc(func(n string) bool { return n == sf.Name })
	default: // inside another
		f, sf, index = t.nested(typ, T, i, c)
		if f == nil {
			return
		}
	}
	if f.Name() != sf.Name || f.Type().Type1() != sf.Type || f.Tag() != sf.Tag || f.Anonymous() != sf.Anonymous || f.PkgPath() != sf.PkgPath || len(index) == 1 && f.Offset() != sf.Offset {
		t.fail("wrong-type", "field %s of %s is %s of type %s", sf.Name, T, f.Name(), f.Type().Type1())
	}
	if typ.FieldByName("NoSuchField") != nil {
		t.fail("wrong-type", "%s has a field that does not exist", T)
	}
	w := c.want.Elem().FieldByIndex(index)
	if sf.PkgPath == "" && t.r.W.Chance(1, 2) {
		e := t.pair(sf.Type)
		if uns {
			f.UnsafeSet(gp, unsafe.Pointer(e.got.Pointer()))
		} else {
			f.Set(gi, e.got.Interface())
		}
		w.Set(e.want.Elem())
		t.disturb()
		t.eq(fmt.Sprintf("setting field %s", sf.Name), c.got.Elem(), c.want.Elem())
		return
	}
	var p reflect.Value
	if uns {
		p = wrap(sf.Type, f.UnsafeGet(gp))
	} else {
		p = reflect.ValueOf(f.Get(gi))
	}
	t.disturb()
	if p.Type() != reflect.PtrTo(sf.Type) {
		t.fail("wrong-value", "getting field %s of %s gives a %s", sf.Name, T, p.Type())
	}
	if sf.PkgPath == "" {
		t.eq(fmt.Sprintf("getting field %s", sf.Name), p.Elem(), w)
	}
}

// nested finds a field of a field.
func (t *rTask) nested(typ reflect2.StructType, T reflect.Type, i int, c *cell) (reflect2.StructField, reflect.StructField, []int) {
	in := T.Field(i)
	st := in.Type
	if st.Kind() == reflect.Ptr && st.Elem().Kind() == reflect.Struct && in.Anonymous && !c.want.Elem().Field(i).IsNil() {
		st = st.Elem()
	}
	if st.Kind() == reflect.Ptr && st.Elem().Kind() == reflect.Struct && in.Anonymous {
		f := typ.FieldByIndex([]int{i, 0})
		if _, panicked := try(func() { f.Get(c.got.Interface()) }); !panicked {
			t.fail("nil-embedded", "a field of the nil %s of a %s was read", in.Name, T)
		}
	}
	if st.Kind() != reflect.Struct || st.NumField() == 0 {
		return nil, in, nil
	}
	k := t.r.W.Draw(st.NumField())
	index := []int{i, k}
	sf := T.FieldByIndex(index)
	if in.Anonymous && t.r.W.Chance(1, 2) {
		return typ.FieldByName(sf.Name), sf, index
	}
	return typ.FieldByIndex(index), sf, index
}

func (t *rTask) mapOp(typ reflect2.MapType, T reflect.Type, c *cell, op int, uns bool) {
	r := t.r
	gp, gi := unsafe.Pointer(c.got.Pointer()), c.got.Interface()
	m := c.want.Elem()
	K, E := T.Key(), T.Elem()
	if typ.Key().Type1() != K || typ.Elem().Type1() != E {
		t.fail("wrong-type", "the key and element of %s are %s and %s", T, typ.Key().Type1(), typ.Elem().Type1())
	}
	key := reflect.New(K)
	if keys := m.MapKeys(); len(keys) > 0 && r.W.Chance(2, 3) {
		sortValues(keys)
		key.Elem().Set(keys[r.W.Draw(len(keys))])
	} else {
		key.Elem().Set(t.gen(K, 0))
	}
	ki, kp := key.Interface(), unsafe.Pointer(key.Pointer())
	switch op {
	case 0, 1, 2:
		e := t.pair(E)
		f := func() { typ.SetIndex(gi, ki, e.got.Interface()) }
		if uns {
			f = func() { typ.UnsafeSetIndex(gp, kp, unsafe.Pointer(e.got.Pointer())) }
		}
		_, panicked := try(f)
		if panicked != m.IsNil() {
			t.fail("nil-map", "setting an element of a %s (nil %v) panicked: %v", T, m.IsNil(), panicked)
		}
		if !panicked {
			m.SetMapIndex(key.Elem(), e.want.Elem())
		}
		t.disturb()
		t.eq("SetIndex", c.got.Elem(), m)
	case 3, 4:
		want := m.MapIndex(key.Elem())
		var p reflect.Value
		ok := want.IsValid()
		switch {
		case uns:
			p = wrap(E, typ.UnsafeGetIndex(gp, kp))
		case r.W.Chance(1, 2):
			p = reflect.ValueOf(typ.GetIndex(gi, ki))
		default:
			var v interface{}
			v, ok = typ.TryGetIndex(gi, ki)
			p = reflect.ValueOf(v)
			if !ok {
				p = reflect.Zero(reflect.PtrTo(E))
			}
		}
		t.disturb()
		if p.Type() != reflect.PtrTo(E) || p.IsNil() == want.IsValid() || ok != want.IsValid() {
			t.fail("wrong-value", "element %s of %s: found %v, expected %s", show(key.Elem()), show(m), ok, show(want))
		}
		if ok {
			t.eq("GetIndex", p.Elem(), want)
		}
	case 5:
		var p reflect.Value
		n := r.W.Draw(40)
		if uns {
			p = wrap(T, typ.UnsafeMakeMap(n))
		} else {
			p = reflect.ValueOf(typ.MakeMap(n))
		}
		t.disturb()
		if p.Type() != reflect.PtrTo(T) || p.Elem().IsNil() || p.Elem().Len() != 0 {
			t.fail("wrong-value", "MakeMap of %s gives %s", T, show(p))
		}
		c.got.Elem().Set(p.Elem())
		m.Set(reflect.MakeMap(T))
	default:
		var it reflect2.MapIterator
		if uns {
			it = typ.UnsafeIterate(gp)
		} else {
			it = typ.Iterate(gi)
		}
		left := map[interface{}]bool{}
		for _, k := range m.MapKeys() {
			left[k.Interface()] = true
		}
		seen := 0
		for it.HasNext() {
			var kp, ep reflect.Value
			if uns {
				a, b := it.UnsafeNext()
				kp, ep = wrap(K, a), wrap(E, b)
			} else {
				a, b := it.Next()
				kp, ep = reflect.ValueOf(a), reflect.ValueOf(b)
			}
			if seen++; seen%3 == 1 {
				t.disturb()
			}
			if kp.Type() != reflect.PtrTo(K) || ep.Type() != reflect.PtrTo(E) {
				t.fail("wrong-value", "iterating over a %s gives a %s and a %s", T, kp.Type(), ep.Type())
			}
			k := kp.Elem().Interface()
			if !left[k] {
				t.fail("wrong-iteration", "iterating over a %s gives the key %s, which is no key or was there before", T, show(kp.Elem()))
			}
			delete(left, k)
			if E.Kind() == reflect.String && !t.safe && r.W.Draw(6) == 1 {
				e := t.pair(E)
				typ.UnsafeSetIndex(gp, unsafe.Pointer(kp.Pointer()), unsafe.Pointer(e.got.Pointer()))
				m.SetMapIndex(kp.Elem(), e.want.Elem())
				if !uns {
					ep = reflect.ValueOf(typ.GetIndex(gi, kp.Interface()))
				} else {
					ep = wrap(E, typ.UnsafeGetIndex(gp, unsafe.Pointer(kp.Pointer())))
				}
			}
			t.eq("iterating", ep.Elem(), m.MapIndex(kp.Elem()))
		}
		if r.W.Chance(1, 2) && it.HasNext() {
			t.fail("wrong-iteration", "iterating over a %s goes on after its end", T)
		}
		if len(left) > 0 {
			t.fail("wrong-iteration", "iterating over a %s with %d keys leaves out %d", T, m.Len(), len(left))
		}
	}
}

// sortValues puts keys into an order that does not depend on the map's.
func sortValues(ks []reflect.Value) {
	txt := make([]string, len(ks))
	for i, k := range ks {
		txt[i] = fmt.Sprintf("%#v", k.Interface())
		if k.Kind() == reflect.Ptr && !k.IsNil() {
			txt[i] = fmt.Sprintf("%#v", k.Elem().Interface())
		}
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && txt[j] < txt[j-1]; j-- {
			txt[j], txt[j-1] = txt[j-1], txt[j]
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}

type defaultAPI struct{}

func (defaultAPI) TypeOf(obj interface{}) reflect2.Type   { return reflect2.TypeOf(obj) }
func (defaultAPI) Type2(type1 reflect.Type) reflect2.Type { return reflect2.Type2(type1) }

func runC24(r *sim.Run) {
	var api rAPI = defaultAPI{}
	safe := false
	if r.W.Chance(2, 3) {
		safe = r.W.Draw(5) == 1
		api = reflect2.Config{UseSafeImplementation: safe}.Froze()
	}
	sim.Fine = r.W.Chance(1, 2)
	nt := 1 + r.W.Draw(3)
	gc := swarm(r, 1, 2)
	var types []reflect.Type
	for i := 0; i <= 2+r.W.Draw(5); i++ {
		types = append(types, rTypes[r.W.Draw(len(rTypes))])
	}
	if r.W.Draw(4) == 1 {
		types = append(types, rTypes[:6]...)
	}
	var ts []*sim.Task
	for i := 0; i < nt; i++ {
		n := 5 + r.W.Draw(40)
		ts = append(ts, r.Spawn("user"+itoa(i), func() {
			debug.SetPanicOnFault(true)
			t := &rTask{r: r, api: api, cells: map[reflect.Type][]*cell{}, types: types, gc: gc, safe: safe}
			for k := 0; k < n; k++ {
				if p, panicked := try(t.step); panicked {
					t.fail("panic", "a valid operation panicked: %s", noAddr.ReplaceAllString(sim.PanicText(p), "ADDR"))
				}
			}
			// all variables at the end
			for _, T := range types {
				for _, c := range t.cells[T] {
					t.eq("a variable", c.got.Elem(), c.want.Elem())
				}
			}
			r.Nontriv = true
		}))
	}
	r.Join(ts...)
}
