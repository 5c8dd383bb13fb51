package gosym

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreted Go value:
//
//	integers      int64 (canonical: truncated and sign/zero extended) or *Term (bit vector)
//	bool          bool or *Term (boolean)
//	string        string or *SStr
//	float         float32, float64; complex: complex128
//	pointer       *Value (nil pointer: (*Value)(nil)) or *SymPtr
//	struct        Struct, array: Array
//	slice         Slice (nil slice: Slice(nil))
//	map           *MapObj (nil map: (*MapObj)(nil))
//	interface     Iface (nil: Iface{})
//	func          *Closure (nil: (*Closure)(nil))
//	chan          *Chan
//	tuple         Tuple
//	unsafe.Pointer  UPtr
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

// SStr is a string of known length with at least one symbolic byte.
type SStr struct{ b []Value }

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *Func
	free []Value
	// bound reflect.MakeFunc style host function
	host func(m *Machine, args []Value) Value
	typ  types.Type
}

// UPtr is an unsafe.Pointer, or the result of unsafe.SliceData/StringData.
type UPtr struct {
	p  *Value
	sl Slice
	s  Value // string data
	v  Value
}

// SymPtr points at an element of cells chosen by a symbolic index (already bounds checked).
type SymPtr struct {
	cells []Value
	idx   *Term
	ii    intInfo // element type when it is an integer
}

type poison struct{ name string }

type mapEntry struct {
	k, v    Value
	deleted bool
}

// MapObj is a Go map; it keeps insertion order, which is also its iteration order.
type MapObj struct {
	ents  []mapEntry
	idx   map[any]int // concrete keys
	nsym  int         // live entries with symbolic keys
	n     int
	epoch int64
	iter  int // guards: number of modifications
}

type hkIface struct {
	t *RType
	k any
}

type hkStruct string

// hashKey returns a host comparable key for a concrete value; ok is false when v holds a symbolic part.
func hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case int64, bool, string, float64, float32, *Value, *MapObj, *Chan, *RType, complex128:
		return v, true
	case *Term, *SStr:
		return nil, false
	case Iface:
		if v.t == nil {
			return hkIface{}, true
		}
		if !types.Comparable(v.t.T) {
			panic(hashPanic{v.t})
		}
		k, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		return hkIface{v.t, k}, true
	case Struct:
		return hashSeq(v)
	case Array:
		return hashSeq(v)
	case UPtr:
		return v.p, true
	case *Closure:
		return v, true
	}
	panic(engineErr("hashKey of %T", v))
}

type hashPanic struct{ t *RType }

func hashSeq(vs []Value) (any, bool) {
	var sb strings.Builder
	for _, e := range vs {
		k, ok := hashKey(e)
		if !ok {
			return nil, false
		}
		switch k := k.(type) {
		case string:
			fmt.Fprintf(&sb, "s%d:%s", len(k), k)
		case hkIface:
			fmt.Fprintf(&sb, "i%p:%T:%v;", k.t, k.k, k.k)
		default:
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
	}
	return hkStruct(sb.String()), true
}

// RType is the canonical run time type.
type RType struct {
	T       types.Type
	id      int
	methods map[string]*Func // resolved concrete methods
	str     string
	elem    *RType
	ptrTo   *RType
	m       *Machine
	allMeth []*types.Selection
}

func (r *RType) String() string { return r.str }

// Func is a compiled function.
type Func struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []cblock
	compiled bool
	hasDefer bool
	recoverB int
	intr     Intrinsic
	override *Func
	noBody   bool
	params   int
	freeRegs []int
	calls    int64
	steps    int64
	m        *Machine
	isInit   bool
	fromPkg  string
	fast     func(m *Machine, args []Value) (Value, bool)
	self     *Closure
	quiet    bool // a model of the environment, not looked at for races
}

type instr func(fr *frame)

type cblock struct {
	ins  []instr
	term func(fr *frame) int // next block or -1 to return
	n    int
}

type frame struct {
	m         *Machine
	g         *G
	fn        *Func
	regs      []Value
	prev, blk int
	result    Value
	defers    []deferred
	panicking *targetPanic
	recovered bool
	deferOf   *frame
	caller    *frame
}

type deferred struct {
	fn   Value
	args []Value
	bi   *ssa.Builtin
	inv  *invokeDefer
	call ssa.CallCommon
}

type invokeDefer struct{ f *Func }

type targetPanic struct {
	v       Value // Iface
	goexit  bool
	trace   []string
	runtime bool
}

// abortPath ends the current path without a verdict about the property.
type abortPath struct {
	kind string // "assume", "unsupported", "limit", "engine", "done", "stop"
	msg  string
}

// fatalErr is an unrecoverable error of the interpreted program (deadlock, stack overflow, data race, ...).
type fatalErr struct {
	kind string
	msg  string
}

func engineErr(f string, a ...any) abortPath { return abortPath{"engine", fmt.Sprintf(f, a...)} }
func unsupported(f string, a ...any) abortPath {
	return abortPath{"unsupported", fmt.Sprintf(f, a...)}
}

var smallInts [1 << 12]Value

func init() {
	for i := range smallInts {
		smallInts[i] = int64(i - 1024)
	}
}

func mkInt(i int64) Value {
	if uint64(i+1024) < uint64(len(smallInts)) {
		return smallInts[i+1024]
	}
	return i
}

// intInfo describes an integer type.
type intInfo struct {
	w      uint8
	signed bool
}

func intOf(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func (ii intInfo) norm(v int64) int64 {
	if ii.w >= 64 {
		return v
	}
	sh := 64 - uint(ii.w)
	if ii.signed {
		return v << sh >> sh
	}
	return int64(uint64(v) << sh >> sh)
}

func (m *Machine) term(v Value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		if v.w != w {
			panic(engineErr("term width %d, want %d", v.w, w))
		}
		return v
	case int64:
		return m.tc.BV(uint64(v), w)
	case bool:
		return m.tc.Bool(v)
	}
	panic(engineErr("term of %T", v))
}

func (m *Machine) fromTerm(t *Term, ii intInfo) Value {
	if t.op == OpConst {
		if ii.signed {
			return mkInt(sext(t.val, ii.w))
		}
		return mkInt(int64(t.val))
	}
	return t
}

func (m *Machine) boolVal(t *Term) Value {
	if t.op == OpConst {
		return t.val != 0
	}
	return t
}

// zero returns the zero value of type t.
func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.Float32:
			return float32(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := m.zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic(engineErr("zero of type parameter %v", t))
	}
	panic(engineErr("zero of %v", t))
}

// copyVal copies a value held inline (structs and arrays).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, e := range v {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, e := range v {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

// ---- strings

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SStr:
		return len(v.b)
	}
	panic(engineErr("strLen of %T", v))
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		b := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = mkInt(int64(v[i]))
		}
		return b
	case *SStr:
		return v.b
	}
	panic(engineErr("strBytes of %T", v))
}

// mkStr makes a string of bytes; the slice must not be changed afterwards.
func mkStr(b []Value) Value {
	for _, e := range b {
		if _, ok := e.(*Term); ok {
			return &SStr{b}
		}
	}
	h := make([]byte, len(b))
	for i, e := range b {
		h[i] = byte(e.(int64))
	}
	return string(h)
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return mkInt(int64(v[i]))
	case *SStr:
		return v.b[i]
	}
	panic(engineErr("strAt of %T", v))
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SStr:
		return mkStr(v.b[lo:hi:hi])
	}
	panic(engineErr("strSlice of %T", v))
}

func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	} else if y, ok := b.(string); ok && y == "" {
		return a
	}
	ab, bb := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(ab)+len(bb))
	return mkStr(append(append(r, ab...), bb...))
}

func (m *Machine) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return m.tc.Bool(x == y)
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return m.tc.False
	}
	r := m.tc.True
	for i := 0; i < n; i++ {
		r = m.tc.And(r, m.tc.Eq(m.term(strAt(a, i), 8), m.term(strAt(b, i), 8)))
		if r == m.tc.False {
			return r
		}
	}
	return r
}

// strLess is a < b.
func (m *Machine) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return m.tc.Bool(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := min(la, lb)
	r := m.tc.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(strAt(a, i), 8), m.term(strAt(b, i), 8)
		r = m.tc.Or(m.tc.Cmp(OpUlt, x, y), m.tc.And(m.tc.Eq(x, y), r))
	}
	return r
}

// str builds a host string; symbolic bytes are concretized.
func (m *Machine) hostStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SStr:
		b := make([]byte, len(v.b))
		for i, e := range v.b {
			b[i] = byte(m.concInt(e, intInfo{8, false}))
		}
		return string(b)
	}
	panic(engineErr("hostStr of %T", v))
}

// hostBytes builds host bytes when all are concrete.
func concBytes(s Slice) ([]byte, bool) {
	b := make([]byte, len(s))
	for i, e := range s {
		n, ok := e.(int64)
		if !ok {
			return nil, false
		}
		b[i] = byte(n)
	}
	return b, true
}

func mkBytes(b []byte) Slice {
	s := make(Slice, len(b))
	for i, c := range b {
		s[i] = mkInt(int64(c))
	}
	return s
}
