package gosym

import (
	"fmt"
	"go/types"
	"math"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// intrinsics are functions that the machine executes itself; the key is the ssa name of the function.
var intrinsics = map[string]Intrinsic{}

// fastFuncs execute a pure library function natively when all its arguments are concrete; they decline otherwise.
var fastFuncs = map[string]func(m *Machine, args []Value) (Value, bool){}

var i64 = intInfo{64, true}
var u8 = intInfo{8, false}

func leaves(p *Value, out []*Value) []*Value {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			out = leaves(&v[i], out)
		}
	case Array:
		for i := range v {
			out = leaves(&v[i], out)
		}
	default:
		out = append(out, p)
	}
	return out
}

func (m *Machine) leaf(fr *frame, v Value, i int) *Value {
	p := v.(*Value)
	if p == nil {
		panic(m.nilDeref(fr))
	}
	return leaves(p, nil)[i]
}

func (m *Machine) add(p *Value, d int64) int64 {
	n := (*p).(int64) + d
	m.set(p, mkInt(n))
	return n
}

func nop(m *Machine, fr *frame, a []Value) Value { return nil }

func (m *Machine) newErr(text Value) Value {
	f := m.P.funcByName("errors", "New")
	return m.call(nil, m.fn(f), []Value{text}, nil)
}

// symInput records an input for the native replay.
func (m *Machine) symInput(kind string, t ...*Term) {
	m.inputs = append(m.inputs, Input{Kind: kind, Term: t})
}

func init() {
	reg := func(n string, f Intrinsic) { intrinsics[n] = f }

	// ---- the harness interface
	s := symPath + "."
	reg(s+"Bool", func(m *Machine, fr *frame, a []Value) Value {
		t := m.freshVar("b", 0, 0, 1)
		m.symInput("bool", t)
		return m.boolVal(t)
	})
	reg(s+"Int", func(m *Machine, fr *frame, a []Value) Value {
		lo, hi := a[0].(int64), a[1].(int64)
		if lo == hi {
			return a[0]
		}
		// an offset variable keeps the range unsigned
		t := m.freshVar("i", 64, 0, uint64(hi)-uint64(lo))
		v := m.tc.Bin(OpAdd, t, m.tc.BV(uint64(lo), 64))
		m.symInput("int", v)
		return m.fromTerm(v, i64)
	})
	reg(s+"Byte", func(m *Machine, fr *frame, a []Value) Value { return m.symByte(m.hostStr(a[0]), true) })
	reg(s+"String", func(m *Machine, fr *frame, a []Value) Value {
		// String(minLen, maxLen, alphabet)
		lo, hi := int(a[0].(int64)), int(a[1].(int64))
		n := lo + m.chooseN("len", hi-lo+1, false)
		al := m.hostStr(a[2])
		b := make([]Value, n)
		for i := range b {
			b[i] = m.symByte(al, true)
		}
		return mkStr(b)
	})
	reg(s+"Choice", func(m *Machine, fr *frame, a []Value) Value {
		n := int(a[0].(int64))
		return mkInt(int64(m.chooseN("choice", n, false)))
	})
	reg(s+"Assume", func(m *Machine, fr *frame, a []Value) Value { m.assume(a[0]); return nil })
	reg(s+"Assert", func(m *Machine, fr *frame, a []Value) Value { m.assert(a[0], "", m.lossy(a[1])); return nil })
	reg(s+"AssertKnown", func(m *Machine, fr *frame, a []Value) Value {
		m.assert(a[1], m.lossy(a[0]), m.lossy(a[2]))
		return nil
	})
	reg(s+"Reach", func(m *Machine, fr *frame, a []Value) Value { m.reach[m.lossy(a[0])] = true; return nil })
	reg(s+"Symbolic", func(m *Machine, fr *frame, a []Value) Value { return true })
	reg(s+"Yield", func(m *Machine, fr *frame, a []Value) Value { m.yield(); return nil })
	reg(s+"Bound", func(m *Machine, fr *frame, a []Value) Value {
		if v, ok := m.Opt.Bounds[m.hostStr(a[0])]; ok {
			return mkInt(v)
		}
		return a[1]
	})
	// And, Or, Not and Ite build terms without a branch
	reg(s+"And", func(m *Machine, fr *frame, a []Value) Value {
		r := m.tc.True
		for _, x := range a[0].(Slice) {
			r = m.tc.And(r, m.term(x, 0))
		}
		return m.boolVal(r)
	})
	reg(s+"Or", func(m *Machine, fr *frame, a []Value) Value {
		r := m.tc.False
		for _, x := range a[0].(Slice) {
			r = m.tc.Or(r, m.term(x, 0))
		}
		return m.boolVal(r)
	})
	reg(s+"IteInt", func(m *Machine, fr *frame, a []Value) Value {
		return m.fromTerm(m.tc.Ite(m.term(a[0], 0), m.term(a[1], 64), m.term(a[2], 64)), i64)
	})
	reg(s+"Observe", func(m *Machine, fr *frame, a []Value) Value { m.observed = append(m.observed, a[0]); return nil })
	intrinsics[s+"ObserveInt"] = intrinsics[s+"Observe"]
	intrinsics[s+"ObserveBool"] = intrinsics[s+"Observe"]
	reg(s+"Note", func(m *Machine, fr *frame, a []Value) Value {
		if m.P.Debug {
			fmt.Println("note:", m.lossy(a[0]))
		}
		return nil
	})
	reg(s+"Goroutines", func(m *Machine, fr *frame, a []Value) Value {
		n := 0
		for _, g := range m.gs {
			if !g.done {
				n++
			}
		}
		return mkInt(int64(n))
	})
	// Stuck runs the other goroutines for as long as one can run, and returns how many are left
	reg(s+"Quiesce", func(m *Machine, fr *frame, a []Value) Value {
		g := m.cur
		others := func() bool {
			for _, o := range m.gs {
				if o != g && !o.done && (o.ready == nil || o.ready()) {
					return true
				}
			}
			return false
		}
		m.block("quiesce", func() bool { return !others() })
		n := 0
		for _, o := range m.gs {
			if o != g && !o.done {
				n++
			}
		}
		return mkInt(int64(n))
	})

	// ---- runtime and internal packages
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read",
		"internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "(*internal/godebug.Setting).IncNonDefault",
		"internal/godebug.registerMetric", "internal/godebug.setUpdate", "os/signal.Notify", "os/signal.Stop", "sync.runtime_registerPoolCleanup",
		"sync.runtime_notifyListCheck", "internal/msan.Read", "internal/asan.Read", "runtime.LockOSThread", "runtime.UnlockOSThread"} {
		reg(n, nop)
	}
	reg("(*internal/godebug.Setting).Value", func(m *Machine, fr *frame, a []Value) Value { return "" })
	reg("internal/godebug.New", func(m *Machine, fr *frame, a []Value) Value {
		t := m.P.byPath["internal/godebug"].Type("Setting").Type()
		v := new(Value)
		*v = m.zero(t)
		return v
	})
	ident := func(m *Machine, fr *frame, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("internal/stringslite.Clone", ident)
	reg("strings.Clone", ident)
	reg("runtime.Gosched", func(m *Machine, fr *frame, a []Value) Value { m.yield(); return nil })
	reg("runtime.Caller", func(m *Machine, fr *frame, a []Value) Value { return Tuple{mkInt(0), "", mkInt(0), false} })
	reg("runtime.Callers", func(m *Machine, fr *frame, a []Value) Value { return mkInt(0) })
	reg("runtime.Goexit", func(m *Machine, fr *frame, a []Value) Value { panic(&targetPanic{goexit: true, v: Iface{}}) })
	reg("runtime.GOROOT", func(m *Machine, fr *frame, a []Value) Value { return "/usr/local/go" })
	reg("runtime.NumCPU", func(m *Machine, fr *frame, a []Value) Value { return mkInt(8) })
	reg("runtime.GOMAXPROCS", func(m *Machine, fr *frame, a []Value) Value { return mkInt(8) })
	reg("runtime/debug.Stack", func(m *Machine, fr *frame, a []Value) Value { return Slice{} })

	bytesOf := func(v Value) []Value {
		if s, ok := v.(Slice); ok {
			return s
		}
		return strBytes(v)
	}
	eqByte := func(m *Machine, a, b Value) bool {
		return m.decide(m.boolVal(m.tc.Eq(m.term(a, 8), m.term(b, 8))))
	}
	indexByte := func(m *Machine, fr *frame, a []Value) Value {
		for i, x := range bytesOf(a[0]) {
			if eqByte(m, x, a[1]) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, indexByte)
	}
	lastIndexByte := func(m *Machine, fr *frame, a []Value) Value {
		b := bytesOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if eqByte(m, b[i], a[1]) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, lastIndexByte)
	}
	index := func(m *Machine, fr *frame, a []Value) Value {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			t := m.tc.True
			for j := range y {
				t = m.tc.And(t, m.tc.Eq(m.term(x[i+j], 8), m.term(y[j], 8)))
			}
			if m.decide(m.boolVal(t)) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, index)
	}
	count := func(m *Machine, fr *frame, a []Value) Value {
		n := int64(0)
		for _, x := range bytesOf(a[0]) {
			if eqByte(m, x, a[1]) {
				n++
			}
		}
		return mkInt(n)
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	reg("internal/bytealg.Equal", func(m *Machine, fr *frame, a []Value) Value {
		return m.boolVal(m.strEq(mkStr(append([]Value(nil), bytesOf(a[0])...)), mkStr(append([]Value(nil), bytesOf(a[1])...))))
	})
	intrinsics["bytes.Equal"] = intrinsics["internal/bytealg.Equal"]
	compare := func(m *Machine, fr *frame, a []Value) Value {
		x, y := mkStr(append([]Value(nil), bytesOf(a[0])...)), mkStr(append([]Value(nil), bytesOf(a[1])...))
		if m.decide(m.boolVal(m.strEq(x, y))) {
			return mkInt(0)
		}
		if m.decide(m.boolVal(m.strLess(x, y))) {
			return mkInt(-1)
		}
		return mkInt(1)
	}
	reg("internal/bytealg.Compare", compare)
	reg("internal/bytealg.CompareString", compare)
	reg("strings.Compare", compare)
	reg("runtime.cmpstring", compare)
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *frame, a []Value) Value {
		n := int(m.concInt(a[0], i64))
		r := make(Slice, n, roundupsize(uint64(n)))
		fillZero(r[:cap(r)], mkInt(0))
		return r
	})

	// ---- sync
	reg("(*sync.Mutex).Lock", func(m *Machine, fr *frame, a []Value) Value {
		p := m.leaf(fr, a[0], 0)
		m.yield()
		m.block("Mutex.Lock in "+callerName(fr), func() bool { return (*p).(int64) == 0 })
		m.set(p, mkInt(1))
		m.acq(p)
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(m *Machine, fr *frame, a []Value) Value {
		p := m.leaf(fr, a[0], 0)
		m.yield()
		if (*p).(int64) != 0 {
			return false
		}
		m.set(p, mkInt(1))
		m.acq(p)
		return true
	})
	reg("(*sync.Mutex).Unlock", func(m *Machine, fr *frame, a []Value) Value {
		p := m.leaf(fr, a[0], 0)
		if (*p).(int64) == 0 {
			panic(fatalErr{"fatal error", "sync: unlock of unlocked mutex in " + callerName(fr)})
		}
		m.rel(p)
		m.set(p, mkInt(0))
		m.yield()
		return nil
	})
	// leaves of a RWMutex: w.state, w.sema, writerSem, readerSem, readerCount, readerWait
	reg("(*sync.RWMutex).Lock", func(m *Machine, fr *frame, a []Value) Value {
		l := leaves(a[0].(*Value), nil)
		w, rd, wait := l[0], l[4], l[5]
		m.yield()
		if (*w).(int64) != 0 || (*rd).(int64) != 0 {
			m.add(wait, 1)
			m.block("RWMutex.Lock in "+callerName(fr), func() bool { return (*w).(int64) == 0 && (*rd).(int64) == 0 })
			m.add(wait, -1)
		}
		m.set(w, mkInt(1))
		m.acq(w)
		return nil
	})
	reg("(*sync.RWMutex).Unlock", func(m *Machine, fr *frame, a []Value) Value {
		w := m.leaf(fr, a[0], 0)
		if (*w).(int64) == 0 {
			panic(fatalErr{"fatal error", "sync: Unlock of unlocked RWMutex in " + callerName(fr)})
		}
		m.rel(w)
		m.set(w, mkInt(0))
		m.yield()
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(m *Machine, fr *frame, a []Value) Value {
		l := leaves(a[0].(*Value), nil)
		w, rd, wait := l[0], l[4], l[5]
		m.yield()
		m.block("RWMutex.RLock in "+callerName(fr), func() bool { return (*w).(int64) == 0 && (*wait).(int64) == 0 })
		m.add(rd, 1)
		m.acq(w)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, fr *frame, a []Value) Value {
		l := leaves(a[0].(*Value), nil)
		if (*l[4]).(int64) == 0 {
			panic(fatalErr{"fatal error", "sync: RUnlock of unlocked RWMutex in " + callerName(fr)})
		}
		// readers do not order later readers; being stricter here could only hide races
		m.rel(l[0])
		m.add(l[4], -1)
		m.yield()
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(m *Machine, fr *frame, a []Value) Value {
		p := m.leaf(fr, a[0], 0)
		m.rel(p)
		if m.add(p, m.concInt(a[1], i64)) < 0 {
			panic(m.rtErrT(fr, "sync: negative WaitGroup counter", true))
		}
		m.yield()
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fr *frame, a []Value) Value {
		return intrinsics["(*sync.WaitGroup).Add"](m, fr, []Value{a[0], mkInt(-1)})
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fr *frame, a []Value) Value {
		p := m.leaf(fr, a[0], 0)
		m.yield()
		m.block("WaitGroup.Wait in "+callerName(fr), func() bool { return (*p).(int64) == 0 })
		m.acq(p)
		return nil
	})
	reg("(*sync.Pool).Get", func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		st := (*p).(Struct)
		nf, _ := st[len(st)-1].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return m.callValue(fr, nf, nil, nil)
	})
	reg("(*sync.Pool).Put", nop)
	smap := func(m *Machine, fr *frame, v Value) *MapObj {
		p := m.leaf(fr, v, 0)
		if o, ok := (*p).(*MapObj); ok {
			return o
		}
		o := m.newMap()
		m.set(p, o)
		return o
	}
	syncMap := func(n string, f func(m *Machine, fr *frame, o *MapObj, a []Value) Value) {
		reg("(*sync.Map)."+n, func(m *Machine, fr *frame, a []Value) Value {
			o := smap(m, fr, a[0])
			m.yield()
			m.acq(o)
			// its own accesses are synchronised
			rs := m.races
			m.races = nil
			r := func() Value {
				defer func() { m.races = rs }()
				return f(m, fr, o, a[1:])
			}()
			m.rel(o)
			return r
		})
	}
	syncMap("Load", func(m *Machine, fr *frame, o *MapObj, a []Value) Value {
		if v, ok := m.mapGet(fr, o, a[0]); ok {
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	syncMap("Store", func(m *Machine, fr *frame, o *MapObj, a []Value) Value {
		m.mapSet(fr, o, a[0], a[1])
		return nil
	})
	syncMap("LoadOrStore", func(m *Machine, fr *frame, o *MapObj, a []Value) Value {
		if v, ok := m.mapGet(fr, o, a[0]); ok {
			return Tuple{v, true}
		}
		m.mapSet(fr, o, a[0], a[1])
		return Tuple{a[1], false}
	})
	syncMap("LoadAndDelete", func(m *Machine, fr *frame, o *MapObj, a []Value) Value {
		v, ok := m.mapGet(fr, o, a[0])
		if !ok {
			return Tuple{Iface{}, false}
		}
		m.mapDelete(fr, o, a[0])
		return Tuple{v, true}
	})
	syncMap("Swap", func(m *Machine, fr *frame, o *MapObj, a []Value) Value {
		v, ok := m.mapGet(fr, o, a[0])
		m.mapSet(fr, o, a[0], a[1])
		if !ok {
			v = Iface{}
		}
		return Tuple{v, ok}
	})
	syncMap("CompareAndSwap", func(m *Machine, fr *frame, o *MapObj, a []Value) Value {
		v, ok := m.mapGet(fr, o, a[0])
		if !ok || !m.decide(m.boolVal(m.eq(fr, v, a[1]))) {
			return false
		}
		m.mapSet(fr, o, a[0], a[2])
		return true
	})
	syncMap("Delete", func(m *Machine, fr *frame, o *MapObj, a []Value) Value { m.mapDelete(fr, o, a[0]); return nil })
	syncMap("Clear", func(m *Machine, fr *frame, o *MapObj, a []Value) Value {
		m.touchMap(o)
		o.ents, o.idx, o.n, o.nsym = nil, map[any]int{}, 0, 0
		return nil
	})
	reg("(*sync.Map).Range", func(m *Machine, fr *frame, a []Value) Value {
		o := smap(m, fr, a[0])
		m.yield()
		m.acq(o)
		ents := append([]mapEntry(nil), o.ents...)
		for _, e := range ents {
			if e.deleted {
				continue
			}
			if !m.decide(m.callValue(fr, a[1], []Value{e.k, e.v}, nil)) {
				break
			}
		}
		return nil
	})

	// ---- atomics
	for _, k := range []struct {
		n  string
		ii intInfo
	}{{"Int32", intInfo{32, true}}, {"Int64", i64}, {"Uint32", intInfo{32, false}}, {"Uint64", intInfo{64, false}}, {"Uintptr", intInfo{64, false}},
		{"Int", i64}, {"Uint", intInfo{64, false}}, {"32", intInfo{32, false}}, {"64", intInfo{64, false}}, {"8", u8}, {"", intInfo{32, false}}, {"64", intInfo{64, false}}} {
		ii := k.ii
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			at := func(n string, f func(m *Machine, fr *frame, p *Value, a []Value) Value) {
				reg(pk+n+k.n, func(m *Machine, fr *frame, a []Value) Value {
					p := m.leaf(fr, a[0], 0)
					m.yield()
					m.acq(p)
					m.rel(p)
					return f(m, fr, p, a[1:])
				})
			}
			at("Load", func(m *Machine, fr *frame, p *Value, a []Value) Value { return *p })
			at("Store", func(m *Machine, fr *frame, p *Value, a []Value) Value { m.set(p, a[0]); return nil })
			at("Add", func(m *Machine, fr *frame, p *Value, a []Value) Value {
				n := mkInt(ii.norm((*p).(int64) + a[0].(int64)))
				m.set(p, n)
				return n
			})
			at("Swap", func(m *Machine, fr *frame, p *Value, a []Value) Value { o := *p; m.set(p, a[0]); return o })
			at("CompareAndSwap", func(m *Machine, fr *frame, p *Value, a []Value) Value {
				if (*p).(int64) == a[0].(int64) {
					m.set(p, a[1])
					return true
				}
				return false
			})
		}
	}
	lastLeaf := func(m *Machine, fr *frame, v Value) *Value {
		p := v.(*Value)
		if p == nil {
			panic(m.nilDeref(fr))
		}
		l := leaves(p, nil)
		return l[len(l)-1]
	}
	// atomic.Value holds an interface, atomic.Pointer an unsafe pointer
	reg("(*sync/atomic.Value).Load", func(m *Machine, fr *frame, a []Value) Value {
		p := lastLeaf(m, fr, a[0])
		m.yield()
		m.acq(p)
		return *p
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, fr *frame, a []Value) Value {
		p := lastLeaf(m, fr, a[0])
		m.yield()
		m.rel(p)
		m.set(p, a[1])
		return nil
	})
	reg("(*sync/atomic.Pointer[T]).Load", func(m *Machine, fr *frame, a []Value) Value {
		p := lastLeaf(m, fr, a[0])
		m.yield()
		m.acq(p)
		if u, ok := (*p).(UPtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
		return *p
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(m *Machine, fr *frame, a []Value) Value {
		p := lastLeaf(m, fr, a[0])
		m.yield()
		m.rel(p)
		m.set(p, UPtr{v: a[1]})
		return nil
	})
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(m *Machine, fr *frame, a []Value) Value {
		p := lastLeaf(m, fr, a[0])
		m.yield()
		m.acq(p)
		m.rel(p)
		cur := Value((*Value)(nil))
		if u, ok := (*p).(UPtr); ok && u.v != nil {
			cur = u.v
		}
		if cur != a[1] {
			return false
		}
		m.set(p, UPtr{v: a[2]})
		return true
	})

	// ---- math
	reg("math.Float64bits", func(m *Machine, fr *frame, a []Value) Value {
		return mkInt(int64(math.Float64bits(a[0].(float64))))
	})
	reg("math.Float32bits", func(m *Machine, fr *frame, a []Value) Value {
		return mkInt(int64(math.Float32bits(a[0].(float32))))
	})
	reg("math.Float64frombits", func(m *Machine, fr *frame, a []Value) Value {
		return math.Float64frombits(uint64(m.concInt(a[0], intInfo{64, false})))
	})
	reg("math.Float32frombits", func(m *Machine, fr *frame, a []Value) Value {
		return math.Float32frombits(uint32(m.concInt(a[0], intInfo{32, false})))
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs} {
		f := f
		reg("math."+n, func(m *Machine, fr *frame, a []Value) Value { return f(a[0].(float64)) })
	}

	// ---- sort (reflection based swapping)
	reg("sort.Slice", func(m *Machine, fr *frame, a []Value) Value { m.sortSlice(fr, a[0], a[1]); return nil })
	reg("sort.SliceStable", func(m *Machine, fr *frame, a []Value) Value { m.sortSlice(fr, a[0], a[1]); return nil })

	// ---- fmt
	reg("fmt.Sprintf", func(m *Machine, fr *frame, a []Value) Value { return m.sprintf(fr, a[0], a[1].(Slice), nil) })
	reg("fmt.Errorf", func(m *Machine, fr *frame, a []Value) Value {
		var wrapped []Value
		text := m.sprintf(fr, a[0], a[1].(Slice), &wrapped)
		if len(wrapped) > 0 {
			sp := m.P.byPath["fmt"]
			if t := sp.Type("wrapError"); t != nil && len(wrapped) == 1 {
				v := new(Value)
				*v = Struct{text, wrapped[0]}
				return Iface{m.rtype(types.NewPointer(t.Type())), v}
			}
		}
		return m.newErr(text)
	})
	reg("fmt.Sprint", func(m *Machine, fr *frame, a []Value) Value { return m.sprint(fr, a[0].(Slice), false) })
	reg("fmt.Sprintln", func(m *Machine, fr *frame, a []Value) Value { return m.sprint(fr, a[0].(Slice), true) })
	wr := func(m *Machine, fr *frame, w Value, text Value) Value {
		n := strLen(text)
		s := make(Slice, n)
		copy(s, strBytes(text))
		f, recv := m.invokeTarget(fr, w, "Write", nil, "Write")
		r := m.call(fr, f, []Value{recv, s}, nil).(Tuple)
		return r
	}
	reg("fmt.Fprintf", func(m *Machine, fr *frame, a []Value) Value {
		return wr(m, fr, a[0], m.sprintf(fr, a[1], a[2].(Slice), nil))
	})
	reg("fmt.Fprint", func(m *Machine, fr *frame, a []Value) Value {
		return wr(m, fr, a[0], m.sprint(fr, a[1].(Slice), false))
	})
	reg("fmt.Fprintln", func(m *Machine, fr *frame, a []Value) Value { return wr(m, fr, a[0], m.sprint(fr, a[1].(Slice), true)) })
	none := func(m *Machine, fr *frame, a []Value) Value { return Tuple{mkInt(0), Iface{}} }
	reg("fmt.Printf", none)
	reg("fmt.Println", none)
	reg("fmt.Print", none)

	// Hashing should only spread entries over buckets, so a constant keeps every observable result. Where the code
	// takes equal hash codes for equal values this leads to counterexamples that the real code does not show; the
	// harness is then explored once more with the hash codes as they are.
	zeroHash := func(m *Machine, fr *frame, a []Value) Value { m.hashes++; return mkInt(0) }
	for n := range hashFuncs {
		reg(n, zeroHash)
	}

	// ---- native fast paths
	fast := func(n string, f any) {
		fv := reflect.ValueOf(f)
		ft := fv.Type()
		fastFuncs[n] = func(m *Machine, args []Value) (Value, bool) {
			in := make([]reflect.Value, len(args))
			for i, a := range args {
				v, ok := hostArg(a, ft.In(i))
				if !ok {
					return nil, false
				}
				in[i] = v
			}
			var out []reflect.Value
			if ft.IsVariadic() {
				out = fv.CallSlice(in)
			} else {
				out = fv.Call(in)
			}
			if len(out) > 0 && ft.Out(len(out)-1).String() == "error" {
				if !out[len(out)-1].IsNil() {
					return nil, false
				}
			}
			if len(out) == 1 {
				return hostRes(out[0]), true
			}
			t := make(Tuple, len(out))
			for i := range out {
				t[i] = hostRes(out[i])
			}
			return t, true
		}
	}
	for n, f := range map[string]any{
		"strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.IndexRune": strings.IndexRune,
		"strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.Split": strings.Split,
		"strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat,
		"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.ToLower": strings.ToLower,
		"strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
		"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix,
		"strings.TrimSuffix": strings.TrimSuffix, "strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count,
		"strings.Title": strings.Title, "strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte,
		"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.Quote": strconv.Quote,
		"strconv.ParseInt": strconv.ParseInt, "strconv.Atoi": strconv.Atoi, "strconv.ParseFloat": strconv.ParseFloat,
		"strconv.FormatFloat": strconv.FormatFloat, "strconv.ParseBool": strconv.ParseBool, "strconv.Unquote": strconv.Unquote,
		"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower,
		"unicode.ToUpper": unicode.ToUpper, "unicode.IsPrint": unicode.IsPrint, "unicode.SimpleFold": unicode.SimpleFold,
		"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
		"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
		"path/filepath.Join": filepath.Join, "path/filepath.Clean": filepath.Clean, "path/filepath.Dir": filepath.Dir,
		"path/filepath.Base": filepath.Base, "path/filepath.Ext": filepath.Ext, "path/filepath.IsAbs": filepath.IsAbs,
		"path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash, "path/filepath.SplitList": filepath.SplitList,
		"path.Join": path.Join, "path.Clean": path.Clean, "path.Dir": path.Dir, "path.Base": path.Base, "path.Ext": path.Ext,
	} {
		fast(n, f)
	}
	for _, n := range []string{"strings.Index", "strings.IndexByte"} {
		// these also have a symbolic version
		f, sym := fastFuncs[n], intrinsics[n]
		delete(fastFuncs, n)
		intrinsics[n] = func(m *Machine, fr *frame, a []Value) Value {
			if r, ok := f(m, a); ok {
				return r
			}
			return sym(m, fr, a)
		}
	}
}

func callerName(fr *frame) string {
	if fr == nil {
		return "goroutine"
	}
	return fr.fn.name
}

func hostArg(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s), ok
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Int, reflect.Int64, reflect.Int32:
		n, ok := v.(int64)
		return reflect.ValueOf(n).Convert(t), ok
	case reflect.Uint8, reflect.Uint64, reflect.Uint32:
		n, ok := v.(int64)
		return reflect.ValueOf(uint64(n)).Convert(t), ok
	case reflect.Float64:
		f, ok := v.(float64)
		return reflect.ValueOf(f), ok
	case reflect.Slice:
		sl, ok := v.(Slice)
		if !ok || t.Elem().Kind() != reflect.String {
			return reflect.Value{}, false
		}
		r := make([]string, len(sl))
		for i, e := range sl {
			s, ok := e.(string)
			if !ok {
				return reflect.Value{}, false
			}
			r[i] = s
		}
		return reflect.ValueOf(r), true
	}
	return reflect.Value{}, false
}

func hostRes(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return mkInt(v.Int())
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, v.Len())
		for i := range s {
			s[i] = v.Index(i).String()
		}
		return s
	case reflect.Interface: // a nil error
		return Iface{}
	}
	panic(engineErr("host result %v", v.Kind()))
}

// symByte makes a byte restricted to an alphabet; an empty alphabet means any byte.
func (m *Machine) symByte(al string, rec bool) Value {
	lo, hi := uint64(0), uint64(255)
	set := map[byte]bool{}
	if al != "" {
		lo, hi = 255, 0
		for i := 0; i < len(al); i++ {
			set[al[i]] = true
			lo, hi = min(lo, uint64(al[i])), max(hi, uint64(al[i]))
		}
	}
	if lo == hi {
		m.symInput("byte", m.tc.BV(lo, 8))
		return mkInt(int64(lo))
	}
	t := m.freshVar("c", 8, lo, hi)
	m.symInput("byte", t)
	if al != "" && len(set) < int(hi-lo+1) {
		var r = m.tc.False
		for c := int(lo); c <= int(hi); {
			if !set[byte(c)] {
				c++
				continue
			}
			e := c
			for e+1 <= int(hi) && set[byte(e+1)] {
				e++
			}
			r = m.tc.Or(r, m.tc.And(m.tc.Cmp(OpUle, m.tc.BV(uint64(c), 8), t), m.tc.Cmp(OpUle, t, m.tc.BV(uint64(e), 8))))
			c = e + 1
		}
		m.pc = append(m.pc, r)
	}
	return t
}

func (m *Machine) sortSlice(fr *frame, sl Value, less Value) {
	s := sl.(Iface).v.(Slice)
	// insertion sort: stable, and valid for any less function
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !m.decide(m.callValue(fr, less, []Value{mkInt(int64(j)), mkInt(int64(j - 1))}, nil)) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			m.store(&s[j], b)
			m.store(&s[j-1], a)
		}
	}
}

// ---- fmt

func (m *Machine) sprint(fr *frame, args Slice, ln bool) Value {
	var r Value = ""
	for i, a := range args {
		if i > 0 {
			_, s1 := strVal(args[i-1])
			_, s2 := strVal(a)
			if ln || !s1 && !s2 {
				r = strCat(r, " ")
			}
		}
		r = strCat(r, m.fmtArg(fr, 'v', "%v", a, 0))
	}
	if ln {
		r = strCat(r, "\n")
	}
	return r
}

func strVal(a Value) (Value, bool) {
	i, ok := a.(Iface)
	if !ok || i.t == nil {
		return nil, false
	}
	switch i.v.(type) {
	case string, *SStr:
		return i.v, true
	}
	return nil, false
}

func (m *Machine) sprintf(fr *frame, format Value, args Slice, wrapped *[]Value) Value {
	f := m.hostStr(format)
	var r Value = ""
	an := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = strCat(r, f[i:])
			break
		}
		r = strCat(r, f[i:i+j])
		i += j
		e := i + 1
		verb := "%"
		for e < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[e]) >= 0 {
			if f[e] == '*' && an < len(args) {
				verb += fmt.Sprint(m.concInt(args[an].(Iface).v, i64))
				an++
			} else {
				verb += string(f[e])
			}
			e++
		}
		if e >= len(f) {
			r = strCat(r, "%!(NOVERB)")
			break
		}
		c, sz := utf8.DecodeRuneInString(f[e:])
		i = e + sz
		if c == '%' {
			r = strCat(r, "%")
			continue
		}
		if an >= len(args) {
			r = strCat(r, "%!"+string(c)+"(MISSING)")
			continue
		}
		a := args[an]
		an++
		if c == 'w' {
			if wrapped != nil {
				*wrapped = append(*wrapped, a)
			}
			c = 'v'
		}
		r = strCat(r, m.fmtArg(fr, c, verb+string(c), a, 0))
	}
	if an < len(args) {
		r = strCat(r, "%!(EXTRA ")
		for k, a := range args[an:] {
			if k > 0 {
				r = strCat(r, ", ")
			}
			if i := a.(Iface); i.t != nil {
				r = strCat(r, i.t.str+"=")
			}
			r = strCat(r, m.fmtArg(fr, 'v', "%v", a, 0))
		}
		r = strCat(r, ")")
	}
	return r
}

func (m *Machine) fmtArg(fr *frame, c rune, verb string, a Value, depth int) Value {
	i, ok := a.(Iface)
	if !ok {
		panic(engineErr("fmt argument %T", a))
	}
	if c == 'T' {
		if i.t == nil {
			return "<nil>"
		}
		return i.t.str
	}
	if c == 'p' {
		return fmt.Sprintf("%#x", m.ptrID(i.v))
	}
	if i.t == nil {
		if c == 'v' || c == 's' {
			if c == 's' {
				return "%!s(<nil>)"
			}
			return fmt.Sprintf(verb, nil)
		}
		return "%!" + string(c) + "(<nil>)"
	}
	sharp := strings.Contains(verb, "#")
	if !sharp && strings.ContainsRune("vsxXq", c) {
		for _, mn := range []string{"Error", "String"} {
			f := m.method(i.t, mn, nil, mn)
			if f == nil || f.fn.Signature.Params().Len() != 0 || f.fn.Signature.Results().Len() != 1 {
				continue
			}
			if b := basicOf(f.fn.Signature.Results().At(0).Type()); b == nil || b.Kind() != types.String {
				continue
			}
			// a panic of the method on a nil receiver prints <nil>
			if p, ok := i.v.(*Value); ok && p == nil {
				return "<nil>"
			}
			s := m.call(fr, f, []Value{copyVal(i.v)}, nil)
			return m.fmtStr(fr, c, verb, s)
		}
	}
	return m.fmtRaw(fr, c, verb, i.t, i.v, depth)
}

func (m *Machine) fmtStr(fr *frame, c rune, verb string, s Value) Value {
	if h, ok := s.(string); ok {
		return fmt.Sprintf(verb, h)
	}
	switch {
	case verb == "%s" || verb == "%v":
		return s
	case c == 'q':
		return m.call(fr, m.fn(m.P.funcByName("strconv", "Quote")), []Value{s}, nil)
	}
	panic(unsupported("fmt %s of a symbolic string", verb))
}

func (m *Machine) fmtRaw(fr *frame, c rune, verb string, t *RType, v Value, depth int) Value {
	if depth > 8 {
		return "..."
	}
	switch u := t.T.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case string, *SStr:
			if strings.Contains(verb, "#") {
				if h, ok := x.(string); ok {
					return fmt.Sprintf(verb, h)
				}
				return m.fmtStr(fr, 'q', "%q", v)
			}
			return m.fmtStr(fr, c, verb, v)
		case bool:
			return fmt.Sprintf(verb, x)
		case float64:
			return fmt.Sprintf(verb, x)
		case float32:
			return fmt.Sprintf(verb, x)
		case *Term:
			if x.w == 0 {
				return fmt.Sprintf(verb, m.decide(x))
			}
			ii, _ := intOf(t.T)
			if verb == "%d" || verb == "%v" {
				y := m.fromTerm(m.tc.Ext(x, 64, ii.signed), i64)
				if ii.signed {
					return m.call(fr, m.fn(m.P.funcByName("strconv", "FormatInt")), []Value{y, mkInt(10)}, nil)
				}
				return m.call(fr, m.fn(m.P.funcByName("strconv", "FormatUint")), []Value{y, mkInt(10)}, nil)
			}
			if c == 'c' {
				return m.encodeRune(fr, x, ii)
			}
			return fmt.Sprintf(verb, m.concInt(x, ii))
		case int64:
			if u.Info()&types.IsUnsigned != 0 {
				return fmt.Sprintf(verb, uint64(x))
			}
			if u.Kind() == types.Int32 {
				return fmt.Sprintf(verb, int32(x))
			}
			return fmt.Sprintf(verb, x)
		}
	case *types.Slice, *types.Array:
		var et types.Type
		var el []Value
		if s, ok := u.(*types.Slice); ok {
			et, el = s.Elem(), v.(Slice)
		} else {
			et, el = u.(*types.Array).Elem(), v.(Array)
		}
		if b := basicOf(et); b != nil && b.Kind() == types.Uint8 && (c == 's' || c == 'x' || c == 'q') {
			return m.fmtStr(fr, c, verb, mkStr(append([]Value(nil), el...)))
		}
		var r Value = "["
		for k, e := range el {
			if k > 0 {
				r = strCat(r, " ")
			}
			r = strCat(r, m.fmtElem(fr, c, verb, et, e, depth))
		}
		return strCat(r, "]")
	case *types.Map:
		o := v.(*MapObj)
		var r Value = "map["
		if o != nil {
			type kv struct {
				s string
				e mapEntry
			}
			var es []kv
			for _, e := range o.ents {
				if !e.deleted {
					es = append(es, kv{m.lossy(m.fmtElem(fr, c, verb, u.Key(), e.k, depth)), e})
				}
			}
			sort.SliceStable(es, func(i, j int) bool { return es[i].s < es[j].s })
			for k, e := range es {
				if k > 0 {
					r = strCat(r, " ")
				}
				r = strCat(strCat(strCat(r, m.fmtElem(fr, c, verb, u.Key(), e.e.k, depth)), ":"), m.fmtElem(fr, c, verb, u.Elem(), e.e.v, depth))
			}
		}
		return strCat(r, "]")
	case *types.Struct:
		var r Value = "{"
		for k, e := range v.(Struct) {
			if k > 0 {
				r = strCat(r, " ")
			}
			r = strCat(r, m.fmtElem(fr, c, verb, u.Field(k).Type(), e, depth))
		}
		return strCat(r, "}")
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Map, *types.Array:
				return strCat("&", m.fmtRaw(fr, c, verb, m.rtype(u.Elem()), *p, depth+1))
			}
		}
		return fmt.Sprintf("%#x", m.ptrID(p))
	case *types.Signature, *types.Chan:
		return "0xc000012345"
	}
	panic(unsupported("fmt %s of %s", verb, t.str))
}

func (m *Machine) fmtElem(fr *frame, c rune, verb string, t types.Type, v Value, depth int) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if v.(Iface).t == nil {
			return "<nil>"
		}
		return m.fmtArg(fr, c, verb, v, depth+1)
	}
	return m.fmtArg(fr, c, verb, Iface{m.rtype(t), v}, depth+1)
}

// hashFuncs are the functions that compute hash codes.
var hashFuncs = map[string]bool{
	"github.com/lyraproj/dgo/util.StringHash":            true,
	"(github.com/lyraproj/dgo/internal.intVal).HashCode": true,
}
