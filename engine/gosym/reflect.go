package gosym

import (
	"go/types"
	"reflect"
)

// RV is the host side of a reflect.Value.
type RV struct {
	t    *RType
	v    Value  // when not addressable
	addr *Value // when addressable
	ro   bool
}

func (r *RV) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func mkRV(r *RV) Value { return Struct{r, UPtr{}, mkInt(0)} }

var invalidRV = Struct{(*Value)(nil), UPtr{}, mkInt(0)}

func rvOf(v Value) *RV {
	if p, ok := v.(*Value); ok {
		v = *p
	}
	s, ok := v.(Struct)
	if !ok {
		panic(engineErr("reflect.Value is %T", v))
	}
	r, _ := s[0].(*RV)
	return r
}

func (m *Machine) rtIface(t *RType) Value { return Iface{m.rtypeRT(), t} }

func (m *Machine) rtypeRT() *RType {
	sp := m.P.byPath["reflect"]
	return m.rtype(types.NewPointer(sp.Type("rtype").Type()))
}

func rtOf(v Value) *RType {
	switch v := v.(type) {
	case Iface:
		r, _ := v.v.(*RType)
		return r
	case *RType:
		return v
	}
	panic(engineErr("reflect.Type is %T", v))
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	panic(engineErr("kind of %v", t))
}

func (r *RType) kind() reflect.Kind { return kindOf(r.T) }

func (m *Machine) elemOf(r *RType) *RType {
	switch u := r.T.Underlying().(type) {
	case *types.Pointer:
		return m.rtype(u.Elem())
	case *types.Slice:
		return m.rtype(u.Elem())
	case *types.Array:
		return m.rtype(u.Elem())
	case *types.Map:
		return m.rtype(u.Elem())
	case *types.Chan:
		return m.rtype(u.Elem())
	}
	panic(m.rtErrT(nil, "reflect: Elem of invalid type "+r.str, true))
}

func (m *Machine) rvPanic(fr *frame, msg string) *targetPanic {
	return m.rtErrT(fr, "reflect: "+msg, true)
}

// toIface packs a reflect value into an interface.
func (m *Machine) toIface(r *RV) Value {
	v := r.get()
	if i, ok := v.(Iface); ok {
		if _, isI := r.t.T.Underlying().(*types.Interface); isI {
			return i
		}
	}
	return Iface{r.t, copyVal(v)}
}

// assignTo converts the reflect value for assignment to a location of type t.
func (m *Machine) assignTo(fr *frame, r *RV, t *RType) Value {
	_, dstI := t.T.Underlying().(*types.Interface)
	if r.t == t || !dstI {
		return copyVal(r.get())
	}
	i := m.toIface(r).(Iface)
	return i
}

func init() {
	reg := func(n string, f Intrinsic) { intrinsics[n] = f }
	reg("reflect.ValueOf", func(m *Machine, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return copyVal(invalidRV)
		}
		return mkRV(&RV{t: i.t, v: i.v})
	})
	reg("reflect.TypeOf", func(m *Machine, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return m.rtIface(i.t)
	})
	reg("reflect.TypeFor", func(m *Machine, fr *frame, a []Value) Value { panic(unsupported("reflect.TypeFor")) })
	reg("reflect.New", func(m *Machine, fr *frame, a []Value) Value {
		t := rtOf(a[0])
		v := new(Value)
		*v = m.zero(t.T)
		return mkRV(&RV{t: m.rtype(types.NewPointer(t.T)), v: v})
	})
	reg("reflect.Zero", func(m *Machine, fr *frame, a []Value) Value {
		t := rtOf(a[0])
		return mkRV(&RV{t: t, v: m.zero(t.T)})
	})
	reg("reflect.SliceOf", func(m *Machine, fr *frame, a []Value) Value {
		return m.rtIface(m.rtype(types.NewSlice(rtOf(a[0]).T)))
	})
	reg("reflect.MapOf", func(m *Machine, fr *frame, a []Value) Value {
		return m.rtIface(m.rtype(types.NewMap(rtOf(a[0]).T, rtOf(a[1]).T)))
	})
	reg("reflect.PtrTo", func(m *Machine, fr *frame, a []Value) Value {
		return m.rtIface(m.rtype(types.NewPointer(rtOf(a[0]).T)))
	})
	intrinsics["reflect.PointerTo"] = intrinsics["reflect.PtrTo"]
	reg("reflect.MakeSlice", func(m *Machine, fr *frame, a []Value) Value {
		t := rtOf(a[0])
		n, c := int(a[1].(int64)), int(a[2].(int64))
		s := make(Slice, c)
		fillZero(s, m.zero(t.T.Underlying().(*types.Slice).Elem()))
		return mkRV(&RV{t: t, v: s[:n]})
	})
	reg("reflect.MakeMapWithSize", func(m *Machine, fr *frame, a []Value) Value {
		return mkRV(&RV{t: rtOf(a[0]), v: m.newMap()})
	})
	reg("reflect.MakeMap", func(m *Machine, fr *frame, a []Value) Value {
		return mkRV(&RV{t: rtOf(a[0]), v: m.newMap()})
	})
	reg("reflect.DeepEqual", func(m *Machine, fr *frame, a []Value) Value {
		return m.boolVal(m.deepEq(fr, a[0], a[1], 0))
	})
	reg("reflect.Indirect", func(m *Machine, fr *frame, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || r.t.kind() != reflect.Pointer {
			return a[0]
		}
		p := r.get().(*Value)
		if p == nil {
			return copyVal(invalidRV)
		}
		return mkRV(&RV{t: m.elemOf(r.t), addr: p})
	})
	reg("reflect.Append", func(m *Machine, fr *frame, a []Value) Value {
		r := rvOf(a[0])
		et := r.t.T.Underlying().(*types.Slice).Elem()
		var more []Value
		for _, x := range a[1].(Slice) {
			more = append(more, m.assignTo(fr, rvOf(x), m.rtype(et)))
		}
		return mkRV(&RV{t: r.t, v: m.appendSlice(fr, r.get().(Slice), more, et)})
	})

	// ---- methods of reflect.Value
	vm := func(n string, f func(m *Machine, fr *frame, r *RV, a []Value) Value) {
		reg("(reflect.Value)."+n, func(m *Machine, fr *frame, a []Value) Value {
			r := rvOf(a[0])
			if r == nil {
				switch n {
				case "IsValid":
					return false
				case "Kind":
					return mkInt(0)
				case "String":
					return "<invalid Value>"
				case "CanInterface", "CanAddr", "CanSet":
					return false
				}
				panic(m.rvPanic(fr, "call of reflect.Value."+n+" on zero Value"))
			}
			return f(m, fr, r, a[1:])
		})
		reg("(*reflect.Value)."+n, intrinsics["(reflect.Value)."+n])
	}
	vm("IsValid", func(m *Machine, fr *frame, r *RV, a []Value) Value { return true })
	vm("Kind", func(m *Machine, fr *frame, r *RV, a []Value) Value { return mkInt(int64(r.t.kind())) })
	vm("Type", func(m *Machine, fr *frame, r *RV, a []Value) Value { return m.rtIface(r.t) })
	vm("CanInterface", func(m *Machine, fr *frame, r *RV, a []Value) Value { return !r.ro })
	vm("CanAddr", func(m *Machine, fr *frame, r *RV, a []Value) Value { return r.addr != nil })
	vm("CanSet", func(m *Machine, fr *frame, r *RV, a []Value) Value { return r.addr != nil && !r.ro })
	vm("Interface", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		if r.ro {
			panic(m.rvPanic(fr, "reflect.Value.Interface: cannot return value obtained from unexported field or method"))
		}
		return m.toIface(r)
	})
	vm("Addr", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		if r.addr == nil {
			panic(m.rvPanic(fr, "reflect.Value.Addr of unaddressable value"))
		}
		return mkRV(&RV{t: m.rtype(types.NewPointer(r.t.T)), v: r.addr})
	})
	vm("Elem", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		switch v := r.get().(type) {
		case Iface:
			if v.t == nil {
				return copyVal(invalidRV)
			}
			return mkRV(&RV{t: v.t, v: v.v, ro: r.ro})
		case *Value:
			if v == nil {
				return copyVal(invalidRV)
			}
			return mkRV(&RV{t: m.elemOf(r.t), addr: v, ro: r.ro})
		}
		panic(m.rvPanic(fr, "call of reflect.Value.Elem on "+r.t.kind().String()+" Value"))
	})
	vm("IsNil", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		switch v := r.get().(type) {
		case Iface:
			return v.t == nil
		case *Value:
			return v == nil
		case Slice:
			return v == nil
		case *MapObj:
			return v == nil
		case *Closure:
			return v == nil
		case *Chan:
			return v == nil
		}
		panic(m.rvPanic(fr, "call of reflect.Value.IsNil on "+r.t.kind().String()+" Value"))
	})
	vm("Len", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		switch v := r.get().(type) {
		case Slice:
			return mkInt(int64(len(v)))
		case Array:
			return mkInt(int64(len(v)))
		case *MapObj:
			if v == nil {
				return mkInt(0)
			}
			return mkInt(int64(v.n))
		case string, *SStr:
			return mkInt(int64(strLen(v)))
		}
		panic(m.rvPanic(fr, "call of reflect.Value.Len on "+r.t.kind().String()+" Value"))
	})
	vm("Index", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		i := m.concInt(a[0], intInfo{64, true})
		switch v := r.get().(type) {
		case Slice:
			if i < 0 || i >= int64(len(v)) {
				panic(m.rvPanic(fr, "slice index out of range"))
			}
			return mkRV(&RV{t: m.elemOf(r.t), addr: &v[i], ro: r.ro})
		case Array:
			if i < 0 || i >= int64(len(v)) {
				panic(m.rvPanic(fr, "array index out of range"))
			}
			n := &RV{t: m.elemOf(r.t), ro: r.ro}
			if r.addr != nil {
				n.addr = &v[i]
			} else {
				n.v = v[i]
			}
			return mkRV(n)
		case string, *SStr:
			return mkRV(&RV{t: m.rtype(types.Typ[types.Uint8]), v: strAt(v, int(i))})
		}
		panic(m.rvPanic(fr, "call of reflect.Value.Index on "+r.t.kind().String()+" Value"))
	})
	vm("NumField", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		return mkInt(int64(r.t.T.Underlying().(*types.Struct).NumFields()))
	})
	vm("Field", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		st := r.t.T.Underlying().(*types.Struct)
		i := int(a[0].(int64))
		s := r.get().(Struct)
		f := st.Field(i)
		n := &RV{t: m.rtype(f.Type()), ro: r.ro || !f.Exported()}
		if r.addr != nil {
			n.addr = &s[i]
		} else {
			n.v = s[i]
		}
		return mkRV(n)
	})
	vm("FieldByName", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		st := r.t.T.Underlying().(*types.Struct)
		name := m.hostStr(a[0])
		s := r.get().(Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() == name {
				n := &RV{t: m.rtype(f.Type()), ro: r.ro || !f.Exported()}
				if r.addr != nil {
					n.addr = &s[i]
				} else {
					n.v = s[i]
				}
				return mkRV(n)
			}
		}
		return copyVal(invalidRV)
	})
	vm("Bool", func(m *Machine, fr *frame, r *RV, a []Value) Value { return r.get() })
	toInt := func(m *Machine, fr *frame, r *RV, a []Value) Value {
		ii, ok := intOf(r.t.T)
		if !ok {
			panic(m.rvPanic(fr, "call of reflect.Value.Int on "+r.t.kind().String()+" Value"))
		}
		switch v := r.get().(type) {
		case *Term:
			return m.fromTerm(m.tc.Ext(v, 64, ii.signed), intInfo{64, ii.signed})
		default:
			return v
		}
	}
	vm("Int", toInt)
	vm("Uint", toInt)
	vm("Float", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		if f, ok := r.get().(float32); ok {
			return float64(f)
		}
		return r.get()
	})
	vm("String", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		switch v := r.get().(type) {
		case string, *SStr:
			return v
		}
		return "<" + r.t.str + " Value>"
	})
	vm("Bytes", func(m *Machine, fr *frame, r *RV, a []Value) Value { return r.get() })
	vm("Pointer", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		var k any
		switch v := r.get().(type) {
		case *Closure:
			if v == nil {
				return mkInt(0)
			}
			// the code pointer: the same for all closures of one function
			k = v.fn
			if v.fn == nil {
				k = v
			}
		case *Value:
			if v == nil {
				return mkInt(0)
			}
			k = v
		case *MapObj:
			if v == nil {
				return mkInt(0)
			}
			k = v
		case Slice:
			if cap(v) == 0 {
				return mkInt(0)
			}
			k = &v[:1][0]
		default:
			panic(unsupported("reflect.Value.Pointer of %T", v))
		}
		return mkInt(m.ptrID(k))
	})
	intrinsics["(reflect.Value).UnsafePointer"] = intrinsics["(reflect.Value).Pointer"]
	vm("Set", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		if r.addr == nil || r.ro {
			panic(m.rvPanic(fr, "reflect.Value.Set using unaddressable value"))
		}
		m.store(r.addr, m.assignTo(fr, rvOf(a[0]), r.t))
		return nil
	})
	set := func(m *Machine, fr *frame, r *RV, a []Value) Value {
		if r.addr == nil || r.ro {
			panic(m.rvPanic(fr, "reflect.Value.Set using unaddressable value"))
		}
		v := a[0]
		if ii, ok := intOf(r.t.T); ok {
			switch x := v.(type) {
			case int64:
				v = mkInt(ii.norm(x))
			case *Term:
				v = m.fromTerm(m.tc.Ext(x, ii.w, true), ii)
			}
		}
		if r.t.kind() == reflect.Float32 {
			v = float32(v.(float64))
		}
		m.store(r.addr, v)
		return nil
	}
	for _, n := range []string{"SetInt", "SetUint", "SetBool", "SetString", "SetFloat", "SetBytes"} {
		vm(n, set)
	}
	vm("OverflowInt", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		ii, _ := intOf(r.t.T)
		x := m.concInt(a[0], intInfo{64, true})
		return ii.norm(x) != x
	})
	vm("OverflowUint", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		ii, _ := intOf(r.t.T)
		x := m.concInt(a[0], intInfo{64, false})
		return ii.norm(x) != x
	})
	vm("OverflowFloat", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		if r.t.kind() == reflect.Float32 {
			return reflect.New(reflect.TypeOf(float32(0))).Elem().OverflowFloat(a[0].(float64))
		}
		return false
	})
	vm("MapKeys", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		o := r.get().(*MapObj)
		kt := m.rtype(r.t.T.Underlying().(*types.Map).Key())
		s := Slice{}
		if o != nil {
			for _, e := range o.ents {
				if !e.deleted {
					s = append(s, mkRV(&RV{t: kt, v: copyVal(e.k)}))
				}
			}
		}
		return s
	})
	vm("MapIndex", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		mt := r.t.T.Underlying().(*types.Map)
		v, ok := m.mapGet(fr, r.get().(*MapObj), m.assignTo(fr, rvOf(a[0]), m.rtype(mt.Key())))
		if !ok {
			return copyVal(invalidRV)
		}
		return mkRV(&RV{t: m.rtype(mt.Elem()), v: copyVal(v)})
	})
	vm("SetMapIndex", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		mt := r.t.T.Underlying().(*types.Map)
		k := m.assignTo(fr, rvOf(a[0]), m.rtype(mt.Key()))
		e := rvOf(a[1])
		if e == nil {
			m.mapDelete(fr, r.get().(*MapObj), k)
			return nil
		}
		m.mapSet(fr, r.get().(*MapObj), k, m.assignTo(fr, e, m.rtype(mt.Elem())))
		return nil
	})
	vm("Slice", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		l, h := a[0].(int64), a[1].(int64)
		switch v := r.get().(type) {
		case Slice:
			return mkRV(&RV{t: r.t, v: m.doSlice(fr, v, l, h, 0, true, false)})
		case string, *SStr:
			return mkRV(&RV{t: r.t, v: strSlice(v, int(l), int(h))})
		}
		panic(unsupported("reflect.Value.Slice"))
	})
	vm("IsZero", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		return m.boolVal(m.eq(fr, r.get(), m.zero(r.t.T)))
	})
	vm("Call", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		return m.reflectCall(fr, r, a[0].(Slice), false)
	})
	vm("CallSlice", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		return m.reflectCall(fr, r, a[0].(Slice), true)
	})
	vm("NumMethod", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		return mkInt(int64(len(m.methodsOf(r.t))))
	})
	vm("MethodByName", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		f := m.method(r.t, m.hostStr(a[0]), nil, m.hostStr(a[0]))
		if f == nil {
			return copyVal(invalidRV)
		}
		sig := f.fn.Signature
		nt := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		recv := copyVal(r.get())
		return mkRV(&RV{t: m.rtype(nt), v: &Closure{host: func(m *Machine, args []Value) Value {
			return m.call(nil, f, append([]Value{recv}, args...), nil)
		}, typ: nt}})
	})
	vm("Convert", func(m *Machine, fr *frame, r *RV, a []Value) Value {
		t := rtOf(a[0])
		if _, ok := t.T.Underlying().(*types.Interface); ok {
			return mkRV(&RV{t: t, v: m.toIface(r)})
		}
		return mkRV(&RV{t: t, v: m.convFn(r.t.T, t.T)(fr, r.get())})
	})

	// ---- methods of *reflect.rtype
	tm := func(n string, f func(m *Machine, fr *frame, t *RType, a []Value) Value) {
		reg("(*reflect.rtype)."+n, func(m *Machine, fr *frame, a []Value) Value { return f(m, fr, rtOf(a[0]), a[1:]) })
	}
	tm("Kind", func(m *Machine, fr *frame, t *RType, a []Value) Value { return mkInt(int64(t.kind())) })
	tm("String", func(m *Machine, fr *frame, t *RType, a []Value) Value { return t.str })
	tm("Name", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		switch x := t.T.(type) {
		case *types.Named:
			return x.Obj().Name()
		case *types.Basic:
			return x.Name()
		}
		return ""
	})
	tm("PkgPath", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		if x, ok := t.T.(*types.Named); ok && x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Path()
		}
		return ""
	})
	tm("Elem", func(m *Machine, fr *frame, t *RType, a []Value) Value { return m.rtIface(m.elemOf(t)) })
	tm("Key", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return m.rtIface(m.rtype(t.T.Underlying().(*types.Map).Key()))
	})
	tm("NumIn", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return mkInt(int64(t.T.Underlying().(*types.Signature).Params().Len()))
	})
	tm("NumOut", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return mkInt(int64(t.T.Underlying().(*types.Signature).Results().Len()))
	})
	tm("In", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return m.rtIface(m.rtype(t.T.Underlying().(*types.Signature).Params().At(int(a[0].(int64))).Type()))
	})
	tm("Out", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return m.rtIface(m.rtype(t.T.Underlying().(*types.Signature).Results().At(int(a[0].(int64))).Type()))
	})
	tm("IsVariadic", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return t.T.Underlying().(*types.Signature).Variadic()
	})
	tm("NumField", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return mkInt(int64(t.T.Underlying().(*types.Struct).NumFields()))
	})
	tm("Field", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		st := t.T.Underlying().(*types.Struct)
		i := int(a[0].(int64))
		f := st.Field(i)
		path := ""
		if !f.Exported() && f.Pkg() != nil {
			path = f.Pkg().Path()
		}
		return Struct{f.Name(), path, m.rtIface(m.rtype(f.Type())), st.Tag(i), mkInt(0), Slice{mkInt(int64(i))}, f.Embedded()}
	})
	tm("NumMethod", func(m *Machine, fr *frame, t *RType, a []Value) Value { return mkInt(int64(len(m.methodsOf(t)))) })
	tm("Len", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return mkInt(t.T.Underlying().(*types.Array).Len())
	})
	tm("Comparable", func(m *Machine, fr *frame, t *RType, a []Value) Value { return types.Comparable(t.T) })
	tm("AssignableTo", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return types.AssignableTo(t.T, rtOf(a[0]).T)
	})
	tm("ConvertibleTo", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return types.ConvertibleTo(t.T, rtOf(a[0]).T)
	})
	tm("Implements", func(m *Machine, fr *frame, t *RType, a []Value) Value {
		return m.implements(t, rtOf(a[0]))
	})
}

func (m *Machine) methodsOf(t *RType) []*types.Selection {
	typesMu.Lock()
	defer typesMu.Unlock()
	ms := m.P.Prog.MethodSets.MethodSet(t.T)
	var r []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	return r
}

func (m *Machine) ptrID(k any) int64 {
	ids, _ := m.side["ptrids"].(map[any]int64)
	if ids == nil {
		ids = map[any]int64{}
		m.side["ptrids"] = ids
	}
	id, ok := ids[k]
	if !ok {
		id = 0xc000000000 + int64(len(ids)+1)*16
		ids[k] = id
	}
	return id
}

func (m *Machine) reflectCall(fr *frame, r *RV, args Slice, slice bool) Value {
	sig, ok := r.t.T.Underlying().(*types.Signature)
	if !ok {
		panic(m.rvPanic(fr, "call of non-function"))
	}
	var in []Value
	np := sig.Params().Len()
	fixed := np
	if sig.Variadic() && !slice {
		fixed = np - 1
	}
	if len(args) < fixed || !sig.Variadic() && len(args) > fixed {
		panic(m.rvPanic(fr, "Call with wrong number of input arguments"))
	}
	check := func(x Value, t types.Type) Value {
		rv := rvOf(x)
		if rv == nil {
			panic(m.rvPanic(fr, "Call using zero Value argument"))
		}
		typesMu.Lock()
		as := types.AssignableTo(rv.t.T, t)
		typesMu.Unlock()
		if !as {
			panic(m.rvPanic(fr, "Call using "+rv.t.str+" as type "+m.rtype(t).str))
		}
		return m.assignTo(fr, rv, m.rtype(t))
	}
	for i := 0; i < fixed; i++ {
		in = append(in, check(args[i], sig.Params().At(i).Type()))
	}
	if sig.Variadic() && !slice {
		et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		var rest Slice
		for _, x := range args[fixed:] {
			rest = append(rest, check(x, et))
		}
		in = append(in, rest)
	}
	res := m.callValue(fr, r.get(), in, nil)
	out := Slice{}
	switch sig.Results().Len() {
	case 0:
	case 1:
		out = append(out, mkRV(&RV{t: m.rtype(sig.Results().At(0).Type()), v: res}))
	default:
		for i, v := range res.(Tuple) {
			out = append(out, mkRV(&RV{t: m.rtype(sig.Results().At(i).Type()), v: v}))
		}
	}
	return out
}

func (m *Machine) deepEq(fr *frame, a, b Value, d int) *Term {
	if d > 50 {
		panic(unsupported("reflect.DeepEqual depth"))
	}
	tc := m.tc
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t != y.t {
			return tc.False
		}
		if x.t == nil {
			return tc.True
		}
		return m.deepEq(fr, x.v, y.v, d+1)
	case *Value:
		y, ok := b.(*Value)
		if !ok || (x == nil) != (y == nil) {
			return tc.False
		}
		if x == y {
			return tc.True
		}
		return m.deepEq(fr, *x, *y, d+1)
	case Struct:
		r := tc.True
		for i := range x {
			r = tc.And(r, m.deepEq(fr, x[i], b.(Struct)[i], d+1))
		}
		return r
	case Array:
		r := tc.True
		for i := range x {
			r = tc.And(r, m.deepEq(fr, x[i], b.(Array)[i], d+1))
		}
		return r
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return tc.False
		}
		r := tc.True
		for i := range x {
			r = tc.And(r, m.deepEq(fr, x[i], y[i], d+1))
		}
		return r
	case *MapObj:
		y := b.(*MapObj)
		if (x == nil) != (y == nil) {
			return tc.False
		}
		if x == nil || x == y {
			return tc.True
		}
		if x.n != y.n {
			return tc.False
		}
		r := tc.True
		for _, e := range x.ents {
			if e.deleted {
				continue
			}
			v, ok := m.mapGet(fr, y, e.k)
			if !ok {
				return tc.False
			}
			r = tc.And(r, m.deepEq(fr, e.v, v, d+1))
		}
		return r
	case *Closure:
		y, _ := b.(*Closure)
		return tc.Bool(x == nil && y == nil)
	}
	return m.eq(fr, a, b)
}
