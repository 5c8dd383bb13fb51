package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/zzverif/sym"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// source is a top provider with fixed values that records what it is asked.
type source struct {
	vals  dgo.Map
	asked []string
	opts  []dgo.Value
}

func (s *source) fn(pc sdk.ProviderContext, key string) dgo.Value {
	s.asked = append(s.asked, key)
	s.opts = append(s.opts, pc.Option("merge"))
	return s.vals.Get(key)
}

func sameStrings(x, y []string) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

var falsyKind int

// falsy is a value that is easily taken for none.
func falsy(i int) dgo.Value {
	switch falsyKind {
	case 0:
		return vf.Integer(int64(sym.Int(0, 1)*10 + i))
	case 1:
		return vf.Boolean(sym.Bool())
	case 2:
		return vf.Nil
	default:
		return vf.String(sym.String(0, 1, "ab"))
	}
}

var names14 = []string{"a", "b", "a.x"}

// some is a hash with any of the names; only the value of the first one varies.
func some(base int) dgo.Map {
	switch sym.Choice(4) {
	case 0:
		return nil
	case 1:
		return m()
	case 2:
		return m("a", falsy(base))
	default:
		r := m("b", falsy(base))
		if sym.Choice(2) == 1 {
			r.Put("a.x", base+1)
		}
		return r
	}
}

func someNames(n int) []string {
	r := make([]string, sym.Choice(n+1))
	for i := range r {
		r[i] = names14[sym.Choice(len(names14))]
	}
	return r
}

// source14 is a top provider, and what looking up a name gives.
func source14() (*source, func(string) dgo.Value) {
	s := &source{vals: m()}
	switch sym.Choice(4) {
	case 0:
	case 1:
		s.vals.Put("a", m("x", falsy(20)))
	case 2:
		s.vals.Put("a", falsy(20))
	default:
		s.vals.Put("b", falsy(30))
	}
	return s, func(n string) dgo.Value {
		if n == "a.x" {
			return specDig(s.vals.Get("a"), []dseg{{s: "x"}})
		}
		return s.vals.Get(n)
	}
}

func root14(n string) string {
	if n == "a.x" {
		return "a"
	}
	return n
}

func get14(h dgo.Map, n string) dgo.Value {
	if h == nil {
		return nil
	}
	return h.Get(n)
}

// C14Lookup looks up any names with any combination of sources.
func C14Lookup() {
	start()
	falsyKind = sym.Choice(4)
	src, spec := source14()
	names := someNames(sym.Bound("names", 2))
	override, defaults := some(100), some(200)
	var dv dgo.Value
	var df dgo.Producer
	called := 0
	fv := dgo.Value(vf.String("func"))
	switch sym.Choice(4) {
	case 0:
	case 1:
		dv = falsy(300)
	case 2:
		fv = falsy(400)
		df = func() dgo.Value { called++; return fv }
	default:
		dv = falsy(300)
		df = func() dgo.Value { called++; return fv }
	}
	var opts dgo.Map
	if sym.Choice(2) == 1 {
		opts = m("merge", "deep")
	}
	var want dgo.Value
	var asked []string
	wcalls := 0
	for _, n := range names {
		if want == nil {
			want = get14(override, n)
		}
	}
	if want == nil {
		for _, n := range names {
			if want == nil {
				asked = append(asked, root14(n))
				want = spec(n)
			}
		}
	}
	if want == nil {
		for _, n := range names {
			if want == nil {
				want = get14(defaults, n)
			}
		}
	}
	if want == nil {
		want = dv
	}
	if want == nil && df != nil {
		want = fv
		wcalls = 1
	}
	iv := newSession(src.fn).Invocation(nil, nil)
	var v dgo.Value
	must(try(func() {
		v = hiera.Lookup2(iv, names, nil, dv, override, defaults, opts, df)
	}))
	observe(v, nil)
	sym.Assert(same(v, want), "the value is not from the first source that has it")
	sym.Assert(sameStrings(src.asked, asked), "a source is asked that should not be, or not asked")
	sym.Assert(called == wcalls, "the default function is called when it should not be, or not called")
	for _, o := range src.opts {
		sym.Assert(opts == nil && o == nil || opts != nil && same(o, opts.Get("merge")), "the options do not reach the lookup")
	}
	if v == nil {
		sym.Reach("not found")
	} else {
		sym.Reach("found")
	}
	if len(names) == 1 && override == nil && defaults == nil && df == nil {
		must(try(func() { v = hiera.Lookup(iv, names[0], dv, opts) }))
		sym.Assert(same(v, want), "the lookup of one name does not give its value")
	}
}

// C14All looks up all of any names.
func C14All() {
	start()
	falsyKind = sym.Choice(4)
	src, spec := source14()
	names := someNames(sym.Bound("names", 2))
	override, defaults := some(100), some(200)
	want := m()
	var asked []string
	for _, n := range names {
		v := get14(override, n)
		if v == nil {
			asked = append(asked, root14(n))
			if v = spec(n); v == nil {
				v = get14(defaults, n)
			}
		}
		if v != nil {
			want.Put(n, v)
		}
	}
	iv := newSession(src.fn).Invocation(nil, nil)
	var v dgo.Value
	must(try(func() { v = hiera.LookupAll(iv, names, nil, override, defaults, nil) }))
	observe(v, nil)
	sym.Assert(same(v, want), "the names found, or their values, are not those of the first source that has them")
	sym.Assert(sameStrings(src.asked, asked), "a source is asked that should not be, or not asked")
	if want.Len() == 0 {
		sym.Reach("none")
	} else {
		sym.Reach("some")
	}
}

// a type, whether a value is of it, and what a value that is not of it converts to (nil: not said here)
type type15 struct {
	t    dgo.Type
	is   func(dgo.Value) bool
	conv func(dgo.Value) dgo.Value
}

func isInt(lo, hi int64) func(dgo.Value) bool {
	return func(v dgo.Value) bool {
		i, ok := v.(dgo.Integer)
		return ok && sym.And(i.GoInt() >= lo, i.GoInt() <= hi)
	}
}

func anInt(v dgo.Value) dgo.Value {
	if b, ok := v.(dgo.Boolean); ok {
		if b.GoBool() {
			return vf.Integer(1)
		}
		return vf.Integer(0)
	}
	if s, ok := v.(dgo.String); ok {
		if n, ok := digits(s.GoString()); ok {
			return vf.Integer(n)
		}
	}
	return nil
}

// digits is the value of a decimal numeral without leading zeros.
func digits(s string) (int64, bool) {
	n := int64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' || i == 0 && len(s) > 1 && s[i] == '0' {
			return 0, false
		}
		n = n*10 + int64(s[i]-'0')
	}
	return n, len(s) > 0
}

func aType() type15 {
	switch sym.Choice(7) {
	case 0:
		return type15{typ.Integer, isInt(-1<<63, 1<<63-1), anInt}
	case 1:
		return type15{tf.Integer(3, 20, true), isInt(3, 20), nil}
	case 2:
		return type15{typ.String, func(v dgo.Value) bool { _, ok := v.(dgo.String); return ok },
			func(v dgo.Value) dgo.Value {
				if i, ok := v.(dgo.Integer); ok {
					return vf.String(i.String())
				}
				return nil
			}}
	case 3:
		return type15{tf.String(2, 3), func(v dgo.Value) bool {
			s, ok := v.(dgo.String)
			return ok && len(s.GoString()) >= 2 && len(s.GoString()) <= 3
		}, nil}
	case 4:
		return type15{tf.Array(typ.Integer), func(v dgo.Value) bool {
			a, ok := v.(dgo.Array)
			if !ok {
				return false
			}
			for i := 0; i < a.Len(); i++ {
				if _, ok := a.Get(i).(dgo.Integer); !ok {
					return false
				}
			}
			return true
		}, nil}
	case 5:
		return type15{typ.Boolean, func(v dgo.Value) bool { _, ok := v.(dgo.Boolean); return ok }, nil}
	default:
		return type15{tf.AnyOf(typ.Nil, tf.Enum("a", "12")), func(v dgo.Value) bool {
			if v == vf.Nil {
				return true
			}
			s, ok := v.(dgo.String)
			return ok && sym.Or(s.GoString() == "a", s.GoString() == "12")
		}, nil}
	}
}

func value15() dgo.Value {
	switch sym.Choice(7) {
	case 0:
		return vf.Integer(int64(sym.Int(0, 30)))
	case 1:
		return vf.String(sym.String(0, 2, "12a"))
	case 2:
		return vf.Boolean(sym.Bool())
	case 3:
		return vf.Nil
	case 4:
		return a(sym.Int(0, 9))
	case 5:
		return a(sym.String(1, 1, "1a"))
	default:
		return m("a", 1)
	}
}

// C15Type looks up any value from any source with any type.
func C15Type() {
	start()
	t := aType()
	v := value15()
	src := &source{vals: m()}
	var override, defaults dgo.Map
	var dv dgo.Value
	var df dgo.Producer
	n := 5
	where := sym.Choice(n)
	names := []string{"none", "k"}
	switch sym.Choice(4) {
	case 1:
		names = []string{"k"}
	case 2:
		names = []string{"k", "other"}
	case 3:
		// the sources after that of the value have others, which are not asked
		if where < 2 {
			src.vals.Put("other", 4711)
		}
		names = []string{"none", "k", "other"}
		if where < 2 {
			defaults = m("k", 4712)
		}
		if where < 3 {
			dv = vf.Integer(4714)
		}
		if where < 4 {
			df = func() dgo.Value { return vf.Integer(4715) }
		}
	}
	switch where {
	case 0:
		override = m("k", v)
	case 1:
		src.vals.Put("k", v)
	case 2:
		defaults = m("k", v)
	case 3:
		dv = v
	case 4:
		df = func() dgo.Value { return v }
	}
	iv := newSession(src.fn).Invocation(nil, nil)
	all := where < 3 && sym.Choice(2) == 1
	var r dgo.Value
	err := tryAny(func() {
		if all {
			st := tf.StructMap(false, tf.StructMapEntry("k", t.t, false), tf.StructMapEntry("other", typ.Any, false))
			r = hiera.LookupAll(iv, []string{"k", "none"}, st, override, defaults, nil).(dgo.Map).Get("k")
		} else {
			r = hiera.Lookup2(iv, names, t.t, dv, override, defaults, nil, df)
		}
	})
	observe(r, err)
	if t.is(v) {
		sym.Reach("of the type")
		must(err)
		sym.Assert(same(r, v), "a value of the type is changed")
		return
	}
	if t.conv != nil {
		if w := t.conv(v); w != nil {
			sym.Reach("converted")
			must(err)
			sym.Assert(same(r, w), "the value is not converted")
			return
		}
	}
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Assert(r != nil && t.is(r), "the result is not of the type")
}

// C15Untyped looks up without a type.
func C15Untyped() {
	start()
	v := value15()
	src := &source{vals: m("k", v)}
	iv := newSession(src.fn).Invocation(nil, nil)
	var t dgo.Type
	if sym.Choice(2) == 1 {
		t = typ.Any
	}
	var r dgo.Value
	must(try(func() { r = hiera.Lookup2(iv, []string{"k"}, t, nil, nil, nil, nil, nil) }))
	observe(r, nil)
	sym.Assert(same(r, v), "the value is changed")
	must(try(func() { r = hiera.LookupAll(iv, []string{"k"}, nil, nil, nil, nil) }))
	sym.Assert(same(r, m("k", v)), "the value is changed")
	// nothing found stays nothing, with any type and a default function that has nothing either
	t = aType().t
	must(try(func() {
		r = hiera.Lookup2(iv, []string{"none"}, t, nil, nil, nil, nil, func() dgo.Value { return nil })
	}))
	observe(r, nil)
	sym.Assert(r == nil, "a default function without a value gives one")
	sym.Reach("looked up")
}
