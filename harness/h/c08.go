package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
)

func stringWithExpr() string {
	return pick("plain", "%{x}", "a%{x}b%{x}", "%{alias('al')}", "%{lookup('al')}", "%{}", "")
}

// exprValue is any structure of strings, some with expressions, and of other values.
func exprValue(depth int) dgo.Value {
	n := 4
	if depth > 0 {
		n = 10
	}
	switch sym.Choice(n) {
	case 0, 4:
		return vf.String(stringWithExpr())
	case 1:
		return vf.Integer(int64(sym.Int(-1, 9)))
	case 2:
		return vf.String(sym.String(0, 2, "a%{}"))
	case 3:
		return vf.Nil
	case 5:
		return a(exprValue(depth-1), sym.Bool(), exprValue(depth-1))
	case 8:
		e := exprValue(0)
		return a(1, "x", sym.Int(0, 2), e, "%{x}", "x", e, 1)
	case 9:
		r := m("z", 1)
		for i := 9; i > 0; i-- {
			r.Put(lv(i), lv(9-i))
		}
		r.Put("b", exprValue(0))
		r.Put("a", stringKey())
		return r
	case 6:
		return m("b", exprValue(depth-1), stringKey(), sym.Int(0, 9), "a", exprValue(depth-1))
	default:
		return m(7, exprValue(0), "%{x}", exprValue(depth-1), "m", m(), "n", a())
	}
}

func stringKey() string { return pick("k", "k%{x}", "%{}k", "%{lookup('kk')}") }

// specStructure is the structure with every string interpolated.
func specStructure(v dgo.Value, vars, data dgo.Map) (r dgo.Value, changed bool) {
	switch v := v.(type) {
	case dgo.String:
		w, bad := specInterpolate(v.GoString(), vars, data, true)
		sym.Assume(!bad)
		if al, ok := data.Get("al").(dgo.String); ok && strings.Contains(v.GoString(), "al'") {
			// looked up values are interpolated when they are found
			al2, _ := specInterpolate(al.GoString(), vars, data, true)
			d := m("al", al2, "kk", data.Get("kk"))
			w, _ = specInterpolate(v.GoString(), vars, d, true)
		}
		return w, strings.Contains(v.GoString(), "%{")
	case dgo.Array:
		es := make([]dgo.Value, v.Len())
		for i := range es {
			e, c := specStructure(v.Get(i), vars, data)
			es[i] = e
			changed = changed || c
		}
		return vf.WrapSlice(es), changed
	case dgo.Map:
		r := vf.MapWithCapacity(v.Len())
		n := 0
		v.EachEntry(func(e dgo.MapEntry) {
			k, c1 := specStructure(e.Key(), vars, data)
			x, c2 := specStructure(e.Value(), vars, data)
			changed = changed || c1 || c2
			r.Put(k, x)
			n++
		})
		sym.Assume(r.Len() == n) // keys that become equal are another matter
		return r, changed
	}
	return v, false
}

// C08Structure interpolates structures, directly, and by lookups of them in a data file.
func C08Structure() {
	start()
	vars := m("x", sym.String(0, 1, "Xb"))
	al := a(1, m("z", 2), vf.Nil)
	data := m("al", al, "kk", "q")
	v := exprValue(sym.Bound("depth", 2))
	before := vfs.Copy(v)
	want, changed := specStructure(v, vars, data)
	s := newSession(fixed(data))
	var got dgo.Value
	must(try(func() { got = s.Invocation(vars, nil).Interpolate(v, true) }))
	observe(got, nil)
	if changed {
		sym.Reach("changed")
	} else {
		sym.Reach("unchanged")
		sym.Assert(got == v || got.Equals(v), "a structure without expressions is not returned as it was")
	}
	sym.Assert(sameOrder(got, want), "interpolating changes more or less than the strings")
	sym.Assert(sameOrder(v, before), "interpolating changes the structure handed in")
	sym.Assert(sameOrder(data, m("al", a(1, m("z", 2), vf.Nil), "kk", "q")), "interpolating changes the data")
	// with another scope
	vars2 := m("x", "2")
	want2, _ := specStructure(v, vars2, data)
	must(try(func() { got = s.Invocation(vars2, nil).Interpolate(v, true) }))
	sym.Assert(sameOrder(got, want2), "the second interpolation of a structure gives another result")
}

// C08Lookup looks a structure up twice in one invocation, with different scopes and through files.
func C08Lookup() {
	start()
	v := exprValue(sym.Bound("depth", 1))
	data := m("k", v, "al", a(1, m("z", 2), vf.Nil), "kk", "q")
	vfs.Put("data/common.yaml", data)
	vfs.Put("hiera.yaml", m("version", 5))
	vars, vars2 := m("x", sym.String(0, 1, "Xb")), m("x", "2")
	want, _ := specStructure(v, vars, data)
	want2, _ := specStructure(v, vars2, data)
	// no second round of expressions (finding "twice" of C07)
	sym.Assume(!hasExpr(want) && !hasExpr(want2))
	s := newSession(nil)
	inv := s.Invocation(vars, nil)
	var got dgo.Value
	look := func() { got = inv.Lookup(mustKey("k"), nil) }
	must(try(look))
	observe(got, nil)
	sym.Assert(sameOrder(got, want), "a looked up structure is not the interpolated one")
	must(try(look))
	sym.Assert(sameOrder(got, want), "looking up again gives another result")
	must(try(func() { inv.DoWithScope(vars2, look) }))
	sym.Reach("second scope")
	sym.Assert(sameOrder(got, want2), "looking up in another scope shows the first one")
}

func hasExpr(v dgo.Value) bool {
	r := false
	switch v := v.(type) {
	case dgo.String:
		return strings.Contains(v.GoString(), "%{")
	case dgo.Array:
		v.Each(func(e dgo.Value) { r = r || hasExpr(e) })
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { r = r || hasExpr(e.Key()) || hasExpr(e.Value()) })
	}
	return r
}
