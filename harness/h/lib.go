package h

import (
	"context"
	"fmt"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// start makes the scratch directory of a run.
func start() {
	cleanups = append(cleanups, vfs.Start())
	vfs.SetEnv("PATH=/bin")
}

// m makes a map of the alternating keys and values.
func m(kvs ...interface{}) dgo.Map {
	r := vf.MapWithCapacity(len(kvs) / 2)
	for i := 0; i < len(kvs); i += 2 {
		r.Put(vf.Value(kvs[i]), vf.Value(kvs[i+1]))
	}
	return r
}

// a makes an array.
func a(vs ...interface{}) dgo.Array {
	r := make([]dgo.Value, len(vs))
	for i, v := range vs {
		r[i] = vf.Value(v)
	}
	return vf.WrapSlice(r)
}

// newSession makes a session on the scratch directory.
func newSession(tp sdk.LookupKey, kvs ...interface{}) api.Session {
	o := m(api.HieraRoot, vfs.Root)
	for i := 0; i < len(kvs); i += 2 {
		o.Put(vf.Value(kvs[i]), vf.Value(kvs[i+1]))
	}
	if tp == nil {
		tp = provider.ConfigLookupKey
	}
	return session.New(context.Background(), tp, o, nil)
}

// lookup performs one lookup; a run time error fails the property.
func lookup(s api.Session, scope interface{}, key string, opts interface{}) (v dgo.Value, err error) {
	err = try(func() { v = hiera.Lookup(s.Invocation(scope, nil), key, nil, opts) })
	return
}

// observe records the outcome of a lookup.
func observe(v dgo.Value, err error) {
	if err != nil {
		sym.Observe("error")
		return
	}
	observeVal(v)
}

func observeVal(v dgo.Value) {
	switch v := v.(type) {
	case nil:
		sym.Observe("<not found>")
	case dgo.Array:
		sym.Observe("[")
		v.Each(func(e dgo.Value) { observeVal(e) })
		sym.Observe("]")
	case dgo.Map:
		sym.Observe("{")
		v.EachEntry(func(e dgo.MapEntry) {
			observeVal(e.Key())
			observeVal(e.Value())
		})
		sym.Observe("}")
	case dgo.Integer:
		sym.ObserveInt(v.GoInt())
	case dgo.Boolean:
		sym.ObserveBool(v.GoBool())
	case dgo.String:
		sym.Observe(v.GoString())
	default:
		sym.Observe(v.String())
	}
}

// same says whether two values are equal and of the same type.
func same(x, y dgo.Value) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	switch x := x.(type) {
	case dgo.Array:
		y, ok := y.(dgo.Array)
		if !ok || x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !same(x.Get(i), y.Get(i)) {
				return false
			}
		}
		return true
	case dgo.Map:
		y, ok := y.(dgo.Map)
		if !ok || x.Len() != y.Len() {
			return false
		}
		r := true
		x.EachEntry(func(e dgo.MapEntry) {
			r = r && same(e.Value(), y.Get(e.Key()))
		})
		return r
	case dgo.String:
		y, ok := y.(dgo.String)
		return ok && x.GoString() == y.GoString()
	}
	return x.Equals(y)
}

// sameOrder is same, with the entries of maps in the same order.
func sameOrder(x, y dgo.Value) bool {
	if !same(x, y) {
		return false
	}
	switch x := x.(type) {
	case dgo.Array:
		r := true
		x.EachWithIndex(func(e dgo.Value, i int) { r = r && sameOrder(e, y.(dgo.Array).Get(i)) })
		return r
	case dgo.Map:
		var ks []dgo.Value
		y.(dgo.Map).EachKey(func(k dgo.Value) { ks = append(ks, k) })
		r, i := true, 0
		x.EachEntry(func(e dgo.MapEntry) {
			r = r && same(e.Key(), ks[i]) && sameOrder(e.Value(), y.(dgo.Map).Get(ks[i]))
			i++
		})
		return r
	}
	return true
}

// scalar is any value of a few kinds, the falsy and empty ones among them.
func scalar(tag int) dgo.Value {
	switch sym.Choice(6) {
	case 0:
		return vf.Integer(int64(sym.Int(-1, 100)))
	case 1:
		return vf.Boolean(sym.Bool())
	case 2:
		return vf.Nil
	case 3:
		return vf.String(sym.String(0, 1, "ab"))
	case 4:
		return vf.WrapSlice([]dgo.Value{})
	default:
		return vf.MapWithCapacity(0)
	}
}

func must(err error) {
	if err != nil {
		sym.Assert(false, "unexpected error: "+err.Error())
	}
}

// observeText records a text, the names of the scratch directory aside.
func observeText(s string) { sym.Observe(strings.Replace(s, vfs.Root, "/w", -1)) }

func lv(i int) string { return fmt.Sprintf("l%d", i) }

// pick is any of the texts.
func pick(ss ...string) string { return ss[sym.Choice(len(ss))] }

func mustKey(s string) api.Key { return api.NewKey(s) }
