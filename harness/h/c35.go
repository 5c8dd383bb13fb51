package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// actor35 is a session with a function that performs the action at hand.
type actor35 struct {
	s     api.Session
	act   func(c api.ServerContext)
	acted int
}

func (x *actor35) fn(pc sdk.ProviderContext, key string) dgo.Value {
	if key == "go" && x.act != nil {
		x.acted++
		x.act(pc.(api.ServerContext))
		return vf.String("done")
	}
	return nil
}

// do has the function perform the action in a lookup of its own.
func (x *actor35) do(act func(c api.ServerContext)) {
	x.act, x.acted = act, 0
	v, err := lookup(x.s, nil, "go", nil)
	must(err)
	x.act = nil
	sym.Assert(same(v, vf.String("done")) && x.acted == 1, "the function is not called once")
}

// actors35 are two sessions; the function is the top provider of the first and that of a level in the other.
func actors35() []*actor35 {
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "x", "lookup_key", "f"))))
	x, y := &actor35{}, &actor35{}
	x.s = newSession(x.fn)
	y.s = newSession(nil, api.HieraFunctions, m("f", y.fn))
	return []*actor35{x, y}
}

// C35Cache has functions store values and find them again, in any order.
func C35Cache() {
	start()
	xs := actors35()
	if sym.Bool() {
		xs[0], xs[1] = xs[1], xs[0]
	}
	type pair struct {
		k string
		v dgo.Value
	}
	model := make([][]pair, 2)
	find := func(i int, k string) dgo.Value {
		for _, p := range model[i] {
			if p.k == k {
				return p.v
			}
		}
		return nil
	}
	store := func(i int, k string, v dgo.Value) {
		for j := range model[i] {
			if model[i][j].k == k {
				model[i][j].v = v
				return
			}
		}
		model[i] = append(model[i], pair{k, v})
	}
	key := func() string { return sym.String(0, 1, "ab") }
	ops := sym.Bound("ops", 3)
	for n := ops; n > 0; n-- {
		i, op, way := 0, 0, 0
		if n == ops { // the first one stores
			op = sym.Choice(2)
		} else {
			op, way = sym.Choice(3), sym.Choice(4)
			if way == 3 {
				i = 1
			}
		}
		k, k2 := key(), "a"
		var val dgo.Value = vf.Integer(int64(sym.Int(-1, 5000)))
		if n == 2 {
			val = []dgo.Value{vf.Nil, vf.False}[sym.Choice(2)]
		}
		xs[i].do(func(c api.ServerContext) {
			switch way {
			case 1:
				c = c.ForData()
			case 2:
				c = c.ForLookupOptions()
			}
			switch op {
			case 0:
				v := val
				old := c.Cache(k, v)
				sym.Assert(same(old, find(i, k)), "Cache does not return the value that it replaces")
				store(i, k, v)
			case 1:
				c.CacheAll(m(k, n, k2, a(n)))
				if k != k2 {
					store(i, k, vf.Integer(int64(n)))
				}
				store(i, k2, a(n))
			default:
				v, ok := c.CachedValue(k)
				w := find(i, k)
				sym.Assert(ok == (w != nil) && same(v, w), "a cached value is not the one that was stored last")
				if ok {
					sym.Reach("cached")
				} else {
					sym.Reach("not cached")
				}
			}
		})
	}
	for i, x := range xs {
		x.do(func(c api.ServerContext) {
			got := m()
			c.CachedEntries(func(k string, v dgo.Value) {
				sym.Assert(got.Get(k) == nil, "an entry of the cache is given twice")
				got.Put(k, v)
			})
			want := m()
			for _, p := range model[i] {
				want.Put(p.k, p.v)
			}
			sym.Assert(same(got, want), "the entries of the cache are not those that were stored in the session")
		})
	}
}

// C35Race has functions of concurrent lookups store values for the same keys.
func C35Race() {
	start()
	n := sym.Bound("lookups", 2)
	all := sym.Bool()
	s := newSession(func(pc sdk.ProviderContext, key string) dgo.Value {
		c := pc.(api.ServerContext)
		switch key {
		case "p0", "p1", "p2":
			if all {
				c.CacheAll(m("k", key, "own"+key, key))
			} else {
				c.Cache("k", vf.String(key))
				c.Cache("own"+key, vf.String(key))
			}
			v, ok := c.CachedValue("k")
			sym.Assert(ok && v != nil, "a value that was stored is gone")
			v, ok = c.CachedValue("own" + key)
			sym.Assert(ok && same(v, vf.String(key)), "a value of another key is changed")
			return v
		case "k", "ownp0", "ownp1", "ownp2":
			v, _ := c.CachedValue(key)
			return v
		}
		return nil
	})
	rs := make([]*request, n)
	for i := range rs {
		rs[i] = &request{key: "p" + string([]byte{byte('0' + i)})}
	}
	together(s, rs)
	v, err := lookup(s, nil, "k", nil)
	must(err)
	one := false
	for _, r := range rs {
		must(r.err)
		sym.Assert(same(r.v, vf.String(r.key)), "a concurrent lookup gives the value of another")
		one = one || same(v, r.v)
		w, err := lookup(s, nil, "own"+r.key, nil)
		must(err)
		sym.Assert(same(w, r.v), "a value that was stored by a concurrent lookup is lost")
	}
	sym.Assert(one, "the cache holds a value that was not stored")
	sym.Reach("raced")
}

// C35Context uses the other services of the context of a function.
func C35Context() {
	start()
	x := pick("q", "%{v}", "%{none}", "a%{v}b%{lookup('other')}", "%{alias('other')}")
	v := sym.String(0, 2, "a%{")
	var val dgo.Value = vf.String(x)
	if sym.Bool() {
		val = m("k", a(x, 1), x, true)
	}
	before := vfs.Copy(val)
	text := "text " + v + "."
	explained := 0
	fn := func(pc sdk.ProviderContext, key string) dgo.Value {
		c := pc.(api.ServerContext)
		switch key {
		case "go":
			c.Explain(func() string {
				explained++
				return text
			})
			r := c.Interpolate(val)
			var w dgo.Value
			must(try(func() { w = c.Invocation().Interpolate(val, true) }))
			sym.Assert(same(r, w), "a function gets another interpolation than its invocation gives")
			if o := pc.Option("o"); o != nil {
				sym.Assert(same(o, vf.String("o1")) && same(pc.OptionsMap().Get("o"), o), "a function gets another option")
			}
			return r
		case "other":
			return a("x", 1)
		}
		return nil
	}
	opts := m("o", "o1")
	top := sym.Bool()
	var s api.Session
	if top {
		s = newSession(fn)
	} else {
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "x", "lookup_key", "f", "options", opts))))
		s = newSession(nil, api.HieraFunctions, m("f", fn))
	}
	want, _ := specStructure(before, m("v", v), m("other", a("x", 1)))
	ask := func(e api.Explainer) (r dgo.Value) {
		must(try(func() { r = hiera.Lookup(s.Invocation(m("v", v), e), "go", nil, opts) }))
		return
	}
	sym.Assume(len(v) < 2 || v[0] != '%' || v[1] != '{') // what a variable holds is C07's
	got := ask(nil)
	observeVal(got)
	sym.Assert(same(got, want), "the interpolation that a function asks for is not that of the value")
	sym.Assert(sameOrder(val, before), "interpolation changed the value of the function")
	sym.Assert(explained == 0, "a text for an explanation is made although nothing is explained")
	e := explain.NewExplainer(false, false)
	got = ask(e)
	sym.Assert(same(got, want), "the result changes with an explanation")
	sym.Assert(explained == 1, "the text of a function for the explanation is not asked for once")
	sym.Assert(strings.Count(e.String(), text) == 1, "the text of a function is not in the explanation")
	sym.Reach("explained")
}
