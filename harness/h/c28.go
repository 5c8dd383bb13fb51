package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// step is one lookup of a history.
type step struct {
	keys  []string
	scope dgo.Map
	opts  dgo.Map
}

func (t *step) run(iv api.Invocation) (v dgo.Value, err error) {
	err = tryAny(func() {
		if len(t.keys) > 1 {
			v = hiera.LookupAll(iv, t.keys, nil, nil, nil, t.opts)
		} else {
			v = hiera.Lookup(iv, t.keys[0], nil, t.opts)
		}
	})
	return
}

// steps is any history over the keys.
func steps(n int, keys ...string) []*step {
	r := make([]*step, n)
	for i := range r {
		t := &step{}
		if k := sym.Choice(len(keys) + 1); k < len(keys) {
			t.keys = keys[k : k+1]
		} else {
			t.keys = keys[:2]
		}
		switch sym.Choice(4) {
		case 0:
			t.scope = m("n", "b", "w", a("p", "q"))
		case 1:
			t.scope = m("n", sym.String(1, 1, "ac"), "w", "q")
		case 2:
			t.scope = m("z", "y")
		}
		if sym.Bool() {
			t.opts = m("merge", []string{"deep", "unique"}[i%2])
		}
		r[i] = t
	}
	return r
}

// history checks that each step gives what it gives on a fresh session.
func history(ts []*step, mk func() api.Session) {
	s := mk()
	var so dgo.Map
	if o := s.SessionOptions(); o != nil {
		so = o.Copy(true)
	}
	scope := vf.Value(s.Scope())
	scope = vfs.Copy(scope)
	var ex api.Explainer
	if sym.Bound("explain", 0) == 1 && sym.Bool() {
		ex = explain.NewExplainer(true, false)
	}
	for _, t := range ts {
		var before, opts dgo.Value
		var si interface{}
		if t.scope != nil {
			si = t.scope
			before = vfs.Copy(t.scope)
		}
		if t.opts != nil {
			opts = vfs.Copy(t.opts)
		}
		v, err := t.run(s.Invocation(si, ex))
		observe(v, err)
		w, werr := t.run(mk().Invocation(si, nil))
		if werr != nil {
			sym.Reach("error")
			sym.Assert(err != nil, "an error is not reported on a used session")
			continue
		}
		must(err)
		if w == nil {
			sym.Reach("not found")
		} else {
			sym.Reach("found")
		}
		sym.Assert(sameOrder2(v, w), "a lookup on a used session gives something else than on a fresh one")
		sym.Assert(t.scope == nil || sameOrder(t.scope, before), "the scope of the lookup is changed")
		sym.Assert(t.opts == nil || sameOrder(t.opts, opts), "the options of the lookup are changed")
	}
	sym.Assert(same(s.SessionOptions(), so), "the options of the session are changed")
	sym.Assert(sameOrder(vf.Value(s.Scope()), scope), "the scope of the session is changed")
}

func sameOrder2(x, y dgo.Value) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	return sameOrder(x, y)
}

// C28Config has histories over a configuration with every kind of setting that depends on the scope.
func C28Config() {
	start()
	top := m("version", 5)
	l := m("name", "0", "path", "%{n}.yaml")
	low := m("name", "1", "path", "c.yaml")
	switch sym.Choice(11) {
	case 9:
		l = m("name", "0", "data_hash", "dh%{n}")
	case 10:
		top.Put("defaults", m("lookup_key", "l%{n}", "plugindir", "p%{n}"))
		l = m("name", "0", "options", m("o", "%{n}"))
		low.Put("data_hash", "yaml_data")
	case 1:
		l = m("name", "0", "paths", a("x.yaml", "%{n}.yaml"))
	case 2:
		l = m("name", "0", "glob", "%{n}*.yaml")
	case 3:
		l = m("name", "0", "mapped_paths", a("w", "x", "%{x}.yaml"))
	case 4:
		l = m("name", "0", "datadir", "%{n}", "path", "d.yaml")
	case 5:
		l = m("name", "0", "data_hash", "dh", "options", m("o", "%{n}", "in", a(m("x", "%{n}"), "%{z}")))
	case 6:
		top.Put("defaults", m("datadir", "data", "data_hash", "dh", "options", m("o", "%{n}", "in", a(m("x", "%{n}"), "%{z}"))))
		l = m("name", "0")
		low.Put("data_hash", "yaml_data")
	case 7:
		top.Put("defaults", m("datadir", "%{n}"))
		l = m("name", "0", "path", "d.yaml")
		low.Put("datadir", "data")
	case 8:
		l = m("name", "0", "lookup_key", "lk", "uris", a("u:%{n}", "v:%{z}"), "options", m("o", "%{n}"))
	}
	top.Put("hierarchy", a(l, low))
	vfs.Put("hiera.yaml", top)
	put := func(n string, i int) {
		d := m("k", a("<%{n}>", sym.Int(0, 9), m("%{z}", i)), "r", "%{alias('k')}", "lookup_options", m("r", m("convert_to", "[]any")))
		if i == 2 {
			d.Put("lookup_options", m("k", m("merge", "unique")))
		}
		vfs.Put("data/"+n+".yaml", d)
		if i < 3 {
			vfs.Put(n+"/d.yaml", d)
		}
	}
	put("a", 1)
	put("b", 2)
	put("p", 3)
	put("q", 4)
	vfs.Put("data/c.yaml", m("k", a("c", m("m", "%{n}")), "r", "%{lookup('s')}%{n}", "s", "%{z}"))
	dh := func(n string) interface{} {
		return func(pc sdk.ProviderContext) dgo.Value {
			return m("k", a(pc.OptionsMap(), n), "s", "%{n}")
		}
	}
	lk := func(n string) interface{} {
		return func(pc sdk.ProviderContext, key string) dgo.Value {
			if key != "k" {
				return nil
			}
			return a(pc.OptionsMap(), n)
		}
	}
	mk := func() api.Session {
		return newSession(nil, api.HieraScope, m("z", "%{n}", "n", "a"), api.HieraFunctions, m(
			"dh", dh(""), "dha", dh("a"), "dhb", dh("b"), "lk", lk(""), "la", lk("a"), "lb", lk("b")))
	}
	history(steps(sym.Bound("steps", 2), "k", "r", "none"), mk)
}

// C28Data has histories over data that stays in memory between lookups.
func C28Data() {
	start()
	d := m("k", a("<%{n}>", a(sym.Int(0, 9)), m("%{n}", m("x", a("%{z}", 1)))), "h", m("a", m("b", a("%{n}")), "c", 1),
		"r", "%{alias('h')}", "lookup_options", m("h", m("merge", "deep")))
	var mk func() api.Session
	switch sym.Choice(4) {
	case 0:
		vfs.Put("d.yaml", d)
		mk = func() api.Session { return newSession(provider.YamlLookupKey, "path", vfs.Path("d.yaml")) }
	case 1:
		e := m("h", m("a", m("b", a("e%{n}"), "d", 2), "d", 1), "k", a(a("e")))
		f := func(pc sdk.ProviderContext, k string) dgo.Value { return e.Get(k) }
		vfs.Put("d.yaml", d)
		mk = func() api.Session {
			return newSession(provider.MuxLookupKey, "path", vfs.Path("d.yaml"), provider.LookupKeyFunctions,
				a(sdk.LookupKey(f), sdk.LookupKey(provider.YamlLookupKey)))
		}
	case 2:
		e := m("h", m("a", m("b", a("e%{n}"), "d", 2), "d", 1), "k", a(a("e")))
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "data_hash", "e"), m("name", "1", "data_hash", "d"), m("name", "2", "lookup_key", "f"))))
		mk = func() api.Session {
			return newSession(nil, api.HieraFunctions, m(
				"d", func(pc sdk.ProviderContext) dgo.Value { return d },
				"e", func(pc sdk.ProviderContext) dgo.Map { return e },
				"f", func(pc sdk.ProviderContext, k string) dgo.Value { return d.Get(k) }))
		}
	default:
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "c.yaml"))))
		vfs.Put("data/c.yaml", m("mo::h", m("a", m("b", a("c")))))
		vfs.Put("mod/mo/hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "%{n}.yaml"), m("name", "1", "path", "d.yaml"))))
		vfs.Put("mod/mo/data/b.yaml", m("mo::h", m("a", m("b", a("%{n}")))))
		vfs.Put("mod/mo/data/d.yaml", m("mo::h", m("a", m("b", a("%{z}")), "c", sym.Int(0, 9)), "mo::k", "%{alias('mo::h')}"))
		mk = func() api.Session {
			return newSession(provider.MuxLookupKey, provider.ModulePath, vfs.Path("mod"), provider.LookupKeyFunctions,
				a(sdk.LookupKey(provider.ConfigLookupKey), sdk.LookupKey(provider.ModuleLookupKey)))
		}
		history(steps(sym.Bound("steps", 2), "mo::h", "mo::k"), mk)
		return
	}
	all := vfs.Copy(d)
	history(steps(sym.Bound("steps", 2), "k", "h", "r"), mk)
	sym.Assert(sameOrder(d, all), "the data is changed")
}

// C28Invocation has several lookups of one invocation.
func C28Invocation() {
	start()
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "%{n}.yaml", "options", m("x", "%{n}")), m("name", "1", "path", "c.yaml"))))
	vfs.Put("data/a.yaml", m("k", a("<%{n}>", m("x", sym.Int(0, 9)), sym.Int(0, 9)), "r", "%{alias('k')}", "lookup_options", m("r", m("convert_to", "sensitive"))))
	vfs.Put("data/c.yaml", m("k", a("c", m("x", "%{none}"), sym.Int(0, 9)), "h", m("a", a(1)), "r", 5, "s", "%{lookup('k.1.x')}", "lookup_options", m("k", m("merge", "deep"))))
	mk := func() api.Session { return newSession(nil, api.HieraScope, m("n", "a")) }
	iv := mk().Invocation(nil, nil)
	for i := 0; i < sym.Bound("steps", 3); i++ {
		t := &step{keys: []string{pick("k", "r", "s", "h", "none")}}
		if sym.Choice(2) == 1 {
			t.opts = m("merge", pick("unique", "first"))
		}
		v, err := t.run(iv)
		observe(v, err)
		w, werr := t.run(mk().Invocation(nil, nil))
		sym.Assert((err == nil) == (werr == nil), "a lookup of a used invocation fails or not")
		must(err)
		sym.Reach("looked up")
		sym.Assert(sameOrder2(v, w), "a lookup of a used invocation gives something else than one of a fresh one")
	}
}
