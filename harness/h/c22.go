package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// specLower is a name in lower case.
func specLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// moduleAt is what stands in the module path under some name.
type moduleAt struct {
	dir, name string
	kind      int // 0 with a configuration, 1 without, 2 a file, 3 a configuration that is a directory
	data      map[string]dgo.Value
	opts      dgo.Map
}

// anyModule puts something of the given name into a directory of the module path.
func anyModule(dir string, names []string, tag int, kinds int) *moduleAt {
	n := sym.Choice(len(names) + 1)
	if n == len(names) {
		return nil
	}
	x := &moduleAt{dir: dir, name: names[n], kind: sym.Choice(kinds), data: map[string]dgo.Value{}}
	p := dir + "/" + x.name
	switch x.kind {
	case 0:
		vfs.Put(p+"/hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "d.yaml"), m("name", "1", "path", "e.yaml"))))
	case 1:
		vfs.Mkdir(p + "/data")
	case 2:
		vfs.PutText(p, "text", nil)
		return x
	case 3:
		vfs.Mkdir(p + "/hiera.yaml")
	}
	v := sym.Int(0, 9)
	d := m()
	for _, k := range []string{"one::a", "One::a", "one::b::c", "two::a", "a", "::a", "one", "one::", "oneone::a"} {
		x.data[k] = a(k+string([]byte{byte('0' + tag)}), a(v, v))
		d.Put(k, x.data[k])
	}
	if sym.Bool() {
		x.opts = m("one::a", m("merge", "unique"), "two::a", m("merge", "bogus"), "a", m("merge", "bogus"))
		if x.name != "oneone" {
			x.opts.Put("oneone::a", m("merge", "bogus"))
		}
		d.Put("lookup_options", x.opts)
	}
	vfs.Put(p+"/data/d.yaml", d)
	vfs.Put(p+"/data/e.yaml", m("one::a", "e", "one::e", "x%{lookup('two::a')}"))
	return x
}

// C22Module looks up keys in modules of any spelling and place.
func C22Module() {
	start()
	dirs := []string{"m0", "m1"}
	var mods []*moduleAt
	global := sym.Bool()
	for i, d := range dirs {
		names := []string{"one", "ONE", "oneone"}
		kinds := 4
		if i > 0 {
			names, kinds = names[:2], 2
		}
		if x := anyModule(d, names, i, kinds); x != nil {
			mods = append(mods, x)
		}
		vfs.Mkdir(d + "/other/data") // is not asked for
	}
	mp := vfs.Path("m0")
	switch sym.Choice(3) {
	case 0:
		mp += ":" + vfs.Path("m1")
	case 1:
		mp = vfs.Path("none") + ":" + mp + ":" + vfs.Path("m1")
	case 2:
		if len(mods) > 0 && mods[len(mods)-1].dir == "m1" {
			mods = mods[:len(mods)-1]
		}
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "g.yaml"))))
	gd := m("other", 0)
	if global {
		for _, k := range []string{"one::a", "two::a", "a", "one"} {
			gd.Put(k, a("g", k))
		}
	}
	vfs.Put("data/g.yaml", gd)
	s := newSession(provider.MuxLookupKey, provider.ModulePath, mp, provider.LookupKeyFunctions,
		a(sdk.LookupKey(provider.ConfigLookupKey), sdk.LookupKey(provider.ModuleLookupKey)))
	inv := s.Invocation(nil, nil)
	expect := func(key string) dgo.Value {
		vals := []dgo.Value{gd.Get(key)}
		strategy := "first"
		if i := strings.Index(key, "::"); i > 0 {
			for _, x := range mods {
				if x.kind == 0 && specLower(x.name) == specLower(key[:i]) {
					if x.opts != nil && key == "one::a" && x.name != "oneone" {
						strategy = "unique"
					}
					lo := []dgo.Value{x.data[key]}
					if key == "one::a" {
						lo = append(lo, m("k", "e").Get("k"))
					}
					vals = append(vals, specMerge(strategy, lo))
					break
				}
			}
		}
		return specMerge(strategy, vals)
	}
	ask := func(key string) {
		var v dgo.Value
		must(try(func() { v = inv.Lookup(mustKey(key), nil) }))
		observe(v, nil)
		want := expect(key)
		if want == nil {
			sym.Reach("not found")
		} else {
			sym.Reach("found")
		}
		sym.Assert(same(v, want), "the lookup does not give the data of the global level and of the module of the key")
	}
	key := pick("one::a", "One::a", "one::b::c", "two::a", "a", "::a", "one", "oneone::a", "one::none")
	ask(key)
	ask("one::a")
	if sym.Bool() {
		inv = s.Invocation(nil, nil)
	}
	ask(key) // what is remembered gives the same
}

// C22Name looks up a key in a module whose name is any text.
func C22Name() {
	start()
	name := sym.String(1, sym.Bound("len", 3), "aB_-.")
	sym.Assume(name != "." && name != "..")
	key := sym.String(1, sym.Bound("len", 3), "AaB_-.:")
	sym.Assume(strings.Index(key, ".") < 0)
	vfs.Put("mod/"+name+"/hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "lookup_key", "echo"))))
	tp := provider.ModuleLookupKey
	s := newSession(tp, provider.ModulePath, vfs.Path("mod"), api.HieraFunctions, m("echo", func(pc sdk.ProviderContext, key string) dgo.Value {
		if key == "lookup_options" {
			return nil
		}
		return m("k", key).Get("k")
	}))
	key += "::x"
	v, err := lookup(s, nil, key, nil)
	observe(v, err)
	i := strings.Index(key, "::")
	if i > 0 && specLower(key[:i]) == specLower(name) {
		sym.Reach("found")
		sym.Assert(err == nil && same(v, m("k", key).Get("k")), "a module is not found")
		return
	}
	sym.Reach("not found")
	sym.Assert(err == nil && v == nil, "a module answers a key of another")
}

// C22Nested has modules that look up keys of other modules and of the global data, with options of their own.
func C22Nested() {
	start()
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "g.yaml"))))
	g := sym.Int(0, 9)
	vfs.Put("data/g.yaml", m("g", a(g), "a", "%{alias('one::a')}"))
	conf := m("version", 5, "hierarchy", a(m("name", "0", "path", "%{n}.yaml"), m("name", "1", "path", "l.yaml")))
	for _, n := range []string{"one", "two"} {
		vfs.Put("mod/"+n+"/hiera.yaml", conf)
		vfs.Put("mod/"+n+"/data/l.yaml", m(n+"::a", "%{alias('two::b')}", n+"::b", a(n), n+"::g", "%{alias('g')}", n+"::n", "<%{n}>",
			"lookup_options", m("two::b", m("merge", "unique"), "one::b", m("merge", "unique"), "g", m("merge", "bogus"))))
		vfs.Put("mod/"+n+"/data/x.yaml", m(n+"::b", n+"x"))
	}
	s := newSession(provider.MuxLookupKey, provider.ModulePath, vfs.Path("mod"), provider.LookupKeyFunctions,
		a(sdk.LookupKey(provider.ConfigLookupKey), sdk.LookupKey(provider.ModuleLookupKey)))
	inv := s.Invocation(m("n", "x"), nil)
	for i := 0; i < 2; i++ {
		key := pick("one::a", "two::a", "one::b", "two::b", "a", "one::g", "two::g", "one::n", "two::n")
		var v dgo.Value
		must(try(func() { v = inv.Lookup(mustKey(key), nil) }))
		observe(v, nil)
		var want dgo.Value
		switch key {
		case "one::a", "two::a", "a":
			want = a("twox", "two")
		case "one::b":
			want = a("onex", "one")
		case "two::b":
			want = a("twox", "two")
		case "one::g", "two::g":
			want = a(g)
		default:
			want = m("k", "<x>").Get("k")
		}
		sym.Reach("found")
		sym.Assert(same(v, want), "a nested lookup of a module gives another value")
	}
}
