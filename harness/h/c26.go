package h

import (
	"context"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// change changes a file or not.
func change(name string) bool {
	switch sym.Choice(4) {
	case 1:
		vfs.Put(name, m("k", "new", "none", "new", "lookup_options", m("k", m("merge", "hash"))))
	case 2:
		vfs.Remove(name)
	case 3:
		vfs.PutText(name, "{", nil)
	default:
		return false
	}
	return true
}

// C26Once has several lookups of one request, with files that change meanwhile.
func C26Once() {
	start()
	fn := func() string { return pick("yaml_data", "json_data") }
	d := m("k", sym.Int(0, 9), "j", "<%{lookup('k')}>", "r", a("%{alias('k')}"), "low", vf.Nil)
	if sym.Bool() {
		d.Put("lookup_options", m("k", m("merge", "unique")))
	}
	vfs.Put("data/d.x", d)
	vfs.Put("data/e.x", m("k", 50, "e", "%{lookup('j')}"))
	hier := a(m("name", "0", "data_hash", fn(), "paths", a("d.x", "gone.x", "e.x")), m("name", "1", "data_hash", fn(), "path", "e.x"))
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", hier))
	s := newSession(nil)
	keys := []string{pick("k", "j", "e"), pick("k", "j", "none"), pick("k", "r", "low")}
	var want []dgo.Value
	for _, k := range keys {
		v, err := lookup(newSession(nil), nil, k, nil)
		must(err)
		want = append(want, v)
	}
	vfs.Watch("data/d.x", "data/e.x")
	iv := s.Invocation(nil, nil)
	at := sym.Choice(2)
	for i, k := range keys {
		var v dgo.Value
		must(try(func() { v = hiera.Lookup(iv, k, nil, nil) }))
		observe(v, nil)
		if v == nil {
			sym.Reach("not found")
		} else {
			sym.Reach("found")
		}
		sym.Assert(same(v, want[i]), "a lookup does not see the content that the request has loaded")
		if i == at {
			sym.Assert(vfs.ReadCount("data/d.x") == 1, "a location is not loaded once")
			sym.Assert(vfs.ReadCount("data/e.x") == 2, "a location is not loaded once for each level that has it")
			if change("data/d.x") {
				sym.Reach("changed")
			}
		}
	}
}

// C26Content has files of any content, and requests before and after they are repaired.
func C26Content() {
	start()
	fn := pick("yaml_data", "json_data")
	bad := true
	switch sym.Choice(7) {
	case 0:
		vfs.Put("data/d.x", m("k", 1))
		bad = false
	case 1:
		vfs.Put("data/d.x", m())
		bad = false
	case 2:
		vfs.PutNone("data/d.x", pick("", "# k: 1\n"))
	case 3:
		vfs.Put("data/d.x", a(m("k", 1)))
	case 4:
		vs := a(sym.Int(-1, 9), "a", vf.Nil, sym.Bool(), a())
		vfs.Put("data/d.x", vs.Get(sym.Choice(vs.Len())))
	case 5:
		vfs.PutText("data/d.x", "{", nil)
	case 6:
		vfs.Mkdir("data/d.x")
	}
	vfs.Put("data/e.x", m("k", 5))
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "data_hash", fn, "path", "d.x"), m("name", "1", "path", "e.x"))))
	s := newSession(nil)
	iv := s.Invocation(nil, nil)
	get := func() (v dgo.Value, err error) {
		err = try(func() { v = hiera.Lookup(iv, "k", nil, nil) })
		observe(v, err)
		return
	}
	first, err := get()
	if !bad {
		must(err)
		sym.Reach("good")
		sym.Assert(first != nil, "a file is not read")
		return
	}
	sym.Reach("bad")
	for i := 0; i < 2; i++ {
		sym.Assert(err != nil, "a file that does not hold a hash is not reported")
		sym.Assert(strings.Contains(err.Error(), "d.x"), "the error does not name the file")
		if sym.Bool() {
			iv = s.Invocation(nil, nil)
		}
		_, err = get()
	}
	// repaired
	vfs.Remove("data/d.x")
	var want dgo.Value = vf.Integer(5)
	if sym.Bool() {
		vfs.Put("data/d.x", m("k", 7))
		want = vf.Integer(7)
	}
	if sym.Bool() {
		iv = s.Invocation(nil, nil)
	}
	v, err := get()
	must(err)
	sym.Assert(same(v, want), "the failure is remembered instead of the data")
}

// C26Apart has levels with the same or other locations and functions.
func C26Apart() {
	start()
	files := []string{"a.x", "b.x"}
	src := map[int]int{} // what each function has for each location
	for i, b := range []int{10, 11, 20, 21, 30, 31, 25, 35} {
		src[b] = i
		if i < 4 {
			src[b] = sym.Int(0, 9)
		}
	}
	for i, f := range files {
		vfs.Put("data/"+f, m("k", a(src[10+i]), "lookup_options", m("k", m("merge", "unique"))))
	}
	mk := func(base int) func(pc sdk.ProviderContext) dgo.Value {
		return func(pc sdk.ProviderContext) dgo.Value {
			n := base
			if p := pc.Option("path"); p != nil {
				if strings.HasSuffix(p.String(), "b.x") {
					n++
				}
			} else if o := pc.Option("o"); o != nil {
				n += 5
			}
			return m("k", a(src[n]))
		}
	}
	fns := m("f", mk(20), "g", mk(30))
	var hier, want []interface{}
	glob := false
	for i := 0; i < sym.Bound("levels", 2); i++ {
		fn := pick("yaml_data", "json_data", "f", "g")
		l := m("name", lv(i), "data_hash", fn)
		base := map[string]int{"yaml_data": 10, "json_data": 10, "f": 20, "g": 30}[fn]
		switch sym.Choice(5) {
		case 3:
			glob = true // the order of files depends on the file system
			l.Put("glob", pick("*.x", "{a,b}.x"))
			want = append(want, src[base], src[base+1])
		case 4:
			l.Put("mapped_paths", a("fs", "f", "%{f}.x"))
			want = append(want, src[base+1], src[base])
		case 0:
			n := sym.Choice(2)
			l.Put("path", pick(files[n], "%{fs."+string([]byte{'1' - byte(n)})+"}.x"))
			want = append(want, src[base+n])
		case 1:
			n := sym.Choice(2)
			l.Put("paths", a(files[n], files[1-n]))
			want = append(want, src[base+n], src[base+1-n])
		default:
			sym.Assume(base > 10)
			if sym.Bool() {
				l.Put("options", m("o", 1))
				base += 5
			}
			want = append(want, src[base])
		}
		hier = append(hier, l)
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(hier...)))
	s := newSession(nil, api.HieraFunctions, fns)
	iv := s.Invocation(m("fs", a("b", "a")), nil)
	opts := m("merge", "unique")
	for i := 0; i < 2; i++ {
		var v dgo.Value
		must(try(func() { v = hiera.Lookup(iv, "k", nil, opts) }))
		if !glob {
			observe(v, nil)
		}
		sym.Reach("found")
		arr, ok := v.(dgo.Array)
		if !ok {
			sym.Assert(false, "not what the levels have")
		}
		w := vf.WrapSlice(nil)
		for _, x := range want {
			if !w.Any(func(e dgo.Value) bool { return e.Equals(x) }) {
				w.Add(x)
			}
		}
		if glob {
			ok := arr.Len() == w.Len()
			w.Each(func(e dgo.Value) { ok = ok && count(e, arr) == 1 })
			sym.Assert(ok, "a level does not have the data of its own location and function")
			continue
		}
		sym.Assert(same(arr, w), "a level does not have the data of its own location and function")
	}
}

// C26Yaml has the provider of one file.
func C26Yaml() {
	start()
	vfs.Put("d.x", m("k", sym.Int(0, 9), "j", "<%{lookup('k')}>", "r", a("%{alias('k')}")))
	mk := func() api.Session {
		if sym.Bool() {
			return newSession(provider.YamlLookupKey, "path", vfs.Path("d.x"))
		}
		return session.New(context.Background(), provider.YamlLookupKey, m("path", vfs.Path("d.x")), nil)
	}
	keys := []string{pick("k", "j", "e"), pick("k", "j", "none"), pick("k", "r")}
	var want []dgo.Value
	for _, k := range keys {
		v, err := lookup(mk(), nil, k, nil)
		must(err)
		want = append(want, v)
	}
	vfs.Watch("d.x")
	iv := mk().Invocation(nil, nil)
	for i, k := range keys {
		var v dgo.Value
		must(try(func() { v = hiera.Lookup(iv, k, nil, nil) }))
		observe(v, nil)
		sym.Reach("looked up")
		sym.Assert(same(v, want[i]), "a lookup does not see the content that the request has loaded")
		if i == 0 {
			change("d.x")
		}
	}
	sym.Assert(vfs.ReadCount("d.x") == 1, "a file is not loaded once")
}
