package h

import (
	"path/filepath"

	"github.com/bmatcuk/doublestar"
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// recorder is a lookup_key function without data that records the paths it is asked for.
type recorder struct {
	asked []string
	s     api.Session
}

func (r *recorder) fn(pc sdk.ProviderContext, key string) dgo.Value {
	if p := pc.Option("path"); p != nil {
		r.asked = append(r.asked, p.String())
	} else {
		r.asked = append(r.asked, "-")
	}
	return nil
}

func (r *recorder) check(want []string) {
	sym.ObserveInt(int64(len(r.asked))) // the order of globs depends on the file system
	ok := len(r.asked) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = r.asked[i] == want[i]
	}
	sym.Assert(ok, "the level is not asked for its existing files in order")
}

// asks looks up a key that nobody has, with levels of recording functions.
func (r *recorder) asks(scope dgo.Map, levels ...interface{}) {
	for i, l := range levels {
		l := l.(dgo.Map)
		l.Put("name", lv(i))
		l.Put("lookup_key", "rec")
	}
	vfs.Put("hiera.yaml", m("version", 5, "defaults", m("datadir", "d%{dir}"), "hierarchy", a(levels...)))
	r.s = newSession(nil, api.HieraFunctions, m("rec", r.fn))
	r.again(scope)
}

// again looks up the key in another request.
func (r *recorder) again(scope dgo.Map) {
	inv := r.s.Invocation(scope, nil)
	must(try(func() { inv.Config("", "") })) // the lookup options
	r.asked = nil
	var v dgo.Value
	must(try(func() { v = inv.Lookup(mustKey("k"), nil) }))
	sym.Assert(v == nil, "something is found")
}

// C11Paths expands path and paths with any of the files missing.
func C11Paths() {
	start()
	dir := pick("", "2")
	v := sym.String(0, sym.Bound("len", 2), "ab./")
	ps := []string{"a.yaml", "%{v}.yaml", "sub/%{v}/b.yaml", "%{none}c.yaml", "../e.yaml"}
	ex := func(p string) string {
		return filepath.Clean(vfs.Path("d"+dir) + "/" + expand(expandNone(p), v))
	}
	have := map[string]bool{}
	for _, p := range ps {
		if sym.Choice(2) == 1 {
			f := ex(p)
			sym.Assume(f[:len(vfs.Root)] == vfs.Root)
			have[f] = true
			vfs.Put(f[len(vfs.Root)+1:], m("k", 1))
		}
	}
	var l dgo.Map
	var order []string
	switch sym.Choice(3) {
	case 0:
		order = ps[1:2]
		l = m("path", order[0])
	case 1:
		order = ps
		l = m("paths", a("a.yaml", "%{v}.yaml", "sub/%{v}/b.yaml", "%{none}c.yaml", "../e.yaml"))
	default:
		order = []string{ps[4], ps[0], ps[0], ps[2]}
		l = m("paths", a(ps[4], ps[0], ps[0], ps[2]))
	}
	wanted := func() (want []string) {
		for _, p := range order {
			if have[ex(p)] {
				want = append(want, ex(p))
			}
		}
		return
	}
	want := wanted()
	r := &recorder{}
	r.asks(m("v", v, "dir", dir), l)
	if len(want) == 0 {
		sym.Reach("none")
	} else {
		sym.Reach("some")
	}
	r.check(want)
	// the next request sees the files that exist then
	f := ex(order[sym.Choice(len(order))])
	sym.Assume(f[:len(vfs.Root)] == vfs.Root)
	if have[f] = !have[f]; have[f] {
		vfs.Put(f[len(vfs.Root)+1:], m("k", 1))
	} else {
		vfs.Remove(f[len(vfs.Root)+1:])
	}
	if sym.Bool() { // with other variables
		dir = map[string]string{"": "2", "2": ""}[dir]
		f := "d" + dir + "/a.yaml"
		if !have[vfs.Path(f)] {
			have[vfs.Path(f)] = true
			vfs.Put(f, m("k", 1))
		}
	}
	r.again(m("v", v, "dir", dir))
	r.check(wanted())
}

func expandNone(s string) string {
	const none = "%{none}"
	if len(s) > len(none) && s[:len(none)] == none {
		return s[len(none):]
	}
	return s
}

// C11Globs expands glob and globs over directories with any of the files.
func C11Globs() {
	start()
	v := pick("a", "b")
	files := []string{"a.yaml", "b.yaml", "ab.yaml", "s/a.yaml", "s/t/a.yaml", ".h.yaml", "a.json"}
	matches := map[string][]bool{ // written out by hand
		"*.yaml":      {true, true, true, false, false, true, false},
		"**/a.yaml":   {true, false, false, true, true, false, false},
		"?.yaml":      {true, true, false, false, false, false, false},
		"s/*":         {false, false, false, true, false, false, false}, // and s/t if it is there
		"{a,b}.yaml":  {true, true, false, false, false, false, false},
		"none*":       {false, false, false, false, false, false, false},
		"[b-c]*.yaml": {false, true, false, false, false, false, false},
		"a.yaml":      {true, false, false, false, false, false, false},
	}
	have := make([]bool, len(files))
	for i, f := range files {
		if have[i] = sym.Choice(2) == 1; have[i] {
			vfs.Put("d/"+f, m("k", 1))
		}
	}
	sym.Assume(sym.Bound("all", 0) != 0 || !have[5] || !have[6])
	var globs []string
	var l dgo.Map
	g := pick("*.yaml", "**/a.yaml", "?.yaml", "s/*", "{a,b}.yaml", "none*", "[b-c]*.yaml", "%{v}.yaml")
	if sym.Choice(2) == 0 {
		l = m("glob", g)
		globs = []string{g}
	} else {
		l = m("globs", a(g, "none*", "*.yaml"))
		globs = []string{g, "none*", "*.yaml"}
	}
	var want []string
	wanted := func() {
		want = nil
		for _, g := range globs {
			if g == "%{v}.yaml" {
				g = v + ".yaml"
			}
			ms, err := doublestar.Glob(vfs.Path("d/" + g))
			must(err)
			if mt := matches[g]; mt != nil {
				n := 0
				for i, h := range have {
					if h && mt[i] {
						n++
					}
				}
				if g == "s/*" && have[4] {
					n++
				}
				sym.Assert(n == len(ms), "the matcher does not match as documented")
			}
			want = append(want, ms...)
		}
		if len(want) == 0 {
			sym.Reach("none")
		} else {
			sym.Reach("some")
		}
		if have[0] {
			want = append(want, vfs.Path("d/a.yaml"))
		}
	}
	wanted()
	r := &recorder{}
	r.asks(m("v", v), l, m("path", "a.yaml"))
	r.check(want)
	// the next request sees the files that exist then
	if have[0] = !have[0]; have[0] {
		vfs.Put("d/a.yaml", m("k", 1))
	} else {
		vfs.Remove("d/a.yaml")
	}
	v = map[string]string{"a": "b", "b": "a"}[v]
	wanted()
	r.again(m("v", v))
	r.check(want)
}

// C11Mapped expands mapped_paths for any value of the variable.
func C11Mapped() {
	start()
	x := sym.String(1, 1, "pq")
	y := pick("y", "z")
	scope := m("y", y, "x", "outer")
	src := pick("src", "f.src", "f.list.0")
	var elems []string
	var sv dgo.Value
	switch sym.Choice(8) {
	case 0:
		sv = vf.String(x)
		elems = []string{x}
	case 1:
		sv = a(x, "b", "a", x)
		elems = []string{x, "b", "a", x}
	case 2:
		sv = a()
	case 3:
	case 4:
		sv = vf.Integer(3)
	case 5:
		sv = a("%{y}", 7)
		elems = []string{y, "7"}
	case 6:
		sv = a("c")
		elems = []string{"c"}
	default:
		sv = m("a", "b")
	}
	if sv != nil {
		switch src {
		case "src":
			scope.Put("src", sv)
		case "f.src":
			scope.Put("f", m("src", sv))
		default:
			scope.Put("f", m("list", a(sv)))
		}
	}
	key := pick("x", "v", "y")
	tmpl := pick("%{"+key+"}.yaml", "%{y}/%{"+key+"}.yaml", "fixed.yaml")
	path := func(e string) string {
		yy := y
		if key == "y" {
			yy = e
		}
		switch tmpl[:3] {
		case "fix":
			return "d/fixed.yaml"
		case "%{y":
			if tmpl != "%{y}.yaml" {
				return "d/" + yy + "/" + e + ".yaml"
			}
		}
		return "d/" + e + ".yaml"
	}
	have := map[string]bool{}
	for _, e := range append(elems[:len(elems):len(elems)], "outer") {
		p := path(e)
		if !have[p] && sym.Choice(2) == 1 {
			have[p] = true
			vfs.Put(p, m("k", 1))
		}
	}
	var want []string
	for _, e := range elems {
		if have[path(e)] {
			want = append(want, vfs.Path(path(e)))
		}
	}
	if len(want) == 0 {
		sym.Reach("none")
	} else {
		sym.Reach("some")
	}
	// the next levels see the scope without the mapping variable
	vfs.Put("d/outer.yaml", m())
	vfs.Put("d/.yaml", m())
	if key == "x" && path("outer") == "d/outer.yaml" {
		for i, e := range elems {
			_ = i
			sym.Assume(e != "outer")
		}
	}
	want = append(want, vfs.Path("d/outer.yaml"), vfs.Path("d/.yaml"), "-")
	r := &recorder{}
	r.asks(scope, m("mapped_paths", a(src, key, tmpl)), m("path", "%{x}.yaml"), m("path", "%{v}.yaml"), m())
	r.check(want)
	// another request has no such variable
	r.again(m("y", y, "x", "outer"))
	r.check(want[len(want)-3:])
}

// C11URI asks for uris without looking whether they exist.
func C11URI() {
	start()
	v := sym.String(0, 2, "ab:/?%")
	l := m("uri", "http://%{v}x")
	want := func(v string) []string { return []string{"http://" + v + "x"} }
	if sym.Choice(2) == 1 {
		l = m("uris", a("u:%{v}", "http://b", "u:%{v}"))
		want = func(v string) []string { return []string{"u:" + v, "http://b", "u:" + v} }
	}
	r := &recorder{}
	r.asks(m("v", v), l)
	sym.Reach("asked")
	r.check(want(v))
	// another request has other variables
	r.again(m("v", "w"))
	r.check(want("w"))
}
