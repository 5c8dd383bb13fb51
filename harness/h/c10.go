package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/config"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
)

var functionKinds = []string{"data_dig", "data_hash", "lookup_key"}
var locationKinds = []string{"path", "paths", "glob", "globs", "uri", "uris", "mapped_paths"}

func locationValue(kind string) dgo.Value {
	switch kind {
	case "paths", "globs", "uris":
		return a(kind+"1", kind+"2")
	case "mapped_paths":
		return a("v", "x", "%{x}.yaml")
	}
	return vf.String(kind + "0")
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// specOptionName is the grammar of option names: a letter, then, if there is more, an optional colon and
// letters, digits, dashes and underscores of which the last is a letter or digit.
func specOptionName(s string) bool {
	if len(s) == 0 || !letter(s[0]) {
		return false
	}
	s = s[1:]
	if len(s) > 0 && s[0] == ':' {
		s = s[1:]
		if len(s) == 0 {
			return false
		}
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		alnum := letter(c) || c >= '0' && c <= '9'
		if !alnum && c != '-' && c != '_' || !alnum && i == len(s)-1 {
			return false
		}
	}
	return true
}

// config10 asks for the configuration; err is the error.
func config10(doc dgo.Value) (c api.Config, err error) {
	if doc == nil {
		vfs.PutNone("hiera.yaml", pick("", "# version: 5\n"))
	} else {
		vfs.Put("hiera.yaml", doc)
	}
	vfs.Put("data/common.yaml", m("k", "v"))
	err = try(func() { c = config.New(vfs.Path("hiera.yaml")) })
	if err != nil {
		_, e2 := lookup(newSession(nil), nil, "k", nil)
		sym.Assert(e2 != nil, "a lookup is answered although the configuration is rejected")
		sym.Observe("rejected")
	} else {
		sym.Observe("accepted")
	}
	return
}

// C10Levels loads configurations whose levels have any functions, locations, options and names.
func C10Levels() {
	start()
	valid := true
	var hier []interface{}
	names := map[string]bool{}
	key := "hierarchy"
	if sym.Choice(2) == 1 {
		key = "default_hierarchy"
	}
	n := 1 + sym.Choice(sym.Bound("levels", 2))
	part := sym.Choice(4)
	for i := 0; i < n; i++ {
		name := string([]byte{sym.Byte("ab")})
		if names[name] {
			valid = false
		}
		names[name] = true
		l := m("name", name)
		// the part that varies
		switch part {
		case 0:
			mask := sym.Choice(8)
			c := 0
			for j, k := range functionKinds {
				if mask>>j&1 == 1 {
					l.Put(k, "f")
					c++
				}
			}
			valid = valid && c <= 1
		case 1:
			if j := sym.Choice(8); j > 0 {
				l.Put(locationKinds[j-1], locationValue(locationKinds[j-1]))
			}
			if i == 0 {
				if j := sym.Choice(8); j > 0 {
					l.Put(locationKinds[j-1], locationValue(locationKinds[j-1]))
				}
				c := 0
				for _, k := range locationKinds {
					if l.Get(k) != nil {
						c++
					}
				}
				valid = valid && c <= 1
			}
		case 2:
			if i > 0 {
				break
			}
			on := pick("path", "uri", "paths", "Path", "")
			if on == "" {
				on = sym.String(0, sym.Bound("name", 3), "aZ:_0-.")
			}
			l.Put("options", m("a", sym.Int(0, 5), on, 2))
			valid = valid && specOptionName(on) && on != "path" && on != "uri"
		default:
			l.Put("datadir", "dd")
			l.Put("plugindir", "pd")
			l.Put("pluginfile", "pf")
			l.Put("path", "p")
			l.Put(functionKinds[sym.Choice(3)], "f")
			l.Put("options", m("x", m("y", a(1, vf.Nil))))
		}
		hier = append(hier, l)
	}
	doc := m("version", 5, key, a(hier...))
	c, err := config10(doc)
	if !valid {
		sym.Reach("malformed")
		sym.Assert(err != nil, "a malformed configuration is accepted")
		return
	}
	must(err)
	sym.Reach("well-formed")
	es := c.Hierarchy()
	if key == "default_hierarchy" {
		sym.Assert(len(es) == 2 && es[0].Name() == "Root" && es[1].Name() == "Common", "the default hierarchy is wrong")
		es = c.DefaultHierarchy()
	}
	sym.Assert(len(es) == n, "the number of levels is wrong")
	for i, e := range es {
		l := hier[i].(dgo.Map)
		text := func(k string) string {
			if v, ok := l.Get(k).(dgo.String); ok {
				return v.GoString()
			}
			return ""
		}
		sym.Assert(e.Name() == text("name"), "the name of a level is not the one written")
		sym.Assert(e.DataDir() == text("datadir") && e.PluginDir() == text("plugindir") && e.PluginFile() == text("pluginfile"), "a directory of a level is not as written")
		fn := 0
		for _, k := range functionKinds {
			if l.Get(k) != nil {
				fn++
				f := e.Function()
				sym.Assert(f != nil && string(f.Kind()) == k && f.Name() == text(k), "the function of a level is not as written")
			}
		}
		sym.Assert(fn == 1 || e.Function() == nil, "a level has a function that is not written")
		if o := l.Get("options"); o != nil {
			sym.Assert(same(e.Options(), o), "the options of a level are not as written")
		} else {
			sym.Assert(e.Options() == nil || e.Options().Len() == 0, "a level has options that are not written")
		}
		var want []string
		for _, k := range locationKinds {
			switch v := l.Get(k).(type) {
			case dgo.String:
				want = append(want, v.GoString())
			case dgo.Array:
				if k != "mapped_paths" {
					v.Each(func(x dgo.Value) { want = append(want, x.String()) })
				}
			}
		}
		if l.Get("mapped_paths") != nil {
			sym.Assert(len(e.Locations()) == 1 && e.Locations()[0].Kind() == api.LcMappedPaths, "mapped_paths is not as written")
			continue
		}
		sym.Assert(len(e.Locations()) == len(want), "the number of locations of a level is wrong")
		for j, w := range want {
			sym.Assert(e.Locations()[j].Original() == w, "a location of a level is not as written")
		}
	}
}

// C10Shape loads documents that have the shape of a configuration but for one detail.
func C10Shape() {
	start()
	l := m("name", "l", "path", "common.yaml")
	doc := m("version", 5, "defaults", m("datadir", "data"), "hierarchy", a(l))
	if c := sym.Choice(6); c > 0 {
		var top dgo.Value
		switch c {
		case 5:
		case 1:
			top = vf.String(sym.String(0, 2, "a "))
		case 2:
			top = a()
		case 3:
			top = vf.Nil
		default:
			top = m()
		}
		_, err := config10(top) // nil: no document
		sym.Reach("malformed")
		sym.Assert(err != nil, "a document that is not a configuration is accepted")
		return
	}
	if sym.Choice(2) == 1 {
		doc.Get("defaults").(dgo.Map).Put("lookup_key", "f")
	}
	target := []dgo.Map{doc, l, doc.Get("defaults").(dgo.Map)}[sym.Choice(3)]
	keys := []string{"version", "defaults", "hierarchy", "default_hierarchy", "name", "options", "data_dig", "data_hash", "lookup_key",
		"datadir", "plugindir", "pluginfile", "path", "paths", "glob", "globs", "uri", "uris", "mapped_paths", "other", "Name", ""}
	k := keys[sym.Choice(len(keys))]
	var v dgo.Value
	kind := sym.Choice(13)
	switch kind {
	case 0:
		v = vf.Integer(int64(sym.Int(3, 7)))
	case 1:
		v = vf.String(sym.String(0, 2, "a5"))
	case 2:
		v = a()
	case 3:
		v = a("x")
	case 4:
		v = a("x", "y", "z")
	case 5:
		v = a("x", "y", "z", "w")
	case 6:
		v = a(sym.Int(0, 9), "y", "z")
	case 7:
		v = m()
	case 8:
		v = m("a", 1)
	case 9:
		v = vf.Boolean(sym.Bool())
	case 10:
		v = m(pick("path", "uri"), "x")
	case 11:
		v = m("path", m())
	default:
		v = vf.Nil
	}
	if sym.Choice(10) == 0 && target.Get(k) != nil {
		target.Remove(k)
		v = nil
	} else {
		target.Put(k, v)
	}
	valid := specConfig(doc)
	_, err := config10(doc)
	if valid {
		sym.Reach("well-formed")
		must(err)
	} else {
		sym.Reach("malformed")
		sym.Assert(err != nil, "a malformed configuration is accepted")
	}
}

func nonEmpty(v dgo.Value) bool {
	s, ok := v.(dgo.String)
	return ok && len(s.GoString()) > 0
}

func nonEmptyAll(v dgo.Value, min, max int) bool {
	x, ok := v.(dgo.Array)
	if !ok || x.Len() < min || x.Len() > max {
		return false
	}
	for i := 0; i < x.Len(); i++ {
		if !nonEmpty(x.Get(i)) {
			return false
		}
	}
	return true
}

func specConfig(doc dgo.Map) bool {
	ok := true
	doc.EachEntry(func(e dgo.MapEntry) {
		switch e.Key().String() {
		case "version":
			n, is := e.Value().(dgo.Integer)
			ok = ok && is && n.GoInt() == 5
		case "defaults":
			ok = ok && specLevel(e.Value(), false)
		case "hierarchy", "default_hierarchy":
			h, is := e.Value().(dgo.Array)
			ok = ok && is
			for i := 0; is && i < h.Len(); i++ {
				ok = ok && specLevel(h.Get(i), true)
			}
		default:
			ok = false
		}
	})
	return ok && doc.Get("version") != nil
}

func specLevel(v dgo.Value, level bool) bool {
	l, ok := v.(dgo.Map)
	if !ok {
		return false
	}
	locs, fns := 0, 0
	l.EachEntry(func(e dgo.MapEntry) {
		v := e.Value()
		switch k := e.Key().String(); k {
		case "data_dig", "data_hash", "lookup_key":
			fns++
			ok = ok && nonEmpty(v)
		case "datadir", "plugindir":
			ok = ok && nonEmpty(v)
		case "options":
			o, is := v.(dgo.Map)
			ok = ok && is
			if is {
				o.EachKey(func(k dgo.Value) {
					ok = ok && specOptionName(k.String()) && k.String() != "path" && k.String() != "uri"
				})
			}
		case "name", "pluginfile":
			ok = ok && level && nonEmpty(v)
		case "path", "glob", "uri":
			locs++
			ok = ok && level && nonEmpty(v)
		case "paths", "globs", "uris":
			locs++
			ok = ok && level && nonEmptyAll(v, 1, 99)
		case "mapped_paths":
			locs++
			ok = ok && level && nonEmptyAll(v, 3, 3)
		default:
			ok = false
		}
	})
	return ok && locs <= 1 && fns <= 1 && (!level || l.Get("name") != nil)
}
