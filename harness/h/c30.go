package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/merge"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// decode is the value that rich data stands for.
func decode(v dgo.Value) dgo.Value {
	d := streamer.DataDecoder(nil, streamer.DgoDialect())
	streamer.New(nil, streamer.DefaultOptions()).Stream(v, d)
	return d.Value()
}

// readBack renders an explanation as data and reads it.
func readBack(s api.Session, ex dgo.Value, form hiera.RenderName) (r dgo.Value) {
	out := &strings.Builder{}
	must(try(func() { hiera.Render(s, form, ex, out) }))
	if form == hiera.JSON {
		must(try(func() { r = streamer.UnmarshalJSON([]byte(out.String()), nil) }))
		return r
	}
	v, err := yaml.Unmarshal([]byte(out.String()))
	must(err)
	must(try(func() { r = decode(v) }))
	return r
}

// checkReadBack renders an explanation as data, reads it, and compares the two.
func checkReadBack(s api.Session, ex api.Explainer, yaml, again bool) api.Explainer {
	text := ex.String()
	observeText(text)
	form := hiera.JSON
	if yaml {
		form = hiera.YAML
	}
	r := readBack(s, ex, form)
	x, ok := r.(api.Explainer)
	sym.Assert(ok, "an explanation is not read back as an explanation")
	sym.Assert(x.String() == text, "an explanation that is read back says something else")
	sym.Assert(x.Options() == ex.Options() && x.OnlyOptions() == ex.OnlyOptions(), "an explanation that is read back has other settings")
	sym.Assert(ex.String() == text, "rendering an explanation changes it")
	if !again {
		return x
	}
	for _, e := range []api.Explainer{x, ex} {
		e.PushLookup(api.NewKey("later"))
		e.AcceptFound("later", vf.Integer(7))
		e.Pop()
	}
	sym.Assert(x.String() == ex.String() && len(x.String()) > len(text), "an explanation that is read back is not continued like the original")
	y, ok := readBack(s, x, form).(api.Explainer)
	sym.Assert(ok && y.String() == x.String(), "an explanation that is read back twice says something else")
	return x
}

// C30Lookup explains lookups of every kind.
func C30Lookup() {
	start()
	n := sym.Int(1, 9)
	v := dgo.Value(nil)
	key := "k"
	module := false
	lo := m()
	var opts dgo.Map
	yaml := false
	switch sym.Choice(10) {
	case 0:
		v = m("x", a(n, m("y", vf.Nil)), "z", "%{var}")
		key = pick("k", "k.x.1.y", "k.0", "k.x.9")
		yaml = key == "k.x.1.y"
	case 1:
		v = a(n, "%{lookup('o.p')}")
		if sym.Bool() {
			opts = m("merge", "unique")
		}
	case 2:
		v = vf.String(sym.String(0, 1, "a\"%") + "%{alias('o')}")
	case 3:
		v = vf.String("%{alias('o')}")
	case 4:
		v = vf.String("%{nope('x')}")
	case 5:
		key = pick("mod::k", "other::k")
		v = vf.Value(n)
		module = true
	case 6:
		key = pick("uk", "none.'1'", "lookup_options.k")
	case 7:
		v = m("x", a(n))
		lo = m("k", m("merge", m("strategy", "deep", "some", a("option", n))))
		yaml = true
	case 8:
		v = a(vf.Nil, "%{var}")
		lo = m("k", m("convert_to", "sensitive", "merge", "unique"))
	default:
		opts = m("merge", "hash")
	}
	d := m("z", 1)
	if v != nil {
		d.Put("k", v)
		d.Put("mod::k", v)
	}
	vfs.Put("data/a.yaml", d)
	vfs.Put("data/b1.yaml", m("k", m("x", a(1)), "o", m("p", n), "lookup_options", lo))
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(
		m("name", "0", "lookup_key", "f", "uris", a("http://u/%{var}", "other:1")),
		m("name", "1", "paths", a("gone.yaml", "%{var}.yaml")),
		m("name", "2", "glob", "b*.yaml"))))
	if module {
		vfs.Put("mods/mod/hiera.yaml", m("version", 5, "hierarchy", a(m("name", "m", "path", "m.yaml"))))
		vfs.Put("mods/mod/data/m.yaml", m("mod::k", a(n)))
	}
	fns := m("f", func(pc sdk.ProviderContext, key string) dgo.Value {
		if u := pc.Option("uri"); u != nil && u.String() == "other:1" && key == "uk" {
			return vf.Nil
		}
		return nil
	})
	lkf := a(sdk.LookupKey(provider.ConfigLookupKey), sdk.LookupKey(provider.ModuleLookupKey))
	top := sdk.LookupKey(provider.MuxLookupKey)
	switch sym.Choice(3) {
	case 1:
		lkf = a(sdk.LookupKey(provider.ModuleLookupKey), sdk.LookupKey(provider.Environment))
	case 2:
		top = provider.ModuleLookupKey
	}
	s := newSession(top, api.HieraFunctions, fns, provider.ModulePath, vfs.Path("mods"),
		provider.LookupKeyFunctions, lkf)
	ex := explain.NewExplainer(true, false)
	if lo.Len() == 0 {
		ex = explain.NewExplainer(key == "lookup_options.k" || key == "other::k", key == "none.'1'" || key == "lookup_options.k")
	}
	err := try(func() { hiera.Lookup(s.Invocation(m("var", "a"), ex), key, nil, opts) })
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("explained")
	}
	x := checkReadBack(s, ex, yaml, false)
	if yaml {
		return
	}
	// both go on with another lookup
	for _, e := range []api.Explainer{x, ex} {
		_ = try(func() { hiera.Lookup(s.Invocation(nil, e), "z.9", nil, nil) })
	}
	sym.Assert(x.String() == ex.String(), "an explanation that is read back does not go on like the original")
}

type provider30 struct{ api.DataProvider }

func (provider30) FullName() string { return "the \"provider\"" }

// C30Nodes makes any explanation.
func C30Nodes() {
	start()
	s := newSession(nil)
	ex := explain.NewExplainer(true, false)
	word := func() string { return sym.String(0, 1, "a\".") + "w" }
	depth := 0
	for i := sym.Bound("steps", 2); i > 0; i-- {
		switch sym.Choice(10) {
		case 0:
			ex.PushLookup(api.NewKey(pick("k", "'k.l'.3.\"m\"")))
			depth++
		case 1:
			ex.PushSubLookup(api.NewKey("'k.l'.3.'1'"))
			depth++
		case 2:
			if sym.Bool() {
				ex.PushSegment(11)
			} else {
				ex.PushSegment(word())
			}
			depth++
		case 3:
			ex.PushInterpolation(word())
			depth++
		case 4:
			ex.PushModule(word())
			if sym.Bool() {
				ex.AcceptModuleNotFound()
			}
			depth++
		case 5:
			if sym.Bool() {
				ex.PushMerge(merge.GetStrategy("deep", m("x", a(1))))
			} else {
				ex.PushMerge(merge.GetStrategy(pick("first", "unique"), nil))
			}
			depth++
		case 6:
			ex.PushInvalidKey(word())
			depth++
		case 7:
			ex.PushDataProvider(provider30{})
			depth++
		case 8:
			ex.AcceptText(word())
		default:
			ex.AcceptMergeSource(word())
		}
		if depth == 0 {
			continue
		}
		kind := 7
		if i == 1 {
			kind = sym.Choice(8)
		}
		switch kind {
		case 0:
			ex.AcceptFound("w", vf.Value(sym.Int(0, 9)))
		case 1:
			v := dgo.Value(vf.Nil)
			if sym.Bool() {
				v = m("a", a(vf.Nil, "w"))
			}
			ex.AcceptFound(3, v)
		case 2:
			ex.AcceptFoundInDefaults("w", vf.Value(sym.Int(0, 9)))
		case 3:
			ex.AcceptFoundInOverrides("w", vf.True)
		case 4:
			ex.AcceptNotFound("w")
		case 5:
			ex.AcceptNotFound(1)
		case 6:
			ex.AcceptMergeResult(a(1, "w"))
		}
		if sym.Bool() {
			ex.Pop()
			depth--
		}
	}
	for ; depth > 0; depth-- {
		ex.Pop()
	}
	sym.Reach("explained")
	checkReadBack(s, ex, false, true)
}
