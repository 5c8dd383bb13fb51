package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

func value16() dgo.Value {
	switch sym.Choice(8) {
	case 0:
		return vf.String("%{lookup('o')}%{x}")
	case 1:
		return a(small(), "%{alias('o')}")
	case 2:
		return m("n", m(lv(sym.Choice(2)), small()), "%{x}", 1)
	case 3:
		return vf.String("%{bad('x')}")
	case 4:
		return vf.String("%{" + sym.String(1, 1, "{}x"))
	case 5:
		return vf.String("%{lookup('o.n')}%{lookup('k')}")
	case 6:
		return vf.Nil
	default:
		return vf.Integer(int64(sym.Int(0, 9)))
	}
}

// C16Result looks up with and without an explainer.
func C16Result() {
	start()
	n := sym.Bound("levels", 2)
	var hier []interface{}
	var paths []interface{}
	split := sym.Choice(2) == 1
	for i := 0; i < n; i++ {
		f := lv(i) + ".yaml"
		d := m("z", "%{x}")
		if i < n-1 {
			switch sym.Choice(3) {
			case 0:
				d = nil
			case 1:
			default:
				d.Put("k", value16())
			}
		} else {
			switch sym.Choice(3) {
			case 0:
			case 1:
				d.Put("k", small())
			default:
				d.Put("k", m("n", m("l0", small()), "l", 1))
			}
			d.Put("o", m("n", sym.Int(0, 9)))
			if sym.Choice(2) == 1 {
				d.Put("lookup_options", m("k", m("merge", pick("unique", "deep"))))
			}
		}
		if d != nil {
			vfs.Put("data/"+f, d)
		}
		if split {
			paths = append(paths, f)
		} else {
			hier = append(hier, m("name", lv(i), "path", f))
		}
	}
	if split {
		hier = append(hier, m("name", "many", "paths", a(paths...)))
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(hier...)))
	key := pick("k", "k.n.l0", "lookup_options.x")
	var opts dgo.Map
	if sym.Choice(2) == 1 {
		opts = m("merge", "hash")
	}
	tp := sdk.LookupKey(provider.ConfigLookupKey)
	var o []interface{}
	if opts == nil && sym.Choice(2) == 1 {
		tp = provider.MuxLookupKey
		o = []interface{}{provider.LookupKeyFunctions, a(sdk.LookupKey(provider.ConfigLookupKey), sdk.LookupKey(provider.Environment))}
	}
	s := newSession(tp, o...)
	get := func(ex api.Explainer) (v dgo.Value, err error) {
		iv := s.Invocation(m("x", 3), ex)
		err = try(func() { v = hiera.Lookup(iv, key, nil, opts) })
		return
	}
	v, err := get(nil)
	observe(v, err)
	mode := sym.Choice(3)
	ex := explain.NewExplainer(mode == 1 || mode == 2 && key != "k", mode == 2)
	v2, err2 := get(ex)
	if err != nil {
		sym.Reach("error")
		sym.Assert(err2 != nil && err.Error() == err2.Error(), "the lookup does not fail in the same way with an explainer")
	} else {
		if v == nil {
			sym.Reach("not found")
		} else {
			sym.Reach("found")
		}
		must(err2)
		sym.Assert(same(v, v2), "the result is another one with an explainer")
	}
	// the explanation can be shown, and a later lookup is explained on its own
	out := &strings.Builder{}
	must(try(func() { hiera.Render(s, hiera.Text, ex, out) }))
	observeText(out.String())
	text := ex.String()
	sym.Assert(out.String() == text+"\n", "the explanation is not rendered")
	err = try(func() { hiera.Lookup(s.Invocation(m("x", 3), ex), "z", nil, nil) })
	must(err)
	after := ex.String()
	sym.Assert(strings.HasPrefix(after, text), "a later lookup changes the explanation of an earlier one")
	if mode < 2 {
		sym.Assert(strings.Contains(after[len(text):], "Searching for \"z\"\n"), "a later lookup is not explained")
		sym.Assert(mode == 1 || strings.Count("\n"+after, "\nSearching for") == strings.Count("\n"+text, "\nSearching for")+1, "a later lookup is explained as part of an earlier one")
	} else {
		sym.Assert(!strings.Contains(after, "Searching for \"k\""), "data is explained when only options are asked for")
	}
}

// C16Found counts what an explanation reports as found.
func C16Found() {
	start()
	n := sym.Bound("levels", 2)
	vals := make([]dgo.Value, n)
	missing := make([]bool, n)
	var hier []interface{}
	merged := sym.Choice(2) == 1
	found, none, lost, bad := 0, 0, 0, false
	var over bool
	var paths []interface{}
	split := sym.Choice(2) == 1
	for i := 0; i < n; i++ {
		f := lv(i) + ".yaml"
		switch sym.Choice(5) {
		case 0:
			missing[i] = true
		case 1:
			vfs.Put("data/"+f, m("z", 0))
		case 2:
			vals[i] = a(sym.Int(100, 199))
			vfs.Put("data/"+f, m("k", vals[i]))
		case 3:
			vals[i] = vf.Nil
			vfs.Put("data/"+f, m("k", vals[i]))
		default:
			vfs.Put("data/"+f, m("k", "%{bad('x')}"))
			if !over {
				bad = true
				over = true
			}
		}
		if !over {
			switch {
			case missing[i]:
				lost++
			case vals[i] == nil:
				none++
			default:
				found++
				over = !merged
			}
		}
		if split {
			paths = append(paths, f)
		} else {
			hier = append(hier, m("name", lv(i), "path", f))
		}
	}
	if split {
		hier = append(hier, m("name", "many", "paths", a(paths...)))
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(hier...)))
	s := newSession(nil)
	ex := explain.NewExplainer(false, false)
	var opts dgo.Map
	if merged {
		opts = m("merge", "unique")
	}
	v, err := dgo.Value(nil), error(nil)
	iv := s.Invocation(nil, ex)
	err = try(func() { v = iv.Lookup(mustKey("k"), opts) })
	observe(v, err)
	sym.Assert((err != nil) == bad, "the lookup fails when it should not, or does not fail")
	text := ex.String()
	observeText(text)
	sym.Assert(strings.Count(text, "Found key: \"k\" value:") == found, "other values are reported as found than the lookup found")
	sym.Assert(strings.Count(text, "No such key: \"k\"") == none, "other keys are reported as not found than were not found")
	sym.Assert(strings.Count(text, "path not found") == lost, "other files are reported as missing than are missing")
	sym.Assert(strings.Count(text, "Merged result:") == 0 || merged && !bad && found > 0, "a merged result is reported that is none")
	sym.Assert(!merged || bad || found == 0 || n < 2 || strings.Contains(text, "Merged result:"), "the merged result is not reported")
	if bad {
		sym.Reach("error")
	} else if v == nil {
		sym.Reach("not found")
	} else {
		sym.Reach("found")
	}
}

// C16Segments compares what is reported for the segments of a key with what digging finds.
func C16Segments() {
	start()
	mark := sym.Int(100, 199)
	vfs.Put("data/l0.yaml", m("z", 0))
	v := m("x", a(m("y", mark), vf.Nil, a(mark+1000)), "s", "%{v}", "0", mark+2000)
	vfs.Put("data/l1.yaml", m("k", v))
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "l0.yaml"), m("name", "1", "path", "l1.yaml"))))
	v = m("x", a(m("y", mark), vf.Nil, a(mark+1000)), "s", "V", "0", mark+2000)
	n := 1 + sym.Choice(sym.Bound("segs", 2))
	key := "k"
	var segs []dseg
	var texts []string
	for i := 0; i < n; i++ {
		switch sym.Choice(5) {
		case 0:
			j := sym.Int(0, 3)
			d := string([]byte{'0' + byte(j)})
			segs = append(segs, dseg{isInt: true, n: j})
			texts = append(texts, d)
			key += "." + d
		case 1:
			segs = append(segs, dseg{s: "0"})
			texts = append(texts, "0")
			key += ".'0'"
		default:
			s := pick("x", "y", "s")
			segs = append(segs, dseg{s: s})
			texts = append(texts, s)
			key += "." + s
		}
	}
	ex := explain.NewExplainer(false, false)
	iv := newSession(nil).Invocation(m("v", "V"), ex)
	var got dgo.Value
	must(try(func() { got = hiera.Lookup(iv, key, nil, nil) }))
	observe(got, nil)
	sym.Assert(same(got, specDig(v, segs)), "digging finds another value")
	text := ex.String()
	observeText(text)
	i := strings.Index(text, "Sub key:")
	sym.Assert(i >= 0, "the segments are not explained")
	var at dgo.Value = v
	want := "\""
	for j := range segs {
		if at = specDig(at, segs[j:j+1]); at == nil {
			want += "Nosuchkey:" + `"` + texts[j] + `"`
			break
		}
		want += "Foundkey:" + `"` + texts[j] + `"` + "value:" + text16(at)
	}
	sym.Observe(squeeze(text[i:]))
	sym.Observe(want)
	sym.Assert(strings.HasSuffix(squeeze(text[i:]), want), "other values are reported for the segments of a key than digging finds")
	if got == nil {
		sym.Reach("not found")
	} else {
		sym.Reach("found")
	}
}

// text16 is what an explanation shows of a value, without white space.
func text16(v dgo.Value) string {
	var es []string
	switch v := v.(type) {
	case dgo.Nil:
		return "nil" // also in a value that is null by itself
	case dgo.String:
		return "\"" + v.GoString() + "\""
	case dgo.Array:
		v.Each(func(e dgo.Value) { es = append(es, text16(e)) })
		return "{" + strings.Join(es, ",") + "}"
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { es = append(es, text16(e.Key())+":"+text16(e.Value())) })
		return "{" + strings.Join(es, ",") + "}"
	}
	return v.String()
}

// squeeze is the text without white space.
func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\n' {
			return -1
		}
		return r
	}, s)
}

// C16Render shows explanations in the other forms.
func C16Render() {
	start()
	vfs.Put("data/l0.yaml", m("k", m("a", a("%{x}", sym.Int(0, 9))), "lookup_options", m("k", m("merge", "deep"))))
	vfs.Put("data/l1.yaml", m("k", m("a", a("%{lookup('o')}")), "o", 4))
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "l0.yaml"), m("name", "1", "paths", a("l1.yaml", "none.yaml")))))
	s := newSession(nil)
	cmd := &hiera.CommandOptions{
		Merge:          pick("", "first", "deep"),
		Variables:      []string{"x=1"},
		RenderAs:       pick("", "s", "yaml", "json"),
		ExplainData:    sym.Bool(),
		ExplainOptions: sym.Bool(),
		LookupAll:      sym.Choice(2) == 1,
	}
	key := pick("k", "k.a.1", "none")
	out := &strings.Builder{}
	ok := false
	must(try(func() { ok = hiera.LookupAndRender(s, cmd, []string{key}, out) }))
	sym.Assert(ok == (key != "none" || cmd.LookupAll), "the outcome is not reported")
	cmd.ExplainData, cmd.ExplainOptions = false, false
	plain := &strings.Builder{}
	var ok2 bool
	must(try(func() { ok2 = hiera.LookupAndRender(s, cmd, []string{key}, plain) }))
	sym.Assert(ok == ok2, "the outcome is another one with an explanation")
	sym.ObserveInt(int64(len(strings.Replace(out.String(), vfs.Root, "/w", -1))))
	sym.Reach("rendered")
}
