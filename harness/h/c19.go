package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// withOptions makes lookup options of the key.
func withOptions(lo dgo.Map, key string, merge, conv dgo.Value) {
	o := m()
	if merge != nil {
		o.Put("merge", merge)
	}
	if conv != nil {
		o.Put("convert_to", conv)
	}
	if o.Len() > 0 {
		lo.Put(key, o)
	}
}

func mergeOrNone(ss ...string) dgo.Value {
	k := sym.Choice(len(ss) + 1)
	if k == 0 {
		return nil
	}
	return vf.String(ss[k-1])
}

// C19Nested looks up a key whose value refers to another; the same data with the value looked up directly
// in place of the reference must give the same.
func C19Nested() {
	start()
	key := pick("n", "n.0", "n.h", "none")
	om, nm := mergeOrNone("unique", "deep", "hash"), mergeOrNone("unique", "deep")
	var conv, oconv dgo.Value
	switch sym.Choice(4) {
	case 1:
		conv = vf.String("string")
	case 2:
		conv = vf.String("int")
	case 3:
		oconv = vf.String("string")
	}
	lo := m()
	withOptions(lo, "o", om, oconv)
	withOptions(lo, "n", nm, conv)
	n0, n1 := vf.Value(a(sym.Int(0, 1), "p")), vf.Value(a(sym.Int(0, 1), 5))
	if strings.HasSuffix(key, "h") || sym.Choice(2) == 1 {
		n0, n1 = m("h", sym.Int(0, 3)), m("h", sym.Int(0, 3), "i", 2)
	}
	alias := sym.Choice(2) == 1
	form := sym.Choice(3)
	shape := func(x dgo.Value) dgo.Value {
		if !alias {
			x = vf.String("<" + x.String() + ">")
		}
		switch form {
		case 1:
			return a("q", x)
		case 2:
			return m("c", x, "d", 1)
		}
		return x
	}
	ref := vf.String("%{lookup(\"" + key + "\")}")
	if alias {
		ref = vf.String("%{alias('" + key + "')}")
	}
	var top sdk.LookupKey
	var opts []interface{}
	if sym.Choice(2) == 1 {
		top = provider.MuxLookupKey
		opts = []interface{}{provider.LookupKeyFunctions, a(sdk.LookupKey(provider.Environment), sdk.LookupKey(provider.ConfigLookupKey))}
	}
	put := func(o dgo.Value) {
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "l0.yaml"), m("name", "1", "path", "l1.yaml"))))
		vfs.Put("data/l0.yaml", m("o", o, "n", n0))
		vfs.Put("data/l1.yaml", m("o", shape(vf.String("low")), "n", n1, "lookup_options", lo))
	}
	var callers dgo.Value
	if om == nil && sym.Choice(2) == 1 {
		callers = m("merge", "deep")
	}
	put(shape(ref))
	var direct dgo.Value
	derr := tryAny(func() { direct = newSession(top, opts...).Invocation(nil, nil).Lookup(mustKey(key), nil) })
	s := newSession(top, opts...)
	var v, w dgo.Value
	iv := s.Invocation(nil, nil)
	err := tryAny(func() { v = iv.Lookup(mustKey("o"), mapOf(callers)) })
	observe(v, err)
	if derr != nil {
		sym.Reach("error")
		sym.Assert(err != nil, "a nested lookup hides the error of a direct one")
		return
	}
	if direct == nil {
		sym.Reach("not found")
		direct = vf.String("")
	}
	put(shape(direct))
	werr := tryAny(func() { w = newSession(top, opts...).Invocation(nil, nil).Lookup(mustKey("o"), mapOf(callers)) })
	if werr != nil {
		sym.Reach("error")
		sym.Assert(err != nil, "a nested lookup hides an error")
		return
	}
	sym.Reach("found")
	must(err)
	sym.Assert(sameOrder(v, w), "a nested lookup does not give what the direct one gives, or changes the outer one")
}

func mapOf(v dgo.Value) dgo.Map {
	if v == nil {
		return nil
	}
	return v.(dgo.Map)
}

// C19Disturbs has a function that performs nested lookups, failing ones too, and looks at its own invocation.
func C19Disturbs() {
	start()
	sec := secretText()
	outerSecret, nestedSecret := sym.Bool(), sym.Bool()
	om, nm := mergeOrNone("unique", "deep"), mergeOrNone("unique", "deep")
	var oc, nc dgo.Value
	if outerSecret {
		oc = vf.String("sensitive")
	}
	if nestedSecret {
		nc = vf.String("sensitive")
	}
	lo := m()
	withOptions(lo, "o", om, oc)
	withOptions(lo, "n", nm, nc)
	withOptions(lo, "bad", nm, nc)
	what := sym.Choice(6)
	viaText := sym.Bool()
	calls := 0
	f := func(pc sdk.ProviderContext, k string) dgo.Value {
		if k != "o" {
			return nil
		}
		calls++
		iv := pc.(api.ServerContext).Invocation()
		sc, ms, lop, dm, lm, em := iv.Scope(), iv.MergeStrategy(), iv.LookupOptions(), iv.DataMode(), iv.LookupOptionsMode(), iv.ExplainMode()
		nested := func(key string) {
			_ = try(func() {
				if viaText {
					iv.Interpolate(a("%{x}%{lookup('"+key+"')}"), true)
				} else {
					iv.Lookup(mustKey(key), nil)
				}
			})
		}
		switch what {
		case 0:
			nested("n")
		case 1:
			nested("bad")
		case 2:
			nested("o") // recursive
		case 3:
			_ = try(func() {
				iv.DoWithScope(m("x", "other"), func() { iv.Interpolate(vf.String("%{x}%{lookup('bad')}"), true) })
			})
		case 4:
			_ = try(func() { iv.Interpolate(vf.String("%{rec1}"), true) })
		case 5:
			nested("lookup_options")
			nested("bad")
			nested("n")
		}
		x := iv.Interpolate(vf.String("%{x}%{fine1}"), true)
		sym.Assert(same(x, vf.String("ef")), "the scope is not the same after a nested lookup")
		sym.Assert(iv.Scope() == sc, "another scope after a nested lookup")
		sym.Assert(iv.MergeStrategy().Name() == ms.Name(), "another merge strategy after a nested lookup")
		sym.Assert(same(orNil(iv.LookupOptions()), orNil(lop)), "other lookup options after a nested lookup")
		sym.Assert(iv.DataMode() == dm && iv.LookupOptionsMode() == lm && iv.ExplainMode() == em, "another mode after a nested lookup")
		return a(sec)
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "lookup_key", "f"), m("name", "1", "path", "l1.yaml"))))
	vfs.Put("data/l1.yaml", m("o", a(sec+"2"), "n", a("u"), "bad", a("t", "%{bad('x')}"), "lookup_options", lo))
	s := newSession(nil, api.HieraFunctions, m("f", f))
	var ex api.Explainer
	if sym.Bool() {
		ex = explain.NewExplainer(false, false)
	}
	iv := s.Invocation(m("x", "e", "rec1", "%{rec2}", "rec2", "%{rec1}", "fine1", "%{fine2}", "fine2", "f"), ex)
	var v dgo.Value
	for i := 0; i < 2; i++ {
		err := try(func() { v = iv.Lookup(mustKey("o"), nil) })
		must(err)
	}
	sym.Assert(calls == 2, "the function is not called")
	want := vf.Value(a(sec))
	if om != nil {
		want = a(sec, sec+"2")
	}
	if outerSecret {
		sv, ok := v.(dgo.Sensitive)
		sym.Assert(ok, "the value is not converted")
		v = sv.Unwrap()
	}
	sym.Assert(same(v, want), "a nested lookup changes the value of the outer one")
	sym.Reach("undisturbed")
	if ex == nil {
		return
	}
	text := ex.String()
	sym.Assert(strings.Contains(text, secretMark) != outerSecret, "a nested lookup changes what is hidden")
	sym.Reach("explained")
}

func orNil(v dgo.Map) dgo.Value {
	if v == nil {
		return nil
	}
	return v
}
