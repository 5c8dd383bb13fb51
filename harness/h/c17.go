package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// graph holds what keys and variables refer to. References are "k:a" or "v:x".
type graph struct {
	refs map[string][]string
	text map[string]func(g *graph, stack []string) string
}

var errCycle = "\x00cycle"

func (g *graph) eval(n string, stack []string) string {
	for _, s := range stack {
		if s == n {
			return errCycle
		}
	}
	stack = append(append([]string(nil), stack...), n)
	r := g.text[n](g, stack)
	if strings.Contains(r, errCycle) {
		return errCycle
	}
	return r
}

// refValue is a value that may refer to other keys and variables, and its text.
func refValue(i int, keys, vars []string, methods bool) (dgo.Value, func(*graph, []string) string) {
	ref := func(kind string, names []string) string { return kind + names[sym.Choice(len(names))] }
	n := 3
	if methods {
		n = 7
	}
	switch sym.Choice(n) {
	case 2:
		r, s := ref("v:", vars), ref("v:", vars)
		return vf.String("%{" + r[2:] + "}%{" + s[2:] + "}"), func(g *graph, st []string) string { return g.eval(r, st) + g.eval(s, st) }
	case 0:
		x := string([]byte{byte('0' + sym.Int(0, 9))})
		return vf.String(x), func(*graph, []string) string { return x }
	case 1:
		r := ref("v:", vars)
		return vf.String("<%{" + r[2:] + "}>"), func(g *graph, st []string) string { return "<" + g.eval(r, st) + ">" }
	case 3:
		r := ref("k:", keys)
		return vf.String("%{lookup('" + r[2:] + "')}%{lookup('" + r[2:] + "')}"), func(g *graph, st []string) string {
			return g.eval(r, st) + g.eval(r, st)
		}
	case 4:
		r := ref("k:", keys)
		return vf.String("%{alias(\"" + r[2:] + "\")}"), func(g *graph, st []string) string { return g.eval(r, st) }
	case 5:
		r := ref("k:", keys)
		return vf.String("%{lookup('" + r[2:] + ".z')}+"), func(g *graph, st []string) string {
			if t := g.eval(r, st); strings.Contains(t, errCycle) {
				return t
			}
			return "+" // texts have no element z
		}
	default:
		r := ref("k:", keys)
		s := ref("v:", vars)
		return vf.String("%{scope('" + s[2:] + "')}%{hiera('" + r[2:] + "')}"), func(g *graph, st []string) string {
			return g.eval(s, st) + g.eval(r, st)
		}
	}
}

// C17Graph looks up a key in any graph of references.
func C17Graph() {
	start()
	keys, vars := []string{"a", "b"}, []string{"x"}
	if sym.Bound("vars", 1) > 1 {
		vars = append(vars, "y")
	}
	if sym.Bound("keys", 2) > 2 {
		keys = append(keys, "c")
	}
	g := &graph{text: map[string]func(*graph, []string) string{}}
	data, scope := m(), m()
	for i, k := range keys {
		v, t := refValue(i, keys, vars, true)
		data.Put(k, v)
		g.text["k:"+k] = t
	}
	for i, k := range vars {
		v, t := refValue(i, keys, vars, true)
		scope.Put(k, v)
		g.text["v:"+k] = t
	}
	var s api.Session
	var ex api.Explainer
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "l0.yaml"))))
	vfs.Put("data/l0.yaml", data)
	switch sym.Choice(4) {
	case 0:
		s = newSession(nil)
	case 1:
		s = newSession(nil)
		ex = explain.NewExplainer(true, false)
	case 2:
		s = newSession(provider.MuxLookupKey, provider.LookupKeyFunctions, a(sdk.LookupKey(provider.Environment), sdk.LookupKey(provider.ConfigLookupKey)))
	default:
		s = newSession(func(pc sdk.ProviderContext, k string) dgo.Value { return data.Get(k) })
	}
	iv := s.Invocation(scope, ex)
	for i := 0; i < 2; i++ { // the second time, after a failure, is as the first
		var v dgo.Value
		want := g.eval("k:a", nil)
		err := try(func() { v = iv.Lookup(mustKey("a"), nil) })
		observe(v, err)
		if want == errCycle {
			sym.Reach("recursive")
			sym.Assert(err != nil, "the recursion is not reported")
			sym.Assert(strings.Contains(err.Error(), "recursive"), "another error than the recursion is reported")
		} else {
			sym.Reach("not recursive")
			must(err)
			sym.Assert(v != nil && v.String() == want, "the references are not replaced")
		}
	}
}

// C17Scope interpolates text with variables that refer to each other; the configuration too.
func C17Scope() {
	start()
	g := &graph{text: map[string]func(*graph, []string) string{}}
	vars := []string{"x", "y", "z"}
	scope := m()
	for i, k := range vars {
		v, t := refValue(i, nil, vars, false)
		scope.Put(k, v)
		g.text["v:"+k] = t
	}
	g.text["t"] = func(g *graph, st []string) string { return g.eval("v:x", st) + g.eval("v:x", st) + g.eval("v:y", st) }
	want := g.eval("t", nil)
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "%{x}.yaml"), m("name", "1", "mapped_paths", a("y", "y", "%{y}.yaml")))))
	s := newSession(nil)
	iv := s.Invocation(scope, nil)
	inConfig := sym.Choice(2) == 1
	var v dgo.Value
	err := try(func() {
		if inConfig {
			v = iv.Lookup(mustKey("k"), nil)
		} else {
			v = iv.Interpolate(vf.String("%{x}%{x}%{y}"), true)
		}
	})
	if want == errCycle {
		sym.Reach("recursive")
		sym.Assert(err != nil, "the recursion is not reported")
		sym.Assert(strings.Contains(err.Error(), "recursive"), "another error than the recursion is reported")
		return
	}
	sym.Reach("not recursive")
	must(err)
	observe(v, err)
	if inConfig {
		sym.Assert(v == nil, "something is found")
	} else {
		sym.Assert(v.String() == want, "the variables are not replaced")
	}
}

// C17Options has references in the lookup options, and long chains.
func C17Options() {
	start()
	n := sym.Bound("chain", 6)
	d := m("end", sym.Int(0, 9))
	last := "end"
	for i := 0; i < n; i++ {
		d.Put(lv(i), "%{alias('"+last+"')}")
		last = lv(i)
	}
	cyc := sym.Choice(3)
	switch cyc {
	case 1:
		d.Put("end", "%{lookup('"+last+"')}")
	case 2:
		d.Put("lookup_options", m("end", m("merge", "%{lookup('end')}")))
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "l0.yaml"))))
	vfs.Put("data/l0.yaml", d)
	var v dgo.Value
	err := try(func() { v = newSession(nil).Invocation(nil, nil).Lookup(mustKey(last), nil) })
	observe(v, err)
	if cyc > 0 {
		sym.Reach("recursive")
		sym.Assert(err != nil && strings.Contains(err.Error(), "recursive"), "the recursion is not reported")
		return
	}
	sym.Reach("not recursive")
	must(err)
	sym.Assert(same(v, d.Get("end")), "the chain is not followed")
}

// C17Functions has functions that look up keys themselves.
func C17Functions() {
	start()
	kind := pick("data_hash", "data_dig", "lookup_key")
	ref := pick("x", "k")
	always := sym.Bool() // also when asked for lookup options
	direct := sym.Bool()
	level := m("name", "f", kind, "f")
	if sym.Bool() {
		level.Put("uri", "u")
	}
	text := func(pc sdk.ProviderContext) dgo.Value {
		sc := pc.(api.ServerContext)
		if direct {
			v := sc.Invocation().Lookup(mustKey(ref), nil)
			if v == nil {
				v = vf.String("")
			}
			return vf.String("<" + v.String() + ">")
		}
		return sc.Interpolate(vf.String("<%{lookup('" + ref + "')}>"))
	}
	skip := func(pc sdk.ProviderContext) bool {
		return !always && pc.(api.ServerContext).Invocation().LookupOptionsMode()
	}
	fns := m()
	switch kind {
	case "data_hash":
		fns.Put("f", func(pc sdk.ProviderContext) dgo.Value {
			if skip(pc) {
				return nil
			}
			return m("k", text(pc))
		})
	case "data_dig":
		fns.Put("f", func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			if !key.Get(0).Equals("k") || skip(pc) {
				return nil
			}
			return text(pc)
		})
	default:
		fns.Put("f", func(pc sdk.ProviderContext, key string) dgo.Value {
			if key != "k" || skip(pc) {
				return nil
			}
			return text(pc)
		})
	}
	high, low := m(), m()
	x, cyc := "", false
	where := sym.Choice(3)
	switch where {
	case 1:
		high.Put("x", "high")
		x = "high"
	case 2:
		low.Put("x", "low")
		x = "low"
	}
	vfs.Put("data/high.yaml", high)
	vfs.Put("data/low.yaml", low)
	hl, ll := m("name", "h", "path", "high.yaml"), m("name", "l", "path", "low.yaml")
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(hl, level, ll)))
	key := pick("k", "x")
	want := "<" + x + ">"
	switch {
	case kind == "data_hash" && always:
		cyc = true // the lookup options depend on what they apply to
	case kind == "data_hash":
		want = "" // what it has was asked for with the lookup options
	case ref == "k":
		cyc = key == "k"
	}
	if key == "x" && !cyc {
		want = x
	}
	s := newSession(nil, api.HieraFunctions, fns)
	iv := s.Invocation(nil, nil)
	for i := 0; i < 2; i++ {
		var v dgo.Value
		err := try(func() { v = iv.Lookup(mustKey(key), nil) })
		observe(v, err)
		if cyc {
			sym.Reach("recursive")
			sym.Assert(err != nil && strings.Contains(err.Error(), "recursive"), "the recursion is not reported")
			continue
		}
		sym.Reach("not recursive")
		must(err)
		if want == "" {
			sym.Assert(v == nil, "something is found")
			continue
		}
		sym.Assert(v != nil && v.String() == want, "a lookup in a function does not give what it finds")
	}
}
