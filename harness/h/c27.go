package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// envSession is a session that asks the environment, by any of the ways there are.
func envSession() api.Session {
	switch sym.Choice(4) {
	case 0:
		return newSession(provider.Environment)
	case 1:
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "lookup_key", "environment"))))
		return newSession(nil)
	case 2:
		return newSession(provider.MuxLookupKey, provider.LookupKeyFunctions, a(sdk.LookupKey(provider.Environment), sdk.LookupKey(provider.ScopeLookupKey)))
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "d.yaml"), m("name", "1", "lookup_key", "environment", "options", m("a", 1)))))
	vfs.Put("data/d.yaml", m("other", 2))
	return newSession(nil)
}

// C27Key asks for any key in an environment of two variables.
func C27Key() {
	start()
	n := sym.Bound("len", 1)
	alpha := "aB:.=%{} "
	names := []string{"A", sym.String(1, n+1, "aB:. ")}
	vals := []string{sym.String(0, n, alpha), sym.String(0, n, alpha)}
	sym.Assume(names[1] != "A")
	vfs.SetEnv(names[0]+"="+vals[0], names[1]+"="+vals[1])
	s := envSession()
	var key string
	var want dgo.Value
	switch sym.Choice(3) {
	case 0:
		name := sym.String(0, n+1, "aAB:. ")
		key = "'env::" + name + "'"
		for i, x := range names {
			if x == name {
				want = vf.String(vals[i])
			}
		}
	case 1:
		key = pick("env", "'env'")
		want = m(names[0], vals[0], names[1], vals[1])
	default:
		k := pick("", "e", "en", "enx", "envx", "env:", "env:A", "Env", "ENV::A", "A", "environment", ":env", "::env::A", " env", "env ") + sym.String(0, 1, ":aA. ")
		if k == "env" || strings.HasPrefix(k, "env::") || k == "" {
			sym.Assume(false)
		}
		key = "'" + k + "'"
	}
	v, err := lookup(s, nil, key, nil)
	must(err)
	observe(v, nil)
	if want == nil {
		sym.Reach("not found")
		sym.Assert(v == nil, "a key that is not the environment's is answered")
		return
	}
	sym.Reach("found")
	sym.Assert(same(v, want), "not the value of the environment")
}

// C27All has environments of any form.
func C27All() {
	start()
	var env []string
	want := m()
	for i, n := 0, sym.Choice(sym.Bound("vars", 2)+1); i < n; i++ {
		name := lv(i)[1:] + sym.String(0, 1, "aA.: ")
		if sym.Bool() {
			name = "" // as Windows has
		}
		v := sym.String(0, sym.Bound("len", 2), "=a\"")
		env = append(env, name+"="+v)
		if name != "" {
			want.Put(name, v)
		} else {
			sym.Reach("name is empty")
		}
	}
	vfs.SetEnv(env...)
	s := envSession()
	v, err := lookup(s, nil, "env", nil)
	must(err)
	// the process that runs the check may have variables that the harness does not know of
	e, ok := v.(dgo.Map)
	if !ok {
		sym.Assert(false, "the environment is not a hash")
	}
	observeVal(e)
	sym.Reach("found")
	sym.Assert(same(e, want), "not all the variables, or not their values")
	want.EachEntry(func(x dgo.MapEntry) {
		w, err := lookup(s, nil, "env.'"+x.Key().String()+"'", nil)
		must(err)
		sym.Assert(same(w, x.Value()), "a variable is not found in the hash of all")
		w, err = lookup(s, nil, "'env::"+x.Key().String()+"'", nil)
		must(err)
		sym.Assert(same(w, x.Value()), "a variable is not found by its name")
	})
}
