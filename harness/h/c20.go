package h

import (
	"bytes"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// anyVars is a scope of some of the names.
func anyVars(names ...string) dgo.Map {
	r := m()
	for _, n := range names {
		switch sym.Choice(4) {
		case 0:
		case 1:
			r.Put(n, vf.Nil)
		case 2:
			r.Put(n, sym.Int(0, 99))
		case 3:
			r.Put(n, sym.String(0, 1, "ab"))
		}
	}
	return r
}

// C20Scope combines the variables of a session with those of an invocation.
func C20Scope() {
	start()
	names := []string{"p", "q"}
	ss, is := anyVars(names...), anyVars(names...)
	sc, ic := vfs.Copy(ss).(dgo.Map), vfs.Copy(is).(dgo.Map)
	hasS, hasI := sym.Bool(), sym.Bool()
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "lookup_key", "scope"), m("name", "1", "path", "x.yaml"))))
	vfs.Put("data/x.yaml", m("text", "<%{p}|%{q}>"))
	var s api.Session
	tp := provider.ConfigLookupKey
	direct := sym.Bool()
	if direct {
		tp = provider.ScopeLookupKey
	}
	if hasS {
		s = newSession(tp, api.HieraScope, ss)
	} else {
		s = newSession(tp)
		sc = m()
	}
	var is2 interface{}
	if hasI {
		is2 = is
	} else {
		ic = m()
	}
	// another invocation has no influence
	_ = s.Invocation(m("p", "other"), nil)
	iv := s.Invocation(is2, nil)
	_ = s.Invocation(m("q", "other"), nil)
	for _, n := range append(names, "none") {
		want := ic.Get(n)
		if want == nil {
			want = sc.Get(n)
		}
		sym.Assert(same(iv.Scope().Get(n), want), "a variable of the scope is not the one given")
		var v dgo.Value
		must(try(func() { v = iv.Lookup(mustKey(n), nil) }))
		observeVal(v)
		if want == nil {
			sym.Reach("unset")
			sym.Assert(v == nil, "a variable that is not set is found")
		} else {
			sym.Reach("set")
			sym.Assert(same(v, want), "a lookup in the scope does not give the variable")
		}
	}
	text := func(n string) string {
		v := ic.Get(n)
		if v == nil {
			v = sc.Get(n)
		}
		if v == nil {
			return ""
		}
		return v.String()
	}
	if !direct {
		var v dgo.Value
		must(try(func() { v = iv.Lookup(mustKey("text"), nil) }))
		sym.Assert(same(v, vf.String("<"+text("p")+"|"+text("q")+">")), "the variables are not interpolated")
	}
	if hasS {
		sym.Assert(sameOrder(ss, sc), "the scope of the session is changed")
	}
	if hasI {
		sym.Assert(sameOrder(is, ic), "the scope handed in is changed")
	}
	// a session without invocation variables afterwards
	sym.Assert(same(s.Scope().Get("p"), sc.Get("p")), "the variables of an invocation stay in the session")
	sym.Assert(same(s.Invocation(nil, nil).Scope().Get("p"), sc.Get("p")), "the variables of an invocation stay in the session")
}

// render performs a lookup as the command line does and returns the scope it was made in.
func render(opts *hiera.CommandOptions, sessionOpts ...interface{}) (scope dgo.Keyed, err error) {
	tp := func(pc sdk.ProviderContext, key string) dgo.Value {
		scope = pc.(api.ServerContext).Invocation().Scope()
		return vf.String("x")
	}
	s := newSession(tp, sessionOpts...)
	out := bytes.Buffer{}
	err = tryAny(func() { hiera.LookupAndRender(s, opts, []string{"k"}, &out) })
	return
}

// specSplit is where a variable argument is split, or -1.
func specSplit(s string) int {
	sep := func(c byte) bool { return c == ':' || c == '=' }
	for i := 1; i+1 < len(s); i++ {
		if sep(s[i]) && !sep(s[i-1]) && !sep(s[i+1]) {
			return i
		}
	}
	return -1
}

// C20Split splits any variable argument.
func C20Split() {
	start()
	arg := sym.String(0, sym.Bound("len", 5), "ab:= .\n")
	scope, err := render(&hiera.CommandOptions{Variables: []string{arg}})
	i := specSplit(arg)
	if i < 0 {
		sym.Reach("malformed")
		sym.Observe("error")
		sym.Assert(err != nil, "a malformed variable is accepted")
		return
	}
	must(err)
	sym.Reach("well-formed")
	name, val := strings.TrimSpace(arg[:i]), strings.TrimSpace(arg[i+1:])
	v := scope.Get(name)
	observeVal(v)
	sym.Assert(same(v, vf.String(val)), "the variable is not split at its first separator")
}

// C20Literal has variables that are written as literals.
func C20Literal() {
	start()
	n := string([]byte{byte(sym.Int('0', '9'))})
	ch := sym.String(0, 2, "ab:=")
	sep := pick(":", "=", ": ", " = ")
	var lit string
	var want dgo.Value
	switch sym.Choice(5) {
	case 0:
		lit, want = `{a: "`+ch+`", b: `+n+`}`, m("a", ch, "b", int(n[0]-'0'))
	case 1:
		lit, want = `{"`+ch+`", `+n+`, true}`, a(ch, int(n[0]-'0'), true)
	case 2:
		lit, want = `"`+ch+`"`, vf.String(ch)
	case 3:
		lit, want = "x"+ch, vf.String("x"+ch)
	case 4:
		lit, want = n+ch, vf.String(n+ch)
	}
	scope, err := render(&hiera.CommandOptions{Variables: []string{"first=1", "v" + sep + lit, "last:2"}})
	must(err)
	sym.Reach("parsed")
	v := scope.Get("v")
	observeVal(v)
	sym.Assert(same(v, want), "the value of the variable is not the one written")
	sym.Assert(same(scope.Get("first"), vf.String("1")) && same(scope.Get("last"), vf.String("2")), "a variable is lost")
}

// C20Combine combines arguments, variable files and facts files.
func C20Combine() {
	start()
	names := []string{"x", "y"}
	opts := &hiera.CommandOptions{}
	want, facts := m(), m()
	own := sym.Bool() // the files have a variable with the name of all the facts
	for _, n := range names {
		if sym.Bool() {
			v := sym.String(1, 1, "ab")
			opts.Variables = append(opts.Variables, n+"="+v)
			want.Put(n, v)
		}
	}
	file := func(f string, into dgo.Map) {
		d := m()
		for _, n := range names {
			if sym.Bool() {
				d.Put(n, sym.Int(0, 99))
			}
		}
		if own {
			d.Put("facts", "own")
		}
		vfs.Put(f, d)
		into.PutAll(d)
	}
	nv, nf := sym.Choice(3), sym.Choice(3)
	for i := 0; i < nv; i++ {
		f := "v" + lv(i) + ".yaml"
		file(f, want)
		opts.VarPaths = append(opts.VarPaths, vfs.Path(f))
	}
	for i := 0; i < nf; i++ {
		f := "f" + lv(i) + ".yaml"
		file(f, facts)
		opts.FactPaths = append(opts.FactPaths, vfs.Path(f))
	}
	bad := ""
	switch sym.Choice(6) {
	case 4:
		vfs.PutNone("empty.yaml", "")
		opts.VarPaths = append([]string{vfs.Path("empty.yaml")}, opts.VarPaths...)
	case 5:
		// a file of comments is an error or like an empty one
		vfs.PutNone("none.yaml", "# x: 1\n")
		opts.VarPaths = append([]string{vfs.Path("none.yaml")}, opts.VarPaths...)
		if _, err := render(opts); err != nil {
			return
		}
	case 1:
		bad = "missing.yaml"
	case 2:
		bad = "array.yaml"
		vfs.Put(bad, a(1))
	case 3:
		bad = "broken.yaml"
		vfs.PutText(bad, "a: [", nil)
	}
	if bad != "" {
		if sym.Bool() {
			opts.VarPaths = append(opts.VarPaths, vfs.Path(bad))
		} else {
			opts.FactPaths = append(opts.FactPaths, vfs.Path(bad))
		}
		_, err := render(opts)
		sym.Reach("error")
		sym.Assert(err != nil, "a file that cannot be used is ignored")
		return
	}
	want.PutAll(facts)
	if nf > 0 {
		want.Put("facts", facts)
	}
	sess := m("x", "session", "z", "session")
	scope, err := render(opts, api.HieraScope, sess)
	must(err)
	sym.Reach("combined")
	for _, n := range []string{"x", "y", "facts", "z"} {
		w := want.Get(n)
		if w == nil {
			w = sess.Get(n)
		}
		v := scope.Get(n)
		observeVal(v)
		sym.Assert(same(v, w), "the variable is not the one of the last kind that has it")
	}
	sym.Assert(same(sess, m("x", "session", "z", "session")), "the scope of the session is changed")
}
