package h

import (
	"context"
	"path/filepath"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// tell is a level that answers with the text.
func tell(text string) dgo.Value {
	return m("version", 5, "hierarchy", a(m("name", text, "lookup_key", "tell", "options", m("text", text))))
}

// open33 is a session of the options in any of the forms that they can be given in.
func open33(opts map[string]interface{}, form int) (s api.Session, given dgo.Value, err error) {
	d := m()
	for _, k := range []string{api.HieraRoot, api.HieraConfig, api.HieraConfigFileName, api.HieraDialect, api.HieraScope, api.HieraFunctions} {
		if v, ok := opts[k]; ok {
			d.Put(k, v)
		}
	}
	given = d.Copy(true)
	err = tryAny(func() {
		switch form {
		case 0:
			s = session.New(context.Background(), nil, d, nil)
			sym.Assert(d.Equals(given), "the options handed in were changed")
		case 1:
			s = session.New(context.Background(), provider.ConfigLookupKey, given, nil)
		default:
			n := len(opts)
			s = session.New(context.Background(), nil, opts, nil)
			sym.Assert(len(opts) == n, "the options handed in were changed")
		}
	})
	return
}

// C33Select has the configuration selected by options and environment.
func C33Select() {
	start()
	roots := []string{"", "r", "r/s"}
	names := []string{"hiera.yaml", "opt.yaml", "sub/env.yaml"}
	for _, r := range roots {
		for _, n := range names {
			vfs.Put(filepath.Join(r, n), tell(r+":"+n))
		}
		vfs.Put(filepath.Join(r, "data.yaml"), m("d", "data of "+r))
		vfs.Put(filepath.Join(r, "data/common.yaml"), m("d", "common of "+r, "c", "common of "+r))
	}
	opts := map[string]interface{}{api.HieraFunctions: m("tell", func(pc sdk.ProviderContext, key string) dgo.Value {
		if key == "k" {
			return pc.Option("text")
		}
		return nil
	})}
	root, name, file := 0, 0, -1
	if sym.Bool() {
		root = sym.Choice(3)
		opts[api.HieraRoot] = vfs.Path(roots[root])
		if root > 0 && sym.Bool() {
			opts[api.HieraRoot] = roots[root]
		}
	}
	switch sym.Choice(4) {
	case 1:
		name = 2
		vfs.SetEnv("A=1", "HIERA_CONFIGFILE="+names[2])
	case 2: // absolute
		root, name = 1, 2
		vfs.SetEnv("HIERA_CONFIGFILE=" + vfs.Path("r/sub/env.yaml"))
		file = 0
	case 3:
		vfs.SetEnv("HIERA_CONFIG=opt.yaml", "HIERA_CONFIGFILENAME=opt.yaml")
	}
	if sym.Bool() {
		if file == 0 {
			// the file named by the option is one of the root, whatever the environment says
			file, root = -1, 0
			if r, ok := opts[api.HieraRoot]; ok {
				for i := range roots {
					if r == roots[i] || r == vfs.Path(roots[i]) {
						root = i
					}
				}
			}
		}
		name = 1
		opts[api.HieraConfigFileName] = names[1]
	}
	if sym.Bool() {
		root, name = sym.Choice(3), sym.Choice(3)
		p := filepath.Join(roots[root], names[name])
		if sym.Bool() {
			p = vfs.Path(p)
		}
		opts[api.HieraConfig] = p
	}
	dir := roots[root]
	if name == 2 {
		dir = filepath.Join(dir, "sub")
		vfs.Put(filepath.Join(dir, "data.yaml"), m("d", "data of sub"))
	}
	what := sym.Choice(5)
	switch what {
	case 3: // it has no hierarchy
		vfs.Put(filepath.Join(roots[root], names[name]), m("version", 5))
	case 4: // it has an empty one
		vfs.Put(filepath.Join(roots[root], names[name]), m("version", 5, "hierarchy", a()))
	case 1: // the file is missing
		vfs.Remove(filepath.Join(roots[root], names[name]))
	case 2: // and so is the first of the files that are used instead
		vfs.Remove(filepath.Join(roots[root], names[name]))
		vfs.Remove(filepath.Join(dir, "data.yaml"))
	}
	s, _, err := open33(opts, sym.Choice(3))
	must(err)
	for i := 0; i < 2; i++ {
		k, err := lookup(s, nil, "k", nil)
		must(err)
		d, err := lookup(s, nil, "d", nil)
		must(err)
		observeVal(k)
		observeVal(d)
		if what == 0 {
			sym.Reach("read")
			sym.Assert(same(k, vf.String(roots[root]+":"+names[name])), "another configuration is used")
			sym.Assert(d == nil, "the default configuration is used although there is one")
			continue
		}
		sym.Reach("default")
		sym.Assert(k == nil, "a configuration is used that was not selected")
		c, err := lookup(s, nil, "c", nil)
		must(err)
		var wd, wc dgo.Value
		if what == 4 {
			sym.Reach("empty")
		} else if name != 2 {
			wc = vf.String("common of " + roots[root])
			wd = vf.String("data of " + roots[root])
			if what == 2 {
				wd = wc
			}
		} else if what != 2 {
			wd = vf.String("data of sub")
		}
		sym.Assert(same(d, wd) && same(c, wc), "the default configuration is not used as it should")
	}
}

// C33Options has options of all kinds.
func C33Options() {
	start()
	vfs.Put("hiera.yaml", tell("x"))
	opts := map[string]interface{}{}
	dialect := sym.String(0, 5, "dgopcre")
	right := true
	switch sym.Choice(3) {
	case 0:
		dialect = "dgo"
	case 1:
		opts[api.HieraDialect] = dialect
		right = dialect == "dgo" || dialect == "pcore"
	default:
		dialect = "pcore"
		opts[api.HieraDialect] = dialect
	}
	sc := m("v", "1", "w", m("x", 1))
	if sym.Bool() {
		opts[api.HieraScope] = sc
	}
	s, _, err := open33(opts, sym.Choice(3))
	sym.Assert((err == nil) == right, "an option that is not right is accepted or one that is right refused")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	sym.Observe(s.Dialect().TypeKey().GoString())
	sym.Assert((s.Dialect().TypeKey().GoString() == "__ptype") == (dialect == "pcore"), "another dialect is used")
	// what the caller does to its scope afterwards does not matter
	if _, ok := opts[api.HieraScope]; ok {
		sc.Put("v", "2")
		sc.Get("w").(dgo.Map).Put("x", 2)
		v, w := s.Scope().Get("v"), s.Scope().Get("w")
		observeVal(v)
		sym.Assert(same(v, vf.String("1")) && same(w, m("x", 1)), "the scope of the session changes with that of the caller")
		bad := try(func() { _ = hiera.Lookup(s.Invocation("text", nil), "k", nil, nil) })
		sym.Assert(bad != nil, "a scope that is not a hash is accepted")
	} else {
		sym.Assert(s.Scope().Get("v") == nil, "a variable comes from nowhere")
	}
	for _, o := range []interface{}{"text", 1, a(1), true} {
		e := tryAny(func() { session.New(context.Background(), nil, o, nil) })
		sym.Assert(e != nil, "options that are not a hash are accepted")
	}
	must(tryAny(func() { s = session.New(context.Background(), nil, nil, nil) }))
}
