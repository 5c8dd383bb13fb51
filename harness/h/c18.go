package h

import (
	"net/url"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/proc"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// request is one lookup among concurrent ones.
type request struct {
	key   string
	scope dgo.Map
	opts  interface{}
	v     dgo.Value
	err   error
}

func (r *request) run(s api.Session) { r.v, r.err = lookup(s, r.scope, r.key, r.opts) }

// together performs the requests concurrently on one session.
func together(s api.Session, rs []*request) {
	done := make(chan int, len(rs))
	for i, r := range rs {
		go func(i int, r *request) {
			defer func() { done <- i }()
			r.run(s)
		}(i, r)
	}
	for range rs {
		<-done
	}
}

// sameErr compares error texts, the names of the scratch directory aside.
func sameErr(x, y error) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	return strings.Replace(x.Error(), vfs.Root, "/w", -1) == strings.Replace(y.Error(), vfs.Root, "/w", -1)
}

// alone checks that each request gives what it gives on a session of its own.
func alone(rs []*request, mk func() api.Session) {
	for _, r := range rs {
		w := &request{key: r.key, scope: r.scope, opts: r.opts}
		w.run(mk())
		if w.err != nil {
			sym.Reach("error")
		} else {
			sym.Reach("value")
		}
		sym.Assert(sameErr(r.err, w.err), "a concurrent lookup does not report the error it reports alone")
		sym.Assert(same(r.v, w.v), "a concurrent lookup gives another value than alone")
	}
}

func requests(n int, keys ...string) []*request {
	rs := make([]*request, n)
	for i := range rs {
		rs[i] = &request{key: pick(keys...), scope: m("n", "n"+string([]byte{byte('0' + i)}))}
	}
	return rs
}

// C18Config has concurrent first lookups with a configuration that is complete, absent or malformed.
func C18Config() {
	start()
	broken := false
	switch sym.Choice(3) {
	case 0:
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "%{n}.yaml"), m("name", "1", "path", "l1.yaml"))))
	case 1:
	case 2:
		broken = true
		if sym.Bool() {
			vfs.PutText("hiera.yaml", "version: [", nil)
		} else {
			vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "x", "paths", a("y")))))
		}
	}
	vfs.Put("data/n0.yaml", m("k", sym.Int(0, 9), "lookup_options", m("k", m("merge", "unique"))))
	vfs.Put("data/n1.yaml", m("k", 2))
	vfs.Put("data/l1.yaml", m("k", a(3), "r", "%{lookup('k')}", "lookup_options", m("r", m("convert_to", "sensitive"))))
	vfs.Put("data/common.yaml", m("k", 4))
	rs := requests(1, "k", "r")
	rs = append(rs, &request{key: "k", scope: m("n", "n1")})
	s := newSession(nil)
	if sym.Symbolic() {
		vfs.Reads = map[string]int{}
	}
	together(s, rs)
	if sym.Symbolic() && !broken {
		sym.Assert(vfs.Reads[vfs.Path("hiera.yaml")] <= 1, "the configuration is loaded more than once")
	}
	alone(rs, func() api.Session { return newSession(nil) })
	// the session is usable afterwards
	x := &request{key: "k", scope: m("n", "n1")}
	if broken {
		if sym.Bool() {
			x.run(s)
			sym.Assert(x.err != nil, "the malformed configuration is not reported again")
		}
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "%{n}.yaml"))))
		x.run(s)
		sym.Reach("repaired")
		sym.Assert(x.err != nil || same(x.v, vf.Integer(2)), "the repaired configuration is not used")
		return
	}
	x.run(s)
	alone([]*request{x}, func() api.Session { return newSession(nil) })
}

// C18Modules has concurrent lookups in the data of modules.
func C18Modules() {
	start()
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "%{n}.yaml"))))
	vfs.Put("data/n0.yaml", m("k", 1, "one::a", 7))
	vfs.Put("mod/one/hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "d.yaml"))))
	vfs.Put("mod/one/data/d.yaml", m("one::a", a("x%{n}", sym.Int(0, 9)), "one::b", "%{lookup('two::a')}", "lookup_options", m("one::a", m("merge", "unique"))))
	vfs.Put("mod/two/hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "d.yaml"))))
	vfs.Put("mod/two/data/d.yaml", m("two::a", 2))
	mk := func() api.Session {
		return newSession(provider.MuxLookupKey, provider.ModulePath, vfs.Path("mod"), provider.LookupKeyFunctions,
			a(sdk.LookupKey(provider.ConfigLookupKey), sdk.LookupKey(provider.ModuleLookupKey)))
	}
	rs := requests(2, "one::a", "one::b", "two::a", "three::a")
	together(mk(), rs)
	alone(rs, mk)
}

// C18Functions has concurrent lookups with functions of the session, of a loader, and with a cache.
func C18Functions() {
	start()
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "data_hash", "dh"), m("name", "1", "lookup_key", "lk"),
		m("name", "2", "lookup_key", "scope"), m("name", "3", "lookup_key", "environment"))))
	mk := func() api.Session {
		return newSession(nil, api.HieraScope, m("z", "%{n}", "n", "s"), api.HieraFunctions, m(
			"dh", func(pc sdk.ProviderContext) dgo.Value {
				sym.Yield()
				return m("a", "<%{n}%{z}>")
			},
			"lk", func(pc sdk.ProviderContext, key string) dgo.Value {
				sc := pc.(api.ServerContext)
				if v, ok := sc.CachedValue(key); ok {
					return v
				}
				if key != "b" {
					return nil
				}
				sym.Yield()
				v := a("%{lookup('a')}")
				sc.Cache(key, v)
				return v
			}))
	}
	rs := requests(2, "a", "b", "n", "z", "c")
	together(mk(), rs)
	alone(rs, mk)
}

// C18Yaml has concurrent lookups with the provider of one file.
func C18Yaml() {
	start()
	vfs.Put("d.yaml", m("k", "%{n}", "r", a("%{alias('k')}")))
	mk := func() api.Session { return newSession(provider.YamlLookupKey, "path", vfs.Path("d.yaml")) }
	rs := requests(2, "k", "r", "none")
	together(mk(), rs)
	alone(rs, mk)
}

// C18Plugins has concurrent first lookups that need plugins.
func C18Plugins() {
	startPlugins()
	srv := proc.Serve("tcp", func(path string, q url.Values) proc.Answer {
		if k := q.Get("key"); k == "k" || k == "b" {
			return proc.Answer{Status: 200, Val: vf.String(path + k)}
		}
		return proc.Answer{Status: 404}
	})
	p := goodPlugin(srv, `{"lookup_key":["f","g"]}`)
	fails := sym.Bool()
	if fails {
		p = proc.Script{Start: proc.Exits, Text: metaText("2", `"`+srv.Addr+`"`, `"tcp"`, `{"lookup_key":["f"]}`)}
	}
	proc.Plugin("plugin/p", p)
	l := m("name", "0", "lookup_key", "f", "pluginfile", "p")
	switch sym.Choice(2) {
	case 0:
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(l)))
	case 1:
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "1", "lookup_key", "%{g}", "pluginfile", "p"), l)))
	}
	rs := []*request{{key: "k", scope: m("g", "g")}, {key: "b", scope: m("g", "g")}}
	s := newSession(nil)
	together(s, rs)
	for _, r := range rs {
		observe(r.v, r.err)
		sym.Assert((r.err != nil) == fails, "a concurrent first lookup through a plugin does not succeed")
		if fails {
			sym.Reach("error")
			continue
		}
		sym.Reach("value")
		sym.Assert(strings.HasSuffix(r.v.String(), r.key), "a concurrent lookup through a plugin gives the value of another")
	}
	n := 1
	if fails {
		sym.Assert(proc.Alive("plugin/p") == 0, "a plugin that failed to start stays alive")
	} else {
		sym.Assert(proc.Started("plugin/p") == n, "concurrent lookups start a plugin more than once")
		sym.Assert(proc.Alive("plugin/p") == n, "a plugin does not stay alive")
	}
	s.KillPlugins()
	sym.Assert(proc.Alive("plugin/p") == 0, "a plugin outlives the session")
}
