package h

import (
	"context"
	"errors"
	"net/url"
	"runtime"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/proc"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
)

// startPlugins is start for harnesses with plugins.
func startPlugins() {
	start()
	cleanups = append(cleanups, proc.Start())
}

// tryText is try where also a text may be raised.
func tryText(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if re, ok := r.(runtime.Error); ok {
				sym.Assert(false, "crashed with a run time error: "+re.Error())
			}
			switch r := r.(type) {
			case error:
				err = r
			case string:
				err = errors.New(r)
			default:
				panic(r)
			}
		}
	}()
	f()
	return nil
}

// metaText is what a plugin prints.
func metaText(version, address, network, functions string) string {
	s := `{"version":` + version
	if address != "" {
		s += `,"address":` + address
	}
	if network != "" {
		s += `,"network":` + network
	}
	if functions != "" {
		s += `,"functions":` + functions
	}
	return s + "}"
}

// goodPlugin is a plugin that starts.
func goodPlugin(srv *proc.Server, functions string) proc.Script {
	return proc.Script{Text: metaText("1", `"`+srv.Addr+`"`, `"`+srv.Network+`"`, functions)}
}

// badPlugin is a plugin that does not start.
func badPlugin(srv *proc.Server, name string) (s proc.Script) {
	ad, fn := `"`+srv.Addr+`"`, `{"lookup_key":["`+name+`"]}`
	switch sym.Choice(12) {
	case 0:
		s.Start = proc.Exits
	case 1:
		s.Text = "ready"
	case 2:
		s.Start = proc.Hangs
	case 3:
		s.Text = metaText("2", ad, `"tcp"`, fn)
	case 4:
		s.Text = metaText("1", pick("", "7", "null"), `"tcp"`, fn)
	case 5:
		s.Text = metaText("1", ad, `"tcp"`, pick("", "null", "[]", `"`+name+`"`))
	case 6:
		s.Text = metaText("1", ad, `"tcp"`, `{"lookup_key":"`+name+`"}`)
	case 7:
		s.Text = metaText("1", ad, `"tcp"`, `{"lookup_key":[1]}`)
	case 8:
		s.Text = pick("[]", `"`+name+`"`, "null")
	case 9:
		s.Text = metaText(pick("null", `"1"`), ad, `"tcp"`, fn)
	case 10:
		s.Start, s.Text = proc.Exits, `{"version":1,`
	case 11:
		s.Text = metaText("1", ad, `"tcp"`, `{"lookup_key":["other"]}`)
	}
	s.Ignores = s.Start != proc.Exits && sym.Bool()
	return s
}

// pluginSession is a session as its users have it: its plugins end when it does.
func pluginSession(f func(api.Session)) error {
	return tryText(func() {
		hiera.DoWithParent(context.Background(), provider.ConfigLookupKey, m(api.HieraRoot, vfs.Root), f)
	})
}

// pluginTry is pluginSession where an error is returned.
func pluginTry(f func(api.Session)) (err error) {
	must(tryText(func() {
		err = hiera.TryWithParent(context.Background(), provider.ConfigLookupKey, m(api.HieraRoot, vfs.Root), func(s api.Session) error {
			return try(func() { f(s) })
		})
	}))
	return err
}

// C24Session has sessions with plugins that start or not, and end or not.
func C24Session() {
	startPlugins()
	srv := proc.Serve("tcp", func(string, url.Values) proc.Answer { return proc.Answer{Status: 404} })
	good := goodPlugin(srv, `{"lookup_key":["f","f2"]}`)
	good.Ignores = sym.Bool()
	proc.Plugin("plugin/p", good)
	bads := 0
	second := goodPlugin(srv, `{"lookup_key":["g"]}`)
	hier := []interface{}{
		m("name", "0", "lookup_key", "f", "pluginfile", "p"),
		m("name", "1", "lookup_key", "f2", "pluginfile", "./x/../p")}
	last := m("name", "2", "lookup_key", "g", "pluginfile", "q")
	missing, listed := false, true // not listed: it starts, but lacks the function
	switch sym.Choice(4) {
	case 0:
		proc.Plugin("plugin/q", second)
	case 1:
		missing = true
	default:
		bads = 1 + sym.Choice(2)
		b := badPlugin(srv, "g")
		listed = b.Text != metaText("1", `"`+srv.Addr+`"`, `"tcp"`, `{"lookup_key":["other"]}`)
		scripts := []proc.Script{b}
		for i := 1; i < bads; i++ {
			scripts = append(scripts, b)
		}
		proc.Plugin("plugin/q", append(scripts, second)...)
	}
	if sym.Bool() {
		hier = append(hier, last)
	} else {
		hier = append([]interface{}{last}, hier...)
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(append(hier, m("name", "3", "path", "l.yaml"))...)))
	vfs.Put("data/l.yaml", m("k", 7))
	sessions := 1 + sym.Choice(2)
	for i := 0; i < sessions; i++ {
		p0, q0 := proc.Started("plugin/p"), proc.Started("plugin/q")
		n := sym.Choice(3)
		fails := i == 0 && n > 0 && sym.Bool()
		crashed := 0
		end := pluginSession
		if n == 2 {
			end = pluginTry
		}
		err := end(func(s api.Session) {
			first := hier[0] == last
			tries := 0
			for j := 0; j < n; j++ {
				var v dgo.Value
				err := tryText(func() { v = hiera.Lookup(s.Invocation(nil, nil), "k", nil, nil) })
				observe(v, err)
				up := bads == 0 && !missing
				q := 1
				switch {
				case missing:
					q = 0
				case !listed && bads > 0:
					// it is registered, and has no such function
					tries = 1
				case tries < bads:
					tries++
					q = tries
				default:
					up = true
					q = tries + 1
				}
				if up {
					sym.Reach("started")
					must(err)
					sym.Assert(same(v, vf.Integer(7)), "what a plugin does not find hides a lower level")
				} else {
					sym.Reach("failed")
					sym.Assert(err != nil, "a plugin that does not start is not reported")
				}
				sym.Assert(proc.Started("plugin/q") == q0+q, "a plugin is not started as often as it should be")
				if !up && listed || missing {
					sym.Assert(proc.Alive("plugin/q") == 0, "a plugin that failed to start stays alive")
				} else if crashed < 2 {
					sym.Assert(proc.Alive("plugin/q") == 1, "a plugin does not stay alive")
				}
				if up || !first {
					sym.Assert(proc.Started("plugin/p") == p0+1, "a plugin is not started once")
					if crashed == 0 {
						sym.Assert(proc.Alive("plugin/p") == 1, "a plugin does not stay alive")
					}
				}
				if j == 0 && i == 0 && crashed == 0 {
					switch sym.Choice(3) {
					case 1:
						crashed = 1
						proc.Crash("plugin/p", sym.Bool())
					case 2:
						if up {
							crashed = 2
							proc.Crash("plugin/p", true)
							proc.Crash("plugin/q", true)
						}
					}
				}
			}
			if tries > bads {
				tries = bads
			}
			bads -= tries
			if fails {
				panic(errors.New("the user of the session fails"))
			}
		})
		sym.Assert((err != nil) == fails, "the end of the session fails")
		sym.Reach("ended")
		sym.Assert(proc.Alive("plugin/p") == 0 && proc.Alive("plugin/q") == 0, "a plugin outlives the session")
	}
}

// C24Two has two sessions with the same plugins at the same time.
func C24Two() {
	startPlugins()
	srv := proc.Serve("tcp", func(string, url.Values) proc.Answer { return proc.Answer{Status: 200, Val: vf.Integer(5)} })
	proc.Plugin("plugin/p", goodPlugin(srv, `{"lookup_key":["f"]}`))
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "lookup_key", "f", "pluginfile", "p"))))
	var inner error
	err := pluginSession(func(s api.Session) {
		use := func(s api.Session) {
			v, err := lookup(s, nil, "k", nil)
			observe(v, err)
			sym.Assert(err == nil && same(v, vf.Integer(5)), "a plugin is not asked")
		}
		before := sym.Bool()
		if before {
			use(s)
		}
		inner = pluginSession(func(t api.Session) {
			use(t)
			if before && sym.Bool() {
				s.KillPlugins()
				before = false
				sym.Assert(proc.Alive("plugin/p") == 1, "the end of a session ends the plugins of another")
			}
			use(t)
		})
		n := 0
		if before {
			n = 1
		}
		sym.Assert(proc.Alive("plugin/p") == n, "the end of a session ends the plugins of another, or leaves its own")
	})
	must(err)
	must(inner)
	sym.Reach("ended")
	sym.Assert(proc.Alive("plugin/p") == 0, "a plugin outlives the session")
	sym.Assert(proc.Started("plugin/p") <= 2, "a plugin is started more than once in a session")
}

// C24Again ends the plugins of a session several times.
func C24Again() {
	startPlugins()
	srv := proc.Serve("tcp", func(string, url.Values) proc.Answer { return proc.Answer{Status: 404} })
	g := goodPlugin(srv, `{"lookup_key":["f"]}`)
	g.Ignores = sym.Bool()
	proc.Plugin("plugin/p", g)
	h := goodPlugin(srv, `{"lookup_key":["g"]}`)
	h.Ignores = sym.Bool()
	proc.Plugin("plugin/q", h)
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "lookup_key", "f", "pluginfile", "p"), m("name", "1", "lookup_key", "g", "pluginfile", "q"))))
	s := newSession(nil)
	_, err := lookup(s, nil, "k", nil)
	must(err)
	sym.Assert(proc.Alive("plugin/p") == 1 && proc.Alive("plugin/q") == 1, "a plugin is not started")
	for i := 0; i < 2; i++ {
		s.KillPlugins()
		sym.Assert(proc.Alive("plugin/p") == 0 && proc.Alive("plugin/q") == 0, "a plugin outlives the session")
	}
	sym.Reach("ended")
	t := newSession(nil)
	_, err = lookup(t, nil, "k", nil)
	must(err)
	sym.Assert(proc.Started("plugin/p") == 2 && proc.Alive("plugin/p") == 1, "a plugin is not started in a new session")
	t.KillPlugins()
	sym.Assert(proc.Alive("plugin/p") == 0 && proc.Alive("plugin/q") == 0, "a plugin outlives the session")
}
