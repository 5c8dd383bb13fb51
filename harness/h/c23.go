package h

import (
	"errors"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// topValue is the value of a provider (nil: not there).
func topValue(i int) dgo.Value {
	n := 4
	if i == 0 {
		n = 5
	}
	switch sym.Choice(n) {
	case 0:
		return nil
	case 1:
		return a(i, sym.Int(0, 9))
	case 2:
		return optionsValue(i)
	case 3:
		return vf.Integer(int64(3 + i/2))
	}
	return vf.Nil
}

// C23Mux has several providers, a configuration among them.
func C23Mux() {
	start()
	n := sym.Bound("providers", 2) + sym.Choice(2)
	conf := sym.Choice(n + 1) // which one is the configuration
	failing := sym.Choice(n + 1)
	vals := make([]dgo.Value, n)
	var hi, lo dgo.Value
	var asked []int
	var fns []sdk.LookupKey
	strategy := "first"
	for i := 0; i < n; i++ {
		i := i
		vals[i] = topValue(i)
		if i == conf {
			c, d := m("other", 1), m()
			if hi = vals[i]; hi != nil {
				c.Put("k", hi)
			}
			if o := mergeSpec(); o != nil {
				c.Put("lookup_options", m("k", m("merge", o)))
				strategy = strategyOf(o)
			}
			if sym.Bool() {
				lo = a(9, 9)
				d.Put("k", lo)
			}
			vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "c.yaml"), m("name", "1", "path", "d.yaml"))))
			vfs.Put("data/c.yaml", c)
			vfs.Put("data/d.yaml", d)
			fns = append(fns, provider.ConfigLookupKey)
			continue
		}
		fns = append(fns, func(pc sdk.ProviderContext, key string) dgo.Value {
			if key != "k" {
				return nil
			}
			if !pc.(api.ServerContext).Invocation().LookupOptionsMode() {
				asked = append(asked, i)
				if i == failing {
					panic(errors.New("provider fails"))
				}
			}
			return vals[i]
		})
	}
	var opts interface{}
	if sym.Bound("all", 0) == 1 {
		if o := mergeSpec(); o != nil {
			opts = m("merge", o)
			strategy = strategyOf(o)
		}
	} else if sym.Bool() {
		strategy = pick("first", "unique")
		opts = m("merge", strategy)
	}
	s := newSession(provider.MuxLookupKey, provider.LookupKeyFunctions, fns)
	inv := s.Invocation(nil, nil)
	for i := 0; i < 2; i++ {
		asked = nil
		var v dgo.Value
		var co dgo.Map
		if opts != nil {
			co = opts.(dgo.Map)
		}
		err := try(func() { v = inv.Lookup(mustKey("k"), co) })
		observe(v, err)
		var found []dgo.Value
		var ask []int
		fails := false
		for j := 0; j < n && !fails; j++ {
			x := vals[j]
			if j == conf {
				x = specMerge(strategy, []dgo.Value{hi, lo})
			} else {
				ask = append(ask, j)
				fails = j == failing
			}
			if x != nil && !fails {
				found = append(found, x)
				if strategy == "first" {
					break
				}
			}
		}
		sym.Assert(len(asked) == len(ask), "another number of providers is asked")
		for j := range ask {
			sym.Assert(asked[j] == ask[j], "the providers are not asked in order")
		}
		if fails {
			sym.Reach("error")
			sym.Assert(err != nil && strings.Contains(err.Error(), "provider fails"), "the failure of a provider is not reported")
			continue
		}
		must(err)
		want := specMerge(strategy, found)
		if want == nil {
			sym.Reach("not found")
		} else {
			sym.Reach("found")
		}
		sym.Assert(same(v, want), "the values of the providers are not combined by the strategy of the key")
	}
}

// C23Data has providers that have data only, which may look like options.
func C23Data() {
	start()
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "c.yaml"))))
	c := m("other", 1)
	key := "k"
	hash := m(pick("merge", "convert_to", "a"), pick("unique", "Sensitive", "bogus", "deep"))
	var fn sdk.LookupKey
	kind := sym.Choice(3)
	var scope dgo.Map
	switch kind {
	case 0:
		fn = func(pc sdk.ProviderContext, key string) dgo.Value {
			if key == "k" {
				return hash
			}
			return nil
		}
	case 1:
		fn = provider.ScopeLookupKey
		scope = m("k", hash)
	case 2:
		fn, key = provider.Environment, "env"
		var env string
		hash.EachEntry(func(e dgo.MapEntry) { env = e.Key().String() + "=" + e.Value().String() })
		vfs.SetEnv(env)
	}
	strategy := "first"
	if sym.Bool() {
		strategy = pick("first", "hash", "deep", "unique")
		c.Put("lookup_options", m(key, m("merge", strategy)))
	}
	low := m("a", "low", "b", sym.Int(0, 9))
	c.Put(key, low)
	vfs.Put("data/c.yaml", c)
	fns := []sdk.LookupKey{fn, provider.ConfigLookupKey}
	vals := []dgo.Value{hash, low}
	if sym.Bool() {
		fns[0], fns[1] = fns[1], fns[0]
		vals[0], vals[1] = vals[1], vals[0]
	}
	v, err := lookup(newSession(provider.MuxLookupKey, provider.LookupKeyFunctions, fns), scope, key, nil)
	observe(v, err)
	sym.Reach("looked up")
	ok := err == nil && same(v, specMerge(strategy, vals))
	if kind == 0 && hash.Get("a") == nil {
		sym.AssertKnown("options", ok, "data of a provider is taken for lookup options")
		return
	}
	sym.Assert(ok, "data of a provider is taken for lookup options")
}
