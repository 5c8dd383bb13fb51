package h

import (
	"path/filepath"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
)

// setting is a setting as written: nil is not written at all.
func dirSetting() dgo.Value {
	switch sym.Choice(6) {
	case 0:
		return nil
	case 1:
		return vf.String("dd")
	case 2:
		return vf.String("d%{v}")
	case 3:
		return vf.String(vfs.Path("abs"))
	case 4:
		return vf.String(vfs.Path("") + "/%{v}")
	default:
		return vf.String("../e")
	}
}

func optionsSetting() dgo.Value {
	switch sym.Choice(5) {
	case 0:
		return nil
	case 1:
		return m()
	case 2:
		return m("a", sym.Int(0, 9))
	case 3:
		return m("a", "%{v}", "b", a("x%{v}"))
	default:
		return m("c", m("d", sym.Bool()))
	}
}

func functionSetting() dgo.Value {
	switch sym.Choice(6) {
	case 0:
		return nil
	case 1:
		return m("data_hash", "yaml_data")
	case 2:
		return m("data_hash", "f%{v}")
	case 3:
		return m("data_dig", "fn")
	case 4:
		return m("lookup_key", "fn")
	default:
		return m("lookup_key", "%{v}")
	}
}

// expand is the text with the variable v put in.
func expand(s string, v string) string {
	out := ""
	for {
		i := strings.Index(s, "%{v}")
		if i < 0 {
			return out + s
		}
		out += s[:i] + v
		s = s[i+4:]
	}
}

func expandAll(x dgo.Value, v string) dgo.Value {
	switch x := x.(type) {
	case dgo.String:
		return vf.String(expand(x.GoString(), v))
	case dgo.Array:
		es := make([]dgo.Value, x.Len())
		for i := range es {
			es[i] = expandAll(x.Get(i), v)
		}
		return vf.WrapSlice(es)
	case dgo.Map:
		r := vf.MapWithCapacity(x.Len())
		x.EachEntry(func(e dgo.MapEntry) { r.Put(e.Key(), expandAll(e.Value(), v)) })
		return r
	}
	return x
}

// effective is the setting in force of a level.
func effective(own, def, builtin dgo.Value) dgo.Value {
	if own != nil {
		return own
	}
	if def != nil {
		return def
	}
	return builtin
}

const (
	dimFunction = iota
	dimDataDir
	dimPluginDir
	dimOptions
	dims
)

var dimKey = []string{"", "datadir", "plugindir", "options"}

// C09Settings resolves configurations with the settings of each kind written or not in the levels and the defaults.
func C09Settings() {
	start()
	v := sym.String(1, sym.Bound("len", 2), "a./")
	nl := sym.Bound("levels", 2)
	dim := sym.Choice(dims)
	def := make([]dgo.Value, dims)
	lev := make([][]dgo.Value, nl)
	for i := range lev {
		lev[i] = make([]dgo.Value, dims)
	}
	choose := func() dgo.Value {
		switch dim {
		case dimFunction:
			return functionSetting()
		case dimOptions:
			return optionsSetting()
		}
		return dirSetting()
	}
	// the other settings are in the defaults, in the first level, in the last one, or nowhere
	where := sym.Choice(4)
	others := []dgo.Value{m("lookup_key", "other"), vf.String("od"), vf.String("op"), m("o", 1)}
	for d := 0; d < dims; d++ {
		if d == dim {
			continue
		}
		switch where {
		case 0:
			def[d] = others[d]
		case 1:
			lev[0][d] = others[d]
		case 2:
			lev[nl-1][d] = others[d]
		}
	}
	def[dim] = choose()
	for i := range lev {
		lev[i][dim] = choose()
	}
	builtin := []dgo.Value{m("data_hash", "yaml_data"), vf.String("data"), vf.String("plugin"), m()}
	env := 0
	if dim == dimDataDir || dim == dimPluginDir {
		// the environment matters to the levels that have neither a setting of their own nor a default
		for i := range lev {
			if lev[i][dim] == nil && def[dim] == nil {
				env = sym.Choice(4)
				break
			}
		}
	}
	switch env {
	case 1:
		vfs.SetEnv("HIERA_DATADIR=envd", "HIERA_PLUGINDIR=envp")
		builtin[1], builtin[2] = vf.String("envd"), vf.String("envp")
	case 2:
		vfs.SetEnv("HIERA_DATADIR="+vfs.Path("enva"), "HIERA_PLUGINDIR="+vfs.Path("envb"))
		builtin[1], builtin[2] = vf.String(vfs.Path("enva")), vf.String(vfs.Path("envb"))
	}
	if env == 3 { // set to nothing: the directory of the configuration
		vfs.SetEnv("HIERA_DATADIR=", "HIERA_PLUGINDIR=")
		builtin[1], builtin[2] = vf.String(""), vf.String("")
	}
	write := func(c dgo.Map, set []dgo.Value) {
		for d, x := range set {
			if x == nil {
				continue
			}
			if d == dimFunction {
				c.PutAll(x.(dgo.Map))
			} else {
				c.Put(dimKey[d], x)
			}
		}
	}
	c := m("version", 5)
	dm := m()
	write(dm, def)
	if dm.Len() > 0 || env == 0 {
		c.Put("defaults", dm)
	}
	var hier []interface{}
	for i := range lev {
		l := m("name", lv(i), "paths", a("p"+lv(i)+".yaml", "%{v}/x.yaml"))
		write(l, lev[i])
		hier = append(hier, l)
	}
	c.Put("hierarchy", a(hier...))
	vfs.Put("conf/hiera.yaml", c)
	confPath := "conf/hiera.yaml"
	if dim == dimFunction || dim == dimOptions || sym.Choice(2) == 1 {
		confPath = vfs.Path(confPath)
	}
	s := newSession(nil, api.HieraConfig, confPath)
	var rc api.ResolvedConfig
	inv := s.Invocation(m("v", v), nil)
	must(try(func() { rc = inv.Config("", "") }))
	root := vfs.Path("conf")
	abs := func(p string) string {
		if !filepath.IsAbs(p) {
			p = vfs.Path(p)
		}
		return filepath.Clean(p)
	}
	inRoot := func(p string) string {
		if !filepath.IsAbs(p) {
			p = root + "/" + p
		}
		return filepath.Clean(p)
	}
	hs := rc.Hierarchy()
	sym.Assert(len(hs) == nl, "the number of levels is wrong")
	for i, h := range hs {
		e := h.Hierarchy()
		eff := make([]dgo.Value, dims)
		for d := range eff {
			eff[d] = expandAll(effective(lev[i][d], def[d], builtin[d]), v)
		}
		sym.Assert(e.Name() == lv(i), "the levels are not in the order written")
		fn := eff[dimFunction].(dgo.Map)
		sym.Assert(fn.Len() == 1 && same(fn.Get(string(e.Function().Kind())), vf.String(e.Function().Name())), "wrong function of a level")
		sym.Assert(same(e.Options(), eff[dimOptions]), "wrong options of a level")
		sym.Observe(e.Function().Name())
		observeVal(e.Options())
		sym.Assert(abs(e.PluginDir()) == inRoot(eff[dimPluginDir].String()), "wrong plugin directory of a level: "+e.PluginDir())
		dd := inRoot(eff[dimDataDir].String())
		ls := e.Locations()
		sym.Assert(len(ls) == 2, "wrong number of locations")
		sym.Assert(abs(ls[0].Resolved()) == filepath.Clean(dd+"/p"+lv(i)+".yaml"), "wrong path of a level: "+ls[0].Resolved())
		sym.Assert(abs(ls[1].Resolved()) == filepath.Clean(dd+"/"+v+"/x.yaml"), "wrong interpolated path of a level: "+ls[1].Resolved())
	}
	sym.Reach([]string{"function", "data directory", "plugin directory", "options"}[dim])
	// the configuration itself is as written
	for i, e := range rc.Config().Hierarchy() {
		if o := lev[i][dimOptions]; o != nil {
			sym.Assert(same(e.Options(), o), "resolving changes the configured options")
		}
		sym.Assert(e.Locations()[1].Original() == "%{v}/x.yaml", "resolving changes the configured paths")
	}
	// another scope is resolved on its own
	inv2 := s.Invocation(m("v", "zz"), nil)
	must(try(func() { rc = inv2.Config("", "") }))
	for i, h := range rc.Hierarchy() {
		e := h.Hierarchy()
		sym.Assert(same(e.Options(), expandAll(effective(lev[i][dimOptions], def[dimOptions], builtin[dimOptions]), "zz")), "options of another scope")
		sym.Assert(filepath.Base(filepath.Dir(e.Locations()[1].Resolved())) == "zz", "path of another scope")
		sym.Assert(abs(e.PluginDir()) == inRoot(expand(effective(lev[i][dimPluginDir], def[dimPluginDir], builtin[dimPluginDir]).String(), "zz")), "plugin directory of another scope")
	}
}
