package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
)

// C03First puts the key, with any value, into any of the files of a hierarchy and looks it up.
func C03First() {
	start()
	n := sym.Bound("levels", 2)
	var hier []interface{}
	var want dgo.Value
	for i := 0; i < n; i++ {
		locs := 1 + sym.Choice(sym.Bound("locs", 2))
		var paths []interface{}
		for j := 0; j < locs; j++ {
			f := lv(i) + "_" + lv(j) + ".yaml"
			paths = append(paths, f)
			switch sym.Choice(3) {
			case 0: // no such file
			case 1: // file without the key
				vfs.Put("data/"+f, m("other", 1))
			default:
				v := scalar(i)
				vfs.Put("data/"+f, m("k", v, "other", 2))
				if want == nil {
					want = v
				}
			}
		}
		e := m("name", lv(i))
		if locs == 1 {
			e.Put("path", paths[0])
		} else {
			e.Put("paths", a(paths...))
		}
		if sym.Choice(2) == 0 {
			e.Put("data_hash", "json_data")
		}
		hier = append(hier, e)
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(hier...)))
	s := newSession(nil)
	v, err := lookup(s, nil, "k", nil)
	observe(v, err)
	must(err)
	if want == nil {
		sym.Reach("not found")
		sym.Assert(v == nil, "a value is found that no level has")
		return
	}
	sym.Reach("found")
	sym.Assert(v != nil, "the value of a level is not found")
	sym.Assert(same(v, want), "the value is not that of the first level that has the key")
	_ = vf.Nil
}
