package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
)

// mergeSpec is a merge option as written in lookup options, or nil.
func mergeSpec() dgo.Value {
	switch sym.Choice(6) {
	case 0:
		return nil
	case 1:
		return vf.String("first")
	case 2:
		return vf.String("unique")
	case 3:
		return m("strategy", "hash")
	case 4:
		return m("strategy", "deep")
	default:
		return vf.String("deep")
	}
}

func strategyOf(v dgo.Value) string {
	switch v := v.(type) {
	case dgo.String:
		return v.GoString()
	case dgo.Map:
		return v.Get("strategy").String()
	}
	return "first"
}

// optionsValue is data that every strategy merges differently.
func optionsValue(i int) dgo.Value {
	y := vf.Value(7)
	if i == 0 {
		y = small()
	}
	return m("x", m(lv(i), i, "common", a(i, 9)), "y", a(y), lv(i), sym.Int(0, 99))
}

// C12Merge looks up keys whose merge options stand in the data of any level.
func C12Merge() {
	start()
	n := sym.Bound("levels", 2)
	keys := []string{"k", "kk", "k.k"}
	var opts dgo.Value // the merged lookup options
	vals := map[string][]dgo.Value{}
	var hier []interface{}
	split := sym.Choice(2) == 1
	var paths []interface{}
	shape := sym.Choice(5)
	for i := 0; i < n; i++ {
		d := m("z", 0)
		for _, k := range keys {
			v := optionsValue(i)
			if i == 0 && shape == 4 {
				v = nil // the options are in force also where the key is not
			}
			vals[k] = append(vals[k], v)
			if v != nil {
				d.Put(k, v)
			}
		}
		var lo dgo.Value
		switch sym.Choice(3) {
		case 0:
		case 1:
			x := m()
			if o := mergeSpec(); o != nil {
				x.Put("k", m("merge", o))
			}
			if i == n-1 {
				switch shape {
				case 1:
					x.Put("kk", m("merge", pick("deep", "unique")))
				case 2:
					x.Put("k.k", m("merge", "deep"))
					x.Put("x", m("merge", "unique"))
				}
			}
			lo = x
		default:
			if shape == 3 {
				lo = vf.String("none") // not a hash: nothing is configured
			}
		}
		if lo != nil {
			d.Put("lookup_options", lo)
			if opts == nil {
				opts = lo
			} else {
				opts = foldDeep(opts, lo)
			}
		}
		f := lv(i) + ".yaml"
		vfs.Put("data/"+f, d)
		if split {
			paths = append(paths, f)
		} else {
			hier = append(hier, m("name", lv(i), "path", f))
		}
	}
	if split {
		hier = append(hier, m("name", "many", "paths", a(paths...)))
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(hier...)))
	s := newSession(nil)
	strategy := func(root string) string {
		if om, ok := opts.(dgo.Map); ok {
			if ko, ok := om.Get(root).(dgo.Map); ok && ko.Get("merge") != nil {
				return strategyOf(ko.Get("merge"))
			}
		}
		return "first"
	}
	inv := s.Invocation(nil, nil)
	check := func(key string, explicit dgo.Value, want dgo.Value) {
		var co dgo.Map
		if explicit != nil {
			co = m("merge", explicit)
		}
		var v dgo.Value
		must(try(func() { v = inv.Lookup(mustKey(key), co) }))
		observe(v, nil)
		sym.Assert(same(v, want), "lookup of "+key+" is not merged by its own options")
	}
	k := specMerge(strategy("k"), vals["k"])
	check("k", nil, k)
	check("kk", nil, specMerge(strategy("kk"), vals["kk"]))
	check("'k.k'", nil, specMerge(strategy("k.k"), vals["k.k"]))
	check("k.x", nil, specDig(k, []dseg{{s: "x"}}))
	// a merge option of the caller
	var e dgo.Value
	switch sym.Choice(3) {
	case 0:
		e = vf.String(pick("first", "unique"))
	case 1:
		e = m("strategy", "deep")
	}
	if e != nil {
		sym.Reach("caller's option")
		check("k", e, specMerge(strategyOf(e), vals["k"]))
		check("kk", e, specMerge(strategyOf(e), vals["kk"]))
		check("k", nil, k)
	} else {
		sym.Reach("no caller's option")
	}
	// the options themselves are no data
	check("lookup_options", nil, nil)
	check("'lookup_options'.k", nil, nil)
}

// C12Convert looks up keys whose options convert the value.
func C12Convert() {
	start()
	n := sym.Int(0, 99)
	conv := m("k", m("convert_to", "string"))
	other := m()
	x, y := sym.Byte("01234567"), sym.Byte("01234567")
	radix := int64(10)
	switch sym.Choice(5) {
	case 0:
		other.Put("kk", m("convert_to", "int"))
		sym.Assume(x != '0') // which would be octal
	case 1:
		other.Put("kk", m("convert_to", a("int", 10)))
	case 2:
		other.Put("kk", m("convert_to", a("int")))
		sym.Assume(x != '0')
	case 3:
		radix = 8
		other.Put("kk", m("convert_to", a("int", 8)))
	}
	digits := string([]byte{x, y})
	d0, d1 := m("kk", digits), m("k", n, "kk", "13", "z", n)
	swap := sym.Choice(2) == 1
	if swap {
		d0.Put("lookup_options", conv)
		d1.Put("lookup_options", other)
	} else {
		d1.Put("lookup_options", conv)
		d0.Put("lookup_options", other)
	}
	vfs.Put("data/l0.yaml", d0)
	vfs.Put("data/l1.yaml", d1)
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "l0.yaml"), m("name", "1", "path", "l1.yaml"))))
	inv := newSession(nil).Invocation(nil, nil)
	var v dgo.Value
	for _, key := range []string{"k", "kk", "z", "k", "kk"} {
		must(try(func() { v = inv.Lookup(mustKey(key), nil) }))
		observe(v, nil)
		var want dgo.Value
		switch key {
		case "k":
			want = vf.String(vf.Integer(int64(n)).String())
		case "kk":
			want = vf.String(digits)
			if other.Len() > 0 {
				want = vf.Integer(int64(x-'0')*radix + int64(y-'0'))
			}
		default:
			want = vf.Integer(int64(n))
		}
		sym.Assert(same(v, want), "lookup of "+key+" is not converted by its own options")
	}
	sym.Reach("converted")
}
