package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/merge"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
)

// fold merges the values of the locations of each level, and then the values of the levels.
func fold(groups [][]int, vals []dgo.Value, merge func(hi, lo dgo.Value) dgo.Value) (r dgo.Value) {
	for _, g := range groups {
		var v dgo.Value
		for _, i := range g {
			if vals[i] == nil {
				continue
			}
			if v == nil {
				v = vals[i]
			} else {
				v = merge(v, vals[i])
			}
		}
		if v == nil {
			continue
		}
		if r == nil {
			r = v
		} else {
			r = merge(r, v)
		}
	}
	return r
}

// foldHash is the specified merge of the hash strategy.
func foldHash(hi, lo dgo.Value) dgo.Value {
	h, ok1 := hi.(dgo.Map)
	l, ok2 := lo.(dgo.Map)
	if !ok1 || !ok2 {
		return hi
	}
	u := m()
	h.EachEntry(func(e dgo.MapEntry) { u.Put(e.Key(), e.Value()) })
	l.EachEntry(func(e dgo.MapEntry) {
		if u.Get(e.Key()) == nil {
			u.Put(e.Key(), e.Value())
		}
	})
	return u
}

// hierarchy makes a hierarchy whose levels hold the given values of key k (nil: not there). The levels are
// spread over one level with several paths, or several levels with one path, as the choice goes.
func hierarchy(vals []dgo.Value, extra ...interface{}) (groups [][]int) {
	var hier []interface{}
	var paths []interface{}
	n := len(vals)
	split := sym.Choice(3)
	for i, v := range vals {
		f := lv(i) + ".yaml"
		if v != nil {
			vfs.Put("data/"+f, m("k", v))
		} else if split == 0 {
			vfs.Put("data/"+f, m("z", 1))
		}
		if split == 2 || split == 1 && i > 0 {
			paths = append(paths, f)
			if len(paths) == 1 {
				groups = append(groups, nil)
			}
			groups[len(groups)-1] = append(groups[len(groups)-1], i)
		} else {
			groups = append(groups, []int{i})
			hier = append(hier, m("name", lv(i), "path", f))
		}
	}
	if len(paths) > 0 && n > 0 {
		hier = append(hier, m("name", "many", "paths", a(paths...)))
	}
	c := m("version", 5, "hierarchy", a(hier...))
	for i := 0; i < len(extra); i += 2 {
		c.Put(extra[i], extra[i+1])
	}
	vfs.Put("hiera.yaml", c)
	return groups
}

// mergeOption is the merge option in one of its two forms.
func mergeOption(name string) dgo.Map {
	if sym.Choice(2) == 0 {
		return m("merge", name)
	}
	return m("merge", m("strategy", name))
}

func flat(v dgo.Value, out []dgo.Value) []dgo.Value {
	if x, ok := v.(dgo.Array); ok {
		for i := 0; i < x.Len(); i++ {
			out = flat(x.Get(i), out)
		}
		return out
	}
	return append(out, v)
}

// uniq keeps the first of equal values.
func uniq(vs []dgo.Value) []dgo.Value {
	var r []dgo.Value
outer:
	for _, v := range vs {
		for _, x := range r {
			if same(x, v) {
				continue outer
			}
		}
		r = append(r, v)
	}
	return r
}

func small() dgo.Value { return vf.Integer(int64(sym.Int(0, 9))) }

// likeSmall is a value that is easily taken for a small one: its text, or something that is in a hash.
func likeSmall() dgo.Value {
	switch sym.Choice(5) {
	case 0:
		return vf.String(string([]byte{'0' + byte(sym.Int(0, 9))}))
	case 1:
		return vf.Nil
	case 2:
		return vf.Boolean(sym.Bool())
	case 3:
		return m("x", small())
	default:
		return vf.Float(1)
	}
}

// uniqueValue is a value for the unique strategy.
func uniqueValue() dgo.Value {
	switch sym.Choice(7) {
	case 6:
		return a(small(), likeSmall())
	case 0:
		return nil
	case 1:
		return small()
	case 2:
		return a(small(), small())
	case 3:
		return a(small(), a(small(), a(small())))
	case 4:
		return a()
	default:
		return m("x", small())
	}
}

// C04Unique looks up with the unique strategy over levels of any values.
func C04Unique() {
	start()
	n := sym.Bound("levels", 2)
	if sym.Choice(4) == 0 {
		n = 1
	}
	vals := make([]dgo.Value, n)
	var all []dgo.Value
	any := false
	for i := range vals {
		vals[i] = uniqueValue()
		if vals[i] != nil {
			any = true
			all = flat(vals[i], all)
		}
	}
	hierarchy(vals)
	s := newSession(nil)
	v, err := lookup(s, nil, "k", mergeOption("unique"))
	observe(v, err)
	must(err)
	if !any {
		sym.Reach("not found")
		sym.Assert(v == nil, "a value is found that no level has")
		return
	}
	sym.Reach("found")
	if _, ok := vals[0].(dgo.Array); n == 1 && !ok {
		sym.Assert(same(v, vals[0]), "the only value is changed")
		return
	}
	got, ok := v.(dgo.Array)
	sym.Assert(ok, "the result is not an array")
	want := uniq(all)
	sym.Assert(got.Len() == len(want), "an element is lost, repeated or invented")
	for i, w := range want {
		sym.Assert(same(got.Get(i), w), "the elements are not the distinct values in priority order")
	}
}

// hashValue is a value for the hash strategy.
func hashValue(width int) dgo.Value {
	switch sym.Choice(4) {
	case 0:
		return nil
	case 1:
		return small()
	case 2:
		return a(small())
	default:
		r := m()
		for i := 0; i < width; i++ {
			k := string([]byte{byte('a' + i)})
			switch sym.Choice(3) {
			case 0:
			case 1:
				r.Put(string([]byte{byte(sym.Int('a', 'c'))}), small())
			default:
				if i == 0 {
					r.Put(k, m("n", small()))
				} else {
					r.Put(k, vf.Nil)
				}
			}
		}
		return r
	}
}

// C05Hash looks up with the hash strategy.
func C05Hash() {
	start()
	n := sym.Bound("levels", 2)
	vals := make([]dgo.Value, n)
	copies := make([]dgo.Value, n)
	for i := range vals {
		vals[i] = hashValue(sym.Bound("width", 2))
		if vals[i] != nil {
			copies[i] = vfs.Copy(vals[i])
		}
	}
	want := fold(hierarchy(vals), copies, foldHash)
	s := newSession(nil)
	iv := s.Invocation(nil, nil)
	var v, again dgo.Value
	err := try(func() { v = iv.Lookup(api.NewKey("k"), mergeOption("hash")) })
	observe(v, err)
	must(err)
	if want == nil {
		sym.Reach("not found")
		sym.Assert(v == nil, "a value is found that no level has")
		return
	}
	sym.Reach("found")
	sym.Assert(same(v, want), "the result is not the union of the hashes with the higher levels winning")
	// the sources are as they were: the same invocation keeps the loaded data
	must(try(func() { again = iv.Lookup(api.NewKey("k"), nil) }))
	for _, c := range copies {
		if c != nil {
			sym.Assert(same(again, c), "merging altered the data of a level")
			break
		}
	}
}

// deepValue is a value for the deep merge.
func deepValue(depth, width int) dgo.Value {
	n := 3
	if depth > 0 {
		n = 4
	}
	switch sym.Choice(n) {
	case 0:
		return small()
	case 1:
		r := make([]dgo.Value, sym.Choice(sym.Bound("array", 2)+1))
		for i := range r {
			r[i] = small()
		}
		return vf.WrapSlice(r)
	case 2:
		return vf.Nil
	default:
		r := m()
		for i := 0; i < width; i++ {
			if sym.Choice(2) == 0 {
				r.Put(string([]byte{byte('a' + i)}), deepValue(depth-1, width))
			}
		}
		return r
	}
}

func count(x dgo.Value, in dgo.Array) int {
	n := 0
	in.Each(func(e dgo.Value) {
		if same(e, x) {
			n++
		}
	})
	return n
}

// checkDeep compares r with what the deep merge of hi and lo has to be.
func checkDeep(r, hi, lo dgo.Value) {
	switch h := hi.(type) {
	case dgo.Map:
		l, ok := lo.(dgo.Map)
		if !ok {
			break
		}
		rm, ok := r.(dgo.Map)
		sym.Assert(ok, "the merge of two hashes is not a hash")
		n := h.Len()
		h.EachEntry(func(e dgo.MapEntry) {
			rv := rm.Get(e.Key())
			sym.Assert(rv != nil, "an entry of the higher-priority hash is lost")
			if lv := l.Get(e.Key()); lv != nil {
				checkDeep(rv, e.Value(), lv)
			} else {
				sym.Assert(same(rv, e.Value()), "an entry of the higher-priority hash is changed")
			}
		})
		l.EachEntry(func(e dgo.MapEntry) {
			if h.Get(e.Key()) == nil {
				n++
				rv := rm.Get(e.Key())
				sym.Assert(rv != nil, "an entry of the lower-priority hash is lost")
				sym.Assert(same(rv, e.Value()), "an entry of the lower-priority hash is changed")
			}
		})
		sym.Assert(rm.Len() == n, "an entry is invented")
		return
	case dgo.Array:
		l, ok := lo.(dgo.Array)
		if !ok {
			break
		}
		ra, ok := r.(dgo.Array)
		sym.Assert(ok, "the merge of two arrays is not an array")
		if l.Len() == 0 {
			sym.Assert(same(r, hi), "merging with an empty array changed the value")
			return
		}
		var all, res []dgo.Value
		h.Each(func(e dgo.Value) { all = append(all, e) })
		l.Each(func(e dgo.Value) { all = append(all, e) })
		ra.Each(func(e dgo.Value) { res = append(res, e) })
		all, ur := uniq(all), uniq(res)
		sym.Assert(len(all) == len(ur), "an element of an array is lost or invented")
		for i := range all {
			sym.Assert(same(all[i], ur[i]), "the elements of an array are not in priority order")
		}
		for _, e := range ur {
			c := count(e, h)
			if c == 0 {
				c = count(e, l)
			}
			sym.Assert(count(e, ra) <= c, "a lower-priority element is repeated")
		}
		return
	}
	sym.Assert(same(r, hi), "the higher-priority value is changed")
}

func dedup(v dgo.Value) dgo.Value {
	switch v := v.(type) {
	case dgo.Array:
		var es []dgo.Value
		v.Each(func(e dgo.Value) { es = append(es, dedup(e)) })
		return vf.WrapSlice(uniq(es))
	case dgo.Map:
		r := m()
		v.EachEntry(func(e dgo.MapEntry) { r.Put(e.Key(), dedup(e.Value())) })
		return r
	}
	return v
}

// C06Deep merges any two values.
func C06Deep() {
	d, w := sym.Bound("depth", 2), sym.Bound("width", 2)
	hi, lo := deepValue(d, w), deepValue(d, w)
	ch, cl := vfs.Copy(hi), vfs.Copy(lo)
	var r, r2 dgo.Value
	must(try(func() { r, _ = merge.Deep(hi, lo, nil) }))
	observeVal(r)
	sym.Reach("merged")
	sym.Assert(sameOrder(hi, ch) && sameOrder(lo, cl), "merging changed an input")
	checkDeep(r, ch, cl)
	c := vfs.Copy(r)
	must(try(func() { r2, _ = merge.Deep(r, lo, nil) }))
	sym.Assert(same(dedup(r2), dedup(c)), "merging again changed the result")
	must(try(func() { r2, _ = merge.Deep(r, r, nil) }))
	sym.Assert(same(dedup(r2), dedup(c)), "merging a value with itself changed it")
}

// C06Lookup looks up with the deep strategy: the levels are folded by priority.
func C06Lookup() {
	start()
	n := sym.Bound("levels", 2)
	vals := make([]dgo.Value, n)
	for i := range vals {
		switch sym.Choice(5) {
		case 0:
			continue
		case 1:
			vals[i] = small()
		case 2:
			vals[i] = a(small(), small())
		case 3:
			vals[i] = m("a", m("b", small(), lv(i), i), lv(i), small())
		default:
			vals[i] = m("a", a(small()), "c", m(lv(i), m("d", small())))
		}
	}
	want := fold(hierarchy(vals), vals, foldDeep)
	s := newSession(nil)
	v, err := lookup(s, nil, "k", mergeOption("deep"))
	observe(v, err)
	must(err)
	if want == nil {
		sym.Reach("not found")
		sym.Assert(v == nil, "a value is found that no level has")
		return
	}
	sym.Reach("found")
	sym.Assert(same(v, want), "the levels are not merged by priority")
}

// foldDeep is the specified merge; arrays drop repetitions.
func foldDeep(hi, lo dgo.Value) dgo.Value {
	switch h := hi.(type) {
	case dgo.Map:
		if l, ok := lo.(dgo.Map); ok {
			r := m()
			h.EachEntry(func(e dgo.MapEntry) {
				if lv := l.Get(e.Key()); lv != nil {
					r.Put(e.Key(), foldDeep(e.Value(), lv))
				} else {
					r.Put(e.Key(), e.Value())
				}
			})
			l.EachEntry(func(e dgo.MapEntry) {
				if h.Get(e.Key()) == nil {
					r.Put(e.Key(), e.Value())
				}
			})
			return r
		}
	case dgo.Array:
		if l, ok := lo.(dgo.Array); ok {
			var all []dgo.Value
			h.Each(func(e dgo.Value) { all = append(all, e) })
			l.Each(func(e dgo.Value) { all = append(all, e) })
			return vf.WrapSlice(uniq(all))
		}
	}
	return hi
}

// specMerge merges the values of two or more levels (nil: not there) by the named strategy.
func specMerge(strategy string, vals []dgo.Value) dgo.Value {
	var r dgo.Value
	for _, v := range vals {
		if v == nil {
			continue
		}
		if r == nil {
			r = v
			if strategy == "unique" {
				r = vf.WrapSlice(uniq(flat(v, nil)))
			}
			continue
		}
		switch strategy {
		case "unique":
			r = vf.WrapSlice(uniq(flat(v, flat(r, nil))))
		case "hash":
			r = foldHash(r, v)
		case "deep":
			r = foldDeep(r, v)
		}
	}
	return r
}
