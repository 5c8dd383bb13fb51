package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// source34 is the data of one location of a level. Its functions answer from it and record what they are asked.
type source34 struct {
	kind  int // 0 data_hash, 1 lookup_key, 2 data_dig, 3 the variables of the scope
	opts  dgo.Map
	paths []string    // "" if the level has no locations
	vals  []dgo.Value // of the key r, nil if it is not there
	root  string
	asked []string // paths in the order they were asked for r
	// rooted is that the data_dig function was asked for the first segment only
	rooted bool
}

var kind34 = []string{"data_hash", "lookup_key", "data_dig", "lookup_key"}

// at is the location that the function is called for.
func (s *source34) at(pc sdk.ProviderContext) int {
	want := s.opts
	for i, p := range s.paths {
		w := want.Copy(false)
		if p != "" {
			w.Put("path", p)
		}
		if pc.OptionsMap().Equals(w) {
			return i
		}
	}
	sym.Assert(false, "a function is called with other options than those of its level and location")
	return 0
}

func (s *source34) hash(pc sdk.ProviderContext) dgo.Map {
	i := s.at(pc)
	h := m("other", "o")
	if s.vals[i] != nil {
		h.Put(s.root, s.vals[i])
	}
	return h
}

func (s *source34) key(pc sdk.ProviderContext, key string) dgo.Value {
	if key == "lookup_options" {
		return nil
	}
	i := s.at(pc)
	sym.Assert(key == s.root, "a lookup_key function is not asked for the first segment of the key")
	s.asked = append(s.asked, s.paths[i])
	return s.vals[i]
}

// value34 is one of the shapes that the keys below address.
func value34() dgo.Value {
	n := vf.Integer(int64(sym.Int(0, 9)))
	switch sym.Choice(sym.Bound("shapes", 4)) {
	case 0:
		return nil
	case 1:
		return vf.Nil
	case 2:
		return a(n, m("b", n))
	case 3:
		return m("a", m("b", n, 1, a(n)), 1, n)
	case 4:
		return m("a", n, "b", vf.Nil)
	default:
		return n
	}
}

// key34 is one of the keys, its first segment and its text.
func key34(quoted bool) (root string, segs []dseg, text string) {
	root, text = "r", "r"
	if quoted {
		root, text = "r.a", "'r.a'"
	}
	for i := sym.Choice(sym.Bound("segs", 2) + 1); i > 0; i-- {
		if sym.Bool() {
			c := "b"
			if len(segs) == 0 {
				c = "a"
			}
			segs = append(segs, dseg{s: c})
			text += "." + c
		} else {
			segs = append(segs, dseg{isInt: true, n: 1})
			text += ".1"
		}
	}
	return
}

func bury34(v dgo.Value, segs []dseg) dgo.Value {
	for i := len(segs) - 1; v != nil && i >= 0; i-- {
		if segs[i].isInt {
			v = m(segs[i].n, v)
		} else {
			v = m(segs[i].s, v)
		}
	}
	return v
}

func scope34(m dgo.Map) interface{} {
	if m == nil {
		return nil
	}
	return m
}

// C34Kinds looks up a key in levels with functions of all kinds.
func C34Kinds() {
	start()
	opts := sym.Choice(2)
	root, segs, text := key34(opts == 0)
	parts := a(root)
	for _, s := range segs {
		if s.isInt {
			parts.Add(vf.Integer(int64(s.n)))
		} else {
			parts.Add(vf.String(s.s))
		}
	}
	levels := make([]*source34, sym.Bound("levels", 2))
	funcs, hierarchy := m(), a()
	all := true
	var variable dgo.Value // of the name of the first segment
	for i := range levels {
		s := &source34{root: root, kind: sym.Choice(4), opts: m(), paths: []string{""}}
		levels[i] = s
		l := m("name", lv(i), kind34[s.kind], "f"+lv(i))
		if i == opts {
			s.opts = m("o", lv(i), "p", m("q", 1))
			l.Put("options", s.opts)
		}
		if i == 0 && sym.Bool() {
			s.paths = []string{"x://u/" + lv(i), "x://u/2"}
			l.Put("uris", a("x://u/"+lv(i), "x://u/2"))
		}
		for j := range s.paths {
			if s.kind == 3 {
				if i == 0 && j == 0 || levels[0].kind != 3 {
					variable = value34()
				}
				s.vals = append(s.vals, variable)
				continue
			}
			v := value34
			if j == 1 && sym.Bound("shapes", 4) == 4 {
				v = func() dgo.Value {
					if sym.Bool() {
						return m("a", 1, 1, m("b", 2))
					}
					return nil
				}
			}
			s.vals = append(s.vals, v())
		}
		switch s.kind {
		case 0:
			funcs.Put("f"+lv(i), s.hash)
		case 1:
			funcs.Put("f"+lv(i), s.key)
		case 3:
			l.Put("lookup_key", "scope")
		default:
			funcs.Put("f"+lv(i), func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
				if key.Get(0).Equals("lookup_options") {
					return nil
				}
				j := s.at(pc)
				sym.Assert(sameOrder(key, parts) || sameOrder(key, a(root)), "a data_dig function is not asked for the segments of the key")
				all = all && sameOrder(key, parts)
				s.asked = append(s.asked, s.paths[j])
				s.rooted = key.Len() == 1
				if s.vals[j] == nil || s.rooted {
					return s.vals[j]
				}
				return specDig(s.vals[j], segs)
			})
		}
		hierarchy.Add(l)
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", hierarchy))
	strategy := pick("first", "deep")
	s := newSession(nil, api.HieraFunctions, funcs)
	var scope dgo.Map
	if variable != nil {
		scope = m(root, variable)
	}
	for again := 0; again < 2; again++ {
		for _, l := range levels {
			l.asked = nil
		}
		got, err := lookup(s, scope34(scope), text, m("merge", strategy))
		must(err)
		observe(got, err)
		var vals []dgo.Value
		hit := false
		for _, l := range levels {
			var ask []string
			var lvals []dgo.Value
			for j, v := range l.vals {
				if hit && strategy == "first" {
					break
				}
				if l.kind == 1 || l.kind == 2 {
					ask = append(ask, l.paths[j])
				}
				if l.kind == 2 && !l.rooted && v != nil {
					v = bury34(specDig(v, segs), segs)
				}
				lvals = append(lvals, v)
				hit = hit || v != nil
			}
			vals = append(vals, specMerge(strategy, lvals))
			ok := len(ask) == len(l.asked)
			for j := 0; ok && j < len(ask); j++ {
				ok = ask[j] == l.asked[j]
			}
			sym.Assert(ok, "the function of a level is not asked once for each location in order")
		}
		want := specMerge(strategy, vals)
		if want != nil {
			want = specDig(want, segs)
		}
		sym.Assert(same(got, want), "a lookup does not give what the functions of the levels give")
		if want == nil {
			sym.Reach("not found")
		} else {
			sym.Reach("found")
		}
	}
	// the finding is told for a few of the many configurations that show it
	all = all || strategy != "first" || opts != 0 || levels[0].kind != 2 || levels[1].kind != 0
	sym.AssertKnown("segments", all, "a data_dig function is asked for the first segment of the key only")
}
