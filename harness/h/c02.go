package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// digValue is any value of the given depth: arrays, maps with text and integer keys, and leaves.
func digValue(depth int) dgo.Value {
	n := 6
	if depth > 0 {
		n = 9
	}
	switch sym.Choice(n) {
	case 0:
		return vf.Integer(int64(sym.Int(0, 9)))
	case 1:
		return vf.Boolean(sym.Bool())
	case 2:
		return vf.Nil
	case 3:
		return vf.String(sym.String(0, 1, "a"))
	case 4:
		return a()
	case 5:
		return m()
	case 6:
		es := make([]dgo.Value, 1+sym.Choice(2))
		for i := range es {
			es[i] = vf.Integer(int64(sym.Int(0, 9)))
		}
		es[sym.Choice(len(es))] = digValue(depth - 1)
		return vf.WrapSlice(es)
	case 7:
		return m("a", digValue(depth-1), "b", vf.Nil)
	default:
		return m(sym.Int(0, 1), digValue(depth-1), "0", 77, "", 78)
	}
}

type dseg struct {
	isInt bool
	n     int
	s     string
}

// specDig walks the segments, independently of the implementation.
func specDig(v dgo.Value, segs []dseg) dgo.Value {
	for _, s := range segs {
		var next dgo.Value
		switch c := v.(type) {
		case dgo.Array:
			if s.isInt {
				for i := 0; i < c.Len(); i++ {
					if i == s.n {
						next = c.Get(i)
					}
				}
			}
		case dgo.Map:
			c.EachEntry(func(e dgo.MapEntry) {
				switch k := e.Key().(type) {
				case dgo.Integer:
					if s.isInt && int(k.GoInt()) == s.n {
						next = e.Value()
					}
				case dgo.String:
					if !s.isInt && k.GoString() == s.s {
						next = e.Value()
					}
				}
			})
		}
		if next == nil {
			return nil
		}
		v = next
	}
	return v
}

// anySegs makes up to n segments and the key text for them.
func anySegs(n int) ([]dseg, string) {
	var segs []dseg
	text := "r"
	for i := sym.Choice(n + 1); i > 0; i-- {
		switch sym.Choice(4) {
		case 0:
			d := sym.Byte("0123")
			segs = append(segs, dseg{isInt: true, n: int(d - '0')})
			text += "." + string([]byte{d})
		case 1:
			segs = append(segs, dseg{isInt: true, n: -1})
			text += ".-1"
		case 2:
			s := string([]byte{sym.Byte("ab")})
			segs = append(segs, dseg{s: s})
			text += "." + s
		default:
			s := sym.String(0, 1, "a0.")
			segs = append(segs, dseg{s: s})
			text += ".'" + s + "'"
		}
	}
	return segs, text
}

// C02Dig digs with any key into any value, directly and by a lookup.
func C02Dig() {
	start()
	v := digValue(sym.Bound("depth", 2))
	before := vfs.Copy(v)
	segs, text := anySegs(sym.Bound("segs", 2))
	want := specDig(before, segs)
	s := newSession(func(pc sdk.ProviderContext, key string) dgo.Value {
		if key == "r" {
			return v
		}
		return nil
	})
	got, err := lookup(s, nil, text, nil)
	must(err)
	observe(got, err)
	if want == nil {
		sym.Reach("not found")
	} else {
		sym.Reach("found")
	}
	sym.Assert(same(got, want), "a lookup with a dotted key does not give the addressed element")
	sym.Assert(sameOrder(v, before), "digging changed the value")
	k := api.NewKey(text)
	var d dgo.Value
	must(try(func() { d = k.Dig(s.Invocation(nil, nil), v) }))
	sym.Assert(same(d, want), "Dig does not give the addressed element")
	if sym.Bound("bury", 1) != 0 {
		b := k.Bury(v)
		if len(segs) > 0 {
			sym.Assert(b != nil && !b.Equals(v) || len(segs) == 0, "a buried value is the value itself")
		}
		must(try(func() { d = k.Dig(s.Invocation(nil, nil), b) }))
		sym.Assert(same(d, before), "a buried value is not found where it was buried")
	}
}

// C02Index digs with indexes of any size.
func C02Index() {
	start()
	n := sym.Choice(4)
	es := make([]dgo.Value, n)
	for i := range es {
		es[i] = vf.Integer(int64(10 + i))
	}
	var t []byte
	switch sym.Choice(3) {
	case 1:
		t = append(t, '-')
	case 2:
		t = append(t, '+')
	}
	t = append(t, pick("", "0", "000", "21474836", "42949672", "429496729", "1844674407370955161")...)
	for d := sym.Choice(sym.Bound("digits", 2)) + 1; d > 0; d-- {
		t = append(t, sym.Byte("0123456789"))
	}
	text := "r." + string(t)
	ix, isIx := specInt32(t)
	v := vf.WrapSlice(es)
	s := newSession(func(pc sdk.ProviderContext, key string) dgo.Value { return v })
	got, err := lookup(s, nil, text, nil)
	must(err)
	observe(got, err)
	if isIx && ix >= 0 && ix < n {
		sym.Reach("found")
		sym.Assert(got != nil, "an existing element is not found")
		g, ok := got.(dgo.Integer)
		sym.Assert(ok && int(g.GoInt()) == 10+ix, "the wrong element is found")
	} else {
		sym.Reach("not found")
		sym.Assert(got == nil, "an element outside the array is found")
	}
}
