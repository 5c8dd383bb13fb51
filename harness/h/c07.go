package h

import (
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// fixed is a top provider with fixed data.
func fixed(data dgo.Map) sdk.LookupKey {
	return func(pc sdk.ProviderContext, key string) dgo.Value {
		return data.Get(key)
	}
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' }

func trim(s string) string {
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

// specMethod splits a method expression: name, an opening parenthesis, quoted text, a closing parenthesis.
func specMethod(e string) (name, arg string, ok bool) {
	i := 0
	for i < len(e) && (e[i] >= 'a' && e[i] <= 'z' || e[i] >= 'A' && e[i] <= 'Z' || e[i] >= '0' && e[i] <= '9' || e[i] == '_') {
		i++
	}
	if i == 0 || i+4 >= len(e) || e[i] != '(' || e[len(e)-1] != ')' {
		return
	}
	q := e[i+1]
	if q != '\'' && q != '"' || e[len(e)-2] != q {
		return
	}
	arg = e[i+2 : len(e)-2]
	for j := 0; j < len(arg); j++ {
		if arg[j] == q {
			return
		}
	}
	return e[:i], arg, arg != ""
}

// specInterpolate is what interpolating s gives: v is the value (nil: not found), bad an error.
func specInterpolate(s string, vars, data dgo.Map, methods bool) (v dgo.Value, bad bool) {
	out := ""
	i := 0
	for i < len(s) {
		if s[i] != '%' || i+1 >= len(s) || s[i+1] != '{' {
			out += s[i : i+1]
			i++
			continue
		}
		j := i + 2
		for j < len(s) && s[j] != '}' {
			j++
		}
		if j == len(s) {
			out += s[i : i+1]
			i++
			continue
		}
		e := trim(s[i+2 : j])
		whole := i == 0 && j == len(s)-1
		i = j + 1
		switch e {
		case "", "::", `""`, "''", `"::"`, `'::'`:
			continue
		}
		src := vars
		if name, arg, ok := specMethod(e); ok {
			if !methods {
				return nil, true
			}
			switch name {
			case "literal":
				out += arg
				continue
			case "scope":
			case "lookup", "hiera":
				src = data
			case "alias", "strict_alias":
				if !whole {
					return nil, true
				}
				segs, ok := specKey(arg)
				if !ok {
					return nil, true
				}
				v := digSegs(data, segs)
				if v == nil && name == "alias" {
					v = vf.String("")
				}
				return v, false
			default:
				return nil, true
			}
			e = arg
		}
		segs, ok := specKey(e)
		if !ok {
			return nil, true
		}
		if v := digSegs(src, segs); v != nil {
			out += v.String()
		}
	}
	return vf.String(out), false
}

func digSegs(src dgo.Map, segs []seg) dgo.Value {
	ds := make([]dseg, len(segs))
	for i, s := range segs {
		ds[i] = dseg{isInt: s.isInt, n: s.n, s: s.text}
	}
	return specDig(src, ds)
}

func checkInterpolation(t string, vars, data dgo.Map) {
	want, bad := specInterpolate(t, vars, data, true)
	s := newSession(fixed(data))
	var got dgo.Value
	err := try(func() { got = s.Invocation(vars, nil).Interpolate(vf.String(t), true) })
	observe(got, err)
	if bad {
		sym.Reach("error")
		sym.Assert(err != nil, "a bad expression is accepted")
		return
	}
	must(err)
	if strings.Contains(t, "%{") {
		sym.Reach("expression")
	} else {
		sym.Reach("plain")
	}
	sym.Assert(same(got, want), "the interpolation gives another value")
}

// C07Text interpolates any short text.
func C07Text() {
	start()
	n := sym.Choice(sym.Bound("len", 5) + 1)
	t := sym.String(n, n, "%{}x:' \n.a\xc3")
	sym.Assume(validUTF8(t))
	checkInterpolation(t, m("x", "V", "a", m("x", 7)), m())
}

// validUTF8 is for text whose only byte above 0x7f would be a lone one.
func validUTF8(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// C07Inside interpolates any short text within one expression, and around it.
func C07Inside() {
	start()
	n := sym.Choice(sym.Bound("len", 4) + 1)
	e := sym.String(n, n, "x:'\" .a0(){%")
	t := pick("", "a", "{", "%") + "%{" + e + "}" + pick("", "b", "}", "%", "{x}")
	checkInterpolation(t, m("x", m("a", "V", "x", a("W"), "0", 7), "a", vf.Nil, "0", 1), m())
}

// someValue is a value of the first n kinds, for variables and data.
func someValue(n int) dgo.Value {
	switch sym.Choice(n) {
	case 0:
		return nil
	case 1:
		return vf.String(sym.String(0, 2, "ab}"))
	case 2:
		return vf.Integer(int64(sym.Choice(3) - 1))
	case 3:
		return vf.Boolean(sym.Choice(2) == 0)
	case 4:
		return vf.Nil
	case 5:
		return a(1, "x")
	case 6:
		return m("a", "V", "b", vf.Nil)
	default:
		return []dgo.Value{vf.Float(1.5), vf.Float(2), vf.Float(1e21), vf.Float(-0.25e-9)}[sym.Choice(4)]
	}
}

// C07Forms interpolates sequences of expressions of every form and text between them.
func C07Forms() {
	start()
	pieces := 1 + sym.Choice(sym.Bound("pieces", 2))
	kinds := 8
	if pieces > 1 {
		kinds = 6
	}
	v := someValue(kinds)
	vars, data := m("y", "Y", " ", "S", "x ", "T"), m("z", "Z")
	if v != nil {
		if sym.Choice(2) == 0 {
			vars.Put("x", v)
		} else {
			data.Put("x", v)
		}
	}
	t := ""
	for i := pieces; i > 0; i-- {
		switch sym.Choice(11) {
		case 10:
			t += "%{" + pick("literal", "scope") + "('" + sym.String(1, 2, " x%:") + "')}"
		case 0:
			t += sym.String(1, 1, "a %{}\n")
		case 1:
			t += "%{" + pick("", "::", `""`, "''", `"::"`, `'::'`, " ") + "}"
		case 2:
			t += "%{" + pick("", " ") + pick("x", "x.a", "x.1", "y", "::x", "'x'", "missing") + pick("", "\t") + "}"
		case 3:
			t += "%{lookup(" + pick(`'x'`, `"x"`, `'x.a'`, `"x.'a'"`, "'z'", "'missing'") + ")}"
		case 4:
			t += "%{hiera(" + pick(`'x'`, `"x"`) + ")}"
		case 5:
			t += "%{literal(" + pick(`'%'`, `"'"`, `'x'`, `' '`, `''`) + ")}"
		case 6:
			t += "%{scope(" + pick(`'x'`, `"x.a"`, `'missing'`) + ")}"
		case 7:
			t += "%{" + pick("alias", "strict_alias") + "(" + pick(`'x'`, `"x.a"`, `'missing'`, `'x..a'`) + ")}"
		case 8:
			t += "%{" + pick("Alias", "aliasx", "lookup2", "_") + "('x')}"
		default:
			t += pick("%{lookup('x)}", "%{lookup(x)}", "%{lookup('x') }", "%{lookup ('x')}", "%{x..a}", "%{1}", "%{'x}", "%{x", "%{alias('x', 'y')}", "%{lookup('x'", "{}")
		}
	}
	checkInterpolation(t, vars, data)
}

// C07Config interpolates text where methods are not allowed.
func C07Config() {
	start()
	vars := m("x", sym.String(0, 2, "ab"))
	t := pick("", "a")
	switch sym.Choice(3) {
	case 0:
		t += "%{" + pick("x", "y", "", "::", "x.a", "lookup(x)", "'x'", "x..a") + "}"
	case 1:
		t += "%{" + pick("lookup", "hiera", "alias", "strict_alias", "literal", "scope", "other") + "(" + pick(`"x"`, `'x'`, `'x', 1`) + ")}"
	default:
		vars.Put("y", pick("%{x}", "%{lookup('x')}", "%{literal('x')}", "%{"))
		t += "%{y}"
	}
	t += pick("", "b")
	w, bad := specInterpolate(t, vars, m(), false)
	if y := vars.Get("y"); y != nil {
		{
			// the value of a variable is interpolated too
			var y2 dgo.Value
			if y2, bad = specInterpolate(y.String(), vars, m(), false); !bad {
				w, bad = specInterpolate(t, m("y", y2), m(), false)
			}
		}
	}
	want := ""
	if !bad {
		want = w.String()
	}
	where := sym.Choice(5)
	level := m("name", "l", "data_hash", "fn")
	name := "fn"
	seen := ""
	asked := false
	fn := func(pc sdk.ProviderContext) dgo.Map {
		asked = true
		switch where {
		case 0, 2, 3:
			seen = pc.Option("path").String()
		case 1:
			seen = pc.Option("o").(dgo.Map).Get("p").(dgo.Array).Get(0).String()
		}
		return m("k", "v")
	}
	switch where {
	case 0:
		level.Put("path", "p"+t)
		vfs.Put("data/p"+want, m())
		want = vfs.Path("data/p" + want)
	case 1:
		level.Put("options", m("o", m("p", a(t))))
	case 2:
		level.Put("path", "f.yaml")
		level.Put("datadir", "d"+t)
		vfs.Put("d"+want+"/f.yaml", m())
		want = vfs.Path("d" + want + "/f.yaml")
	case 3:
		level.Put("uri", t)
	default:
		level.Put("data_hash", "f"+t)
		name = "f" + want
		want = ""
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(level)))
	s := newSession(nil, api.HieraFunctions, m(name, fn))
	v, err := lookup(s, vars, "k", nil)
	observe(v, err)
	if bad {
		sym.Reach("error")
		sym.Assert(err != nil, "a method or a bad expression is accepted in the configuration")
		return
	}
	must(err)
	sym.Reach("expression")
	sym.Assert(asked, "the function was not called")
	sym.Assert(seen == want, "the configuration is interpolated to another text: "+seen)
}

// C07Lookup looks up strings with expressions that stand in a data file, directly and within a structure.
func C07Lookup() {
	start()
	vars := m("x", pick("V", "{x}", "%", ""))
	t := ""
	for i := 1 + sym.Choice(sym.Bound("pieces", 3)); i > 0; i-- {
		t += pick("%{x}", "{x}", "%{literal('%')}", "%", "%{lookup('z')}", "a", "%{alias('z')}", "%{scope('y')}")
	}
	z := pick("Z", "%{x}", "{x}")
	zw, _ := specInterpolate(z, vars, m(), true)
	vfs.Put("data/common.yaml", m("k", t, "n", a(t), "z", z))
	vfs.Put("hiera.yaml", m("version", 5))
	w, bad := specInterpolate(t, vars, m("z", zw), true)
	s := newSession(nil)
	nested := sym.Choice(2) == 1
	key := "k"
	if nested {
		key = "n.0"
	}
	v, err := lookup(s, vars, key, nil)
	observe(v, err)
	if bad {
		sym.Reach("error")
		sym.Assert(err != nil, "a bad expression is accepted")
		return
	}
	ok := err == nil && same(v, w)
	if strings.Contains(w.String(), "%{") {
		// the text that results holds what looks like an expression
		sym.Reach("again")
		sym.AssertKnown("twice", ok, "an interpolated value is interpolated again")
		return
	}
	must(err)
	sym.Reach("found")
	sym.Assert(ok, "the value is not the interpolated text")
}
