package h

import (
	"errors"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/merge"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
)

var errBoom = errors.New("boom")

// secretMark is text that nothing else in a run contains.
const secretMark = "zq"

// secretText is any text with the mark; it may hold the start of an expression.
func secretText() string { return sym.String(0, 1, "j%") + secretMark + sym.String(2, 2, "j%{") + "w" }

// C13Secret looks up a key whose value is converted to Sensitive, and looks for the value in all that is said.
func C13Secret() {
	start()
	sec := secretText()
	var v dgo.Value
	switch sym.Choice(6) {
	case 0:
		v = vf.String(sec)
	case 1:
		v = vf.String(sec + "%{x}")
	case 2:
		v = vf.String("%{lookup('part')}%{x}")
	case 3:
		v = a("p", sec)
	case 4:
		v = m("n", m(sec, 1))
	default:
		v = vf.String("%{alias('part')}")
	}
	conv := vf.Value("sensitive")
	switch sym.Choice(4) {
	case 1:
		conv = a("sensitive")
	case 2:
		conv = vf.String("sensitive[any]")
	case 3:
		conv = vf.String("Sensitive")
	}
	ko := m("convert_to", conv)
	switch sym.Choice(4) {
	case 0:
	case 1:
		ko.Put("merge", "unique")
	case 2:
		ko.Put("merge", "deep")
	case 3:
		ko.Put("merge", m("strategy", "hash"))
	}
	d0, d1 := m("z", 0), m("y", "shown", "part", sec)
	where := sym.Choice(3)
	if where != 0 {
		d0.Put("k", v)
	}
	if where != 1 {
		d1.Put("k", v)
	}
	d1.Put("lookup_options", m("k", ko, "part", m("convert_to", "sensitive")))
	key := pick("k", "k.n", "also")
	if key == "k" && sym.Bool() {
		// what a hidden value refers to is hidden also when it is not by itself
		d1.Get("lookup_options").(dgo.Map).Remove("part")
	}
	d1.Put("also", "%{lookup('k')}")
	vfs.Put("data/l0.yaml", d0)
	vfs.Put("data/l1.yaml", d1)
	if sym.Choice(2) == 0 {
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "both", "paths", a("l0.yaml", "l1.yaml")))))
	} else {
		vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "l0.yaml"), m("name", "1", "path", "l1.yaml"))))
	}
	var s api.Session
	if conv.Equals("Sensitive") {
		s = newSession(nil, api.HieraDialect, "pcore")
		if part, ok := d1.Get("lookup_options").(dgo.Map).Get("part").(dgo.Map); ok {
			part.Put("convert_to", "Sensitive")
		}
		vfs.Put("data/l1.yaml", d1)
	} else {
		s = newSession(nil)
	}
	ex := explain.NewExplainer(sym.Choice(2) == 1, false)
	iv := s.Invocation(m("x", 1), ex)
	var r, y dgo.Value
	err := try(func() { r = iv.Lookup(mustKey(key), nil) })
	observe(r, err)
	if err != nil {
		sym.Reach("error")
		sym.Assert(!strings.Contains(err.Error(), secretMark), "the error reveals the value")
	} else if r != nil {
		sym.Reach("found")
		if key == "k" {
			_, ok := r.(dgo.Sensitive)
			sym.Assert(ok, "the value is not converted to Sensitive")
		}
		sym.Assert(!strings.Contains(r.String(), secretMark), "the value as text is revealed")
		out := &strings.Builder{}
		hiera.Render(s, hiera.Text, r, out)
		sym.Assert(!strings.Contains(out.String(), secretMark), "the value rendered as text is revealed")
	}
	// other keys are explained as usual, after it too
	must(try(func() { y = iv.Lookup(mustKey("y"), nil) }))
	sym.Assert(same(y, vf.String("shown")), "another key is hidden")
	text := ex.String()
	observeText(text)
	sym.Assert(!strings.Contains(text, secretMark), "the explanation reveals the value")
	sym.Assert(strings.Contains(text, "shown"), "the explanation hides the value of another key")
}

// C13Fails is a lookup that fails while its value is hidden.
func C13Fails() {
	start()
	sec := secretText()
	bad := pick("%{unknown('x')}", "x%{alias('y')}", "%{lookup('k')}")
	vfs.Put("data/l0.yaml", m("k", a(sec)))
	vfs.Put("data/l1.yaml", m("k", a(bad, sec), "y", "shown", "lookup_options", m("k", m("convert_to", "sensitive", "merge", "unique"))))
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "l0.yaml"), m("name", "1", "path", "l1.yaml"))))
	s := newSession(nil)
	ex := explain.NewExplainer(sym.Choice(2) == 1, false)
	iv := s.Invocation(m("x", 1), ex)
	err := try(func() {
		if sym.Choice(2) == 0 {
			iv.Lookup(mustKey("k"), nil)
		} else {
			iv.Interpolate(vf.String("%{lookup('k')}"), true)
		}
	})
	sym.Assert(err != nil, "the lookup does not fail")
	sym.Assert(!strings.Contains(err.Error(), secretMark), "the error reveals the value")
	sym.Reach("error")
	var y dgo.Value
	must(try(func() { y = iv.Lookup(mustKey("y"), nil) }))
	sym.Assert(same(y, vf.String("shown")), "another key is hidden")
	text := ex.String()
	observeText(text)
	sym.Assert(!strings.Contains(text, secretMark), "the explanation reveals the value")
	sym.Assert(strings.Contains(text, "shown"), "the explanation hides the value of another key")
}

// C13Redacted nests hidden and other parts of one invocation.
func C13Redacted() {
	sec := secretText()
	start()
	ex := explain.NewExplainer(true, false)
	iv := newSession(nil).Invocation(nil, ex)
	n := sym.Int(0, 999)
	report := func(v dgo.Value) {
		iv.WithLookup(mustKey("q"), func() dgo.Value {
			return iv.WithMerge(merge.GetStrategy("deep", nil), func() dgo.Value {
				iv.WithSegment(1, func() dgo.Value { iv.ReportFound("q", v); return v })
				iv.WithSegment("s", func() dgo.Value { iv.ReportNotFound("s"); return nil })
				iv.ReportMergeResult(v)
				return v
			})
		})
	}
	iv.DoRedacted(func() {
		if sym.Choice(2) == 1 {
			iv.DoRedacted(func() { report(vf.String(sec)) })
		}
		report(a(sec, n))
		_ = try(func() { iv.DoRedacted(func() { panic(errBoom) }) })
		report(vf.String(sec))
	})
	if sym.Choice(2) == 1 {
		_ = try(func() { iv.DoRedacted(func() { panic(errBoom) }) })
	}
	report(vf.String("shown"))
	text := ex.String()
	observeText(text)
	sym.Assert(!strings.Contains(text, secretMark), "the explanation reveals the value")
	sym.Assert(strings.Contains(text, "shown"), "the value of another key is hidden")
	sym.Reach("explained")
}
