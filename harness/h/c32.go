package h

import (
	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	"github.com/lyraproj/hiera/zzverif/yamlmain"
)

// document is a YAML document and the value that JSON can have for it.
func document(depth int) (y, j dgo.Value) {
	n := 5
	if depth > 0 {
		n = 7
	}
	switch sym.Choice(n) {
	case 0:
		y = vf.String("s")
		if depth == sym.Bound("depth", 2) {
			y = vf.String(sym.String(0, sym.Bound("len", 3), "a<\"\\1 \n") + pick("", `\u003c`, `\n`, "\u0001"))
		}
	case 1:
		y = vf.Value(sym.Int(-1, 12))
	case 2:
		y = vf.Float(2.5)
	case 3:
		y = vf.Boolean(sym.Bool())
	case 4:
		y = vf.Nil
	case 5: // a sequence
		ys, js := vf.MutableValues(), vf.MutableValues()
		if sym.Bool() {
			y, j = document(depth - 1)
			ys.Add(y)
			js.Add(j)
		}
		if sym.Bool() {
			ys.Add(1)
			js.Add(1)
		}
		return ys, js
	default: // a mapping
		ym, jm := vf.MutableMap(), vf.MutableMap()
		ym.Put("k", "v")
		jm.Put("k", "v")
		if k := sym.Choice(5); k > 0 {
			key := []dgo.Value{vf.String("x"), vf.Integer(7), vf.Boolean(true), vf.String("7")}[k-1]
			name := []string{"x", "7", "true", "7"}[k-1]
			y, j = document(depth - 1)
			ym.Put(key, y)
			jm.Put(name, j)
		}
		return ym, jm
	}
	return y, y
}

// C32Convert converts documents.
func C32Convert() {
	start()
	y, j := document(sym.Bound("depth", 2))
	vfs.Put("in.yaml", y)
	out, code := vfs.Tool("yaml2json", "in.yaml", yamlmain.Main)
	observeText(out)
	sym.Assert(code == 0, "a document is not converted")
	sym.Reach("converted")
	var got dgo.Value
	must(tryAny(func() { got = streamer.UnmarshalJSON([]byte(out), streamer.DgoDialect()) }))
	sym.Assert(j.Equals(got), "the JSON is not that of the document")
}

// C32Fails converts text that is not YAML.
func C32Fails() {
	start()
	vfs.PutText("in.yaml", pick("a: [", "\"a", "{"), nil)
	out, code := vfs.Tool("yaml2json", "in.yaml", yamlmain.Main)
	sym.Reach("refused")
	sym.Assert(code == 1 && out == "", "text that is not YAML is not refused")
}
