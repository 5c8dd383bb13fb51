package h

import (
	"bytes"
	"errors"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/zzverif/sym"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// renderText is what looking up and rendering the value gives.
func renderText(v dgo.Value, opts *hiera.CommandOptions) (text string, found bool, err error) {
	s := newSession(func(pc sdk.ProviderContext, key string) dgo.Value {
		if pc.(api.ServerContext).Invocation().LookupOptionsMode() || key != "k" {
			return nil
		}
		return v
	})
	out := bytes.Buffer{}
	err = tryAny(func() { found = hiera.LookupAndRender(s, opts, []string{"k"}, &out) })
	text = out.String()
	return
}

// word is a text that a rendering may have to quote.
func word(n int) dgo.Value {
	return vf.String(sym.String(0, n, "a :#-'\"\n0~,{%&*!\\<"))
}

func anyData(depth, n int) dgo.Value {
	k := 7
	if depth == 0 {
		k = 5
	}
	switch sym.Choice(k) {
	case 0:
		return word(n)
	case 1:
		return vf.Integer(int64(sym.Int(-10, 12)))
	case 2:
		return vf.Boolean(sym.Bool())
	case 3:
		return vf.Nil
	case 4:
		return vf.String(pick("null", "yes", "true", "1.5", "0x1", "=", "<<", "2020-01-01", "1e3", "__type", "a\nb", "a\n\nb\n", "\n a", " a ", "\ta", ".inf"))
	case 5:
		switch sym.Choice(3) {
		case 0:
			return a()
		case 1:
			return a(anyData(depth-1, n-1))
		}
		return a(sym.Int(0, 9), anyData(depth-1, 0), "e")
	}
	switch sym.Choice(3) {
	case 0:
		return m()
	case 1:
		return m(word(1), anyData(depth-1, 0))
	}
	return m("x", sym.Int(0, 9), "y", anyData(depth-1, n-1), "z", a())
}

// leaves are the texts of all that is in a value.
func leaves(v dgo.Value) (r []string) {
	switch v := v.(type) {
	case dgo.Array:
		v.Each(func(e dgo.Value) { r = append(r, leaves(e)...) })
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { r = append(append(r, leaves(e.Key())...), leaves(e.Value())...) })
	case dgo.String:
		r = append(r, v.GoString())
	default:
		r = append(r, v.String())
	}
	return
}

// C29Data renders any data.
func C29Data() {
	start()
	v := anyData(sym.Bound("depth", 1), sym.Bound("len", 2))
	form := pick("json", "yaml", "", "s")
	text, found, err := renderText(v, &hiera.CommandOptions{RenderAs: form})
	must(err)
	sym.Assert(found, "a value that is found is reported as not found")
	sym.Observe(text)
	sym.Reach("rendered")
	sym.Assert(strings.HasSuffix(text, "\n"), "the text does not end with a line end")
	var w dgo.Value
	switch form {
	case "json":
		must(try(func() { w = streamer.UnmarshalJSON([]byte(text), nil) }))
	case "s":
		if s, ok := v.(dgo.String); ok {
			sym.Assert(text == s.GoString()+"\n", "a text is not rendered as it is")
			return
		}
		if vf.Nil == v {
			return
		}
		for _, l := range leaves(v) {
			if l != "null" && !strings.ContainsAny(l, "\\\"\n\t") {
				sym.Assert(strings.Contains(text, l), "an element is not shown")
			}
		}
		return
	default:
		if text == "\n" {
			w = vf.Nil
			break
		}
		w, err = yaml.Unmarshal([]byte(text))
		for _, l := range leaves(v) {
			if t := strings.TrimLeft(l, "\n"); t != l && (t == "" || t[0] == ' ') {
				sym.AssertKnown("block", err == nil && same(w, v), "a text that starts with a line end and a space is not rendered properly as YAML")
			}
		}
		must(err)
	}
	sym.Assert(same(w, v), "the rendered text is not the value")
}

// C29Found tells found from not found.
func C29Found() {
	start()
	var v dgo.Value
	switch sym.Choice(8) {
	case 0: // not found
	case 1:
		v = vf.Nil
	case 2:
		v = vf.Boolean(sym.Bool())
	case 3:
		v = vf.Integer(int64(sym.Int(-1, 1)))
	case 4:
		v = vf.String(sym.String(0, 1, "a"))
	case 5:
		v = a()
	case 6:
		v = m()
	case 7:
		v = a(vf.Nil)
	}
	opts := &hiera.CommandOptions{RenderAs: pick("json", "yaml", "", "s"), LookupAll: sym.Bool(), Merge: pick("", "first")}
	var dflt string
	hasDflt := sym.Bool()
	if hasDflt {
		dflt = sym.String(0, 1, "b ")
		opts.Default = &dflt
	}
	explained := sym.Choice(4)
	opts.ExplainData = explained&1 == 1
	opts.ExplainOptions = explained&2 == 2
	if explained != 0 {
		opts.RenderAs = ""
	}
	want := v
	if opts.LookupAll {
		want = m()
		if v != nil {
			want = m("k", v)
		}
	} else if v == nil && hasDflt {
		want = vf.String(strings.TrimSpace(dflt))
	}
	text, found, err := renderText(v, opts)
	must(err)
	sym.Assert(found == (want != nil), "the outcome is not what was found")
	sym.Observe(text)
	if explained != 0 {
		sym.Assert(text != "", "there is no explanation")
		sym.Reach("explained")
		return
	}
	if want == nil {
		sym.Assert(text == "", "there is text for a value that is not found")
		sym.Reach("not found")
		return
	}
	sym.Reach("found")
	var w dgo.Value
	switch opts.RenderAs {
	case "json":
		must(try(func() { w = streamer.UnmarshalJSON([]byte(text), nil) }))
	case "s":
		return
	default:
		if text == "\n" {
			w = vf.Nil
			break
		}
		w, err = yaml.Unmarshal([]byte(text))
		must(err)
	}
	sym.Assert(same(w, want), "the rendered text is not the value")
}

// failing is a writer that fails after some writes.
type failing struct {
	bytes.Buffer
	left int
}

func (f *failing) Write(b []byte) (int, error) {
	if f.left == 0 {
		return 0, errWrite
	}
	f.left--
	return f.Buffer.Write(b)
}

// WriteString and WriteByte are those of a writer without them.
func (f *failing) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *failing) WriteByte(b byte) error {
	_, err := f.Write([]byte{b})
	return err
}

var errWrite = errors.New("no space")

// C29Special renders values that are not data, with any of the forms.
func C29Special() {
	start()
	form := pick("json", "yaml", "s", "binary", "xml", "JSON")
	var bs []byte
	if form == "binary" {
		bs = []byte(sym.String(0, sym.Bound("len", 2), "\x00a\xff"))
	} else {
		bs = []byte(pick("", "\x00", "a\xff", "abc"))
	}
	secret := pick("secret", "%{x} \n")
	var v dgo.Value
	kind := sym.Choice(4)
	switch kind {
	case 0:
		v = vf.Binary(bs, true)
	case 1:
		v = vf.Sensitive(secret)
	case 2: // the text of a binary
		v = vf.String(pick("", "YQ==", "YWI=", "?", "a", "YQ"))
	case 3: // the bytes of a binary
		if form == "binary" {
			v = a(sym.Int(-1, 256), sym.Int(0, 1))
		} else {
			v = a(pickInt(-1, 0, 255, 256), 1)
		}
	}
	inner := v
	nested := 0
	if kind < 2 {
		nested = sym.Choice(3)
	}
	switch nested {
	case 1:
		v = a(1, v)
	case 2:
		v = m("a", v, "b", 1)
	}
	out := &failing{left: sym.Int(0, 2)}
	if sym.Bool() {
		out.left = 1000
	}
	enough := out.left == 1000
	s := newSession(func(pc sdk.ProviderContext, key string) dgo.Value {
		if pc.(api.ServerContext).Invocation().LookupOptionsMode() {
			return nil
		}
		return v
	})
	found := false
	err := tryAny(func() { found = hiera.LookupAndRender(s, &hiera.CommandOptions{RenderAs: form}, []string{"k"}, out) })
	text := out.String()
	sym.Assert(found == (err == nil), "a failure is reported as success")
	sym.Observe(text)
	if err != nil {
		sym.Reach("error")
		if !enough {
			return
		}
		switch form {
		case "json", "yaml", "s":
			sym.Assert(false, "a value is not rendered: "+err.Error())
		case "binary":
			i := int64(0)
			if kind == 3 {
				i = intOf(v.(dgo.Array).Get(0))
			}
			good := nested == 0 && kind == 0 || kind == 2 && oneOf(v, "", "YQ==", "YWI=") || kind == 3 && i >= 0 && i < 256
			sym.Assert(!good, "a binary is not rendered")
		}
		sym.Assert(text == "", "there is output of a rendering that is not done")
		return
	}
	sym.Reach("rendered")
	switch form {
	case "xml", "JSON":
		sym.Assert(false, "an unknown rendering is accepted")
	case "s":
		if kind == 1 {
			sym.Assert(!strings.Contains(text, secret), "a sensitive value is shown as text")
			sym.Assert(strings.HasSuffix(text, "\n"), "the text does not end with a line end")
		}
	case "binary":
		switch {
		case nested != 0 || kind == 1:
			sym.Assert(false, "something else is rendered as a binary")
		case kind == 0:
			sym.Assert(text == string(bs), "other bytes")
		case kind == 2:
			switch inner.(dgo.String).GoString() {
			case "":
				sym.Assert(text == "", "other bytes")
			case "YQ==":
				sym.Assert(text == "a", "other bytes")
			case "YWI=":
				sym.Assert(text == "ab", "other bytes")
			default:
				sym.Assert(false, "a text that is not of a binary is accepted")
			}
		case kind == 3:
			p, q := intOf(inner.(dgo.Array).Get(0)), intOf(inner.(dgo.Array).Get(1))
			sym.Assert(p >= 0 && p < 256 && text == string([]byte{byte(p), byte(q)}), "other bytes")
		}
	default:
		var w dgo.Value
		if form == "json" {
			must(try(func() { w = streamer.UnmarshalJSON([]byte(text), s.Dialect()) }))
		} else {
			var err error
			w, err = yaml.Unmarshal([]byte(text))
			must(err)
			c := streamer.DataDecoder(nil, s.Dialect())
			must(try(func() { streamer.New(nil, streamer.DefaultOptions()).Stream(w, c) }))
			w = c.Value()
		}
		sym.Assert(w.Equals(v), "the rendered text is not the value")
	}
}

func oneOf(v dgo.Value, ss ...string) bool {
	for _, s := range ss {
		if v.(dgo.String).GoString() == s {
			return true
		}
	}
	return false
}

func intOf(v dgo.Value) int64 { return v.(dgo.Integer).GoInt() }
