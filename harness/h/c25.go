package h

import (
	"errors"
	"net/url"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/zzverif/proc"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// call is a request that a plugin got.
type call struct {
	path string
	q    url.Values
}

// pluginWorld is a configuration with one level that asks a plugin, and one below it.
type pluginWorld struct {
	kind, fn string
	options  dgo.Map // expected
	calls    []call
	answer   func() proc.Answer
	srv      *proc.Server
}

func newPluginWorld(kind, fn, network string, level dgo.Map) *pluginWorld {
	startPlugins()
	w := &pluginWorld{kind: kind, fn: fn}
	n := network
	if n == "" {
		n = "tcp"
	}
	w.srv = proc.Serve(n, func(path string, q url.Values) proc.Answer {
		k := q.Get("key")
		if k == "lookup_options" || strings.Contains(k, `"lookup_options"`) {
			return proc.Answer{Status: 404}
		}
		w.calls = append(w.calls, call{path, q})
		return w.answer()
	})
	s := goodPlugin(w.srv, `{"`+kind+`":["other","`+fn+`"]}`)
	if network == "" {
		s.Text = metaText("1", `"`+w.srv.Addr+`"`, "", `{"`+kind+`":["other","`+fn+`"]}`)
	}
	proc.Plugin("plugin/p", s)
	l := m("name", "0", kind, fn, "pluginfile", "p")
	l.PutAll(level)
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(l, m("name", "1", "path", "l.yaml"))))
	return w
}

// lookup performs a lookup in a session that then ends.
func (w *pluginWorld) lookup(key string) (v dgo.Value, err error) {
	s := newSession(nil)
	err = tryText(func() { v = hiera.Lookup(s.Invocation(nil, nil), key, nil, nil) })
	s.KillPlugins()
	observe(v, err)
	return
}

// checkCall checks what the plugin was asked.
func (w *pluginWorld) checkCall(c call, options dgo.Map, key dgo.Value) {
	sym.Assert(c.path == "/"+w.kind+"/"+w.fn, "another function is asked")
	n := 0
	if key != nil {
		n++
		ks := c.q["key"]
		if len(ks) != 1 {
			sym.Assert(false, "the request does not have one key")
		}
		if s, ok := key.(dgo.String); ok {
			sym.Assert(ks[0] == s.GoString(), "the plugin is asked for another key")
		} else {
			sym.Assert(same(streamer.UnmarshalJSON([]byte(ks[0]), nil), key), "the plugin is asked for another key")
		}
	}
	if options.Len() > 0 {
		n++
		os := c.q["options"]
		if len(os) != 1 {
			sym.Assert(false, "the request does not have the options")
		}
		sym.Assert(same(streamer.UnmarshalJSON([]byte(os[0]), nil), options), "the request has other options than the level")
	}
	sym.Assert(len(c.q) == n, "the request has other parameters")
}

// C25Request checks what plugins are asked.
func C25Request() {
	kind := pick("lookup_key", "data_dig", "data_hash")
	level, options := m(), m()
	switch sym.Choice(3) {
	case 1:
		options = m("s", sym.String(0, 1, `a"&%+ `), "i", sym.Int(0, 9), "a", a(vf.Nil, true, m("x", "y")), "e", m())
		level.Put("options", options)
	case 2:
		options = m("same", a("text", "text", 1, 1), "k", m("same", "same"))
		level.Put("options", options)
	}
	paths := []string{""}
	switch sym.Choice(3) {
	case 1:
		level.Put("uri", "http://x/y?z=1&u=%25")
		paths = []string{"http://x/y?z=1&u=%25"}
	case 2:
		level.Put("paths", a("a.x", "b.x"))
		paths = []string{"a.x", "b.x"}
	}
	fn := pick("f", "a::b")
	w := newPluginWorld(kind, fn, pick("tcp", "unix", ""), level)
	for i, p := range paths {
		if strings.HasSuffix(p, ".x") {
			vfs.PutText("data/"+p, "x", nil)
			paths[i] = vfs.Path("data/" + p)
		}
	}
	vfs.Put("data/l.yaml", m("z", 1))
	w.answer = func() proc.Answer { return proc.Answer{Status: 404} }
	key := pick("k", "k.0.x", "'k.l'.m", "a::b", "k1", "k.'0'")
	if sym.Bool() {
		key = "k" + sym.String(1, 1, "&=%+ a/<")
	}
	v, err := w.lookup(key)
	must(err)
	sym.Assert(v == nil, "what is not found gives a value")
	sym.Reach(kind)
	sym.Assert(len(w.calls) == len(paths), "the plugin is not asked once for each location")
	for i, c := range w.calls {
		o := options.Copy(false)
		if paths[i] != "" {
			o.Put("path", paths[i])
		}
		var k dgo.Value
		switch kind {
		case "lookup_key":
			k = vf.String(mustKey(key).Root())
		case "data_dig":
			k = a(mustKey(key).Root()) // the value is then dug into
		}
		w.checkCall(c, o, k)
	}
}

// C25Answer checks what the answers of plugins become.
func C25Answer() {
	kind := pick("lookup_key", "data_dig", "data_hash")
	w := newPluginWorld(kind, "f", pick("tcp", "unix"), m())
	var lower dgo.Value
	if sym.Bool() {
		lower = vf.String("low")
		vfs.Put("data/l.yaml", m("k", lower))
	}
	key := "k"
	var want dgo.Value
	fails := ""
	var ans proc.Answer
	switch sym.Choice(8) {
	case 0, 1:
		ans.Status = 200
		switch sym.Choice(6) {
		case 0:
			want = vf.Integer(int64(sym.Int(0, 99)))
		case 1:
			want = vf.String(sym.String(0, 1, "a\"<"))
		case 2:
			want = vf.Nil
		case 3:
			want = vf.False
		case 4:
			want = a()
		case 5:
			want = m("x", a(1, vf.Nil), "y", sym.Int(0, 9))
			if sym.Bool() {
				key = "k.x.0"
			}
		}
		ans.Val = want
		if kind == "data_hash" {
			ans.Val = m("other", 1, "k", want)
			if sym.Bool() {
				ans.Val, want = m("other", 1), nil
			}
		}
		if key != "k" {
			if want != nil {
				want = vf.Integer(1)
			}
		}
	case 2:
		ans.Status = 404
		ans.Text = pick("", "404 value not found", `"x"`)
	case 3:
		ans.Status, ans.Text = sym.Int(201, 599), pick("the reason", "")
		sym.Assume(sym.And(sym.And(ans.Status != 404, ans.Status != 204), sym.Or(ans.Status < 300, ans.Status >= 400)))
		fails = ans.Text + "|"
	case 4:
		ans.Status, ans.Text = 200, pick("", "nonsense", `{"a":`)
		fails = "|"
	case 5:
		ans.Status, ans.Text, ans.Cut = pickInt(200, 200, 500), "[1]", true
		fails = "|"
	case 6:
		ans.Drop = true
		fails = "|"
	case 7:
		fails = "|"
		if sym.Bool() {
			ans.Hang = true
		} else {
			w.srv.Stop()
		}
	}
	w.answer = func() proc.Answer { return ans }
	v, err := w.lookup(key)
	if fails != "" {
		sym.Reach("error")
		sym.Assert(err != nil, "a failure is not an error")
		sym.Assert(strings.Contains(err.Error(), strings.TrimSuffix(fails, "|")), "the error does not have the message of the plugin")
		return
	}
	must(err)
	if want == nil && key == "k" {
		want = lower
	}
	if want == nil {
		sym.Reach("not found")
	} else {
		sym.Reach("found")
	}
	sym.Assert(same(v, want), "the answer is not what is found")
}

func pickInt(ns ...int) int { return ns[sym.Choice(len(ns))] }

// C25Functions has functions of the caller.
func C25Functions() {
	start()
	kind := pick("lookup_key", "data_dig", "data_hash")
	level, options := m("name", "0", kind, "f"), m()
	if sym.Bool() {
		options = m("s", sym.String(0, 1, `a" `), "a", a(vf.Nil, m("x", "y")))
		level.Put("options", options)
	}
	paths := []string{""}
	switch sym.Choice(3) {
	case 1:
		level.Put("uri", "http://x")
		paths = []string{"http://x"}
	case 2:
		level.Put("paths", a("a.x", "b.x"))
		vfs.PutText("data/a.x", "x", nil)
		vfs.PutText("data/b.x", "x", nil)
		paths = []string{vfs.Path("data/a.x"), vfs.Path("data/b.x")}
	}
	at := 0
	if len(paths) > 1 {
		at = sym.Choice(2)
	}
	key, root := "k", "k"
	switch sym.Choice(3) {
	case 1:
		key = "k.x.0"
	case 2:
		key, root = "'k.x'.x.0", "k.x"
	}
	var lower, want, answer dgo.Value
	if sym.Bool() {
		lower = m("x", a("low"))
		vfs.Put("data/l.yaml", m(root, lower))
	}
	fails := ""
	switch sym.Choice(4) {
	case 0:
	case 1:
		fails = pick("error", "text")
	default:
		answer = m("x", a(scalar(0)))
		if key == "k" && sym.Bool() {
			answer = scalar(0)
		}
	}
	seen, bad := map[string]int{}, ""
	call := func(pc sdk.ProviderContext, k string) dgo.Value {
		if kind != "data_hash" && pc.(api.ServerContext).Invocation().LookupOptionsMode() {
			return nil
		}
		path := ""
		if p, ok := pc.Option("path").(dgo.String); ok {
			path = p.GoString()
		}
		seen[path]++
		want := options.Copy(false)
		if path != "" {
			want.Put("path", path)
		}
		if !same(pc.OptionsMap(), want) {
			bad = "a function gets other options than its level has"
		}
		if k != "" && k != root {
			bad = "a function is asked for another key"
		}
		if path != paths[at] {
			return nil
		}
		switch fails {
		case "error":
			panic(errors.New("the reason"))
		case "text":
			panic("the reason")
		}
		return answer
	}
	fns := m("f", func(pc sdk.ProviderContext, k string) dgo.Value { return call(pc, k) })
	switch kind {
	case "data_dig":
		fns.Put("f", func(pc sdk.ProviderContext, k dgo.Array) dgo.Value {
			if k.Len() == 0 {
				return nil
			}
			return call(pc, k.Get(0).String())
		})
	case "data_hash":
		if sym.Bool() {
			fns.Put("f", func(pc sdk.ProviderContext) dgo.Value {
				if v := call(pc, ""); v != nil {
					return m("other", 1, root, v)
				}
				return nil
			})
		} else {
			fns.Put("f", func(pc sdk.ProviderContext) dgo.Map {
				if v := call(pc, ""); v != nil {
					return m("other", 1, root, v)
				}
				return m()
			})
		}
	}
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(level, m("name", "1", "path", "l.yaml"))))
	s := newSession(nil, api.HieraFunctions, fns)
	var v dgo.Value
	err := tryText(func() { v = hiera.Lookup(s.Invocation(nil, nil), key, nil, nil) })
	observe(v, err)
	sym.Assert(bad == "", bad)
	if fails != "" {
		sym.Reach("error")
		sym.Assert(err != nil, "a failure is not an error")
		sym.Assert(strings.Contains(err.Error(), "the reason"), "the error of a function is lost")
		return
	}
	must(err)
	want = answer
	if want == nil {
		want = lower
	}
	if key != "k" && want != nil {
		want = want.(dgo.Map).Get("x").(dgo.Array).Get(0)
	}
	if want == nil {
		sym.Reach("not found")
	} else {
		sym.Reach("found")
	}
	sym.Assert(same(v, want), "the answer is not what is found")
	for i, p := range paths {
		n := 1
		if answer != nil && i > at && kind != "data_hash" { // a hash is also asked for lookup options
			n = 0
		}
		sym.Assert(seen[p] == n, "a function is not asked once for each location")
	}
}
