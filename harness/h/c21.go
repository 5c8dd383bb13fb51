package h

import (
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/restmain"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// response records what a handler answers.
type response struct {
	header http.Header
	code   int
	body   []byte
}

func (r *response) Header() http.Header { return r.header }

func (r *response) WriteHeader(code int) {
	if r.code == 0 {
		r.code = code
	}
}

func (r *response) Write(b []byte) (int, error) {
	r.WriteHeader(http.StatusOK)
	r.body = append(r.body, b...)
	return len(b), nil
}

// specJSON is the text of a value in JSON.
func specJSON(v dgo.Value) string {
	switch v := v.(type) {
	case dgo.Array:
		s := ""
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += ","
			}
			s += specJSON(v.Get(i))
		}
		return "[" + s + "]"
	case dgo.Map:
		s := ""
		v.EachEntry(func(e dgo.MapEntry) {
			if s != "" {
				s += ","
			}
			s += specJSON(e.Key()) + ":" + specJSON(e.Value())
		})
		return "{" + s + "}"
	case dgo.String:
		s := ""
		for _, c := range v.GoString() {
			switch {
			case c == '"' || c == '\\':
				s += "\\" + string(c)
			case c == '<' || c == '>' || c == '&':
				s += "\\u00" + string("0123456789abcdef"[c>>4]) + string("0123456789abcdef"[c&15])
			default:
				s += string(c)
			}
		}
		return "\"" + s + "\""
	case dgo.Integer:
		return strconv.FormatInt(v.GoInt(), 10)
	case dgo.Boolean:
		if v.GoBool() {
			return "true"
		}
		return "false"
	}
	return "null"
}

// get is a request, and what it should give.
type get struct {
	key    string
	merge  string
	typ    string
	dflt   *string
	vars   []string
	res    *response
	path   string
	code   int
	want   string
	needle string
}

func (g *get) request() *http.Request {
	q := url.Values{}
	if g.merge != "" {
		q.Set("merge", g.merge)
	}
	if g.typ != "" {
		q.Set("type", g.typ)
	}
	if g.dflt != nil {
		q.Set("default", *g.dflt)
	}
	for _, v := range g.vars {
		q.Add("var", v)
	}
	p := "/lookup/" + g.key
	return &http.Request{Method: "GET", Host: "h", URL: &url.URL{Path: p, RawQuery: q.Encode()}, RequestURI: p}
}

func (g *get) serve(h http.Handler) {
	g.res = &response{header: http.Header{}}
	err := tryAny(func() { h.ServeHTTP(g.res, g.request()) })
	sym.Assert(err == nil, "the server fails on a request")
}

// expect finds what the request should give, by a lookup of its own.
func (g *get) expect(s api.Session, settings []string, file dgo.Map) {
	scope := m()
	g.code = 200
	for _, v := range append(append([]string{}, settings...), g.vars...) {
		i := specSplit(v)
		if i < 0 || v[i+1:] == `"` { // text that starts with a quote is a literal
			g.code = 500
			return
		}
		scope.Put(v[:i], v[i+1:])
	}
	if file != nil {
		scope.PutAll(file)
	}
	var tp dgo.Type = typ.Any
	switch g.typ {
	case "":
	case "string":
		tp = typ.String
	case "int":
		tp = typ.Integer
	default:
		g.code = 500
		return
	}
	var opts dgo.Map
	if g.merge != "" && g.merge != "first" {
		opts = m("merge", g.merge)
	}
	var dv dgo.Value
	if g.dflt != nil {
		dv = vf.String(*g.dflt)
		if strings.HasPrefix(*g.dflt, "{") {
			dv = m("a", 1)
		}
	}
	var v dgo.Value
	err := tryAny(func() { v = hiera.Lookup2(s.Invocation(scope, nil), []string{g.key}, tp, dv, nil, nil, opts, nil) })
	switch {
	case err != nil:
		g.code, g.needle = 500, err.Error()
	case v == nil:
		g.code = 404
	default:
		g.want = specJSON(v)
	}
}

func (g *get) check() {
	body := strings.Replace(string(g.res.body), vfs.Root, "/w", -1)
	sym.ObserveInt(int64(g.res.code))
	sym.Observe(body)
	sym.Reach(strconv.Itoa(g.code))
	sym.Assert(g.res.code == g.code, "the status of the answer is not that of the lookup")
	switch g.code {
	case 200:
		sym.Assert(body == g.want+"\n", "the body is not the JSON of the value")
		sym.Assert(strings.HasPrefix(g.res.header.Get("Content-Type"), "application/json"), "the answer is not said to be JSON")
	case 500:
		sym.Assert(len(g.res.body) > 0, "the failure has no message")
		sym.Assert(strings.Contains(body, strings.Replace(g.needle, vfs.Root, "/w", -1)), "the message of the failure is not shown")
	}
}

// server makes a session as the server does.
func server() api.Session {
	return newSession(provider.MuxLookupKey, provider.LookupKeyFunctions, a(sdk.LookupKey(provider.ConfigLookupKey), sdk.LookupKey(provider.Environment)))
}

func restData() {
	vfs.SetEnv("E=ev")
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", a(m("name", "0", "path", "%{n}.yaml"), m("name", "1", "path", "l1.yaml"))))
	vfs.Put("data/n1.yaml", m("k", a(sym.Int(0, 99)), "s", "one"))
	vfs.Put("data/n2.yaml", m("k", a("b"), "s", "two"))
	vfs.Put("data/l1.yaml", m("k", a("c"), "v", "<%{n}|%{b}>", "h", m("x", m("y", false)), "null", vf.Nil, "bad", "%{bad('x')}", "num", 7))
}

func anyGet(keys ...string) *get {
	g := &get{key: pick(keys...)}
	switch sym.Choice(8) {
	case 0:
	case 1:
		g.merge = pick("first", "unique", "deep", "bogus")
	case 2:
		g.typ = pick("string", "int", "bogus")
	case 3:
		s := pick("", "x", "{a: 1}")
		g.dflt = &s
	case 4:
		g.vars = []string{"n=n" + string([]byte{byte('0' + sym.Int(0, 2))})}
	case 5:
		g.vars = []string{"n:n1", "b=" + sym.String(1, 1, "ab<&%\"")}
	case 6:
		g.vars = []string{"n"}
	case 7:
		s := "7"
		g.merge, g.vars, g.dflt, g.typ = "unique", []string{"n=n2"}, &s, "int"
	}
	return g
}

// C21Requests performs any requests one after the other on one server.
func C21Requests() {
	start()
	restData()
	settings := []string{}
	opts := restmain.Settings()
	*opts = hiera.CommandOptions{}
	for i := 0; i < 3*sym.Choice(2); i++ {
		settings = append(settings, "s"+string([]byte{byte('0' + i)})+"=n1")
		opts.Variables = append(opts.Variables, settings[i])
	}
	var file dgo.Map
	if len(settings) > 0 {
		file = m("b", "file")
		vfs.Put("vars.yaml", file)
		opts.VarPaths = []string{vfs.Path("vars.yaml")}
	}
	h := restmain.CreateRouter(server())
	gs := []*get{anyGet("k", "k.0", "v", "h.x", "h.x.y", "null", "bad", "num", "env::E", "none", "")}
	gs = append(gs, &get{key: "v"})
	if sym.Bound("all", 0) == 1 {
		gs = append(gs, anyGet("k"))
	} else if sym.Bool() {
		gs = append(gs, &get{key: "k", vars: []string{"n=n2"}, merge: "unique"})
	}
	for _, g := range gs {
		g.serve(h)
	}
	for _, g := range gs {
		g.expect(server(), settings, file)
		g.check()
	}
	sym.Assert(len(opts.Variables) == len(settings) && opts.Merge == "" && opts.Type == "" && opts.Default == nil && opts.RenderAs == "",
		"a request changes the settings of the server")
}

// C21Paths requests other paths and keys of any text.
func C21Paths() {
	start()
	restData()
	*restmain.Settings() = hiera.CommandOptions{}
	h := restmain.CreateRouter(server())
	g := &get{key: sym.String(0, sym.Bound("len", 3), "k.0'h")}
	sym.Assume(g.key != "." && g.key != "..") // the router redirects
	g.serve(h)
	g.expect(server(), nil, nil)
	g.check()
	p := pick("/", "/lookup", "/look", "/xlookup/k", "/other/k")
	w := &response{header: http.Header{}}
	r := g.request()
	r.URL.Path, r.RequestURI = p, p
	h.ServeHTTP(w, r)
	sym.Reach("other path")
	if p != "/lookup" { // may redirect
		sym.Assert(w.code == 404, "another path is answered")
	}
}

// C21Together performs overlapping requests.
func C21Together() {
	start()
	restData()
	settings := []string{"x=1", "y=2", "z=3"}
	opts := restmain.Settings()
	*opts = hiera.CommandOptions{}
	for _, v := range settings {
		opts.Variables = append(opts.Variables, v)
	}
	h := restmain.CreateRouter(server())
	gs := []*get{{key: pick("v", "k"), vars: []string{"n=n1"}}, {key: pick("v", "s", "bad"), vars: []string{"n=n2"}, merge: pick("", "deep")}}
	done := make(chan int, 2)
	for i := range gs {
		go func(g *get) {
			defer func() { done <- 0 }()
			g.res = &response{header: http.Header{}}
			h.ServeHTTP(g.res, g.request())
		}(gs[i])
	}
	<-done
	<-done
	for _, g := range gs {
		g.expect(server(), settings, nil)
		g.check()
	}
}
