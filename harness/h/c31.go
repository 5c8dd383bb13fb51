package h

import (
	"bytes"
	"context"
	"os"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/cli"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// command is a command line and what it asks for.
type command struct {
	args    []string
	keys    []string
	config  string
	dialect string
	options dgo.Map
	scope   dgo.Map
	dflt    dgo.Value
	tp      string
	form    hiera.RenderName
	all     bool
	explain int // 0 nothing, 1 the data, 2 the options, 3 both
	bad     bool
}

// flag appends a flag in one of its two forms.
func (c *command) flag(name, val string, joined bool) {
	if joined {
		c.args = append(c.args, "--"+name+"="+val)
	} else {
		c.args = append(c.args, "--"+name, val)
	}
}

// run does what the command line asks for.
func (c *command) run() (text string, err error) {
	if c.bad || len(c.keys) == 0 {
		return "", context.Canceled
	}
	opts := m(api.HieraDialect, c.dialect, provider.LookupKeyFunctions, []sdk.LookupKey{provider.ConfigLookupKey, provider.Environment})
	if c.config != "" {
		opts.Put(api.HieraConfig, c.config)
	}
	out := &bytes.Buffer{}
	err = tryAny(func() {
		hiera.DoWithParent(context.Background(), provider.MuxLookupKey, opts, func(s api.Session) {
			var ex api.Explainer
			if c.explain > 0 {
				ex = explain.NewExplainer(c.explain&2 != 0, c.explain == 2)
			}
			var tp dgo.Type = typ.Any
			if c.tp != "" {
				tp = s.Dialect().ParseType(nil, vf.String(c.tp))
			}
			var v dgo.Value
			iv := s.Invocation(c.scope, ex)
			if c.all {
				st, ok := tp.(dgo.StructMapType)
				if !ok && c.tp != "" {
					panic(context.Canceled)
				}
				v = hiera.LookupAll(iv, c.keys, st, nil, nil, c.options)
			} else {
				v = hiera.Lookup2(iv, c.keys, tp, c.dflt, nil, nil, c.options, nil)
			}
			form := c.form
			switch {
			case ex != nil:
				if form == "" {
					form = hiera.Text
				}
				hiera.Render(s, form, ex, out)
			case v != nil:
				if form == "" {
					form = hiera.YAML
				}
				hiera.Render(s, form, v, out)
			}
		})
	})
	return out.String(), err
}

// world31 is what the command line finds.
func world31() {
	data := func(n int) {
		vfs.Put("data/a.yaml", m("k", m("x", n, "l", a(1, n)), "t", "<%{v}|%{w}>", "n", n, "z", vf.Nil, "bad", "%{nope('x')}"))
		vfs.Put("data/b.yaml", m("k", m("x", 8, "y", a(8), "l", a(8, 1)), "o", "o"))
	}
	data(sym.Int(1, 9))
	h := a(m("name", "0", "path", "a.yaml"), m("name", "1", "path", "b.yaml"))
	vfs.Put("hiera.yaml", m("version", 5, "hierarchy", h))
	vfs.Put("other/conf.yaml", m("version", 5, "hierarchy", a(m("name", "o", "path", "c.yaml"))))
	vfs.Put("other/data/c.yaml", m("k", "other", "o", "%{w}"))
	vfs.Put("vars.yaml", m("w", "from the file"))
}

func (c *command) key(k string) {
	c.args = append(c.args, k)
	c.keys = append(c.keys, k)
}

// anyCommand is any command line of the given number of kinds of arguments.
func anyCommand(kinds int) *command {
	c := &command{dialect: "pcore", scope: m()}
	k := -1
	for ; kinds > 0 && k < 12; kinds-- {
		k = c.add(k)
	}
	return c
}

// add adds arguments of a kind after that of the previous ones.
func (c *command) add(after int) int {
	joined := false
	kind := after + 1 + sym.Choice(12-after)
	switch kind {
	case 0: // the strategy
		joined = sym.Bool()
		s := pick("first", "unique", "hash", "deep", "nope")
		c.flag("merge", s, joined)
		if s != "first" {
			c.options = m("merge", s)
		}
		c.key(pick("k", "k.l", "n", "none"))
		if joined {
			c.key(pick("o", "none"))
		}
	case 1: // a default
		s := " " + sym.String(0, 2, "a 1")
		if sym.Bool() {
			s = ""
		}
		c.dflt = vf.String(strings.TrimSpace(s))
		c.key(pick("k", "none", "z", "bad"))
		c.flag("default", s, s == "")
	case 2: // a default that is parsed
		c.dialect = pick("pcore", "dgo")
		s := pick("[1, 'a']", `{x => 1}`, `"q "`)
		if c.dialect == "dgo" {
			s = pick(`{"a", 1}`, `{x: 1}`, `"q "`)
		}
		switch s {
		case "[1, 'a']":
			c.dflt = a(1, "a")
		case `{"a", 1}`:
			c.dflt = a("a", 1)
		case `"q "`:
			c.dflt = vf.String("q ")
		default:
			c.dflt = m("x", 1)
		}
		c.flag("default", s, true)
		c.flag("dialect", c.dialect, true)
		c.key("none")
	case 3: // a type
		if after != 2 {
			c.dialect = pick("pcore", "dgo")
		}
		c.tp = pick("Integer", "String", "Integer[5,9]")
		if c.dialect == "dgo" {
			c.tp = pick("int", "string", "5..9")
		}
		if c.dialect == "dgo" || sym.Bool() {
			c.flag("dialect", c.dialect, false)
		}
		c.key(pick("n", "o", "k"))
		c.flag("type", c.tp, true)
	case 4: // a form
		c.form = hiera.RenderName(pick("json", "yaml", "s", "binary", "nope"))
		c.flag("render-as", string(c.form), sym.Bool())
		c.key(pick("k", "n", "z", "o", "none"))
	case 5: // variables
		v := sym.String(1, 2, "a%.")
		c.flag("var", "v="+v, true)
		c.scope.Put("v", v)
		if sym.Bool() {
			c.flag("var", "w:x", false)
			c.scope.Put("w", "x")
		}
		if sym.Bool() {
			f := vfs.Path("vars.yaml")
			if sym.Bool() {
				f = "-"
			}
			c.flag("vars", f, f == "-")
			c.scope.Put("w", "from the file")
		}
		if sym.Bool() {
			c.flag("facts", vfs.Path("vars.yaml"), false)
			c.scope.Put("w", "from the file")
			c.scope.Put("facts", m("w", "from the file"))
		}
		c.key("t")
	case 6: // an explanation
		c.explain = 1 + sym.Choice(3)
		if c.explain&1 != 0 {
			c.args = append(c.args, "--explain")
		}
		if c.explain&2 != 0 {
			c.args = append(c.args, "--explain-options")
		}
		if sym.Bool() {
			c.form = hiera.Text
			c.flag("render-as", "s", true)
		}
		c.key(pick("k.x", "none", "bad"))
	case 7: // all of the names
		c.all = true
		c.key(pick("k", "none"))
		c.args = append(c.args, "--all")
		c.key(pick("none", "o", "bad"))
		if sym.Bool() {
			c.key("n")
		}
		switch sym.Choice(4) {
		case 1:
			c.tp = "Integer"
			c.flag("type", "Integer", true)
		case 2:
			c.flag("merge", "unique", true)
			c.options = m("merge", "unique")
		case 3:
			if len(c.dialect) == 5 && c.dflt != nil {
				break // the default is of this dialect
			}
			c.dialect = "dgo"
			c.tp = "{o: string, n: int, none: int}"
			c.flag("type", c.tp, false)
			c.flag("dialect", c.dialect, false)
		}
	case 8: // the configuration
		c.config = vfs.Path(pick("other/conf.yaml", "gone.yaml", "hiera.yaml"))
		c.flag("config", c.config, sym.Bool())
		c.flag("var", "w=1", true)
		if w := c.scope.Get("w"); w == nil || w.Equals("x") {
			c.scope.Put("w", "1")
		}
		c.key(pick("k", "o"))
	case 9: // bad ones
		c.bad = true
		switch sym.Choice(6) {
		case 0:
			c.key("k")
			c.flag("nope", "1", true)
		case 1:
			c.key("k")
			c.args = append(c.args, "--merge")
			return 12
		case 2:
			c.key("k")
			c.flag("var", "x", true)
		case 3:
			c.key("k")
			c.flag("vars", vfs.Path("gone.yaml"), true)
		case 4:
			c.key("k")
			c.flag("type", "Integer[", true)
		default:
			c.bad = false
			c.flag("merge", "deep", true)
			c.options = m("merge", "deep")
		}
	case 12: // nothing
	case 10: // names that look like flags
		c.args = append(c.args, "--")
		c.key(pick("--merge", "-k"))
		c.key("n")
	default: // keys
		if sym.Bool() {
			c.flag("loglevel", pick("debug", "error"), sym.Bool())
		}
		c.key(sym.String(1, 2, "ko.") + pick("", "k"))
		c.key("n")
	}
	return kind
}

// C31Command runs command lines one after the other.
func C31Command() { command31(1) }

// C31Pairs runs command lines with arguments of several kinds.
func C31Pairs() { command31(2) }

func command31(kinds int) {
	start()
	world31()
	c := anyCommand(kinds)
	switch sym.Choice(sym.Bound("before", 3)) {
	case 1:
		_, _ = cli.ExecuteLookup("--merge", "deep", "--default", "x", "--dialect", "dgo", "--config", vfs.Path("other/conf.yaml"), "--var", "v=old", "--facts", vfs.Path("vars.yaml"), "none")
	case 2:
		_, _ = cli.ExecuteLookup("--all", "--explain", "--explain-options", "--render-as", "json", "--type", "Integer", "--vars", vfs.Path("vars.yaml"), "bad")
	case 3:
		_ = try(func() { _, _ = cli.ExecuteLookup(anyCommand(1).args...) })
	}
	want, wantErr := c.run()
	in, err := os.Open(vfs.Path("vars.yaml"))
	must(err)
	old := os.Stdin
	os.Stdin = in
	defer func() {
		os.Stdin = old
		_ = in.Close()
	}()
	var got []byte
	must(tryAny(func() { got, err = cli.ExecuteLookup(c.args...) }))
	observeText(string(got))
	if wantErr != nil {
		sym.Reach("error")
		sym.Assert(err != nil, "a command that fails does not report an error")
		return
	}
	sym.Assert(err == nil, "a command that is right reports an error")
	if want == "" {
		sym.Reach("nothing")
	} else {
		sym.Reach("printed")
	}
	sym.Assert(string(got) == want, "the command does not print what the lookup gives")
}
