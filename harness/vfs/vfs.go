// Package vfs gives harnesses files, directories and environment variables: real ones below a scratch
// directory when the harness runs natively, modelled ones in the symbolic machine (see package models).
package vfs

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/zzverif/sym"
)

// Kinds of nodes.
const (
	KDir = iota
	KData
	KBad  // unreadable as YAML or JSON
	KText // other text
	KNone // no YAML document
)

// Node is a modelled file or directory.
type Node struct {
	Name string // last path element
	Path string
	Kind int
	Val  dgo.Value
	Text string
	Kids []*Node
	Gone bool
}

// The model's state.
var (
	Nodes    map[string]*Node
	Tokens   []*Node // content tokens handed out by ReadFile
	Contents []Content
	Reads    map[string]int
	Env      []string
	Root     string
	saved    []string
	envSet   bool
)

// Content is what a content token stands for.
type Content struct {
	Kind int
	Val  dgo.Value
	Text string
}

// ModelRoot is the model's scratch directory.
const ModelRoot = "/w"

// Start makes an empty scratch directory and returns the function that removes it.
func Start() func() {
	if sym.Symbolic() {
		Root = ModelRoot
		Nodes = map[string]*Node{}
		Reads = map[string]int{}
		Contents = nil
		d := &Node{Name: "w", Path: Root}
		Nodes[Root] = d
		return func() {}
	}
	var err error
	if Root, err = os.MkdirTemp(Work, "w"); err != nil {
		panic(err)
	}
	dir := Root
	wd, _ := os.Getwd()
	_ = os.Chdir(dir)
	return func() {
		if watch >= 0 {
			_ = syscall.Close(watch)
			watch = -1
		}
		_ = os.Chdir(wd)
		_ = os.RemoveAll(dir)
		if envSet {
			restoreEnv(saved)
			envSet = false
		}
	}
}

func restoreEnv(env []string) {
	os.Clearenv()
	for _, e := range env {
		if i := strings.IndexByte(e, '='); i > 0 {
			_ = os.Setenv(e[:i], e[i+1:])
		}
	}
}

// Work is where scratch directories are made, and Exact the environment that the process was started with, if it was
// started to have just that.
var (
	Work  = os.Getenv("VERIF_WORK")
	Exact []string
)

// SetEnv makes the environment hold just the given variables (name=value).
func SetEnv(env ...string) {
	if sym.Symbolic() {
		Env = env
		return
	}
	if Exact != nil {
		// the last environment that is asked for is the one the process was started with
		return
	}
	for _, e := range env {
		if strings.HasPrefix(e, "=") {
			panic(sym.NeedEnv{Env: env}) // cannot be set, but a process can have it
		}
	}
	if !envSet {
		saved = os.Environ()
		envSet = true
	}
	os.Clearenv()
	for _, e := range env {
		i := strings.IndexByte(e, '=')
		if i <= 0 || strings.IndexByte(e, 0) >= 0 {
			panic(sym.Skipped{})
		}
		if err := os.Setenv(e[:i], e[i+1:]); err != nil {
			panic(sym.Skipped{})
		}
	}
}

// Path is the absolute path of a file of the scratch directory.
func Path(name string) string {
	if name == "" {
		return Root
	}
	return Root + "/" + name
}

// Mkdir makes a directory and its parents.
func Mkdir(name string) { mkdir(filepath.Clean(Path(name))) }

func mkdir(p string) *Node {
	if !sym.Symbolic() {
		if err := os.MkdirAll(p, 0o755); err != nil {
			panic(sym.Skipped{})
		}
		return nil
	}
	if n := Nodes[p]; n != nil {
		return n
	}
	dir := mkdir(filepath.Dir(p))
	n := &Node{Name: filepath.Base(p), Path: p}
	Nodes[p] = n
	dir.Kids = append(dir.Kids, n)
	return n
}

func put(name string, c Content) {
	p := filepath.Clean(Path(name))
	if !sym.Symbolic() {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(sym.Skipped{})
		}
		_ = os.RemoveAll(p)
		if err := os.WriteFile(p, []byte(c.Text), 0o644); err != nil {
			panic(sym.Skipped{})
		}
		return
	}
	dir := mkdir(filepath.Dir(p))
	n := Nodes[p]
	if n == nil {
		n = &Node{Name: filepath.Base(p), Path: p}
		Nodes[p] = n
		dir.Kids = append(dir.Kids, n)
	}
	n.Kind, n.Val, n.Text = c.Kind, c.Val, c.Text
}

// Out is what was written to the standard output.
var Out []byte

// Exited is how a program ends itself.
type Exited struct{ Code int }

// Tool runs a program with a file as its standard input, which the machine calls directly. It returns the
// standard output and the exit status; the status of a panic is 2.
func Tool(name, stdin string, run func()) (string, int) {
	in, err := os.Open(Path(stdin))
	if err != nil {
		panic(sym.Skipped{})
	}
	defer func() { _ = in.Close() }()
	if !sym.Symbolic() {
		c := exec.Command(os.Args[0])
		c.Env, c.Stdin = append(os.Environ(), "ZZ_TOOL="+name), in
		b, err := c.Output()
		if err == nil {
			return string(b), 0
		}
		if x, ok := err.(*exec.ExitError); ok {
			return string(b), x.ExitCode()
		}
		panic(sym.Skipped{})
	}
	old := os.Stdin
	os.Stdin, Out = in, nil
	code := 0
	func() {
		defer func() {
			os.Stdin = old
			if r := recover(); r != nil {
				code = 2
				if e, ok := r.(Exited); ok {
					code = e.Code
				}
			}
		}()
		run()
	}()
	return string(Out), code
}

// Put writes a file holding the value, as text that is both YAML and JSON.
func Put(name string, v dgo.Value) {
	if sym.Symbolic() {
		put(name, Content{Kind: KData, Val: v})
		return
	}
	var sb strings.Builder
	emit(&sb, v)
	sb.WriteByte('\n')
	if r, err := yaml.Unmarshal([]byte(sb.String())); err != nil || !r.Equals(v) {
		panic(sym.Skipped{})
	}
	put(name, Content{Text: sb.String()})
}

// PutNone writes a file without any YAML document: the text is empty or has comments only.
func PutNone(name, text string) { put(name, Content{Kind: KNone, Text: text}) }

// Watch starts counting how often the given files, which exist, are read.
func Watch(names ...string) {
	if sym.Symbolic() {
		Reads = map[string]int{}
		return
	}
	counts = map[string]int{}
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic(sym.Skipped{})
	}
	watch = fd
	watched = map[int32]string{}
	for _, n := range names {
		wd, err := syscall.InotifyAddWatch(fd, Path(n), syscall.IN_OPEN|syscall.IN_CLOSE_NOWRITE) // equal events in a row are merged
		if err != nil {
			panic(sym.Skipped{})
		}
		watched[int32(wd)] = Path(n)
	}
}

// ReadCount is how often a file was read since the last call of Watch.
func ReadCount(name string) int {
	if sym.Symbolic() {
		return Reads[Path(name)]
	}
	// each file is watched by itself, so that a file put in its place is not
	buf := make([]byte, 4096)
	for {
		n, err := syscall.Read(watch, buf)
		if n <= 0 || err != nil {
			break
		}
		for i := 0; i+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[i]))
			if e.Mask&syscall.IN_OPEN != 0 {
				counts[watched[e.Wd]]++
			}
			i += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
	return counts[Path(name)]
}

var (
	watch   = -1
	counts  map[string]int
	watched map[int32]string
)

// PutText writes a file of other text; the value is what YAML makes of it (nil: an error).
func PutText(name, text string, v dgo.Value) {
	if v == nil {
		put(name, Content{Kind: KBad, Text: text})
		return
	}
	put(name, Content{Kind: KData, Val: v, Text: text})
}

// Remove removes a file.
func Remove(name string) {
	p := filepath.Clean(Path(name))
	if !sym.Symbolic() {
		_ = os.RemoveAll(p)
		return
	}
	n := Nodes[p]
	if n == nil {
		return
	}
	delete(Nodes, p)
	d := Nodes[filepath.Dir(p)]
	var kids []*Node
	for _, k := range d.Kids {
		if k != n {
			kids = append(kids, k)
		}
	}
	d.Kids = kids
}

func emit(sb *strings.Builder, v dgo.Value) {
	switch v := v.(type) {
	case dgo.String:
		quote(sb, v.GoString())
	case dgo.Array:
		sb.WriteByte('[')
		v.EachWithIndex(func(e dgo.Value, i int) {
			if i > 0 {
				sb.WriteString(", ")
			}
			emit(sb, e)
		})
		sb.WriteByte(']')
	case dgo.Map:
		sb.WriteByte('{')
		i := 0
		v.EachEntry(func(e dgo.MapEntry) {
			if i > 0 {
				sb.WriteString(", ")
			}
			i++
			emit(sb, e.Key())
			sb.WriteString(": ")
			emit(sb, e.Value())
		})
		sb.WriteByte('}')
	case dgo.Float:
		f := fmt.Sprint(v.GoFloat())
		if !strings.ContainsAny(f, ".e") {
			f += ".0"
		}
		sb.WriteString(f)
	case dgo.Integer, dgo.Boolean:
		sb.WriteString(v.String())
	default:
		if v == vf.Nil {
			sb.WriteString("null")
			return
		}
		panic(sym.Skipped{})
	}
}

func quote(sb *strings.Builder, s string) {
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < 0x20 || r == 0x7f || r > 0x7e && r < 0xa1 || r == 0x2028 || r == 0x2029 || r == 0xfeff:
			fmt.Fprintf(sb, "\\u%04x", r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
}

// Copy is a fresh copy of the value, as a parser would build it.
func Copy(v dgo.Value) dgo.Value {
	switch v := v.(type) {
	case dgo.Array:
		es := make([]dgo.Value, v.Len())
		v.EachWithIndex(func(e dgo.Value, i int) { es[i] = Copy(e) })
		return vf.WrapSlice(es)
	case dgo.Map:
		m := vf.MapWithCapacity(v.Len())
		v.EachEntry(func(e dgo.MapEntry) { m.Put(Copy(e.Key()), Copy(e.Value())) })
		return m
	}
	return v
}
