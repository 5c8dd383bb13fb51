// Package models replaces library functions that reach outside the program. It is only used by the
// symbolic machine.
package models

import (
	"errors"
	"io"
	"io/fs"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgoyaml/yaml"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	"github.com/spf13/cobra"
	yamlv3 "gopkg.in/yaml.v3"
)

// RuntimeError is the machine's run time error.
type RuntimeError struct{ msg string }

func (e RuntimeError) Error() string { return e.msg }

// RuntimeError marks the type as a runtime.Error.
func (e RuntimeError) RuntimeError() {}

func init() {
	os.Args = []string{"program"}
	os.Stdin, os.Stdout, os.Stderr = &os.File{}, &os.File{}, &os.File{}
}

// ---- files

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = vfs.Root + "/" + p
	}
	return filepath.Clean(p)
}

func node(op, p string) (*vfs.Node, error) {
	if n := vfs.Nodes[abs(p)]; n != nil {
		return n, nil
	}
	return nil, &os.PathError{Op: op, Path: p, Err: syscall.ENOENT}
}

type info struct{ n *vfs.Node }

func (i *info) Name() string { return i.n.Name }
func (i *info) Size() int64  { return 1 }
func (i *info) Mode() fs.FileMode {
	if i.n.Kind == vfs.KDir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.n.Kind == vfs.KDir }
func (i *info) Sys() interface{}   { return nil }

//override:os.Stat
func osStat(name string) (fs.FileInfo, error) {
	n, err := node("stat", name)
	if err != nil {
		return nil, err
	}
	return &info{n}, nil
}

//override:os.Lstat
func osLstat(name string) (fs.FileInfo, error) {
	n, err := node("lstat", name)
	if err != nil {
		return nil, err
	}
	return &info{n}, nil
}

var open map[*os.File]*vfs.Node

//override:os.Open
func osOpen(name string) (*os.File, error) {
	n, err := node("open", name)
	if err != nil {
		return nil, err
	}
	f := &os.File{}
	if open == nil {
		open = map[*os.File]*vfs.Node{}
	}
	open[f] = n
	return f, nil
}

// override:(*os.File).Close
func fileClose(f *os.File) error { return nil }

// override:(*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	d := open[f]
	if d == nil {
		return 0, io.EOF
	}
	t, ok := pending[f]
	if !ok {
		var err error
		if t, err = ioReadFile(d.Path); err != nil {
			return 0, err
		}
	}
	if len(t) == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	n := copy(b, t)
	if pending == nil {
		pending = map[*os.File][]byte{}
	}
	pending[f] = t[n:]
	return n, nil
}

var pending map[*os.File][]byte

// override:(*os.File).Readdir
func fileReaddir(f *os.File, n int) ([]fs.FileInfo, error) {
	kids, err := kidsOf(f, n)
	var r []fs.FileInfo
	for _, k := range kids {
		r = append(r, &info{k})
	}
	return r, err
}

// listed says how many entries of a directory were given out.
var listed map[*os.File]int

func kidsOf(f *os.File, n int) ([]*vfs.Node, error) {
	d := open[f]
	if d.Kind != vfs.KDir {
		return nil, &os.PathError{Op: "readdirent", Path: d.Path, Err: syscall.ENOTDIR}
	}
	from, to := listed[f], len(d.Kids)
	if n > 0 {
		if from == to {
			return nil, io.EOF
		}
		if from+n < to {
			to = from + n
		}
	}
	if listed == nil {
		listed = map[*os.File]int{}
	}
	listed[f] = to
	return d.Kids[from:to], nil
}

// override:(*os.File).ReadDir
func fileReadDir(f *os.File, n int) ([]fs.DirEntry, error) {
	kids, err := kidsOf(f, n)
	var r []fs.DirEntry
	for _, k := range kids {
		r = append(r, fs.FileInfoToDirEntry(&info{k}))
	}
	return r, err
}

//override:os.ReadDir
func osReadDir(name string) ([]fs.DirEntry, error) {
	f, err := osOpen(name)
	if err != nil {
		return nil, err
	}
	r, err := fileReadDir(f, -1)
	for i := range r {
		for j := i; j > 0 && r[j].Name() < r[j-1].Name(); j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r, err
}

// override:(*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	if f == os.Stdout {
		vfs.Out = append(vfs.Out, b...)
	}
	return len(b), nil
}

// override:(*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//override:os.Exit
func osExit(code int) { panic(vfs.Exited{Code: code}) }

//override:os.OpenFile
func osOpenFile(name string, flag int, _ fs.FileMode) (*os.File, error) {
	if flag != os.O_RDONLY {
		panic("model: a file is written")
	}
	return osOpen(name)
}

// override:(*os.File).Stat
func fileStat(f *os.File) (fs.FileInfo, error) { return &info{open[f]}, nil }

// override:(*os.File).Name
func fileName(f *os.File) string { return open[f].Path }

// override:(*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (int64, error) {
	var n int64
	buf := make([]byte, 512)
	for {
		k, err := fileRead(f, buf)
		if k > 0 {
			m, err := w.Write(buf[:k])
			n += int64(m)
			if err != nil {
				return n, err
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// override:(*os.File).Readdirnames
func fileReaddirnames(f *os.File, n int) ([]string, error) {
	kids, err := kidsOf(f, n)
	var r []string
	for _, k := range kids {
		r = append(r, k.Name)
	}
	return r, err
}

//override:os.ReadFile
func osReadFile(name string) ([]byte, error) { return ioReadFile(name) }

//override:io/ioutil.ReadFile
func ioReadFile(name string) ([]byte, error) {
	sym.Yield()
	n, err := node("open", name)
	if err != nil {
		return nil, err
	}
	vfs.Reads[n.Path]++
	if n.Kind == vfs.KDir {
		return nil, &os.PathError{Op: "read", Path: name, Err: syscall.EISDIR}
	}
	if n.Kind == vfs.KData && n.Text != "" {
		// text whose value is known
		vfs.Contents = append(vfs.Contents, vfs.Content{Kind: n.Kind, Val: n.Val})
		return token(len(vfs.Contents) - 1), nil
	}
	if n.Kind == vfs.KNone && n.Text == "" {
		return []byte{}, nil
	}
	vfs.Contents = append(vfs.Contents, vfs.Content{Kind: n.Kind, Val: n.Val, Text: n.Text})
	return token(len(vfs.Contents) - 1), nil
}

const magic = "\x00vfs"

func token(i int) []byte { return []byte(magic + string([]byte{byte(i >> 8), byte(i)})) }

func content(b []byte) *vfs.Content {
	if len(b) == len(magic)+2 && string(b[:len(magic)]) == magic {
		return &vfs.Contents[int(b[len(magic)])<<8|int(b[len(magic)+1])]
	}
	return nil
}

//override:github.com/lyraproj/dgoyaml/yaml.Unmarshal
func yamlUnmarshal(b []byte) (dgo.Value, error) {
	c := content(b)
	if len(b) == 0 || c != nil && c.Kind == vfs.KNone {
		panic("internal error: unknown node kind: 0")
	}
	if c == nil {
		return yaml.Unmarshal(b)
	}
	if c.Kind == vfs.KBad {
		return nil, errors.New("yaml: syntax error")
	}
	return vfs.Copy(c.Val), nil
}

//override:github.com/lyraproj/dgo/streamer.UnmarshalJSON
func unmarshalJSON(b []byte, dialect streamer.Dialect) dgo.Value {
	c := content(b)
	if c == nil {
		v, n, err := parse(string(b))
		if err == nil && !onlySpace(string(b[n:])) {
			err = errJSON
		}
		if err != nil {
			panic(err)
		}
		w := value(v)
		if hasRich(w) {
			d := streamer.DataDecoder(nil, dialect)
			streamer.New(nil, streamer.DefaultOptions()).Stream(w, d)
			w = d.Value()
		}
		return w
	}
	if c.Kind == vfs.KBad || c.Kind == vfs.KNone {
		panic(errors.New("json: syntax error"))
	}
	return vfs.Copy(c.Val)
}

//override:gopkg.in/yaml.v3.Unmarshal
func yamlV3Unmarshal(b []byte, into interface{}) error {
	c := content(b)
	p, ok := into.(*interface{})
	if c == nil || !ok {
		return yamlv3.Unmarshal(b, into)
	}
	switch c.Kind {
	case vfs.KBad:
		return errors.New("yaml: syntax error")
	case vfs.KNone:
	default:
		*p = native(c.Val)
	}
	return nil
}

// native is a value as package yaml decodes it.
func native(v dgo.Value) interface{} {
	switch v := v.(type) {
	case dgo.Map:
		if v.AllKeys(func(k dgo.Value) bool { _, ok := k.(dgo.String); return ok }) {
			m := map[string]interface{}{}
			v.EachEntry(func(e dgo.MapEntry) { m[e.Key().(dgo.String).GoString()] = native(e.Value()) })
			return m
		}
		m := map[interface{}]interface{}{}
		v.EachEntry(func(e dgo.MapEntry) { m[native(e.Key())] = native(e.Value()) })
		return m
	case dgo.Array:
		r := []interface{}{}
		v.Each(func(e dgo.Value) { r = append(r, native(e)) })
		return r
	case dgo.String:
		return v.GoString()
	case dgo.Integer:
		return int(v.GoInt())
	case dgo.Float:
		return v.GoFloat()
	case dgo.Boolean:
		return v.GoBool()
	}
	return nil
}

// hasRich says if the data stands for other values than data.
func hasRich(v dgo.Value) bool {
	switch v := v.(type) {
	case dgo.Map:
		return v.Any(func(e dgo.MapEntry) bool {
			s, ok := e.Key().(dgo.String)
			return ok && len(s.GoString()) > 2 && s.GoString()[:2] == "__" || hasRich(e.Value())
		})
	case dgo.Array:
		return v.Any(hasRich)
	}
	return false
}

// ---- environment

//override:os.LookupEnv
func osLookupEnv(name string) (string, bool) {
	for _, e := range vfs.Env {
		if len(e) > len(name) && e[len(name)] == '=' && e[:len(name)] == name && name != "" {
			return e[len(name)+1:], true
		}
	}
	return "", false
}

//override:os.Getenv
func osGetenv(name string) string {
	v, _ := osLookupEnv(name)
	return v
}

//override:os.Environ
func osEnviron() []string { return append([]string(nil), vfs.Env...) }

//override:os.Getwd
func osGetwd() (string, error) { return vfs.Root, nil }

// override:(syscall.Errno).Error
func errnoError(e syscall.Errno) string {
	switch e {
	case syscall.ENOENT:
		return "no such file or directory"
	case syscall.EISDIR:
		return "is a directory"
	case syscall.ENOTDIR:
		return "not a directory"
	}
	return "errno"
}

// ---- numbers

// The table of the decimal numerals below 100, without an index that forks.
//
//override:internal/strconv.small
func strconvSmall(i int) string {
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return string([]byte{byte('0' + i/10), byte('0' + i%10)})
}

//override:strconv.AppendFloat
func strconvAppendFloat(b []byte, f float64, fmt byte, prec, bits int) []byte {
	return append(b, strconv.FormatFloat(f, fmt, prec, bits)...)
}

// ---- http: a router that calls the handler of the longest pattern that matches

type route struct {
	pattern string
	f       http.Handler
}

var routes map[*http.ServeMux][]route

// override:(*net/http.ServeMux).HandleFunc
func muxHandleFunc(m *http.ServeMux, pattern string, f func(http.ResponseWriter, *http.Request)) {
	muxHandle(m, pattern, http.HandlerFunc(f))
}

// override:(*net/http.ServeMux).Handle
func muxHandle(m *http.ServeMux, pattern string, f http.Handler) {
	if routes == nil {
		routes = map[*http.ServeMux][]route{}
	}
	routes[m] = append(routes[m], route{pattern, f})
}

// override:(*net/http.Request).ParseMultipartForm
func parseMultipartForm(r *http.Request, _ int64) error {
	if r.Form == nil {
		if err := r.ParseForm(); err != nil {
			return err
		}
	}
	return errors.New("request Content-Type isn't multipart/form-data")
}

//override:net/http.NewServeMux
func newServeMux() *http.ServeMux { return &http.ServeMux{} }

// override:(*net/http.ServeMux).ServeHTTP
func muxServeHTTP(m *http.ServeMux, w http.ResponseWriter, r *http.Request) {
	best := -1
	for i, t := range routes[m] {
		p := t.pattern
		ok := p == r.URL.Path
		if p[len(p)-1] == '/' {
			ok = strings.HasPrefix(r.URL.Path, p)
		}
		if ok && (best < 0 || len(p) > len(routes[m][best].pattern)) {
			best = i
		}
	}
	if best < 0 {
		http.NotFound(w, r)
		return
	}
	routes[m][best].f.ServeHTTP(w, r)
}

// ---- help texts

// override:(*github.com/spf13/cobra.Command).UsageString
func cmdUsageString(*cobra.Command) string { return "usage" }
