// Package proc gives harnesses plugin executables and the servers behind them: shell scripts and servers on the
// loopback network when the harness runs natively, modelled ones in the symbolic machine (see package models).
package proc

import (
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// What a process does at its start.
const (
	Prints = iota // prints its text and stays
	Exits         // prints its text and exits
	Hangs         // prints nothing and stays
)

// Script is what one start of an executable does.
type Script struct {
	Start   int
	Text    string
	Ignores bool // does not end at an interrupt
}

// Proc is a modelled process.
type Proc struct {
	Name   string
	Pid    int
	Script Script
	Dead   chan struct{}
	IsDead bool
	Reaped bool
}

// Die ends a modelled process.
func (p *Proc) Die() {
	if !p.IsDead {
		p.IsDead = true
		close(p.Dead)
	}
}

// The model's state.
var (
	Scripts map[string][]Script
	Procs   []*Proc
	Servers []*Server
	names   []string
)

// Start forgets everything, and returns the function that cleans up.
func Start() func() {
	Scripts = map[string][]Script{}
	Procs = nil
	Servers = nil
	names = nil
	return func() {
		for _, s := range Servers {
			s.Stop()
		}
		if !sym.Symbolic() {
			for _, n := range names {
				for _, pid := range pids(n) {
					if alive(pid) {
						_ = syscall.Kill(pid, syscall.SIGKILL)
					}
				}
			}
		}
	}
}

// Cookie is the variable that a plugin finds in its environment.
var Cookie = "HIERA_MAGIC_COOKIE=" + strconv.Itoa(sdk.MagicCookie)

// Plugin makes an executable. Its starts follow the scripts, and the last one from then on.
func Plugin(name string, scripts ...Script) {
	names = append(names, name)
	if sym.Symbolic() {
		Scripts[filepath.Clean(vfs.Path(name))] = scripts
		return
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "#!/bin/sh\nn=$(cat '%s' 2>/dev/null | wc -l)\necho $$ >> '%s'\n", pidFile(name), pidFile(name))
	fmt.Fprintf(&sb, "[ \"HIERA_MAGIC_COOKIE=$HIERA_MAGIC_COOKIE\" = '%s' ] || exit 9\ncase $n in\n", Cookie)
	for i, s := range scripts {
		if i == len(scripts)-1 {
			sb.WriteString("*)\n")
		} else {
			fmt.Fprintf(&sb, "%d)\n", i)
		}
		if s.Ignores {
			sb.WriteString("trap '' INT TERM\n")
		}
		if s.Start != Hangs && s.Text != "" {
			fmt.Fprintf(&sb, "printf '%%s\\n' '%s'\n", s.Text)
		}
		if s.Start != Exits {
			sb.WriteString("exec sleep 100\n")
		}
		sb.WriteString(";;\n")
	}
	sb.WriteString("esac\n")
	p := vfs.Path(name)
	_ = os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(sb.String()), 0o755); err != nil {
		panic(sym.Skipped{})
	}
}

func pidFile(name string) string { return vfs.Path(strings.Replace(name, "/", "_", -1) + ".pids") }

func pids(name string) []int {
	b, _ := os.ReadFile(pidFile(name))
	var r []int
	for _, s := range strings.Fields(string(b)) {
		n, _ := strconv.Atoi(s)
		r = append(r, n)
	}
	return r
}

func alive(pid int) bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return false
	}
	s := string(b)
	s = s[strings.LastIndex(s, ")")+1:]
	f := strings.Fields(s)
	return len(f) > 0 && f[0] != "Z" && f[0] != "X"
}

// Started is how often the executable was started.
func Started(name string) int {
	if !sym.Symbolic() {
		time.Sleep(20 * time.Millisecond)
		return len(pids(name))
	}
	n := 0
	for _, p := range Procs {
		if p.Name == vfs.Path(name) {
			n++
		}
	}
	return n
}

// Alive is how many processes of the executable run.
func Alive(name string) int {
	n := 0
	if !sym.Symbolic() {
		for i := 0; i < 50; i++ {
			n = 0
			for _, p := range pids(name) {
				if alive(p) {
					n++
				}
			}
			if n == 0 {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		return n
	}
	for _, p := range Procs {
		if p.Name == vfs.Path(name) && !p.IsDead {
			n++
		}
	}
	return n
}

// Crash ends the processes of the executable. If asked to it also makes the system forget them, so that they can no
// longer be signalled.
func Crash(name string, reap bool) {
	if !sym.Symbolic() {
		for _, p := range pids(name) {
			if alive(p) {
				_ = syscall.Kill(p, syscall.SIGKILL)
				if reap {
					_, _ = syscall.Wait4(p, nil, 0, nil)
				}
			}
		}
		return
	}
	for _, p := range Procs {
		if p.Name == vfs.Path(name) && !p.IsDead {
			p.Die()
			p.Reaped = p.Reaped || reap
		}
	}
}

// Answer is what a server responds.
type Answer struct {
	Status int
	Val    dgo.Value // as JSON, unless nil
	Text   string
	Cut    bool // the connection ends before the body does
	Drop   bool // the connection ends before anything is sent
	Hang   bool // nothing is sent
}

// Server is what listens at an address.
type Server struct {
	Network string
	Addr    string
	Handler func(path string, q url.Values) Answer
	Down    bool
	server  *http.Server
	stop    chan struct{}
}

// Stop makes the server unreachable.
func (s *Server) Stop() {
	if s.Down {
		return
	}
	s.Down = true
	if s.server != nil {
		close(s.stop)
		_ = s.server.Close()
	}
}

// Serve makes a server.
func Serve(network string, h func(path string, q url.Values) Answer) *Server {
	s := &Server{Network: network, Handler: h, stop: make(chan struct{})}
	n := strconv.Itoa(len(Servers))
	Servers = append(Servers, s)
	if sym.Symbolic() {
		s.Addr = "127.0.0.1:1" + n
		if network == "unix" {
			s.Addr = vfs.Root + "/s" + n + ".sock"
		}
		return s
	}
	addr := "127.0.0.1:0"
	if network == "unix" {
		addr = vfs.Root + "/s" + n + ".sock"
	}
	l, err := net.Listen(network, addr)
	if err != nil {
		panic(sym.Skipped{})
	}
	s.Addr = l.Addr().String()
	s.server = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		a := h(r.URL.Path, r.URL.Query())
		if a.Hang {
			<-s.stop
			return
		}
		body := a.Text
		if a.Val != nil {
			body = string(streamer.MarshalJSON(a.Val, nil))
		}
		if a.Cut || a.Drop {
			c, _, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			if a.Cut {
				_, _ = fmt.Fprintf(c, "HTTP/1.1 %d %s\r\nContent-Length: %d\r\n\r\n%s", a.Status, http.StatusText(a.Status), len(body)+9, body)
			}
			_ = c.Close()
			return
		}
		w.WriteHeader(a.Status)
		_, _ = w.Write([]byte(body))
	})}
	go func() { _ = s.server.Serve(l) }()
	return s
}
