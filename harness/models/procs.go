package models

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"strconv"
	"syscall"
	"time"

	"github.com/lyraproj/hiera/zzverif/proc"
	"github.com/lyraproj/hiera/zzverif/vfs"
	log "github.com/sirupsen/logrus"
)

// ---- processes

// pipe is what a process writes.
type pipe struct {
	p    *proc.Proc
	text string
}

func (r *pipe) Read(b []byte) (int, error) {
	if r.p == nil {
		return 0, errors.New("not started")
	}
	if len(r.text) > 0 {
		n := copy(b, r.text)
		r.text = r.text[n:]
		return n, nil
	}
	<-r.p.Dead
	return 0, io.EOF
}

func (r *pipe) Close() error { return nil }

type command struct {
	out, err *pipe
	ctx      context.Context
}

var commands map[*exec.Cmd]*command

func commandOf(c *exec.Cmd) *command {
	if commands == nil {
		commands = map[*exec.Cmd]*command{}
	}
	if commands[c] == nil {
		commands[c] = &command{}
	}
	return commands[c]
}

//override:os/exec.Command
func execCommand(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

//override:os/exec.CommandContext
func execCommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	c := execCommand(name, arg...)
	commandOf(c).ctx = ctx
	return c
}

// override:(*os/exec.Cmd).StdoutPipe
func cmdStdoutPipe(c *exec.Cmd) (io.ReadCloser, error) {
	p := &pipe{}
	commandOf(c).out = p
	return p, nil
}

// override:(*os/exec.Cmd).StderrPipe
func cmdStderrPipe(c *exec.Cmd) (io.ReadCloser, error) {
	p := &pipe{}
	commandOf(c).err = p
	return p, nil
}

// override:(*os/exec.Cmd).Start
func cmdStart(c *exec.Cmd) error {
	scripts, ok := proc.Scripts[c.Path]
	if !ok {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	n := 0
	for _, p := range proc.Procs {
		if p.Name == c.Path {
			n++
		}
	}
	if n >= len(scripts) {
		n = len(scripts) - 1
	}
	p := &proc.Proc{Name: c.Path, Pid: 100 + len(proc.Procs), Script: scripts[n], Dead: make(chan struct{})}
	proc.Procs = append(proc.Procs, p)
	c.Process = &os.Process{Pid: p.Pid}
	text := p.Script.Text
	if p.Script.Start == proc.Hangs || text == "" {
		text = ""
	} else {
		text += "\n"
	}
	ok = false
	for _, e := range c.Env {
		ok = ok || e == proc.Cookie
	}
	if !ok {
		text = ""
	}
	if x := commandOf(c).out; x != nil {
		x.p, x.text = p, text
	}
	if x := commandOf(c).err; x != nil {
		x.p = p
	}
	if !ok || p.Script.Start == proc.Exits {
		p.Die()
	}
	if x := commandOf(c); x.ctx != nil && x.ctx.Done() != nil {
		go func() {
			select {
			case <-x.ctx.Done():
				p.Die()
			case <-p.Dead:
			}
		}()
	}
	return nil
}

func procOf(p *os.Process) *proc.Proc {
	for _, x := range proc.Procs {
		if x.Pid == p.Pid {
			return x
		}
	}
	panic("model: another process")
}

// override:(*os.Process).Kill
func processKill(p *os.Process) error { return processSignal(p, syscall.SIGKILL) }

// override:(*os.Process).Signal
func processSignal(p *os.Process, sig os.Signal) error {
	x := procOf(p)
	if x.Reaped {
		return os.ErrProcessDone
	}
	switch sig {
	case syscall.SIGKILL:
		x.Die()
	case syscall.SIGINT, syscall.SIGTERM:
		if !x.Script.Ignores {
			x.Die()
		}
	}
	return nil
}

// override:(*os.Process).Wait
func processWait(p *os.Process) (*os.ProcessState, error) {
	x := procOf(p)
	<-x.Dead
	if x.Reaped {
		return nil, errors.New("no child processes")
	}
	x.Reaped = true
	return &os.ProcessState{}, nil
}

// override:(*os.Process).Release
func processRelease(*os.Process) error { return nil }

// override:(*os/exec.Cmd).Wait
func cmdWait(c *exec.Cmd) error {
	_, err := processWait(c.Process)
	return err
}

// ---- http: a client that calls the handler of the modelled server

type connection struct {
	net.Conn
	s *proc.Server
}

func (c *connection) Close() error { return nil }

//override:net.Dial
func netDial(network, addr string) (net.Conn, error) {
	for _, s := range proc.Servers {
		if !s.Down && s.Network == network && s.Addr == addr {
			return &connection{s: s}, nil
		}
	}
	return nil, errors.New("dial " + network + " " + addr + ": connection refused")
}

// override:(*net.Dialer).Dial
func dialerDial(_ *net.Dialer, network, addr string) (net.Conn, error) { return netDial(network, addr) }

// override:(*net.Dialer).DialContext
func dialerDialContext(_ *net.Dialer, _ context.Context, network, addr string) (net.Conn, error) {
	return netDial(network, addr)
}

//override:net.DialTimeout
func netDialTimeout(network, addr string, _ time.Duration) (net.Conn, error) {
	return netDial(network, addr)
}

type body struct {
	b   []byte
	cut bool
}

func (r *body) Read(b []byte) (int, error) {
	if len(r.b) == 0 {
		if r.cut {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(b, r.b)
	r.b = r.b[n:]
	return n, nil
}

func (r *body) Close() error { return nil }

func exchange(c *http.Client, ctx context.Context, u *url.URL) (*http.Response, error) {
	fail := func(err error) (*http.Response, error) {
		return nil, &url.Error{Op: "Get", URL: u.String(), Err: err}
	}
	if err := ctx.Err(); err != nil {
		return fail(err)
	}
	var conn net.Conn
	var err error
	if tr, ok := c.Transport.(*http.Transport); ok && tr.DialContext != nil {
		conn, err = tr.DialContext(ctx, "tcp", u.Host)
	} else if ok && tr.Dial != nil {
		conn, err = tr.Dial("tcp", u.Host)
	} else {
		conn, err = netDial("tcp", u.Host)
	}
	if err != nil {
		return fail(err)
	}
	a := conn.(*connection).s.Handler(u.Path, u.Query())
	switch {
	case a.Drop:
		return fail(io.EOF)
	case a.Hang:
		var late <-chan time.Time
		if c.Timeout > 0 {
			late = timeAfter(c.Timeout)
		}
		select {
		case <-late:
			return fail(errors.New("Client.Timeout exceeded while awaiting headers"))
		case <-ctx.Done():
			return fail(ctx.Err())
		}
	}
	b := &body{b: []byte(a.Text), cut: a.Cut}
	if a.Val != nil {
		vfs.Contents = append(vfs.Contents, vfs.Content{Kind: vfs.KData, Val: a.Val})
		b.b = token(len(vfs.Contents) - 1)
	}
	return &http.Response{StatusCode: a.Status, Status: strconv.Itoa(a.Status) + " " + http.StatusText(a.Status), Body: b,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1}, nil
}

// override:(*net/http.Client).Get
func clientGet(c *http.Client, us string) (*http.Response, error) {
	u, err := url.Parse(us)
	if err != nil {
		return nil, err
	}
	return exchange(c, context.Background(), u)
}

//override:net/http.Get
func httpGet(us string) (*http.Response, error) { return clientGet(http.DefaultClient, us) }

// override:(*net/http.Client).Do
func clientDo(c *http.Client, r *http.Request) (*http.Response, error) {
	return exchange(c, r.Context(), r.URL)
}

// ---- the log, which is not looked at

type nowhere struct{}

func (nowhere) Write(b []byte) (int, error) { return len(b), nil }

//override:github.com/sirupsen/logrus.StandardLogger
func logStandardLogger() *log.Logger { return &log.Logger{Out: nowhere{}} }

//override:github.com/sirupsen/logrus.Errorf
func logErrorf(string, ...interface{}) {}

//override:github.com/sirupsen/logrus.Printf
func logPrintf(string, ...interface{}) {}
