package models

import (
	"io"
	"os"
	"os/exec"
	"sync"

	"github.com/lyraproj/hiera/zzverif/vfs"
)

// ---- conditions

var waiting map[*sync.Cond][]chan struct{}

// override:(*sync.Cond).Wait
func condWait(c *sync.Cond) {
	if waiting == nil {
		waiting = map[*sync.Cond][]chan struct{}{}
	}
	ch := make(chan struct{})
	waiting[c] = append(waiting[c], ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

// override:(*sync.Cond).Signal
func condSignal(c *sync.Cond) {
	if w := waiting[c]; len(w) > 0 {
		waiting[c] = w[1:]
		close(w[0])
	}
}

// override:(*sync.Cond).Broadcast
func condBroadcast(c *sync.Cond) {
	for _, ch := range waiting[c] {
		close(ch)
	}
	delete(waiting, c)
}

// ---- the process and its environment

//override:os.Getpid
func osGetpid() int { return 99 }

//override:os.Setenv
func osSetenv(name, value string) error {
	_ = osUnsetenv(name)
	vfs.Env = append(vfs.Env, name+"="+value)
	return nil
}

//override:os.Unsetenv
func osUnsetenv(name string) error {
	var r []string
	for _, e := range vfs.Env {
		if !(len(e) > len(name) && e[len(name)] == '=' && e[:len(name)] == name) {
			r = append(r, e)
		}
	}
	vfs.Env = r
	return nil
}

//override:os.Clearenv
func osClearenv() { vfs.Env = nil }

//override:runtime.NumGoroutine
func numGoroutine() int { return 1 }

//override:runtime.GC
func gc() {}

//override:os/exec.LookPath
func execLookPath(name string) (string, error) {
	if n, err := node("stat", name); err == nil {
		return n.Path, nil
	}
	return "", &exec.Error{Name: name, Err: os.ErrNotExist}
}

// ---- package log

//override:log.Fatal
func stdFatal(...interface{}) { osExit(1) }

//override:log.Fatalf
func stdFatalf(string, ...interface{}) { osExit(1) }

//override:log.Fatalln
func stdFatalln(...interface{}) { osExit(1) }

//override:log.Print
func stdPrint(...interface{}) {}

//override:log.Printf
func stdPrintf(string, ...interface{}) {}

//override:log.Println
func stdPrintln(...interface{}) {}

//override:log.SetOutput
func stdSetOutput(io.Writer) {}
