// replay runs harnesses natively on recorded values: one JSON request per line of standard input.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"

	"github.com/lyraproj/hiera/zzverif/h"
	"github.com/lyraproj/hiera/zzverif/sym"
	"github.com/lyraproj/hiera/zzverif/vfs"
	"github.com/lyraproj/hiera/zzverif/yamlmain"
)

type request struct {
	Harness string         `json:"harness"`
	Inputs  []uint64       `json:"inputs"`
	Bounds  map[string]int `json:"bounds"`
	Stress  int            `json:"stress"`
}

type result struct {
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Observed []string          `json:"observed"`
	Known    map[string]string `json:"known"`
}

func main() {
	if os.Getenv("ZZ_TOOL") == "yaml2json" {
		yamlmain.Main()
		return
	}
	debug.SetMaxStack(64 << 20)
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if len(os.Args) > 1 {
		vfs.Work = os.Args[1]
		vfs.Exact = os.Environ()
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var r request
			if err := json.Unmarshal(line, &r); err != nil {
				panic(err)
			}
			res := runOne(&r)
			for i := 1; i < r.Stress && res.Kind == "done"; i++ {
				res = runOne(&r)
			}
			b, _ := json.Marshal(res)
			fmt.Fprintf(out, "\nRESULT %s\n", b)
		}
		if err != nil {
			return
		}
	}
}

func runOne(r *request) (res result) {
	sym.R = &sym.Run{Values: r.Inputs, Bounds: r.Bounds}
	f := h.All[r.Harness]
	if f == nil {
		return result{Kind: "none", Msg: "no harness " + r.Harness}
	}
	defer h.Cleanup()
	defer func() {
		res.Observed = sym.R.Observed
		res.Known = sym.R.Known
		if x := recover(); x != nil {
			switch x := x.(type) {
			case sym.NeedEnv:
				res = runWith(r, x.Env)
				return
			case sym.Skipped:
				res.Kind = "assume"
			case sym.Failed:
				res.Kind, res.Msg = "fail", x.Msg
			default:
				res.Kind, res.Msg = "panic", fmt.Sprint(x)
			}
			return
		}
		res.Kind = "done"
		if len(sym.R.Failures) > 0 {
			res.Kind, res.Msg = "fail", sym.R.Failures[0]
		}
	}()
	f()
	return
}

// runWith runs the request in a process with the given environment.
func runWith(r *request, env []string) (res result) {
	req, _ := json.Marshal(request{Harness: r.Harness, Inputs: r.Inputs, Bounds: r.Bounds})
	exe, err := os.Executable()
	if err != nil {
		return result{Kind: "panic", Msg: err.Error()}
	}
	c := exec.Command(exe, vfs.Work)
	c.Env = env
	c.Stdin = bytes.NewReader(append(req, '\n'))
	out, err := c.Output()
	i := bytes.Index(out, []byte("\nRESULT "))
	if i < 0 {
		return result{Kind: "panic", Msg: fmt.Sprint(err)}
	}
	_ = json.Unmarshal(out[i+8:], &res)
	return
}
