// hcheck decides one property by symbolic execution of the code in /repo.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine/gosym"
)

const hpath = "github.com/lyraproj/hiera/zzverif/h"

// Harness is one symbolic entry point of a property.
type Harness struct {
	Fn       string           `json:"fn"`
	Bounds   map[string]int64 `json:"bounds"`
	Thorough map[string]int64 `json:"thorough"`
	Time     int              `json:"time"`  // seconds, quick
	TTime    int              `json:"ttime"` // seconds, thorough
	Preempt  int              `json:"preempt"`
	Samples  int              `json:"samples"`
	TPreempt int              `json:"tpreempt"`
	Races    bool             `json:"races"`
	Depth    int              `json:"depth"`
	Steps    int64            `json:"steps"`
	Reach    []string         `json:"reach"`
	Stress   int              `json:"stress"` // native repetitions when a schedule is involved
	NoSample bool             `json:"nosample"`
	What     string           `json:"what"`
}

// Prop is how one property is decided.
type Prop struct {
	Harness     []Harness `json:"harness"`
	Outside     string    `json:"outside"`
	Assumptions []string  `json:"assumptions"`
}

var (
	propID  = flag.String("prop", "", "property")
	tier    = flag.String("tier", "", "quick or thorough")
	root    = flag.String("root", "/verif", "where the machinery lives")
	repo    = flag.String("repo", "/repo", "the code")
	only    = flag.String("only", "", "run one harness only")
	debug   = flag.Bool("debug", false, "stop at engine errors")
	nworker = flag.Int("workers", 8, "workers")
	tlimit  = flag.Int("time", 0, "seconds per harness, overriding the table")
	bnds    = flag.String("bounds", "", "k=v,... overriding the table")
	trace   = flag.Bool("trace", false, "print calls")
	maxP    = flag.Int("paths", 0, "stop after this many paths")
	first   = flag.Bool("first", false, "stop soon after the first violation")
	noEv    = flag.Bool("noevidence", false, "do not write evidence")
	warm    = flag.Bool("warm", false, "build everything once and exit")
	nativeF = flag.String("native", "", "replay this file natively and exit")
)

func main() {
	flag.Parse()
	rc := run()
	gosym.Profile()
	os.Exit(rc)
}

func fatal(f string, a ...any) int {
	fmt.Printf("ERROR property=%s "+f+"\n", append([]any{*propID}, a...)...)
	return 2
}

type native struct {
	Kind     string            `json:"kind"` // done, assume, fail, panic, crash, hang
	Msg      string            `json:"msg"`
	Observed []string          `json:"observed"`
	Known    map[string]string `json:"known"`
}

type replayFile struct {
	Property string           `json:"property"`
	Harness  string           `json:"harness"`
	Message  string           `json:"message"`
	Detail   string           `json:"detail,omitempty"`
	Inputs   []uint64         `json:"inputs"`
	Schedule []uint64         `json:"schedule,omitempty"`
	Bounds   map[string]int64 `json:"bounds"`
	Native   *native          `json:"native,omitempty"`
	HowTo    string           `json:"howto"`
}

func run() int {
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	props := map[string]*Prop{}
	b, err := os.ReadFile(filepath.Join(*root, "harness/props.json"))
	if err != nil {
		return fatal("%v", err)
	}
	if err := json.Unmarshal(b, &props); err != nil {
		return fatal("props.json: %v", err)
	}
	p := props[*propID]
	if p == nil && !*warm {
		return fatal("no such property")
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "hcheck")
	if err != nil {
		return fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	hdir := filepath.Join(*root, "harness")
	ov, ovFile, err := overlays(tmp)
	if err != nil {
		return fatal("%v", err)
	}
	// the native replay is built while the symbolic run goes on
	nat := &nativeRunner{dir: hdir, overlay: ovFile, tmp: tmp}
	nat.build()
	if *nativeF != "" {
		return nat.show(*nativeF)
	}
	if *warm {
		if err := nat.wait(); err != nil {
			return fatal("%v", err)
		}
		if _, err := gosym.Load(hdir, ov, hpath); err != nil {
			return fatal("%v", err)
		}
		return 0
	}
	prog, err := gosym.Load(hdir, ov, hpath)
	if err != nil {
		return fatal("%v", err)
	}
	prog.Debug = *debug
	var exactEx *gosym.Explorer
	ex := gosym.NewExplorer(prog, *nworker)
	defer ex.Close()
	if *debug {
		for _, e := range ex.InitErrs() {
			fmt.Println("init:", e)
		}
	}
	loadTime := time.Since(t0)
	known := readKnown(filepath.Join(*root, "known-findings.txt"), *propID)
	knownHit := map[string]string{}
	var violations []string
	var sums []*gosym.Summary
	var unconfirmed []string
	validated, mismatches := 0, []string{}
	var samplesOut []any
	noAnswer := ""
	bounds := map[string]any{}
	for _, h := range p.Harness {
		if *first && len(violations) > 0 {
			break
		}
		if *only != "" && h.Fn != *only {
			continue
		}
		entry := prog.Func(hpath, h.Fn)
		if entry == nil {
			return fatal("no harness %s", h.Fn)
		}
		bs := map[string]int64{}
		for k, v := range h.Bounds {
			bs[k] = v
		}
		secs := h.Time
		if secs == 0 {
			secs = 60
		}
		pre := h.Preempt
		if *tier == "thorough" {
			for k, v := range h.Thorough {
				bs[k] = v
			}
			if h.TTime > 0 {
				secs = h.TTime
			} else {
				secs *= 5
			}
			if h.TPreempt != 0 {
				pre = h.TPreempt
			}
		}
		if *tlimit > 0 {
			secs = *tlimit
		}
		for _, kv := range strings.Split(*bnds, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				n, _ := strconv.Atoi(v)
				bs[k] = int64(n)
			}
		}
		opt := gosym.Options{MaxSteps: h.Steps, MaxDepth: h.Depth, MaxPreempt: pre, Races: h.Races, SolverBin: "z3-new",
			SolverMs: 20000, Bounds: bs, TraceCalls: *trace}
		if opt.MaxSteps == 0 {
			opt.MaxSteps = 5000000
		}
		if opt.MaxDepth == 0 {
			opt.MaxDepth = 600
		}
		lim := gosym.Limits{Time: time.Duration(secs) * time.Second, MaxViol: 8, Samples: 40, MaxPaths: *maxP, First: *first}
		if h.Samples > 0 {
			lim.Samples = h.Samples
		}
		if h.NoSample {
			lim.Samples = 0
		}
		sum := ex.Run(entry, opt, lim)
		sums = append(sums, sum)
		fmt.Println(sum)
		hb := map[string]any{"max_depth": opt.MaxDepth, "max_steps": opt.MaxSteps, "explored_completely": sum.Complete}
		for k, v := range bs {
			hb[k] = v
		}
		if pre > 0 {
			hb["preemptions"] = pre
		} else if pre < 0 {
			hb["deviations_from_one_schedule"] = -pre - 1
		}
		if !sum.Complete {
			hb["left_unexplored"] = sum.Left
			hb["problems"] = sum.Problems
			hb["notes"] = sum.Notes
		}
		bounds[h.Fn] = hb
		if err := nat.wait(); err != nil {
			return fatal("native build: %v", err)
		}
		confirmed := map[string]bool{}
		var tried []string
		confirm := func(sum *gosym.Summary, tag string) {
			t1 := time.Now()
			for i, v := range sum.Viol {
				k := v.Kind + v.Known + v.Msg
				if confirmed[k] || i > 0 && len(tried) > 0 && tried[len(tried)-2] == k && time.Since(t1) > 2*time.Minute {
					continue
				}
				if v.Known != "" {
					if _, ok := known[v.Known]; ok {
						knownHit[v.Known] = v.Msg
						continue
					}
				}
				rf := &replayFile{Property: *propID, Harness: h.Fn, Message: v.Msg, Detail: v.Detail, Inputs: v.Inputs, Schedule: v.Schedule, Bounds: bs,
					HowTo: "bash /verif/check.sh -native <this file>"}
				res := nat.confirm(rf, h)
				rf.Native = res
				path := filepath.Join(*root, "replays", fmt.Sprintf("%s-%s-%s%d.json", *propID, h.Fn, tag, i))
				_ = os.MkdirAll(filepath.Dir(path), 0o755)
				rb, _ := json.MarshalIndent(rf, "", " ")
				_ = os.WriteFile(path, append(rb, '\n'), 0o644)
				fmt.Printf("counterexample %s: %s\n  inputs=%v schedule=%v\n  native: %s %s\n", h.Fn, v.Msg, v.Inputs, v.Schedule, res.Kind, res.Msg)
				if *debug && v.Detail != "" {
					fmt.Println(v.Detail)
				}
				switch res.Kind {
				case "fail", "panic", "crash", "hang", "race":
					ok := true
					for id := range res.Known {
						if _, is := known[id]; is {
							// the native run stops at a listed finding first
							knownHit[id] = res.Known[id]
							ok = false
						}
					}
					if ok {
						confirmed[k] = true
						violations = append(violations, path)
					} else {
						unconfirmed = append(unconfirmed, path)
					}
				default:
					tried = append(tried, k, h.Fn+": "+v.Msg+" (native run: "+res.Kind+" "+res.Msg+")")
				}
			}
		}
		confirm(sum, "")
		lost := false
		for i := 0; i < len(tried); i += 2 {
			lost = lost || !confirmed[tried[i]]
		}
		if lost && len(violations) == 0 {
			// the constant hash code may be to blame
			if exactEx == nil {
				prog.ExactHash = true
				exactEx = gosym.NewExplorer(prog, (*nworker+1)/2)
				prog.ExactHash = false
				defer exactEx.Close()
			}
			lim2 := lim
			lim2.First, lim2.Samples = true, 0
			if lim2.Time > 2*time.Minute {
				lim2.Time = 2 * time.Minute
			}
			sum2 := exactEx.Run(entry, opt, lim2)
			fmt.Println("exact hash codes:", sum2)
			confirm(sum2, "x")
		}
		for i := 0; i < len(tried); i += 2 {
			if !confirmed[tried[i]] {
				confirmed[tried[i]] = true
				unconfirmed = append(unconfirmed, tried[i+1])
			}
		}
		ok, mm, err := nat.validate(h, bs, sum.Samples)
		if err != nil {
			return fatal("validation: %v", err)
		}
		validated += ok
		mismatches = append(mismatches, mm...)
		for i, s := range sum.Samples {
			if i < 2 {
				samplesOut = append(samplesOut, map[string]any{"harness": h.Fn, "inputs": s.Inputs, "observed": s.Observe})
			}
		}
		if len(sum.Viol) == 0 {
			for _, r := range h.Reach {
				if sum.Reach[r] == 0 && sum.Left > 0 && len(sum.Problems) == 0 {
					fmt.Printf("%s did not reach %q before its time ran out\n", h.Fn, r)
				} else if sum.Reach[r] == 0 {
					noAnswer = fmt.Sprintf("%s never reached %q (%v %v)", h.Fn, r, sum.Kinds, sum.Problems)
				}
			}
		}
	}
	for _, m := range mismatches {
		fmt.Println("encoder mismatch:", m)
	}
	for _, u := range unconfirmed {
		fmt.Println("not confirmed natively:", u)
	}
	if !*noEv {
		writeEvidence(p, seed, sums, bounds, validated, mismatches, unconfirmed, samplesOut, len(violations), loadTime, time.Since(t0))
	}
	ids := make([]string, 0)
	for id := range knownHit {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *propID, id, known[id])
	}
	if len(violations) > 0 {
		for _, v := range violations {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *propID, v)
		}
		return 1
	}
	if noAnswer != "" {
		return fatal("no answer: %s", noAnswer)
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", *propID, *tier, time.Since(t0).Seconds())
	return 0
}

func readKnown(path, prop string) map[string]string {
	r := map[string]string{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		f, ok := strings.CutPrefix(l, "finding: property="+prop+" id=")
		if !ok {
			continue
		}
		id, text, _ := strings.Cut(f, " ")
		r[id] = text
	}
	return r
}

// overlays makes the generated files: in-package helpers, and copies of main packages under an importable name.
func overlays(tmp string) (map[string][]byte, string, error) {
	ov := map[string][]byte{}
	files := map[string]string{}
	add := func(virtual string, content []byte) error {
		ov[virtual] = content
		p := filepath.Join(tmp, fmt.Sprintf("ov%d.go", len(files)))
		files[virtual] = p
		return os.WriteFile(p, content, 0o644)
	}
	odir := filepath.Join(*root, "harness/overlay")
	err := filepath.Walk(odir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go.txt") {
			return err
		}
		rel, _ := filepath.Rel(odir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return add(filepath.Join(*repo, strings.TrimSuffix(rel, ".txt")), b)
	})
	if err != nil && !os.IsNotExist(err) {
		return nil, "", err
	}
	for dir, name := range map[string]string{"hieraserver/rest": "restmain", "yaml2json": "yamlmain"} {
		ms, _ := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		for _, f := range ms {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, "", err
			}
			b = bytes.Replace(b, []byte("\npackage main"), []byte("\npackage "+name), 1)
			if bytes.HasPrefix(b, []byte("package main")) {
				b = append([]byte("package "+name), b[len("package main"):]...)
			}
			if err := add(filepath.Join(*root, "harness", name, filepath.Base(f)), b); err != nil {
				return nil, "", err
			}
		}
	}
	if err := add(filepath.Join(*root, "harness", "restmain", "zz_export.go"), []byte("package restmain\n\nimport \"github.com/lyraproj/hiera/hiera\"\n\n// Settings are the settings of the server.\nfunc Settings() *hiera.CommandOptions { return &cmdOpts }\n")); err != nil {
		return nil, "", err
	}
	if err := add(filepath.Join(*root, "harness", "yamlmain", "zz_export.go"), []byte("package yamlmain\n\n// Main runs the program.\nfunc Main() { main() }\n")); err != nil {
		return nil, "", err
	}
	j, _ := json.Marshal(map[string]any{"Replace": files})
	of := filepath.Join(tmp, "overlay.json")
	return ov, of, os.WriteFile(of, j, 0o644)
}

type nativeRunner struct {
	dir, overlay, tmp string
	done              chan error
	err               error
	waited            bool
	raceBuilt         bool
	raceErr           error
}

func goEnv(cgo string) []string {
	return append(os.Environ(), "CGO_ENABLED="+cgo, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func (n *nativeRunner) build() {
	n.done = make(chan error, 1)
	go func() {
		c := exec.Command("go", "build", "-overlay", n.overlay, "-o", filepath.Join(n.tmp, "replay"), "./replay")
		c.Dir, c.Env = n.dir, goEnv("0")
		out, err := c.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, out)
		}
		n.done <- err
	}()
}

func (n *nativeRunner) wait() error {
	if !n.waited {
		n.err = <-n.done
		n.waited = true
	}
	return n.err
}

func (n *nativeRunner) raceBin() (string, error) {
	bin := filepath.Join(n.tmp, "replay-race")
	if !n.raceBuilt {
		n.raceBuilt = true
		c := exec.Command("go", "build", "-race", "-overlay", n.overlay, "-o", bin, "./replay")
		c.Dir, c.Env = n.dir, goEnv("1")
		out, err := c.CombinedOutput()
		if err != nil {
			n.raceErr = fmt.Errorf("%v\n%s", err, out)
		}
	}
	return bin, n.raceErr
}

type request struct {
	Harness string           `json:"harness"`
	Inputs  []uint64         `json:"inputs"`
	Bounds  map[string]int64 `json:"bounds"`
	Stress  int              `json:"stress"`
}

// exec runs requests in one process; a missing answer means that the process died or hung.
func (n *nativeRunner) exec(bin string, reqs []request, limit time.Duration) ([]native, string, error) {
	if err := n.wait(); err != nil {
		return nil, "", err
	}
	work, err := os.MkdirTemp(n.tmp, "run")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(work)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Dir = work
	c.WaitDelay = 2 * time.Second
	c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=1 exitcode=66", "VERIF_WORK="+work)
	var in bytes.Buffer
	for _, r := range reqs {
		b, _ := json.Marshal(r)
		in.Write(b)
		in.WriteByte('\n')
	}
	c.Stdin = &in
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	rerr := c.Run()
	var res []native
	for _, l := range strings.Split(out.String(), "\n") {
		l, ok := strings.CutPrefix(l, "RESULT ")
		if !ok {
			continue
		}
		var r native
		if json.Unmarshal([]byte(l), &r) == nil {
			res = append(res, r)
		}
	}
	if len(res) < len(reqs) {
		k := native{Kind: "crash"}
		if ctx.Err() != nil {
			k.Kind = "hang"
			k.Msg = "no answer within " + limit.String()
		} else {
			e := errb.String()
			for _, l := range strings.Split(e, "\n") {
				if strings.Contains(l, "fatal error") || strings.Contains(l, "DATA RACE") || strings.Contains(l, "goroutine stack exceeds") || strings.HasPrefix(l, "panic:") {
					k.Msg = l
					break
				}
			}
			if strings.Contains(e, "DATA RACE") {
				k.Kind = "race"
			}
			if k.Msg == "" {
				k.Msg = fmt.Sprint(rerr)
			}
		}
		res = append(res, k)
	}
	return res, errb.String(), nil
}

func (n *nativeRunner) confirm(rf *replayFile, h Harness) *native {
	bin := filepath.Join(n.tmp, "replay")
	stress := 0
	if len(rf.Schedule) > 0 {
		stress = h.Stress
		if stress == 0 {
			stress = 300
		}
	}
	if strings.Contains(rf.Message, "data race") {
		b, err := n.raceBin()
		if err != nil {
			return &native{Kind: "none", Msg: err.Error()}
		}
		bin = b
	}
	res, _, err := n.exec(bin, []request{{rf.Harness, rf.Inputs, rf.Bounds, stress}}, 40*time.Second)
	if err != nil || len(res) == 0 {
		return &native{Kind: "none", Msg: fmt.Sprint(err)}
	}
	return &res[0]
}

func (n *nativeRunner) validate(h Harness, bs map[string]int64, ss []*gosym.Sample) (int, []string, error) {
	if len(ss) == 0 {
		return 0, nil, nil
	}
	var reqs []request
	for _, s := range ss {
		reqs = append(reqs, request{h.Fn, s.Inputs, bs, 0})
	}
	res, stderr, err := n.exec(filepath.Join(n.tmp, "replay"), reqs, 120*time.Second)
	if err != nil {
		return 0, nil, err
	}
	ok := 0
	var bad []string
	for i, s := range ss {
		if i >= len(res) {
			bad = append(bad, fmt.Sprintf("%s %v: no native answer\n%s", h.Fn, s.Inputs, tail(stderr)))
			break
		}
		r := res[i]
		if r.Kind != "done" || strings.Join(r.Observed, "\x00") != strings.Join(s.Observe, "\x00") {
			bad = append(bad, fmt.Sprintf("%s %v: machine %q, native %s %s %q", h.Fn, s.Inputs, s.Observe, r.Kind, r.Msg, r.Observed))
			continue
		}
		ok++
	}
	return ok, bad, nil
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

func (n *nativeRunner) show(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return fatal("%v", err)
	}
	if err := n.wait(); err != nil {
		return fatal("%v", err)
	}
	r := n.confirm(&rf, Harness{})
	out, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(out))
	if r.Kind == "done" || r.Kind == "assume" {
		return 0
	}
	return 1
}

func writeEvidence(p *Prop, seed int, sums []*gosym.Summary, bounds map[string]any, validated int, mismatches, unconfirmed []string, samples []any, nviol int, load, wall time.Duration) {
	states, trans := 0, int64(0)
	var st gosym.SolverStats
	funcs := map[string]int64{}
	reach := map[string]int{}
	kinds := map[string]int{}
	asserts := int64(0)
	complete := len(unconfirmed) == 0
	for _, s := range sums {
		states += s.Paths
		trans += s.Steps
		asserts += s.Asserts
		complete = complete && s.Complete
		st.Queries += s.Solver.Queries
		st.SatN += s.Solver.SatN
		st.UnsatN += s.Solver.UnsatN
		st.UnknownN += s.Solver.UnknownN
		st.AssertQueries += s.Solver.AssertQueries
		st.AssertUnsat += s.Solver.AssertUnsat
		st.Cached += s.Solver.Cached
		st.Time += s.Solver.Time
		for k, v := range s.Funcs {
			funcs[k] += v
		}
		for k, v := range s.Reach {
			reach[k] += v
		}
		for k, v := range s.Kinds {
			kinds[k] += v
		}
	}
	var encoded []string
	other := 0
	for f := range funcs {
		if strings.Contains(f, "github.com/lyraproj/hiera/") && !strings.Contains(f, "/zzverif/") {
			encoded = append(encoded, strings.ReplaceAll(f, "github.com/lyraproj/", ""))
		} else {
			other++
		}
	}
	sort.Strings(encoded)
	if samples == nil {
		samples = []any{map[string]any{"note": "schedules are explored; no path of this run is replayed value by value"}}
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"states_note":                   "states are explored paths (each a set of inputs given by its path condition), transitions are executed SSA instructions",
		"traces_validated_against_impl": validated,
		"encoder_mismatches":            mismatches,
		"not_confirmed_natively":        unconfirmed,
		"samples":                       samples,
		"paths_by_end":                  kinds,
		"reached":                       reach,
		"bounds":                        bounds,
		"outside_bounds":                p.Outside,
		"exhaustive":                    complete,
		"assertions_evaluated":          asserts,
		"functions_encoded":             encoded,
		"library_functions_encoded":     other,
		"queries":                       map[string]any{"total": st.Queries, "answered_from_earlier_identical_queries": st.Cached, "sat": st.SatN, "unsat": st.UnsatN, "unknown": st.UnknownN, "assertion_queries": st.AssertQueries, "assertions_proved": st.AssertUnsat},
		"solver_time_s":                 st.Time.Seconds(),
		"solver":                        "z3 5.3.2 (z3-new), bit vectors",
		"load_s":                        load.Seconds(),
	}
	as := append([]string{
		"the symbolic machine follows the semantics of go/ssa as built by " + runtime.Version(),
		"hash codes of dgo strings and integers are constant in the machine (they only spread hash buckets)",
		"Go maps iterate in insertion order in the machine",
	}, p.Assumptions...)
	ev := map[string]any{"property": *propID, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": as, "wall_s": wall.Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(*root, "evidence", *propID+".json"), append(b, '\n'), 0o644)
}
