package gosym

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

var typesMu sync.Mutex

// Intrinsic implements a function on the host. fr is the caller's frame.
type Intrinsic func(m *Machine, fr *frame, args []Value) Value

// Options bound one exploration.
type Options struct {
	MaxSteps   int64 // per path
	MaxDepth   int
	MaxPreempt int
	Races      bool
	SolverBin  string
	SolverMs   int
	TraceCalls bool
	Sample     func() bool      // whether a finished path is turned into a sample
	Bounds     map[string]int64 // harness bounds
}

type trailEnt struct {
	p *Value
	v Value
}

type mapTrail struct {
	m    *MapObj
	ents []mapEntry
	idx  map[any]int
	nsym int
	n    int
	ep   int64
}

// Input is a recorded symbolic input of the harness (in call order).
type Input struct {
	Kind string // bool int byte str choice
	Term []*Term
	Sch  bool // schedule choice, not part of the native replay's value list
	W    uint8
	Name string
}

type decision struct {
	taken  int  // which alternative was taken
	forced bool // only one alternative was feasible
	choice bool // taken is a choice among n
}

// Machine executes the program on one path at a time.
type Machine struct {
	profFr  *frame
	P       *Program
	Opt     Options
	tc      *TermCtx
	solver  *Solver
	funcs   map[*ssa.Function]*Func
	rtm     typeutil.Map
	nrt     int
	impl    map[[2]*RType]bool
	globals map[*ssa.Global]*Value
	consts  map[*ssa.Const]Value

	inPath bool
	epoch  int64
	trail  []trailEnt
	mtrail []mapTrail

	pc       []*Term
	inputs   []Input
	nvars    int
	varTerms []*Term
	prefix   []int
	pos      int
	log      []decision
	model    Model
	modelOK  bool
	observed []Value
	steps    int64
	reach    map[string]bool
	preempt  int
	notes    []string

	qcache map[string]queryResult

	newWork func(prefix []int, model Model)
	onViol  func(v *Violation)

	gs      []*G
	cur     *G
	killing bool
	gabort  any
	gdone   chan struct{}
	wgHost  sync.WaitGroup

	hashes   int64
	exact    bool
	tcount   int64
	nAsserts int64
	nDecide  int64
	side     map[string]any // per path host side tables (reset for each path)
	initDone bool
	initErrs []string

	races *raceState
}

func NewMachine(p *Program, opt Options) *Machine {
	m := &Machine{P: p, Opt: opt, tc: NewTermCtx(), solver: NewSolver(opt.SolverBin, opt.SolverMs),
		funcs: map[*ssa.Function]*Func{}, impl: map[[2]*RType]bool{}, globals: map[*ssa.Global]*Value{},
		consts: map[*ssa.Const]Value{}}
	m.exact = p.ExactHash
	m.rtm.SetHasher(typeutil.MakeHasher())
	return m
}

// rtype returns the canonical run time type of t.
func (m *Machine) rtype(t types.Type) *RType {
	t = types.Unalias(t)
	if r := m.rtm.At(t); r != nil {
		return r.(*RType)
	}
	m.nrt++
	r := &RType{T: t, id: m.nrt, methods: map[string]*Func{}, m: m}
	r.str = types.TypeString(t, func(p *types.Package) string { return p.Name() })
	r.str = strings.ReplaceAll(r.str, "interface{}", "interface {}")
	if r.str == "any" {
		r.str = "interface {}"
	}
	m.rtm.Set(t, r)
	return r
}

func (m *Machine) fn(f *ssa.Function) *Func {
	if c, ok := m.funcs[f]; ok {
		return c
	}
	c := &Func{fn: f, name: f.String(), m: m, recoverB: -1}
	m.funcs[f] = c
	c.quiet = strings.Contains(c.name, "/zzverif/models.") || strings.Contains(c.name, "/zzverif/vfs.") || strings.Contains(c.name, "/zzverif/proc.") ||
		// remembers a hash code, a single word that is the same whoever computes it
		c.name == "(*github.com/lyraproj/dgo/internal.hstring).HashCode"
	if f.Origin() != nil {
		if in, ok := intrinsics[f.Origin().String()]; ok {
			c.intr = in
		}
	}
	if in, ok := intrinsics[c.name]; ok {
		c.intr = in
	}
	if h, ok := fastFuncs[c.name]; ok {
		c.fast = h
	}
	if m.exact && hashFuncs[c.name] {
		c.intr = nil
	}
	if o, ok := m.P.overrides[c.name]; ok {
		c.override = m.fn(o)
		c.intr = nil
		c.fast = nil
	}
	if f.Pkg != nil {
		c.fromPkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		c.fromPkg = f.Object().Pkg().Path()
	} else if f.Parent() != nil {
		c.fromPkg = m.fn(f.Parent()).fromPkg
	}
	return c
}

func (m *Machine) closureOf(f *ssa.Function) *Closure {
	fn := m.fn(f)
	if fn.self == nil {
		fn.self = &Closure{fn: fn}
	}
	return fn.self
}

// method finds the concrete method of a run time type.
func (m *Machine) method(rt *RType, id string, pkg *types.Package, name string) *Func {
	if f, ok := rt.methods[id]; ok {
		return f
	}
	typesMu.Lock()
	sel := m.P.Prog.MethodSets.MethodSet(rt.T).Lookup(pkg, name)
	var sf *ssa.Function
	if sel != nil {
		sf = m.P.Prog.MethodValue(sel)
	}
	typesMu.Unlock()
	if sf == nil {
		rt.methods[id] = nil
		return nil
	}
	f := m.fn(sf)
	rt.methods[id] = f
	return f
}

func (m *Machine) implements(rt *RType, it *RType) bool {
	k := [2]*RType{rt, it}
	if b, ok := m.impl[k]; ok {
		return b
	}
	typesMu.Lock()
	b := types.Implements(rt.T, it.T.Underlying().(*types.Interface))
	typesMu.Unlock()
	m.impl[k] = b
	return b
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	v := m.zero(g.Type().(*types.Pointer).Elem())
	p := &v
	m.globals[g] = p
	return p
}

// store writes v into the cell p.
func (m *Machine) store(p *Value, v Value) {
	switch old := (*p).(type) {
	case Struct:
		if nv, ok := v.(Struct); ok && len(nv) == len(old) {
			for i := range old {
				m.store(&old[i], nv[i])
			}
			return
		}
	case Array:
		if nv, ok := v.(Array); ok && len(nv) == len(old) {
			for i := range old {
				m.store(&old[i], nv[i])
			}
			return
		}
	}
	m.set(p, copyVal(v))
}

func (m *Machine) set(p *Value, v Value) {
	if m.inPath {
		m.trail = append(m.trail, trailEnt{p, *p})
	}
	*p = v
}

func (m *Machine) touchMap(o *MapObj) {
	if !m.inPath || o.epoch == m.epoch {
		return
	}
	t := mapTrail{m: o, nsym: o.nsym, n: o.n, ep: o.epoch}
	t.ents = append([]mapEntry(nil), o.ents...)
	t.idx = make(map[any]int, len(o.idx))
	for k, v := range o.idx {
		t.idx[k] = v
	}
	m.mtrail = append(m.mtrail, t)
	o.epoch = m.epoch
}

func (m *Machine) undo() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		*m.trail[i].p = m.trail[i].v
	}
	clear(m.trail)
	m.trail = m.trail[:0]
	for i := len(m.mtrail) - 1; i >= 0; i-- {
		t := &m.mtrail[i]
		t.m.ents, t.m.idx, t.m.nsym, t.m.n, t.m.epoch = t.ents, t.idx, t.nsym, t.n, t.ep
	}
	m.mtrail = nil
}

// ---- path conditions and decisions

func (m *Machine) needModel() {
	if m.modelOK {
		return
	}
	r, md := m.solver.Check(m.pc, nil, m.varTerms)
	switch r {
	case Sat:
		m.model, m.modelOK = md, true
	case Unsat:
		panic(engineErr("path condition became unsatisfiable"))
	default:
		panic(abortPath{"solver", "path condition undecided"})
	}
}

type queryResult struct {
	r  Result
	md Model
}

// query decides the path condition together with extra. Only the part of the path condition that shares
// variables with extra, directly or through others, matters when the rest is known to be satisfiable: the
// current model covers the rest. Answers are remembered.
func (m *Machine) query(extra *Term) (Result, Model) {
	m.needModel()
	in := make([]bool, len(m.pc))
	set := map[*Term]bool{}
	for _, v := range extra.vars() {
		set[v] = true
	}
	for changed := true; changed; {
		changed = false
		for i, t := range m.pc {
			if in[i] {
				continue
			}
			hit := false
			for _, v := range t.vars() {
				if set[v] {
					hit = true
					break
				}
			}
			if hit {
				in[i], changed = true, true
				for _, v := range t.vars() {
					set[v] = true
				}
			}
		}
	}
	key := make([]byte, 0, 64)
	var pc []*Term
	for i, t := range m.pc {
		if in[i] {
			pc = append(pc, t)
			key = binary.AppendVarint(key, int64(t.id))
		}
	}
	key = binary.AppendVarint(key, int64(extra.id))
	q, ok := m.qcache[string(key)]
	if ok {
		m.solver.Stats.Cached++
	} else {
		var vars []*Term
		for _, v := range m.varTerms {
			if set[v] {
				vars = append(vars, v)
			}
		}
		q.r, q.md = m.solver.Check(pc, extra, vars)
		if q.r != Unknown {
			if m.qcache == nil || len(m.qcache) > 300000 {
				m.qcache = map[string]queryResult{}
			}
			m.qcache[string(key)] = q
		}
	}
	if q.r != Sat {
		return q.r, nil
	}
	md := make(Model, len(m.model)+len(q.md))
	for k, v := range m.model {
		md[k] = v
	}
	for k, v := range q.md {
		md[k] = v
	}
	return Sat, md
}

func (m *Machine) addPC(t *Term) {
	if t == m.tc.True {
		return
	}
	if t.op == OpAnd {
		m.addPC(t.a)
		m.addPC(t.b)
		return
	}
	m.pc = append(m.pc, t)
}

// decide evaluates a boolean; both values are explored when both are feasible.
func (m *Machine) decide(v Value) bool {
	t, ok := v.(*Term)
	if !ok {
		return v.(bool)
	}
	if t.op == OpConst {
		return t.val != 0
	}
	m.nDecide++
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.log = append(m.log, decision{taken: d & 1, forced: d&2 != 0})
		b := d&1 != 0
		if d&2 == 0 {
			if b {
				m.addPC(t)
			} else {
				m.addPC(m.tc.Not(t))
			}
		}
		return b
	}
	m.needModel()
	b := m.tc.Eval(t, m.model) != 0
	other := t
	if b {
		other = m.tc.Not(t)
	}
	r, md := m.query(other)
	if r == Unknown {
		// the other side stays unexplored: this is reported as a reduced bound
		m.notes = append(m.notes, "solver gave no answer for a branch")
	}
	d := 0
	if b {
		d = 1
	}
	if r != Sat {
		m.log = append(m.log, decision{taken: d, forced: r == Unsat})
		if r == Unsat {
			return b
		}
	} else {
		m.profile()
		if m.newWork != nil {
			m.newWork(m.codes(decision{taken: 1 - d}), md)
		}
		m.log = append(m.log, decision{taken: d})
	}
	if b {
		m.addPC(t)
	} else {
		m.addPC(m.tc.Not(t))
	}
	return b
}

// codes encodes the decisions so far followed by last.
func (m *Machine) codes(last ...decision) []int {
	np := make([]int, 0, len(m.log)+len(last))
	for _, e := range m.log {
		np = append(np, e.code())
	}
	for _, e := range last {
		np = append(np, e.code())
	}
	return np
}

func (d decision) code() int {
	if d.choice {
		return d.taken<<3 | 4
	}
	c := d.taken
	if d.forced {
		c |= 2
	}
	return c
}

// concInt makes an integer concrete, exploring every feasible value.
func (m *Machine) concInt(v Value, ii intInfo) int64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(int64)
	}
	if t.op == OpConst {
		if ii.signed {
			return sext(t.val, t.w)
		}
		return int64(t.val)
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(abortPath{"limit", "more than 4096 values of one term"})
		}
		var val uint64
		// in replay mode the value is found from the recorded model-free walk: candidates are
		// enumerated in a fixed order so that a recorded prefix means the same value
		val = m.candidate(t, n)
		if m.decide(m.boolVal(m.tc.Eq(t, m.tc.BV(val, t.w)))) {
			if ii.signed {
				return sext(val, t.w)
			}
			return int64(val)
		}
	}
}

// candidate returns the n-th candidate value of t; it must be a function of the decisions taken so far.
func (m *Machine) candidate(t *Term, n int) uint64 {
	if t.hi-t.lo < 4096 && t.w > 0 {
		return t.lo + uint64(n)
	}
	// large range: ask the solver; deterministic for a given path condition because the query is
	// recorded with the decision
	key := prefixKey(m.codes())
	if v, ok := m.P.cand.Load(key); ok {
		return v.(uint64)
	}
	r, md := m.solver.Check(m.pc, nil, m.varTerms)
	if r != Sat {
		panic(abortPath{"solver", "no value for a term"})
	}
	v := m.tc.Eval(t, md)
	m.P.cand.Store(key, v)
	return v
}

func prefixKey(p []int) string {
	b := make([]byte, 0, len(p)+8)
	for _, d := range p {
		b = binary.AppendUvarint(b, uint64(d))
	}
	return string(b)
}

// freshVar makes a new input variable.
func (m *Machine) freshVar(kind string, w uint8, lo, hi uint64) *Term {
	n := m.nvars
	m.nvars++
	t := m.tc.VarR(fmt.Sprintf("%s%d_%d", kind, n, w), w, lo, hi)
	m.varTerms = append(m.varTerms, t)
	if w > 0 && (lo > 0 || hi < mask(w)) {
		// VarR's range makes the comparison fold, so build the raw constraint
		c := m.tc.mk(OpUle, 0, 0, t, m.tc.BV(hi, w), nil, "")
		m.pc = append(m.pc, c)
		if lo > 0 {
			m.pc = append(m.pc, m.tc.mk(OpUle, 0, 0, m.tc.BV(lo, w), t, nil, ""))
		}
	}
	return t
}

// chooseN picks 0..n-1, exploring all of them.
func (m *Machine) chooseN(kind string, n int, sched bool) int {
	if n <= 1 {
		return 0
	}
	t := m.freshVar(kind, 16, 0, uint64(n-1))
	m.inputs = append(m.inputs, Input{Kind: "choice", Term: []*Term{t}, Sch: sched})
	k := 0
	if m.pos < len(m.prefix) {
		k = m.prefix[m.pos] >> 3
		m.pos++
	} else if m.newWork != nil {
		// the variable is fresh, so every value is feasible
		m.needModel()
		for j := n - 1; j >= 1; j-- {
			md := make(Model, len(m.model)+1)
			for x, y := range m.model {
				md[x] = y
			}
			md[t.name] = uint64(j)
			m.newWork(m.codes(decision{choice: true, taken: j}), md)
		}
	}
	m.log = append(m.log, decision{choice: true, taken: k})
	m.pc = append(m.pc, m.tc.Eq(t, m.tc.BV(uint64(k), 16)))
	if m.modelOK && k != 0 && m.model[t.name] != uint64(k) {
		panic(engineErr("choice model mismatch"))
	}
	return k
}

// Violation is a counterexample.
type Violation struct {
	Msg      string
	Kind     string // assert, panic, fatal
	Known    string
	Inputs   []uint64 // flattened native replay values
	Schedule []uint64
	Detail   string
	Prefix   []int
	PCLen    int
}

func (m *Machine) violation(kind, known, msg string, md Model, detail string) {
	v := &Violation{Msg: msg, Kind: kind, Known: known, Detail: detail, PCLen: len(m.pc)}
	for _, in := range m.inputs {
		for _, t := range in.Term {
			val := m.tc.Eval(t, md)
			if in.Sch {
				v.Schedule = append(v.Schedule, val)
			} else {
				v.Inputs = append(v.Inputs, val)
			}
		}
	}
	for _, e := range m.log {
		v.Prefix = append(v.Prefix, e.code())
	}
	if m.onViol != nil {
		m.onViol(v)
	}
}

// assert decides the property assertion for all values of the path.
func (m *Machine) assert(v Value, known, msg string) {
	m.nAsserts++
	if b, ok := v.(bool); ok {
		if b {
			return
		}
		r, md := m.solver.Check(m.pc, nil, m.varTerms)
		m.solver.Stats.AssertQueries++
		if r == Sat {
			m.violation("assert", known, msg, md, "")
		} else if r == Unknown {
			m.notes = append(m.notes, "assertion undecided: "+msg)
		}
		panic(abortPath{"stop", "assertion failed"})
	}
	t := v.(*Term)
	m.solver.Stats.AssertQueries++
	r, md := m.query(m.tc.Not(t))
	switch r {
	case Sat:
		m.violation("assert", known, msg, md, "")
		r, _ := m.query(t)
		if r != Sat {
			panic(abortPath{"stop", "assertion failed"})
		}
		m.addPC(t)
		m.modelOK = false
	case Unsat:
		m.solver.Stats.AssertUnsat++
	default:
		m.notes = append(m.notes, "assertion undecided: "+msg)
		m.addPC(t)
		m.modelOK = false
	}
}

func (m *Machine) assume(v Value) {
	t, ok := v.(*Term)
	if !ok {
		if !v.(bool) {
			panic(abortPath{"assume", ""})
		}
		return
	}
	if t.op == OpConst {
		if t.val == 0 {
			panic(abortPath{"assume", ""})
		}
		return
	}
	if m.modelOK && m.tc.Eval(t, m.model) != 0 {
		m.addPC(t)
		return
	}
	r, md := m.query(t)
	switch r {
	case Sat:
		m.addPC(t)
		m.model, m.modelOK = md, true
	case Unsat:
		panic(abortPath{"assume", ""})
	default:
		panic(abortPath{"solver", "assumption undecided"})
	}
}

// PathResult says how one path ended.
type PathResult struct {
	Kind  string // done, assume, unsupported, limit, engine, solver, stop, panic, fatal
	Msg   string
	Steps int64
	PC    int
	Reach []string
	Notes []string
	Log   int
	// Sample is a concrete run along this path, for comparison with the native code
	Sample *Sample
}

// Sample is one concrete run of a path.
type Sample struct {
	Inputs  []uint64
	Observe []string
	Kind    string
}

// RunPath executes the harness once, following the given prefix of decisions.
func (m *Machine) RunPath(entry *ssa.Function, prefix []int, model Model) (res PathResult) {
	m.epoch++
	m.inPath = true
	m.pc = m.pc[:0]
	m.inputs = nil
	m.nvars = 0
	m.varTerms = nil
	m.prefix, m.pos = prefix, 0
	m.log = m.log[:0]
	m.model, m.modelOK = model, model != nil
	if model == nil {
		m.model, m.modelOK = Model{}, true
	}
	m.steps = 0
	m.reach = map[string]bool{}
	m.preempt = 0
	m.notes = nil
	m.observed = nil
	m.killing, m.gabort = false, nil
	m.side = map[string]any{}
	if m.Opt.Races {
		m.races = newRaceState()
	} else {
		m.races = nil
	}
	g := &G{id: 0, m: m, resume: make(chan struct{}, 1)}
	m.gs = []*G{g}
	m.cur = g
	if m.races != nil {
		m.races.newG(g, nil)
	}
	defer func() {
		m.killGoroutines()
		res.Steps = m.steps
		res.PC = len(m.pc)
		res.Notes = m.notes
		res.Log = len(m.log)
		if res.Kind == "done" && m.Opt.Sample != nil && m.Opt.Sample() {
			m.sample(&res)
		}
		for k := range m.reach {
			res.Reach = append(res.Reach, k)
		}
		sort.Strings(res.Reach)
		m.undo()
		m.inPath = false
	}()
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abortPath:
				res.Kind, res.Msg = r.kind, r.msg
			case fatalErr:
				res.Kind, res.Msg = "fatal", r.kind+": "+r.msg
				m.pathViolation("fatal", r.kind+": "+r.msg, "")
			case *targetPanic:
				msg := "uncaught panic: " + m.panicText(r)
				res.Kind, res.Msg = "panic", msg
				m.pathViolation("panic", msg, strings.Join(r.trace, "\n"))
			default:
				res.Kind, res.Msg = "engine", fmt.Sprint(r)
				if m.P.Debug {
					panic(r)
				}
			}
		}
	}()
	m.call(nil, m.fn(entry), nil, nil)
	res.Kind = "done"
	return
}

func (m *Machine) pathViolation(kind, msg, detail string) {
	r, md := m.solver.Check(m.pc, nil, m.varTerms)
	m.solver.Stats.AssertQueries++
	if r == Sat {
		m.violation(kind, "", msg, md, detail)
	} else {
		m.notes = append(m.notes, kind+" on an undecided path: "+msg)
	}
}

func (m *Machine) panicText(tp *targetPanic) (s string) {
	if tp.goexit {
		return "runtime.Goexit"
	}
	v, _ := tp.v.(Iface)
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("<%v>", v.t)
		}
	}()
	return m.describe(v)
}

// describe renders a value for messages, calling Error() and String() on the interpreted value.
func (m *Machine) describe(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		for _, mn := range []string{"Error", "String"} {
			if f := m.method(i.t, mn, nil, mn); f != nil {
				r := m.call(nil, f, []Value{i.v}, nil)
				return i.t.str + ": " + m.lossy(r)
			}
		}
		return i.t.str + ": " + m.lossy(i.v)
	}
	return m.lossy(v)
}

func (m *Machine) lossy(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SStr:
		md := m.model
		b := make([]byte, len(v.b))
		for i, e := range v.b {
			if t, ok := e.(*Term); ok {
				b[i] = byte(m.tc.Eval(t, md))
			} else {
				b[i] = byte(e.(int64))
			}
		}
		return string(b)
	}
	return fmt.Sprint(v)
}

func (m *Machine) sample(res *PathResult) {
	md := m.model
	if !m.modelOK {
		r, x := m.solver.Check(m.pc, nil, m.varTerms)
		if r != Sat {
			return
		}
		md = x
	}
	s := &Sample{Kind: res.Kind}
	for _, in := range m.inputs {
		for _, t := range in.Term {
			if in.Sch {
				return // schedules are not replayed
			}
			s.Inputs = append(s.Inputs, m.tc.Eval(t, md))
		}
	}
	for _, o := range m.observed {
		s.Observe = append(s.Observe, m.evalStr(o, md))
	}
	res.Sample = s
}

func (m *Machine) evalStr(v Value, md Model) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		if v {
			return "1"
		}
		return "0"
	case *Term:
		return strconv.FormatInt(int64(m.tc.Eval(v, md)), 10)
	case *SStr:
		b := make([]byte, len(v.b))
		for i, e := range v.b {
			if t, ok := e.(*Term); ok {
				b[i] = byte(m.tc.Eval(t, md))
			} else {
				b[i] = byte(e.(int64))
			}
		}
		return string(b)
	}
	panic(engineErr("observe %T", v))
}

// resetTerms drops all terms; only between paths.
func (m *Machine) resetTerms() {
	m.solver.Close()
	m.tc = NewTermCtx()
	m.qcache = nil
	m.varTerms, m.pc = nil, nil
}
