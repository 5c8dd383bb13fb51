package gosym

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- panics

// newPanic makes a Go panic with the interface value v.
func (m *Machine) newPanic(fr *frame, v Value) *targetPanic {
	i, ok := v.(Iface)
	if !ok {
		panic(engineErr("panic with %T", v))
	}
	if i.t == nil {
		return m.rtErr(fr, "panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
	}
	return &targetPanic{v: i, trace: m.trace(fr)}
}

func (m *Machine) trace(fr *frame) []string {
	var r []string
	for f := fr; f != nil && len(r) < 40; f = f.caller {
		r = append(r, f.fn.name)
	}
	return r
}

// prof counts the forks by place when GOSYM_PROF is set.
var prof map[string]int
var profMu sync.Mutex

func init() {
	if os.Getenv("GOSYM_PROF") != "" {
		prof = map[string]int{}
	}
}

func (m *Machine) profile() {
	if prof == nil || m.profFr == nil {
		return
	}
	t := m.trace(m.profFr)
	if len(t) > 8 {
		t = t[:8]
	}
	profMu.Lock()
	prof[strings.Join(t, " < ")]++
	profMu.Unlock()
}

// Profile prints the places where most paths fork.
func Profile() {
	var ks []string
	for k := range prof {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return prof[ks[i]] > prof[ks[j]] })
	for i, k := range ks {
		if i < 20 {
			fmt.Println(prof[k], k)
		}
	}
}

func (m *Machine) rtErr(fr *frame, msg string) *targetPanic { return m.rtErrT(fr, msg, false) }

// rtErrT makes a run time error panic. The value is a models.RuntimeError, which implements runtime.Error.
func (m *Machine) rtErrT(fr *frame, msg string, assertion bool) *targetPanic {
	t := m.P.rtErrType
	if t == nil {
		panic(engineErr("no run time error type: %s", msg))
	}
	text := "runtime error: " + msg
	if assertion {
		text = msg
	}
	return &targetPanic{v: Iface{m.rtype(t), Struct{text}}, trace: m.trace(fr), runtime: true}
}

func (m *Machine) nilDeref(fr *frame) *targetPanic {
	return m.rtErr(fr, "invalid memory address or nil pointer dereference")
}

func (m *Machine) oob(fr *frame, i int64, n int) *targetPanic {
	return m.rtErr(fr, fmt.Sprintf("index out of range [%d] with length %d", i, n))
}

// ---- calls

func (m *Machine) call(caller *frame, f *Func, args []Value, free []Value) Value {
	if f.override != nil && (caller == nil || caller.fn != f.override) { // a model may call what it replaces
		f = f.override
	}
	if f.intr != nil {
		return f.intr(m, caller, args)
	}
	if f.fast != nil {
		if v, ok := f.fast(m, args); ok {
			return v
		}
	}
	if !f.compiled {
		typesMu.Lock()
		func() {
			defer typesMu.Unlock()
			m.compile(f)
		}()
	}
	if f.noBody {
		panic(unsupported("no body for %s", f.name))
	}
	g := m.cur
	fr := &frame{m: m, g: g, fn: f, caller: caller, regs: make([]Value, f.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[f.params:], free)
	return fr.run()
}

func (fr *frame) run() Value {
	m, f, g := fr.m, fr.fn, fr.g
	g.depth++
	if g.depth > m.Opt.MaxDepth {
		panic(fatalErr{"stack overflow", f.name + " recursed beyond the depth limit"})
	}
	f.calls++
	if m.Opt.TraceCalls {
		fmt.Printf("%*s%s\n", g.depth, "", f.name)
	}
	if f.hasDefer {
		fr.runWithDefers()
	} else {
		fr.loop(0)
	}
	g.depth--
	return fr.result
}

func (fr *frame) loop(b int) {
	blocks := fr.fn.blocks
	m := fr.m
	for b >= 0 {
		cb := &blocks[b]
		m.steps += int64(cb.n)
		if prof != nil {
			m.profFr = fr
		}
		if m.steps > m.Opt.MaxSteps && m.inPath {
			panic(abortPath{"limit", "step limit in " + fr.fn.name})
		}
		for _, in := range cb.ins {
			in(fr)
		}
		b = cb.term(fr)
	}
}

func (fr *frame) runWithDefers() {
	depth := fr.g.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = tp
			}
		}()
		fr.loop(0)
	}()
	if fr.panicking != nil {
		fr.g.depth = depth
		fr.runDefers()
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.fn.recoverB >= 0 {
			fr.loop(fr.fn.recoverB)
		} else {
			res := fr.fn.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = fr.m.zero(res.At(0).Type())
			default:
				fr.result = fr.m.zero(res)
			}
		}
	}
}

func (fr *frame) runDefers() {
	depth := fr.g.depth
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = tp
					fr.g.depth = depth
				}
			}()
			if d.bi != nil {
				fr.m.builtin(fr, d.bi, &d.call, d.args)
				return
			}
			fr.m.callValue(fr, d.fn, d.args, fr)
		}()
	}
}

// callValue calls a function value.
func (m *Machine) callValue(fr *frame, fv Value, args []Value, deferOf *frame) Value {
	cl, ok := fv.(*Closure)
	if !ok {
		panic(engineErr("call of %T", fv))
	}
	if cl == nil {
		panic(m.nilDeref(fr))
	}
	if cl.host != nil {
		return cl.host(m, args)
	}
	f := cl.fn
	if deferOf == nil || f.override != nil || f.intr != nil {
		return m.call(fr, f, args, cl.free)
	}
	if !f.compiled {
		typesMu.Lock()
		func() {
			defer typesMu.Unlock()
			m.compile(f)
		}()
	}
	if f.noBody {
		panic(unsupported("no body for %s", f.name))
	}
	nf := &frame{m: m, g: m.cur, fn: f, caller: fr, regs: make([]Value, f.nregs), deferOf: deferOf}
	copy(nf.regs, args)
	copy(nf.regs[f.params:], cl.free)
	return nf.run()
}

func (m *Machine) invokeTarget(fr *frame, iv Value, id string, pkg *types.Package, name string) (*Func, Value) {
	i, ok := iv.(Iface)
	if !ok {
		panic(engineErr("invoke %s on %T in %s", name, iv, fr.fn.name))
	}
	if i.t == nil {
		panic(m.nilDeref(fr))
	}
	f, ok := i.t.methods[id]
	if !ok {
		f = m.method(i.t, id, pkg, name)
	}
	if f == nil {
		panic(engineErr("no method %s on %s", id, i.t.str))
	}
	return f, i.v
}

func methodID(fn *types.Func) (string, *types.Package) {
	if fn.Exported() {
		return fn.Name(), nil
	}
	return fn.Pkg().Path() + "." + fn.Name(), fn.Pkg()
}

func (c *compiler) call(cc *ssa.CallCommon, dst int) instr {
	m := c.m
	args := c.ops(cc.Args)
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		id, pkg := methodID(cc.Method)
		name := cc.Method.Name()
		return func(fr *frame) {
			f, recv := fr.m.invokeTarget(fr, x.get(fr), id, pkg, name)
			a := make([]Value, len(args)+1)
			a[0] = copyVal(recv)
			for i := range args {
				a[i+1] = copyVal(args[i].get(fr))
			}
			fr.regs[dst] = fr.m.call(fr, f, a, nil)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return func(fr *frame) {
			a := make([]Value, len(args))
			for i := range args {
				a[i] = args[i].get(fr)
			}
			fr.regs[dst] = fr.m.builtin(fr, v, cc, a)
		}
	case *ssa.Function:
		f := m.fn(v)
		return func(fr *frame) {
			a := make([]Value, len(args))
			for i := range args {
				a[i] = copyVal(args[i].get(fr))
			}
			fr.regs[dst] = fr.m.call(fr, f, a, nil)
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) {
		a := make([]Value, len(args))
		for i := range args {
			a[i] = copyVal(args[i].get(fr))
		}
		fr.regs[dst] = fr.m.callValue(fr, fv.get(fr), a, nil)
	}
}

// bindCall evaluates the callee and arguments of a go or defer statement.
func (c *compiler) bindCall(cc *ssa.CallCommon) func(fr *frame) deferred {
	args := c.ops(cc.Args)
	ev := func(fr *frame, extra int) []Value {
		a := make([]Value, len(args)+extra)
		for i := range args {
			a[i+extra] = copyVal(args[i].get(fr))
		}
		return a
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		id, pkg := methodID(cc.Method)
		name := cc.Method.Name()
		return func(fr *frame) deferred {
			f, recv := fr.m.invokeTarget(fr, x.get(fr), id, pkg, name)
			a := ev(fr, 1)
			a[0] = copyVal(recv)
			return deferred{fn: &Closure{fn: f}, args: a}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(fr *frame) deferred { return deferred{bi: b, args: ev(fr, 0), call: *cc} }
	}
	fv := c.op(cc.Value)
	return func(fr *frame) deferred { return deferred{fn: fv.get(fr), args: ev(fr, 0)} }
}

func (c *compiler) deferStmt(cc *ssa.CallCommon) instr {
	b := c.bindCall(cc)
	return func(fr *frame) { fr.defers = append(fr.defers, b(fr)) }
}

func (c *compiler) goStmt(cc *ssa.CallCommon) instr {
	b := c.bindCall(cc)
	return func(fr *frame) {
		d := b(fr)
		if d.bi != nil {
			panic(unsupported("go with a builtin"))
		}
		fr.m.spawn(fr, d)
	}
}

// ---- maps

func (m *Machine) newMap() *MapObj {
	return &MapObj{idx: map[any]int{}, epoch: m.epoch}
}

func (m *Machine) mapFind(fr *frame, o *MapObj, k Value) int {
	if o == nil || o.n == 0 {
		return -1
	}
	hk, conc := m.hkey(fr, k)
	if conc {
		if ix, ok := o.idx[hk]; ok {
			return ix
		}
		if o.nsym == 0 {
			return -1
		}
	}
	for i := range o.ents {
		e := &o.ents[i]
		if e.deleted {
			continue
		}
		if conc {
			if _, c := hashKey(e.k); c {
				continue
			}
		}
		if m.decide(m.boolVal(m.eq(fr, e.k, k))) {
			return i
		}
	}
	return -1
}

func (m *Machine) hkey(fr *frame, k Value) (hk any, conc bool) {
	defer func() {
		if r := recover(); r != nil {
			if hp, ok := r.(hashPanic); ok {
				panic(m.rtErr(fr, "hash of unhashable type "+hp.t.str))
			}
			panic(r)
		}
	}()
	return hashKey(k)
}

func (m *Machine) mapGet(fr *frame, o *MapObj, k Value) (Value, bool) {
	if m.races != nil && o != nil {
		m.races.readObj(fr, o)
	}
	if i := m.mapFind(fr, o, k); i >= 0 {
		return o.ents[i].v, true
	}
	return nil, false
}

func (m *Machine) mapSet(fr *frame, o *MapObj, k, v Value) {
	if o == nil {
		panic(m.rtErrT(fr, "assignment to entry in nil map", true))
	}
	if m.races != nil {
		m.races.writeObj(fr, o)
	}
	i := m.mapFind(fr, o, k)
	m.touchMap(o)
	if i >= 0 {
		o.ents[i].v = v
		return
	}
	o.ents = append(o.ents, mapEntry{k: k, v: v})
	o.n++
	if hk, ok := m.hkey(fr, k); ok {
		o.idx[hk] = len(o.ents) - 1
	} else {
		o.nsym++
	}
}

func (m *Machine) mapDelete(fr *frame, o *MapObj, k Value) {
	if o == nil {
		return
	}
	if m.races != nil {
		m.races.writeObj(fr, o)
	}
	i := m.mapFind(fr, o, k)
	if i < 0 {
		return
	}
	m.touchMap(o)
	if hk, ok := hashKey(o.ents[i].k); ok {
		delete(o.idx, hk)
	} else {
		o.nsym--
	}
	o.ents[i] = mapEntry{deleted: true}
	o.n--
}

type mapIter struct {
	m *MapObj
	i int
	n int
}

type strIter struct {
	s Value
	i int
}

func (m *Machine) next(fr *frame, it Value) Value {
	switch it := it.(type) {
	case *mapIter:
		if it.m != nil {
			if m.races != nil {
				m.races.readObj(fr, it.m)
			}
			for it.i < len(it.m.ents) {
				e := it.m.ents[it.i]
				it.i++
				if !e.deleted {
					return Tuple{true, copyVal(e.k), copyVal(e.v)}
				}
			}
		}
		return Tuple{false, nil, nil}
	case *strIter:
		n := strLen(it.s)
		if it.i >= n {
			return Tuple{false, mkInt(0), mkInt(0)}
		}
		pos := it.i
		if s, ok := it.s.(string); ok {
			r, sz := utf8.DecodeRuneInString(s[pos:])
			it.i += sz
			return Tuple{true, mkInt(int64(pos)), mkInt(int64(r))}
		}
		r, sz := m.decodeRune(fr, it.s, pos)
		it.i += sz
		return Tuple{true, mkInt(int64(pos)), r}
	}
	panic(engineErr("next of %T", it))
}

// decodeRune decodes the rune at pos of a string with symbolic bytes.
func (m *Machine) decodeRune(fr *frame, s Value, pos int) (Value, int) {
	b := strAt(s, pos)
	if t, ok := b.(*Term); ok {
		if m.decide(m.boolVal(m.tc.Cmp(OpUlt, t, m.tc.BV(utf8.RuneSelf, 8)))) {
			return m.fromTerm(m.tc.Ext(t, 32, false), intInfo{32, true}), 1
		}
	} else if b.(int64) < utf8.RuneSelf {
		return b, 1
	}
	f := m.P.funcByName("unicode/utf8", "DecodeRuneInString")
	hi := min(strLen(s), pos+4)
	r := m.call(fr, m.fn(f), []Value{strSlice(s, pos, hi)}, nil).(Tuple)
	return r[0], int(m.concInt(r[1], intInfo{64, true}))
}

func (m *Machine) encodeRune(fr *frame, v Value, ii intInfo) Value {
	if n, ok := v.(int64); ok {
		if !ii.signed && uint64(n) > math.MaxInt32 || n > math.MaxInt32 || n < 0 {
			return string(utf8.RuneError)
		}
		return string(rune(n))
	}
	t := v.(*Term)
	if m.decide(m.boolVal(m.tc.Cmp(OpUlt, t, m.tc.BV(utf8.RuneSelf, t.w)))) {
		return mkStr([]Value{m.fromTerm(m.tc.Ext(t, 8, false), intInfo{8, false})})
	}
	f := m.P.funcByName("unicode/utf8", "AppendRune")
	r := m.fromTerm(m.tc.Ext(t, 32, ii.signed), intInfo{32, true})
	s := m.call(fr, m.fn(f), []Value{Slice(nil), r}, nil).(Slice)
	return mkStr(append([]Value(nil), s...))
}

// ---- equality

// eq compares two values of the same static type.
func (m *Machine) eq(fr *frame, a, b Value) *Term {
	tc := m.tc
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			return tc.Bool(x == y)
		}
		y := b.(*Term)
		return tc.Eq(tc.BV(uint64(x), y.w), y)
	case *Term:
		return tc.Eq(x, m.term(b, x.w))
	case bool:
		if y, ok := b.(bool); ok {
			return tc.Bool(x == y)
		}
		return tc.Eq(tc.Bool(x), b.(*Term))
	case string, *SStr:
		return m.strEq(a, b)
	case float64:
		return tc.Bool(x == b.(float64))
	case float32:
		return tc.Bool(x == b.(float32))
	case complex128:
		return tc.Bool(x == b.(complex128))
	case *Value:
		y, ok := b.(*Value)
		return tc.Bool(ok && x == y)
	case *MapObj:
		return tc.Bool(x == b.(*MapObj))
	case *Chan:
		return tc.Bool(x == b.(*Chan))
	case *RType:
		y, ok := b.(*RType)
		return tc.Bool(ok && x == y)
	case UPtr:
		y := b.(UPtr)
		return tc.Bool(x.v == y.v && x.p == y.p)
	case *Closure:
		y, _ := b.(*Closure)
		if x == nil || y == nil {
			return tc.Bool(x == y)
		}
		return tc.Bool(x == y)
	case Slice:
		y := b.(Slice)
		return tc.Bool(x == nil && y == nil)
	case Iface:
		y := b.(Iface)
		if x.t != y.t {
			return tc.False
		}
		if x.t == nil {
			return tc.True
		}
		if !comparable_(x.t.T) {
			panic(m.rtErr(fr, "comparing uncomparable type "+x.t.str))
		}
		return m.eq(fr, x.v, y.v)
	case Struct:
		y := b.(Struct)
		r := tc.True
		for i := range x {
			r = tc.And(r, m.eq(fr, x[i], y[i]))
			if r == tc.False {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := tc.True
		for i := range x {
			r = tc.And(r, m.eq(fr, x[i], y[i]))
			if r == tc.False {
				return r
			}
		}
		return r
	case *poison:
		panic(unsupported("use of uninitialised package variable %s", x.name))
	case nil:
		return tc.Bool(b == nil)
	}
	panic(engineErr("eq of %T", a))
}

func comparable_(t types.Type) bool { return types.Comparable(t) }

// ---- binary operations

func (c *compiler) binop(i *ssa.BinOp, dst int) instr {
	x, y := c.op(i.X), c.op(i.Y)
	switch i.Op {
	case token.EQL, token.NEQ:
		neg := i.Op == token.NEQ
		// a comparison of an interface with a concrete value
		_, xi := i.X.Type().Underlying().(*types.Interface)
		_, yi := i.Y.Type().Underlying().(*types.Interface)
		var wrapX, wrapY *RType
		if xi && !yi {
			wrapY = c.m.rtype(i.Y.Type())
		} else if yi && !xi {
			wrapX = c.m.rtype(i.X.Type())
		}
		return func(fr *frame) {
			a, b := x.get(fr), y.get(fr)
			if an, ok := a.(int64); ok {
				if bn, ok := b.(int64); ok {
					fr.regs[dst] = (an == bn) != neg
					return
				}
			}
			if wrapX != nil {
				a = Iface{wrapX, a}
			}
			if wrapY != nil {
				b = Iface{wrapY, b}
			}
			t := fr.m.eq(fr, a, b)
			if neg {
				t = fr.m.tc.Not(t)
			}
			fr.regs[dst] = fr.m.boolVal(t)
		}
	}
	if ii, ok := intOf(i.X.Type()); ok {
		return c.intBinop(i, x, y, ii, dst)
	}
	op := i.Op
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.regs[dst] = strCat(x.get(fr), y.get(fr)) }
		case token.LSS:
			return func(fr *frame) { fr.regs[dst] = fr.m.boolVal(fr.m.strLess(x.get(fr), y.get(fr))) }
		case token.GTR:
			return func(fr *frame) { fr.regs[dst] = fr.m.boolVal(fr.m.strLess(y.get(fr), x.get(fr))) }
		case token.LEQ:
			return func(fr *frame) {
				fr.regs[dst] = fr.m.boolVal(fr.m.tc.Not(fr.m.strLess(y.get(fr), x.get(fr))))
			}
		case token.GEQ:
			return func(fr *frame) {
				fr.regs[dst] = fr.m.boolVal(fr.m.tc.Not(fr.m.strLess(x.get(fr), y.get(fr))))
			}
		}
	}
	return func(fr *frame) { fr.regs[dst] = floatBin(op, x.get(fr), y.get(fr)) }
}

func floatBin(op token.Token, a, b Value) Value {
	switch x := a.(type) {
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.GTR:
			return x > y
		case token.LEQ:
			return x <= y
		case token.GEQ:
			return x >= y
		}
	case float32:
		y := b.(float32)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.GTR:
			return x > y
		case token.LEQ:
			return x <= y
		case token.GEQ:
			return x >= y
		}
	case complex128:
		y := b.(complex128)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	case bool:
		y := b.(bool)
		switch op {
		case token.AND, token.LAND:
			return x && y
		case token.OR, token.LOR:
			return x || y
		}
	}
	panic(unsupported("binary operation %v on %T", op, a))
}

func (c *compiler) intBinop(i *ssa.BinOp, x, y opnd, ii intInfo, dst int) instr {
	op := i.Op
	yii, _ := intOf(i.Y.Type())
	var conc func(a, b int64) Value
	switch op {
	case token.ADD:
		conc = func(a, b int64) Value { return mkInt(ii.norm(a + b)) }
	case token.SUB:
		conc = func(a, b int64) Value { return mkInt(ii.norm(a - b)) }
	case token.MUL:
		conc = func(a, b int64) Value { return mkInt(ii.norm(a * b)) }
	case token.QUO:
		conc = func(a, b int64) Value {
			if ii.signed {
				if b == -1 {
					return mkInt(ii.norm(-a))
				}
				return mkInt(ii.norm(a / b))
			}
			return mkInt(ii.norm(int64(uint64(a) / uint64(b))))
		}
	case token.REM:
		conc = func(a, b int64) Value {
			if ii.signed {
				if b == -1 {
					return mkInt(0)
				}
				return mkInt(ii.norm(a % b))
			}
			return mkInt(ii.norm(int64(uint64(a) % uint64(b))))
		}
	case token.AND:
		conc = func(a, b int64) Value { return mkInt(a & b) }
	case token.OR:
		conc = func(a, b int64) Value { return mkInt(a | b) }
	case token.XOR:
		conc = func(a, b int64) Value { return mkInt(ii.norm(a ^ b)) }
	case token.AND_NOT:
		conc = func(a, b int64) Value { return mkInt(a &^ b) }
	case token.SHL:
		conc = func(a, b int64) Value {
			if uint64(b) >= 64 {
				return mkInt(0)
			}
			return mkInt(ii.norm(a << uint(b)))
		}
	case token.SHR:
		conc = func(a, b int64) Value {
			if ii.signed {
				if uint64(b) >= 64 {
					b = 63
				}
				return mkInt(ii.norm(a >> uint(b)))
			}
			if uint64(b) >= 64 {
				return mkInt(0)
			}
			return mkInt(ii.norm(int64(uint64(a) >> uint(b))))
		}
	case token.LSS:
		conc = func(a, b int64) Value {
			if ii.signed {
				return a < b
			}
			return uint64(a) < uint64(b)
		}
	case token.LEQ:
		conc = func(a, b int64) Value {
			if ii.signed {
				return a <= b
			}
			return uint64(a) <= uint64(b)
		}
	case token.GTR:
		conc = func(a, b int64) Value {
			if ii.signed {
				return a > b
			}
			return uint64(a) > uint64(b)
		}
	case token.GEQ:
		conc = func(a, b int64) Value {
			if ii.signed {
				return a >= b
			}
			return uint64(a) >= uint64(b)
		}
	default:
		panic(engineErr("int binop %v", op))
	}
	div := op == token.QUO || op == token.REM
	shift := op == token.SHL || op == token.SHR
	return func(fr *frame) {
		a, b := x.get(fr), y.get(fr)
		if an, ok := a.(int64); ok {
			if bn, ok := b.(int64); ok {
				if div && bn == 0 {
					panic(fr.m.rtErr(fr, "integer divide by zero"))
				}
				if shift && yii.signed && bn < 0 {
					panic(fr.m.rtErr(fr, "negative shift amount"))
				}
				fr.regs[dst] = conc(an, bn)
				return
			}
		}
		fr.regs[dst] = fr.m.symBinop(fr, op, a, b, ii, yii)
	}
}

func (m *Machine) symBinop(fr *frame, op token.Token, a, b Value, ii, yii intInfo) Value {
	tc := m.tc
	x := m.term(a, ii.w)
	if op == token.SHL || op == token.SHR {
		var n *Term
		if t, ok := b.(*Term); ok {
			if yii.signed && m.decide(m.boolVal(tc.Cmp(OpSlt, t, tc.BV(0, t.w)))) {
				panic(m.rtErr(fr, "negative shift amount"))
			}
			if t.w > ii.w {
				if !m.decide(m.boolVal(tc.Cmp(OpUlt, t, tc.BV(uint64(ii.w), t.w)))) {
					n = tc.BV(uint64(ii.w), ii.w)
				} else {
					n = tc.Ext(t, ii.w, false)
				}
			} else {
				n = tc.Ext(t, ii.w, false)
			}
		} else {
			bn := b.(int64)
			if yii.signed && bn < 0 {
				panic(m.rtErr(fr, "negative shift amount"))
			}
			if uint64(bn) > uint64(ii.w) {
				bn = int64(ii.w)
			}
			n = tc.BV(uint64(bn), ii.w)
		}
		switch {
		case op == token.SHL:
			return m.fromTerm(tc.Bin(OpShl, x, n), ii)
		case ii.signed:
			return m.fromTerm(tc.Bin(OpAShr, x, n), ii)
		default:
			return m.fromTerm(tc.Bin(OpLShr, x, n), ii)
		}
	}
	y := m.term(b, ii.w)
	switch op {
	case token.ADD:
		return m.fromTerm(tc.Bin(OpAdd, x, y), ii)
	case token.SUB:
		return m.fromTerm(tc.Bin(OpSub, x, y), ii)
	case token.MUL:
		return m.fromTerm(tc.Bin(OpMul, x, y), ii)
	case token.QUO, token.REM:
		if m.decide(m.boolVal(tc.Eq(y, tc.BV(0, ii.w)))) {
			panic(m.rtErr(fr, "integer divide by zero"))
		}
		o := OpUDiv
		switch {
		case op == token.QUO && ii.signed:
			o = OpSDiv
		case op == token.REM && ii.signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		if ii.signed && x.hi <= mask(ii.w)>>1 && y.hi <= mask(ii.w)>>1 {
			if o == OpSDiv {
				o = OpUDiv
			} else {
				o = OpURem
			}
		}
		return m.fromTerm(tc.Bin(o, x, y), ii)
	case token.AND:
		return m.fromTerm(tc.Bin(OpBAnd, x, y), ii)
	case token.OR:
		return m.fromTerm(tc.Bin(OpBOr, x, y), ii)
	case token.XOR:
		return m.fromTerm(tc.Bin(OpBXor, x, y), ii)
	case token.AND_NOT:
		return m.fromTerm(tc.Bin(OpBAnd, x, tc.Bin(OpBXor, y, tc.BV(^uint64(0), ii.w))), ii)
	}
	lt, le := OpUlt, OpUle
	if ii.signed {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.LSS:
		return m.boolVal(tc.Cmp(lt, x, y))
	case token.LEQ:
		return m.boolVal(tc.Cmp(le, x, y))
	case token.GTR:
		return m.boolVal(tc.Cmp(lt, y, x))
	case token.GEQ:
		return m.boolVal(tc.Cmp(le, y, x))
	}
	panic(engineErr("symbolic binop %v", op))
}

// ---- conversions

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int) instr {
	x := c.op(xv)
	f := c.m.convFn(xv.Type(), to)
	return func(fr *frame) { fr.regs[dst] = f(fr, x.get(fr)) }
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func (m *Machine) convFn(from, to types.Type) func(fr *frame, v Value) Value {
	if tp, ok := from.Underlying().(*types.Interface); ok && tp.IsMethodSet() == false {
		panic(engineErr("conversion from %v", from))
	}
	fb, tb := basicOf(from), basicOf(to)
	toSlice, _ := to.Underlying().(*types.Slice)
	fromSlice, _ := from.Underlying().(*types.Slice)
	fii, fInt := intOf(from)
	tii, tInt := intOf(to)
	switch {
	case tb != nil && tb.Kind() == types.UnsafePointer:
		return func(fr *frame, v Value) Value {
			if u, ok := v.(UPtr); ok {
				return u
			}
			if p, ok := v.(*Value); ok && p == nil {
				return UPtr{}
			}
			return UPtr{v: v}
		}
	case fb != nil && fb.Kind() == types.UnsafePointer:
		if tInt {
			return func(fr *frame, v Value) Value { panic(unsupported("unsafe.Pointer to integer")) }
		}
		return func(fr *frame, v Value) Value {
			u, ok := v.(UPtr)
			if !ok {
				panic(engineErr("unsafe conversion of %T", v))
			}
			if u.v == nil {
				if u.p != nil {
					return u.p
				}
				return (*Value)(nil)
			}
			return u.v
		}
	case fInt && tInt:
		return func(fr *frame, v Value) Value {
			switch v := v.(type) {
			case int64:
				return mkInt(tii.norm(v))
			case *Term:
				return fr.m.fromTerm(fr.m.tc.Ext(v, tii.w, fii.signed), tii)
			}
			panic(engineErr("integer conversion of %T", v))
		}
	case fInt && tb != nil && tb.Info()&types.IsString != 0:
		return func(fr *frame, v Value) Value { return fr.m.encodeRune(fr, v, fii) }
	case fInt && tb != nil && tb.Info()&types.IsFloat != 0:
		f32 := tb.Kind() == types.Float32
		return func(fr *frame, v Value) Value {
			n := fr.m.concInt(v, fii)
			var f float64
			if fii.signed {
				if f32 {
					return float32(n)
				}
				f = float64(n)
			} else {
				if f32 {
					return float32(uint64(n))
				}
				f = float64(uint64(n))
			}
			return f
		}
	case fb != nil && fb.Info()&types.IsFloat != 0 && tInt:
		return func(fr *frame, v Value) Value {
			f, ok := v.(float64)
			if !ok {
				f = float64(v.(float32))
			}
			if tii.signed {
				return mkInt(tii.norm(int64(f)))
			}
			return mkInt(tii.norm(int64(uint64(f))))
		}
	case fb != nil && fb.Info()&types.IsFloat != 0 && tb != nil && tb.Info()&types.IsFloat != 0:
		f32 := tb.Kind() == types.Float32
		return func(fr *frame, v Value) Value {
			f, ok := v.(float64)
			if !ok {
				f = float64(v.(float32))
			}
			if f32 {
				return float32(f)
			}
			return f
		}
	case fb != nil && fb.Info()&types.IsString != 0 && toSlice != nil:
		if eb := basicOf(toSlice.Elem()); eb != nil && eb.Kind() == types.Uint8 {
			return func(fr *frame, v Value) Value {
				n := strLen(v)
				s := make(Slice, n, max(n, roundupsize(uint64(n))))
				copy(s, strBytes(v))
				fillZero(s[n:cap(s)], mkInt(0))
				return s
			}
		}
		return func(fr *frame, v Value) Value {
			var s Slice
			if h, ok := v.(string); ok {
				for _, r := range h {
					s = append(s, mkInt(int64(r)))
				}
			} else {
				for i := 0; i < strLen(v); {
					r, sz := fr.m.decodeRune(fr, v, i)
					s = append(s, r)
					i += sz
				}
			}
			if s == nil {
				s = Slice{}
			}
			return s[:len(s):len(s)]
		}
	case fromSlice != nil && tb != nil && tb.Info()&types.IsString != 0:
		eii, _ := intOf(fromSlice.Elem())
		if eii.w == 8 {
			return func(fr *frame, v Value) Value {
				return mkStr(append([]Value(nil), v.(Slice)...))
			}
		}
		return func(fr *frame, v Value) Value {
			var r Value = ""
			for _, e := range v.(Slice) {
				r = strCat(r, fr.m.encodeRune(fr, e, eii))
			}
			return r
		}
	case fb != nil && fb.Info()&types.IsComplex != 0:
		return func(fr *frame, v Value) Value { return v }
	}
	return func(fr *frame, v Value) Value { return v }
}

// ---- builtins

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n uint64) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if uint64(c) >= n {
				return c
			}
		}
	}
	return int((n + 8191) / 8192 * 8192)
}

func growCap(newLen, oldCap int, esz int64) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = doublecap
		} else {
			for newcap < newLen {
				newcap += (newcap + 3*threshold) / 4
			}
		}
	}
	if esz == 0 {
		return newLen
	}
	return int(int64(roundupsize(uint64(newcap)*uint64(esz))) / esz)
}

var sizes = types.SizesFor("gc", "amd64")

func (m *Machine) appendSlice(fr *frame, s Slice, more []Value, et types.Type) Slice {
	if len(more) == 0 {
		return s
	}
	n := len(s) + len(more)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range more {
			p := &r[len(s)+i]
			if m.races != nil {
				m.races.write(fr, p)
			}
			m.set(p, copyVal(v))
		}
		return r
	}
	r := make(Slice, n, max(growCap(n, cap(s), sizes.Sizeof(et)), n))
	for i, v := range s {
		if m.races != nil {
			m.races.read(fr, &s[i])
		}
		r[i] = copyVal(v)
	}
	for i, v := range more {
		r[len(s)+i] = copyVal(v)
	}
	if cap(r) > n {
		fillZero(r[n:cap(r)], m.zero(et))
	}
	return r
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string:
			return mkInt(int64(len(v)))
		case *SStr:
			return mkInt(int64(len(v.b)))
		case Slice:
			return mkInt(int64(len(v)))
		case Array:
			return mkInt(int64(len(v)))
		case *MapObj:
			if v == nil {
				return mkInt(0)
			}
			if m.races != nil {
				m.races.readObj(fr, v)
			}
			return mkInt(int64(v.n))
		case *Chan:
			if v == nil {
				return mkInt(0)
			}
			return mkInt(int64(len(v.buf)))
		case *Value:
			return mkInt(int64(len((*v).(Array))))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return mkInt(int64(cap(v)))
		case Array:
			return mkInt(int64(len(v)))
		case *Chan:
			return mkInt(int64(v.cap))
		}
	case "append":
		st := cc.Args[0].Type().Underlying()
		var et types.Type
		if sl, ok := st.(*types.Slice); ok {
			et = sl.Elem()
		} else {
			et = cc.Signature().Results().At(0).Type().Underlying().(*types.Slice).Elem()
		}
		s := args[0].(Slice)
		switch x := args[1].(type) {
		case Slice:
			if m.races != nil {
				for i := range x {
					m.races.read(fr, &x[i])
				}
			}
			return m.appendSlice(fr, s, x, et)
		default:
			return m.appendSlice(fr, s, strBytes(x), et)
		}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch x := args[1].(type) {
		case Slice:
			src = x
		default:
			src = strBytes(x)
		}
		n := min(len(d), len(src))
		if n > 0 {
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				if m.races != nil {
					m.races.write(fr, &d[i])
				}
				m.store(&d[i], tmp[i])
			}
		}
		return mkInt(int64(n))
	case "delete":
		m.mapDelete(fr, args[0].(*MapObj), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				m.touchMap(x)
				x.ents, x.idx, x.n, x.nsym = nil, map[any]int{}, 0, 0
			}
		case Slice:
			z := m.zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x {
				m.store(&x[i], z)
			}
		}
		return nil
	case "close":
		m.chanClose(fr, args[0].(*Chan))
		return nil
	case "panic":
		panic(m.newPanic(fr, args[0]))
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = m.minmax(fr, b.Name() == "min", r, a, cc.Args[0].Type())
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			panic(m.rtErr(fr, fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2])))
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(m.concInt(args[1], intInfo{64, true}))
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case UPtr:
			if p.s != nil {
				return strSlice(p.s, 0, n)
			}
			return mkStr(append([]Value(nil), p.sl[:n]...))
		case *Value:
			if n == 1 {
				return mkStr([]Value{*p})
			}
		}
		panic(unsupported("unsafe.String"))
	case "SliceData":
		return UPtr{sl: args[0].(Slice)}
	case "StringData":
		return UPtr{s: args[0]}
	case "Slice": // unsafe.Slice
		n := int(m.concInt(args[1], intInfo{64, true}))
		if p, ok := args[0].(UPtr); ok {
			if p.s != nil {
				return Slice(strBytes(p.s))[:n:n]
			}
			return p.sl[:n]
		}
		panic(unsupported("unsafe.Slice"))
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	}
	panic(unsupported("builtin %s(%T) in %s", b.Name(), args[0], fr.fn.name))
}

func (m *Machine) minmax(fr *frame, isMin bool, a, b Value, t types.Type) Value {
	if ii, ok := intOf(t); ok {
		if x, ok := a.(int64); ok {
			if y, ok := b.(int64); ok {
				lt := x < y
				if !ii.signed {
					lt = uint64(x) < uint64(y)
				}
				if lt == isMin {
					return a
				}
				return b
			}
		}
		op := OpUlt
		if ii.signed {
			op = OpSlt
		}
		x, y := m.term(a, ii.w), m.term(b, ii.w)
		c := m.tc.Cmp(op, x, y)
		if isMin {
			return m.fromTerm(m.tc.Ite(c, x, y), ii)
		}
		return m.fromTerm(m.tc.Ite(c, y, x), ii)
	}
	if x, ok := a.(float64); ok {
		if isMin {
			return math.Min(x, b.(float64))
		}
		return math.Max(x, b.(float64))
	}
	if m.decide(m.boolVal(m.strLess(a, b))) == isMin {
		return a
	}
	return b
}

func (fr *frame) doRecover() Value {
	d := fr.deferOf
	if d == nil || d.panicking == nil {
		return Iface{}
	}
	v := d.panicking.v
	d.panicking = nil
	return v
}
