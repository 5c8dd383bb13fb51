package gosym

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// opnd is a compiled operand: a register or a constant.
type opnd struct {
	reg int
	c   Value
}

func (o *opnd) get(fr *frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

type compiler struct {
	m    *Machine
	f    *Func
	regs map[ssa.Value]int
}

func (m *Machine) compile(f *Func) {
	f.compiled = true
	fn := f.fn
	if fn.Blocks == nil {
		f.noBody = true
		return
	}
	c := &compiler{m: m, f: f, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.regs[p] = f.nregs
		f.nregs++
	}
	f.params = f.nregs
	for _, p := range fn.FreeVars {
		c.regs[p] = f.nregs
		f.nregs++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.regs[v] = f.nregs
				f.nregs++
			}
			if _, ok := i.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		f.recoverB = fn.Recover.Index
	}
	f.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		c.block(&f.blocks[i], b)
	}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.m.constant(v)}
	case *ssa.Function:
		return opnd{-1, c.m.closureOf(v)}
	case *ssa.Global:
		return opnd{-1, c.m.global(v)}
	case *ssa.Builtin:
		return opnd{-1, v}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(engineErr("no register for %s in %s", v.Name(), c.f.name))
	}
	return opnd{r, nil}
}

func (m *Machine) constant(c *ssa.Const) Value {
	if v, ok := m.consts[c]; ok {
		return v
	}
	v := m.constVal(c)
	m.consts[c] = v
	return v
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(engineErr("constant of type %v", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		ii, _ := intOf(b)
		if i, exact := constant.Int64Val(constant.ToInt(c.Value)); exact {
			return mkInt(ii.norm(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return mkInt(int64(u))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Kind() == types.Float32:
		f, _ := constant.Float32Val(c.Value)
		return f
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic(engineErr("constant %v", c))
}

func predIndex(to, from *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("no predecessor edge")
}

// edge compiles the phi moves of the edge from -> to.
func (c *compiler) edge(from, to *ssa.BasicBlock, nth int) func(fr *frame) int {
	pi := predIndex(to, from, nth)
	type mv struct {
		dst int
		src opnd
	}
	var mvs []mv
	for _, i := range to.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		mvs = append(mvs, mv{c.regs[phi], c.op(phi.Edges[pi])})
	}
	idx := to.Index
	switch len(mvs) {
	case 0:
		return func(fr *frame) int { return idx }
	case 1:
		d, s := mvs[0].dst, mvs[0].src
		return func(fr *frame) int {
			fr.regs[d] = s.get(fr)
			return idx
		}
	}
	return func(fr *frame) int {
		var buf [16]Value
		tmp := buf[:0]
		for i := range mvs {
			tmp = append(tmp, mvs[i].src.get(fr))
		}
		for i := range mvs {
			fr.regs[mvs[i].dst] = tmp[i]
		}
		return idx
	}
}

func (c *compiler) block(cb *cblock, b *ssa.BasicBlock) {
	for _, i := range b.Instrs {
		switch i := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			cb.term = c.edge(b, b.Succs[0], 0)
		case *ssa.If:
			cond := c.op(i.Cond)
			nth := 0
			if b.Succs[0] == b.Succs[1] {
				nth = 1
			}
			t, f := c.edge(b, b.Succs[0], 0), c.edge(b, b.Succs[1], nth)
			cb.term = func(fr *frame) int {
				v := cond.get(fr)
				var d bool
				if bv, ok := v.(bool); ok {
					d = bv
				} else {
					d = fr.m.decide(v)
				}
				if d {
					return t(fr)
				}
				return f(fr)
			}
		case *ssa.Return:
			switch len(i.Results) {
			case 0:
				cb.term = func(fr *frame) int { fr.result = nil; return -1 }
			case 1:
				r := c.op(i.Results[0])
				cb.term = func(fr *frame) int { fr.result = r.get(fr); return -1 }
			default:
				rs := c.ops(i.Results)
				cb.term = func(fr *frame) int {
					t := make(Tuple, len(rs))
					for i := range rs {
						t[i] = rs[i].get(fr)
					}
					fr.result = t
					return -1
				}
			}
		case *ssa.Panic:
			x := c.op(i.X)
			cb.term = func(fr *frame) int {
				panic(fr.m.newPanic(fr, x.get(fr)))
			}
		default:
			cb.ins = append(cb.ins, c.instr(i))
		}
	}
	cb.n = len(b.Instrs)
	if cb.term == nil {
		cb.term = func(fr *frame) int { panic(engineErr("block without terminator in %s", fr.fn.name)) }
	}
}

func (c *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *compiler) optOp(v ssa.Value) *opnd {
	if v == nil {
		return nil
	}
	o := c.op(v)
	return &o
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(engineErr("deref of %v", t))
}

func (c *compiler) instr(in ssa.Instruction) instr {
	m := c.m
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch i := in.(type) {
	case *ssa.Alloc:
		et := deref(i.Type())
		z := m.zero(et)
		switch z.(type) {
		case Struct, Array:
			return func(fr *frame) {
				v := copyVal(z)
				fr.regs[dst] = &v
			}
		}
		return func(fr *frame) {
			v := new(Value)
			*v = z
			fr.regs[dst] = v
		}
	case *ssa.BinOp:
		return c.binop(i, dst)
	case *ssa.UnOp:
		return c.unop(i, dst)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		x := c.op(*in.Operands(nil)[0])
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		return c.convert(i.X, i.Type(), dst)
	case *ssa.MultiConvert:
		return c.convert(i.X, i.Type(), dst)
	case *ssa.SliceToArrayPointer:
		x := c.op(i.X)
		n := int(deref(i.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := x.get(fr).(Slice)
			if len(s) < n {
				panic(fr.m.rtErr(fr, "cannot convert slice to array pointer"))
			}
			v := Value(Array(s[:n:n]))
			fr.regs[dst] = &v
		}
	case *ssa.MakeInterface:
		x := c.op(i.X)
		rt := m.rtype(i.X.Type())
		if x.reg < 0 {
			v := Value(Iface{rt, x.c})
			if _, isG := x.c.(*Value); !isG {
				return func(fr *frame) { fr.regs[dst] = v }
			}
		}
		return func(fr *frame) {
			fr.regs[dst] = Iface{rt, copyVal(x.get(fr))}
		}
	case *ssa.Extract:
		x := c.op(i.Tuple)
		ix := i.Index
		return func(fr *frame) { fr.regs[dst] = x.get(fr).(Tuple)[ix] }
	case *ssa.Field:
		x := c.op(i.X)
		ix := i.Field
		return func(fr *frame) { fr.regs[dst] = copyVal(x.get(fr).(Struct)[ix]) }
	case *ssa.FieldAddr:
		x := c.op(i.X)
		ix := i.Field
		return func(fr *frame) {
			p, ok := x.get(fr).(*Value)
			if !ok {
				panic(engineErr("field address of %T in %s", x.get(fr), fr.fn.name))
			}
			if p == nil {
				panic(fr.m.nilDeref(fr))
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(badCell(*p, fr))
			}
			fr.regs[dst] = &s[ix]
		}
	case *ssa.Index:
		return c.index(i, dst)
	case *ssa.IndexAddr:
		return c.indexAddr(i, dst)
	case *ssa.Lookup:
		return c.lookup(i, dst)
	case *ssa.MakeMap:
		return func(fr *frame) { fr.regs[dst] = fr.m.newMap() }
	case *ssa.MapUpdate:
		mp, k, v := c.op(i.Map), c.op(i.Key), c.op(i.Value)
		return func(fr *frame) {
			fr.m.mapSet(fr, mp.get(fr).(*MapObj), copyVal(k.get(fr)), copyVal(v.get(fr)))
		}
	case *ssa.MakeSlice:
		ln, cp := c.op(i.Len), c.op(i.Cap)
		et := i.Type().Underlying().(*types.Slice).Elem()
		z := m.zero(et)
		lii, _ := intOf(i.Len.Type())
		cii, _ := intOf(i.Cap.Type())
		return func(fr *frame) {
			n := fr.m.concInt(ln.get(fr), lii)
			k := fr.m.concInt(cp.get(fr), cii)
			if n < 0 || n > 1<<24 {
				panic(fr.m.rtErr(fr, "makeslice: len out of range"))
			}
			if k < n || k > 1<<24 {
				panic(fr.m.rtErr(fr, "makeslice: cap out of range"))
			}
			s := make(Slice, k)
			fillZero(s, z)
			fr.regs[dst] = s[:n]
		}
	case *ssa.MakeClosure:
		f := m.fn(i.Fn.(*ssa.Function))
		bs := c.ops(i.Bindings)
		return func(fr *frame) {
			free := make([]Value, len(bs))
			for i := range bs {
				free[i] = bs[i].get(fr)
			}
			fr.regs[dst] = &Closure{fn: f, free: free}
		}
	case *ssa.MakeChan:
		sz := c.op(i.Size)
		ii, _ := intOf(i.Size.Type())
		et := i.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			n := fr.m.concInt(sz.get(fr), ii)
			fr.regs[dst] = fr.m.newChan(int(n), fr.m.zero(et))
		}
	case *ssa.Slice:
		return c.slice(i, dst)
	case *ssa.Store:
		a, v := c.op(i.Addr), c.op(i.Val)
		return func(fr *frame) {
			switch p := a.get(fr).(type) {
			case *Value:
				if p == nil {
					panic(fr.m.nilDeref(fr))
				}
				if fr.m.races != nil {
					fr.m.races.write(fr, p)
				}
				fr.m.store(p, v.get(fr))
			case *SymPtr:
				fr.m.store(fr.m.concPtr(p), v.get(fr))
			default:
				panic(engineErr("store to %T", p))
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(i, dst)
	case *ssa.Range:
		x := c.op(i.X)
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case *MapObj:
				it := &mapIter{m: v}
				if v != nil {
					it.n = len(v.ents)
				}
				fr.regs[dst] = it
			default:
				fr.regs[dst] = &strIter{s: v}
			}
		}
	case *ssa.Next:
		it := c.op(i.Iter)
		return func(fr *frame) { fr.regs[dst] = fr.m.next(fr, it.get(fr)) }
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.runDefers()
			if fr.panicking != nil {
				tp := fr.panicking
				fr.panicking = nil
				panic(tp)
			}
		}
	case *ssa.Call:
		return c.call(&i.Call, dst)
	case *ssa.Go:
		return c.goStmt(&i.Call)
	case *ssa.Defer:
		return c.deferStmt(&i.Call)
	case *ssa.Send:
		ch, x := c.op(i.Chan), c.op(i.X)
		return func(fr *frame) { fr.m.chanSend(fr, ch.get(fr).(*Chan), x.get(fr)) }
	case *ssa.Select:
		return c.selectStmt(i, dst)
	}
	return func(fr *frame) { panic(unsupported("instruction %T", in)) }
}

func badCell(v Value, fr *frame) abortPath {
	if p, ok := v.(*poison); ok {
		return unsupported("use of uninitialised package variable %s in %s", p.name, fr.fn.name)
	}
	return engineErr("unexpected cell content %T in %s", v, fr.fn.name)
}

func fillZero(s Slice, z Value) {
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = copyVal(z)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

func (c *compiler) unop(i *ssa.UnOp, dst int) instr {
	x := c.op(i.X)
	switch i.Op {
	case token.MUL:
		isStr := false
		if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			isStr = true
		}
		return func(fr *frame) {
			switch p := x.get(fr).(type) {
			case *Value:
				if p == nil {
					panic(fr.m.nilDeref(fr))
				}
				if fr.m.races != nil {
					fr.m.races.read(fr, p)
				}
				switch v := (*p).(type) {
				case Struct, Array:
					fr.regs[dst] = copyVal(v)
				case *poison:
					panic(unsupported("use of uninitialised package variable %s in %s", v.name, fr.fn.name))
				case Slice:
					if isStr {
						fr.regs[dst] = mkStr(append([]Value(nil), v...))
						return
					}
					fr.regs[dst] = v
				default:
					fr.regs[dst] = v
				}
			case *SymPtr:
				fr.regs[dst] = fr.m.loadSym(p)
			default:
				panic(engineErr("load through %T in %s", p, fr.fn.name))
			}
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case bool:
				fr.regs[dst] = !v
			case *Term:
				fr.regs[dst] = fr.m.boolVal(fr.m.tc.Not(v))
			}
		}
	case token.SUB:
		if ii, ok := intOf(i.Type()); ok {
			return func(fr *frame) {
				switch v := x.get(fr).(type) {
				case int64:
					fr.regs[dst] = mkInt(ii.norm(-v))
				case *Term:
					fr.regs[dst] = fr.m.fromTerm(fr.m.tc.Bin(OpSub, fr.m.tc.BV(0, ii.w), v), ii)
				}
			}
		}
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case float64:
				fr.regs[dst] = -v
			case float32:
				fr.regs[dst] = -v
			case complex128:
				fr.regs[dst] = -v
			}
		}
	case token.XOR:
		ii, _ := intOf(i.Type())
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case int64:
				fr.regs[dst] = mkInt(ii.norm(^v))
			case *Term:
				fr.regs[dst] = fr.m.fromTerm(fr.m.tc.Bin(OpBXor, v, fr.m.tc.BV(^uint64(0), ii.w)), ii)
			}
		}
	case token.ARROW:
		ok := i.CommaOk
		return func(fr *frame) {
			v, o := fr.m.chanRecv(fr, x.get(fr).(*Chan))
			if ok {
				fr.regs[dst] = Tuple{v, o}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic(engineErr("unop %v", i.Op))
}

func (c *compiler) index(i *ssa.Index, dst int) instr {
	x, ix := c.op(i.X), c.op(i.Index)
	ii, _ := intOf(i.Index.Type())
	eii, _ := intOf(i.Type())
	return func(fr *frame) {
		switch v := x.get(fr).(type) {
		case Array:
			fr.regs[dst] = fr.m.indexRead(fr, v, ix.get(fr), ii, eii)
		default:
			if s, ok := v.(string); ok {
				if n, ok := ix.get(fr).(int64); ok {
					if uint64(n) >= uint64(len(s)) {
						panic(fr.m.oob(fr, n, len(s)))
					}
					fr.regs[dst] = mkInt(int64(s[n]))
					return
				}
			}
			fr.regs[dst] = fr.m.strIndex(fr, v, ix.get(fr), ii)
		}
	}
}

func (m *Machine) strIndex(fr *frame, s Value, ix Value, ii intInfo) Value {
	if n, ok := ix.(int64); ok {
		if n < 0 || n >= int64(strLen(s)) {
			panic(m.oob(fr, n, strLen(s)))
		}
		return strAt(s, int(n))
	}
	return m.indexRead(fr, strBytes(s), ix, ii, intInfo{8, false})
}

func (m *Machine) checkIdx(fr *frame, ix Value, n int, ii intInfo) {
	switch v := ix.(type) {
	case int64:
		if uint64(v) >= uint64(n) {
			panic(m.oob(fr, v, n))
		}
	case *Term:
		w := m.tc.Ext(v, 64, ii.signed)
		if !m.decide(m.boolVal(m.tc.Cmp(OpUlt, w, m.tc.BV(uint64(n), 64)))) {
			panic(m.rtErr(fr, "index out of range"))
		}
	}
}

func (m *Machine) indexRead(fr *frame, cells []Value, ix Value, ii, eii intInfo) Value {
	m.checkIdx(fr, ix, len(cells), ii)
	if n, ok := ix.(int64); ok {
		return copyVal(cells[n])
	}
	return m.loadSym(&SymPtr{cells, ix.(*Term), eii})
}

func (m *Machine) concPtr(p *SymPtr) *Value {
	n := m.concInt(p.idx, intInfo{p.idx.w, false})
	return &p.cells[n]
}

// loadSym reads cells[idx] as an if-then-else over the distinct values.
func (m *Machine) loadSym(p *SymPtr) Value {
	scalar := true
	isBool := false
	var w uint8
	for _, e := range p.cells {
		switch e := e.(type) {
		case int64:
		case bool:
			isBool = true
		case *Term:
			if e.w == 0 {
				isBool = true
			}
		default:
			scalar = false
		}
	}
	if !scalar || len(p.cells) > 1024 {
		return copyVal(*m.concPtr(p))
	}
	lo, hi := p.idx.lo, p.idx.hi
	if hi >= uint64(len(p.cells)) {
		hi = uint64(len(p.cells)) - 1
	}
	if isBool {
		r := m.tc.False
		for i := lo; i <= hi; i++ {
			r = m.tc.Or(r, m.tc.And(m.tc.Eq(p.idx, m.tc.BV(i, p.idx.w)), m.term(p.cells[i], 0)))
		}
		return m.boolVal(r)
	}
	w = p.ii.w
	if w == 0 {
		return copyVal(*m.concPtr(p))
	}
	r := m.term(p.cells[hi], w)
	for i := int64(hi) - 1; i >= int64(lo); i-- {
		r = m.tc.Ite(m.tc.Eq(p.idx, m.tc.BV(uint64(i), p.idx.w)), m.term(p.cells[i], w), r)
	}
	return m.fromTerm(r, p.ii)
}

func (c *compiler) indexAddr(i *ssa.IndexAddr, dst int) instr {
	x, ix := c.op(i.X), c.op(i.Index)
	eii, _ := intOf(deref(i.Type()))
	ii, _ := intOf(i.Index.Type())
	return func(fr *frame) {
		var cells []Value
		switch v := x.get(fr).(type) {
		case Slice:
			cells = v
		case *Value:
			if v == nil {
				panic(fr.m.nilDeref(fr))
			}
			a, ok := (*v).(Array)
			if !ok {
				panic(badCell(*v, fr))
			}
			cells = a
		default:
			panic(engineErr("index address of %T in %s", v, fr.fn.name))
		}
		iv := ix.get(fr)
		if n, ok := iv.(int64); ok {
			if uint64(n) >= uint64(len(cells)) {
				panic(fr.m.oob(fr, n, len(cells)))
			}
			fr.regs[dst] = &cells[n]
			return
		}
		fr.m.checkIdx(fr, iv, len(cells), ii)
		fr.regs[dst] = &SymPtr{cells, iv.(*Term), eii}
	}
}

func (c *compiler) slice(i *ssa.Slice, dst int) instr {
	x := c.op(i.X)
	lo, hi, mx := c.optOp(i.Low), c.optOp(i.High), c.optOp(i.Max)
	ty := func(v ssa.Value) intInfo {
		if v == nil {
			return intInfo{}
		}
		ii, _ := intOf(v.Type())
		return ii
	}
	lii, hii, mii := ty(i.Low), ty(i.High), ty(i.Max)
	return func(fr *frame) {
		m := fr.m
		xv := x.get(fr)
		l := int64(0)
		if lo != nil {
			l = m.concInt(lo.get(fr), lii)
		}
		var h, k int64 = -1, -1
		if hi != nil {
			h = m.concInt(hi.get(fr), hii)
		}
		if mx != nil {
			k = m.concInt(mx.get(fr), mii)
		}
		switch v := xv.(type) {
		case string, *SStr:
			n := int64(strLen(v))
			if hi == nil {
				h = n
			}
			if h < 0 || h > n {
				panic(m.rtErr(fr, "slice bounds out of range"))
			}
			if l < 0 || l > h {
				panic(m.rtErr(fr, "slice bounds out of range"))
			}
			fr.regs[dst] = strSlice(v, int(l), int(h))
			return
		case Slice:
			fr.regs[dst] = m.doSlice(fr, v, l, h, k, hi != nil, mx != nil)
			return
		case *Value:
			if v == nil {
				panic(m.nilDeref(fr))
			}
			a, ok := (*v).(Array)
			if !ok {
				panic(badCell(*v, fr))
			}
			fr.regs[dst] = m.doSlice(fr, Slice(a), l, h, k, hi != nil, mx != nil)
			return
		}
		panic(engineErr("slice of %T", xv))
	}
}

func (m *Machine) doSlice(fr *frame, v Slice, l, h, k int64, hasH, hasK bool) Slice {
	if !hasH {
		h = int64(len(v))
	}
	if !hasK {
		k = int64(cap(v))
	}
	if k < 0 || k > int64(cap(v)) || h < 0 || h > k || l < 0 || l > h {
		panic(m.rtErr(fr, "slice bounds out of range"))
	}
	if v == nil {
		return nil
	}
	return v[l:h:k]
}

func (c *compiler) lookup(i *ssa.Lookup, dst int) instr {
	x, ix := c.op(i.X), c.op(i.Index)
	if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
		z := c.m.zero(mt.Elem())
		ok := i.CommaOk
		return func(fr *frame) {
			v, found := fr.m.mapGet(fr, x.get(fr).(*MapObj), ix.get(fr))
			if !found {
				v = z
			}
			v = copyVal(v)
			if ok {
				fr.regs[dst] = Tuple{v, found}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	ii, _ := intOf(i.Index.Type())
	return func(fr *frame) {
		fr.regs[dst] = fr.m.strIndex(fr, x.get(fr), ix.get(fr), ii)
	}
}

func (c *compiler) typeAssert(i *ssa.TypeAssert, dst int) instr {
	m := c.m
	x := c.op(i.X)
	rt := m.rtype(i.AssertedType)
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	z := m.zero(i.AssertedType)
	ok := i.CommaOk
	return func(fr *frame) {
		v, isI := x.get(fr).(Iface)
		if !isI {
			panic(engineErr("type assertion on %T in %s", x.get(fr), fr.fn.name))
		}
		match := false
		if v.t != nil {
			if toIface {
				match = fr.m.implements(v.t, rt)
			} else {
				match = v.t == rt
			}
		}
		var r Value = z
		if match {
			if toIface {
				r = v
			} else {
				r = copyVal(v.v)
			}
		}
		if ok {
			fr.regs[dst] = Tuple{r, match}
			return
		}
		if !match {
			dyn := "nil"
			if v.t != nil {
				dyn = v.t.str
			}
			panic(fr.m.rtErrT(fr, "interface conversion: interface is "+dyn+", not "+rt.str, true))
		}
		fr.regs[dst] = r
	}
}
