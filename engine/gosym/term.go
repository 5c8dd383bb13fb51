package gosym

import (
	"fmt"
	"strconv"
	"strings"
)

// Op is the operator of a Term.
type Op uint8

const (
	OpConst Op = iota // bit vector constant (val) or boolean constant (val 0/1, w 0)
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpZExt
	OpSExt
	OpTrunc // extract w-1..0
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
}

// Term is a hash-consed boolean (w==0) or bit vector (w>0) term.
type Term struct {
	op      Op
	w       uint8
	id      int32
	val     uint64
	a, b, c *Term
	name    string
	// lo, hi: unsigned range that is known to hold for a bit vector variable/term
	lo, hi uint64
	// evaluation cache
	evGen int64
	ev    uint64
	// the variables of the term, once computed
	vs     []*Term
	vsDone bool
}

// vars returns the variables of the term, sorted by id.
func (t *Term) vars() []*Term {
	if t.vsDone {
		return t.vs
	}
	if t.op == OpVar {
		t.vs = []*Term{t}
	} else {
		for _, x := range [...]*Term{t.a, t.b, t.c} {
			if x != nil {
				t.vs = mergeVars(t.vs, x.vars())
			}
		}
	}
	t.vsDone = true
	return t.vs
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	i := 0
	for _, v := range b {
		for i < len(a) && a[i].id < v.id {
			i++
		}
		if i == len(a) || a[i] != v {
			i = -1
			break
		}
	}
	if i >= 0 {
		return a // b is contained in a
	}
	r := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i].id < b[j].id:
			r = append(r, a[i])
			i++
		case i == len(a) || b[j].id < a[i].id:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
	name    string
}

// TermCtx owns the hash-cons table.
type TermCtx struct {
	tab         map[termKey]*Term
	next        int32
	True, False *Term
	gen         int64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}}
	c.True = c.mk(OpConst, 0, 1, nil, nil, nil, "")
	c.False = c.mk(OpConst, 0, 0, nil, nil, nil, "")
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) mk(op Op, w uint8, val uint64, a, b, d *Term, name string) *Term {
	k := termKey{op, w, val, a, b, d, name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{op: op, w: w, id: c.next, val: val, a: a, b: b, c: d, name: name, evGen: -1}
	t.lo, t.hi = 0, mask(w)
	switch op {
	case OpConst:
		t.lo, t.hi = val, val
	case OpZExt:
		t.lo, t.hi = a.lo, a.hi
	case OpSExt:
		if a.hi <= mask(a.w)>>1 {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpTrunc:
		if a.hi <= mask(w) {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpIte:
		if w > 0 {
			t.lo, t.hi = min(b.lo, d.lo), max(b.hi, d.hi)
		}
	case OpAdd:
		if a.hi <= mask(w)-b.hi {
			t.lo, t.hi = a.lo+b.lo, a.hi+b.hi
		}
	case OpSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpBAnd:
		t.lo, t.hi = 0, min(a.hi, b.hi)
	case OpURem:
		if b.lo > 0 {
			t.lo, t.hi = 0, min(a.hi, b.hi-1)
		}
	case OpUDiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OpLShr:
		t.lo, t.hi = 0, a.hi
		if b.op == OpConst && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		}
	case OpMul:
		if w <= 64 && a.hi < 1<<31 && b.hi < 1<<31 && a.hi*b.hi <= mask(w) {
			t.lo, t.hi = a.lo*b.lo, a.hi*b.hi
		}
	}
	c.tab[k] = t
	return t
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) BV(v uint64, w uint8) *Term {
	return c.mk(OpConst, w, v&mask(w), nil, nil, nil, "")
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	return c.mk(OpVar, w, 0, nil, nil, nil, name)
}

// VarR makes a variable with a known unsigned range (the caller asserts the range in the path condition).
func (c *TermCtx) VarR(name string, w uint8, lo, hi uint64) *Term {
	t := c.mk(OpVar, w, 0, nil, nil, nil, name+fmt.Sprintf("_%d_%d", lo, hi))
	t.lo, t.hi = lo, hi
	return t
}

func (t *Term) IsConst() bool { return t.op == OpConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Bool(a.val == 0)
	case OpNot:
		return a.a
	case OpUlt:
		return c.Cmp(OpUle, a.b, a.a)
	case OpUle:
		return c.Cmp(OpUlt, a.b, a.a)
	case OpSlt:
		return c.Cmp(OpSle, a.b, a.a)
	case OpSle:
		return c.Cmp(OpSlt, a.b, a.a)
	}
	return c.mk(OpNot, 0, 0, a, nil, nil, "")
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True || a == b {
		return b
	}
	if b == c.True {
		return a
	}
	if a == c.Not(b) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, 0, a, b, nil, "")
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False || a == b {
		return b
	}
	if b == c.False {
		return a
	}
	if a == c.Not(b) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, 0, 0, a, b, nil, "")
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.True {
		return a
	}
	if cond == c.False {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if cond.op == OpNot {
		return c.Ite(cond.a, b, a)
	}
	return c.mk(OpIte, a.w, 0, cond, a, b, "")
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == OpConst {
			a, b = b, a
		}
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	} else {
		if a.op == OpConst {
			a, b = b, a
		}
		if a.hi < b.lo || b.hi < a.lo {
			return c.False
		}
		if b.op == OpConst {
			switch a.op {
			case OpZExt:
				if b.val > mask(a.a.w) {
					return c.False
				}
				return c.Eq(a.a, c.BV(b.val, a.a.w))
			case OpSExt:
				n := b.val & mask(a.a.w)
				if uint64(sext(n, a.a.w))&mask(a.w) != b.val {
					return c.False
				}
				return c.Eq(a.a, c.BV(n, a.a.w))
			case OpTrunc:
				if a.a.hi <= mask(a.w) {
					return c.Eq(a.a, c.BV(b.val, a.a.w))
				}
			case OpAdd:
				if a.b.op == OpConst {
					return c.Eq(a.a, c.BV(b.val-a.b.val, a.w))
				}
			case OpSub:
				if a.b.op == OpConst {
					return c.Eq(a.a, c.BV(b.val+a.b.val, a.w))
				}
			case OpIte:
				if a.b.op == OpConst || a.c.op == OpConst {
					return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
				}
			}
		}
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b, nil, "")
}

// Cmp builds an (in)equality of bit vectors.
func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(evalCmp(op, a.val, b.val, w))
	}
	if a == b {
		return c.Bool(op == OpUle || op == OpSle)
	}
	// signed comparisons of values known to be non negative are unsigned ones
	if (op == OpSlt || op == OpSle) && w > 0 {
		smax := mask(w) >> 1
		if a.hi <= smax && b.hi <= smax {
			if op == OpSlt {
				op = OpUlt
			} else {
				op = OpUle
			}
		} else if a.hi <= smax && b.lo > smax {
			return c.False
		} else if b.hi <= smax && a.lo > smax {
			return c.True
		}
	}
	switch op {
	case OpUlt:
		if a.hi < b.lo {
			return c.True
		}
		if a.lo >= b.hi {
			return c.False
		}
	case OpUle:
		if a.hi <= b.lo {
			return c.True
		}
		if a.lo > b.hi {
			return c.False
		}
	}
	if op == OpUlt || op == OpUle {
		if a.op == OpZExt && b.op == OpConst && b.val <= mask(a.a.w) {
			return c.Cmp(op, a.a, c.BV(b.val, a.a.w))
		}
		if b.op == OpZExt && a.op == OpConst && a.val <= mask(b.a.w) {
			return c.Cmp(op, c.BV(a.val, b.a.w), b.a)
		}
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return c.Cmp(op, a.a, b.a)
		}
	}
	return c.mk(op, 0, 0, a, b, nil, "")
}

func evalCmp(op Op, a, b uint64, w uint8) bool {
	switch op {
	case OpUlt:
		return a < b
	case OpUle:
		return a <= b
	case OpSlt:
		return sext(a, w) < sext(b, w)
	case OpSle:
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp")
}

// Bin builds a binary bit vector operation.
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("bin %v width mismatch %d %d", op, a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return c.BV(evalBin(op, a.val, b.val, w), w)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.op == OpConst {
			a, b = b, a
		}
	}
	if b.op == OpConst {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
			if b.val == 0 {
				return a
			}
		case OpMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OpUDiv, OpSDiv:
			if b.val == 1 {
				return a
			}
		case OpBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// a mask that covers the whole known range is a no-op
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
		}
		if op == OpSub {
			return c.Bin(OpAdd, a, c.BV(-b.val, w))
		}
		if op == OpAdd && a.op == OpAdd && a.b.op == OpConst {
			return c.Bin(OpAdd, a.a, c.BV(a.b.val+b.val, w))
		}
		if op == OpShl && b.val >= uint64(w) || op == OpLShr && b.val >= uint64(w) {
			return c.BV(0, w)
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return c.BV(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return c.mk(op, w, 0, a, b, nil, "")
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("evalBin")
}

// Ext zero- or sign-extends or truncates to the given width.
func (c *TermCtx) Ext(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		if signed && w > a.w {
			return c.BV(uint64(sext(a.val, a.w)), w)
		}
		return c.BV(a.val, w)
	}
	if w < a.w {
		switch a.op {
		case OpZExt, OpSExt:
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return c.Ext(a.a, w, false)
			}
			return c.Ext(a.a, w, a.op == OpSExt)
		case OpIte:
			if a.b.op == OpConst && a.c.op == OpConst {
				return c.Ite(a.a, c.Ext(a.b, w, false), c.Ext(a.c, w, false))
			}
		}
		return c.mk(OpTrunc, w, 0, a, nil, nil, "")
	}
	if signed && a.hi <= mask(a.w)>>1 {
		signed = false
	}
	if signed {
		return c.mk(OpSExt, w, 0, a, nil, nil, "")
	}
	if a.op == OpZExt {
		return c.Ext(a.a, w, false)
	}
	return c.mk(OpZExt, w, 0, a, nil, nil, "")
}

// Model maps variable names to values.
type Model map[string]uint64

// Eval evaluates t under m; unassigned variables take their lower bound.
func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	c.gen++
	return c.eval(t, m)
}

func (c *TermCtx) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		if v, ok := m[t.name]; ok {
			return v
		}
		return t.lo
	}
	if t.evGen == c.gen {
		return t.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - c.eval(t.a, m)
	case OpAnd:
		r = c.eval(t.a, m)
		if r != 0 {
			r = c.eval(t.b, m)
		}
	case OpOr:
		r = c.eval(t.a, m)
		if r == 0 {
			r = c.eval(t.b, m)
		}
	case OpEq:
		r = b2u(c.eval(t.a, m) == c.eval(t.b, m))
	case OpIte:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		r = b2u(evalCmp(t.op, c.eval(t.a, m), c.eval(t.b, m), t.a.w))
	case OpZExt:
		r = c.eval(t.a, m)
	case OpSExt:
		r = uint64(sext(c.eval(t.a, m), t.a.w)) & mask(t.w)
	case OpTrunc:
		r = c.eval(t.a, m) & mask(t.w)
	default:
		r = evalBin(t.op, c.eval(t.a, m), c.eval(t.b, m), t.w)
	}
	t.evGen, t.ev = c.gen, r
	return r
}

// ref is how a term is named in SMT-LIB: constants and variables inline, everything else by definition.
func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OpVar:
		return t.name
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
}

func (t *Term) body() string {
	switch t.op {
	case OpNot:
		return "(not " + t.a.ref() + ")"
	case OpIte:
		return "(ite " + t.a.ref() + " " + t.b.ref() + " " + t.c.ref() + ")"
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a.ref())
	}
	return "(" + opNames[t.op] + " " + t.a.ref() + " " + t.b.ref() + ")"
}

// String renders a term for messages.
func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	if d > 8 {
		sb.WriteString("...")
		return
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			sb.WriteString(t.ref())
		} else {
			sb.WriteString(strconv.FormatUint(t.val, 10))
		}
		return
	case OpVar:
		sb.WriteString(t.name)
		return
	}
	sb.WriteByte('(')
	switch t.op {
	case OpZExt:
		sb.WriteString("zext")
	case OpSExt:
		sb.WriteString("sext")
	case OpTrunc:
		sb.WriteString("trunc")
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d+1)
		}
	}
	sb.WriteByte(')')
}
