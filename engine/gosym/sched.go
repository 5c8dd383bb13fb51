package gosym

import (
	"fmt"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine. Exactly one runs at a time; control is handed over at synchronisation
// operations only.
type G struct {
	id     int
	m      *Machine
	resume chan struct{}
	ready  func() bool // nil: runnable
	done   bool
	depth  int
	what   string
	vc     []int32
}

type killG struct{}

// Chan is a Go channel.
type Chan struct {
	cap    int
	buf    []Value
	zero   Value
	closed bool
	recvq  []*sudog
	sendq  []*sudog
	vc     []int32
}

type sudog struct {
	g     *G
	v     Value
	ok    bool
	done  *bool
	sel   int
	which *int
	out   *Value
	outok *bool
}

func (m *Machine) newChan(n int, zero Value) *Chan { return &Chan{cap: n, zero: zero} }

func (m *Machine) spawn(fr *frame, d deferred) {
	if !m.inPath {
		// goroutines started by package initialisation never run
		return
	}
	g := &G{id: len(m.gs), m: m, resume: make(chan struct{}, 1)}
	m.gs = append(m.gs, g)
	if m.races != nil {
		m.races.newG(g, m.cur)
	}
	m.wgHost.Add(1)
	go func() {
		defer m.wgHost.Done()
		<-g.resume
		if m.killing {
			return
		}
		defer func() {
			g.done = true
			if r := recover(); r != nil {
				switch r := r.(type) {
				case killG:
					return
				case *targetPanic:
					if !r.goexit {
						m.gabort = goCrash{r}
					}
				default:
					m.gabort = r
				}
			}
			if m.killing {
				return
			}
			// hand over
			if m.gabort != nil {
				m.handTo(m.gs[0])
				return
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						m.gabort = r
						m.handTo(m.gs[0])
					}
				}()
				n := m.pickNext(g)
				m.handTo(n)
			}()
		}()
		m.cur = g
		m.callValue(nil, d.fn, d.args, nil)
	}()
	m.yield()
}

type goCrash struct{ tp *targetPanic }

func (m *Machine) handTo(g *G) {
	m.cur = g
	g.resume <- struct{}{}
}

// checkAbort is called by a goroutine that got control back.
func (m *Machine) checkAbort(g *G) {
	if m.killing {
		panic(killG{})
	}
	if g.id == 0 && m.gabort != nil {
		a := m.gabort
		m.gabort = nil
		if gc, ok := a.(goCrash); ok {
			panic(fatalErr{"crash", "panic in goroutine: " + m.panicText(gc.tp)})
		}
		panic(a)
	}
}

// pickNext chooses who runs after g, which cannot continue.
func (m *Machine) pickNext(g *G) *G {
	var run []*G
	for _, o := range m.gs {
		if o != g && !o.done && (o.ready == nil || o.ready()) {
			run = append(run, o)
		}
	}
	if len(run) == 0 {
		if g.ready != nil && g.ready() && !g.done {
			return g
		}
		d := ""
		for _, o := range m.gs {
			if !o.done {
				d += fmt.Sprintf(" goroutine %d: %s;", o.id, o.what)
			}
		}
		panic(fatalErr{"deadlock", "all goroutines are blocked:" + d})
	}
	if m.Opt.MaxPreempt < 0 {
		// a fixed schedule, from which it may deviate -MaxPreempt-1 times
		if m.preempt < -m.Opt.MaxPreempt-1 && len(run) > 1 {
			if k := m.chooseN("sched", len(run), true); k > 0 {
				m.preempt++
				return run[k]
			}
		}
		return run[0]
	}
	return run[m.chooseN("sched", len(run), true)]
}

// yield is a scheduling point at which the running goroutine could be preempted.
func (m *Machine) yield() {
	if len(m.gs) == 1 || !m.inPath {
		return
	}
	g := m.cur
	max := m.Opt.MaxPreempt
	if max < 0 {
		max = -max - 1
	}
	if m.preempt >= max {
		return
	}
	var run []*G
	for _, o := range m.gs {
		if o != g && !o.done && (o.ready == nil || o.ready()) {
			run = append(run, o)
		}
	}
	if len(run) == 0 {
		return
	}
	k := m.chooseN("sched", len(run)+1, true)
	if k == 0 {
		return
	}
	m.preempt++
	m.switchTo(g, run[k-1])
}

func (m *Machine) switchTo(g, o *G) {
	m.handTo(o)
	<-g.resume
	m.checkAbort(g)
	m.cur = g
}

// block waits until ready holds.
func (m *Machine) block(what string, ready func() bool) {
	for !ready() {
		g := m.cur
		g.ready, g.what = ready, what
		o := m.pickNext(g)
		if o != g {
			m.switchTo(g, o)
		}
		g.ready, g.what = nil, ""
	}
}

func (m *Machine) killGoroutines() {
	m.killing = true
	for _, g := range m.gs {
		if g.id != 0 && !g.done {
			select {
			case g.resume <- struct{}{}:
			default:
			}
		}
	}
	m.wgHost.Wait()
	m.gs = nil
}

// ---- channels (created and used within one path)

func (m *Machine) chanSend(fr *frame, ch *Chan, v Value) {
	m.yield()
	if ch == nil {
		m.block("send on nil channel", func() bool { return false })
	}
	m.relChan(ch)
	if ch.closed {
		panic(m.rtErrT(fr, "send on closed channel", true))
	}
	if ch.cap > 0 {
		m.block("channel send", func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			panic(m.rtErrT(fr, "send on closed channel", true))
		}
		ch.buf = append(ch.buf, copyVal(v))
		return
	}
	// unbuffered: offer and wait for a receiver
	s := &sudog{g: m.cur, v: copyVal(v), done: new(bool)}
	ch.sendq = append(ch.sendq, s)
	m.block("channel send", func() bool { return *s.done || ch.closed })
	if !*s.done {
		panic(m.rtErrT(fr, "send on closed channel", true))
	}
	m.acqChan(ch)
}

func (ch *Chan) canRecv() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed }

func (m *Machine) chanRecv(fr *frame, ch *Chan) (Value, bool) {
	m.yield()
	if ch == nil {
		m.block("receive from nil channel", func() bool { return false })
	}
	ch.recvq = append(ch.recvq, nil)
	m.block("channel receive", ch.canRecv)
	ch.recvq = ch.recvq[:len(ch.recvq)-1]
	return m.doRecv(ch)
}

func (m *Machine) doRecv(ch *Chan) (Value, bool) {
	m.acqChan(ch)
	m.relChan(ch)
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		return v, true
	}
	if len(ch.sendq) > 0 {
		s := ch.sendq[0]
		ch.sendq = append([]*sudog(nil), ch.sendq[1:]...)
		*s.done = true
		return s.v, true
	}
	return ch.zero, false
}

func (m *Machine) chanClose(fr *frame, ch *Chan) {
	m.yield()
	if ch == nil {
		panic(m.rtErrT(fr, "close of nil channel", true))
	}
	if ch.closed {
		panic(m.rtErrT(fr, "close of closed channel", true))
	}
	m.relChan(ch)
	ch.closed = true
}

func (c *compiler) selectStmt(i *ssa.Select, dst int) instr {
	type cs struct {
		ch   opnd
		send *opnd
		z    Value
	}
	var cases []cs
	for _, s := range i.States {
		k := cs{ch: c.op(s.Chan)}
		if s.Dir == types.SendOnly {
			o := c.op(s.Send)
			k.send = &o
		} else {
			k.z = c.m.zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		cases = append(cases, k)
	}
	blocking := i.Blocking
	return func(fr *frame) {
		m := fr.m
		m.yield()
		can := func() []int {
			var r []int
			for j, k := range cases {
				ch, _ := k.ch.get(fr).(*Chan)
				if ch == nil {
					continue
				}
				if k.send != nil {
					if ch.closed || ch.cap > 0 && len(ch.buf) < ch.cap || ch.cap == 0 && len(ch.recvq) > 0 {
						r = append(r, j)
					}
				} else if ch.canRecv() {
					r = append(r, j)
				}
			}
			return r
		}
		if blocking {
			m.block("select", func() bool { return len(can()) > 0 })
		}
		ready := can()
		res := Tuple{mkInt(-1), false}
		for _, k := range cases {
			if k.send == nil {
				res = append(res, k.z)
			}
		}
		if len(ready) > 0 {
			j := ready[m.chooseN("sel", len(ready), true)]
			res[0] = mkInt(int64(j))
			ch := cases[j].ch.get(fr).(*Chan)
			if cases[j].send != nil {
				if ch.closed {
					panic(m.rtErrT(fr, "send on closed channel", true))
				}
				m.relChan(ch)
				if ch.cap > 0 {
					ch.buf = append(ch.buf, copyVal(cases[j].send.get(fr)))
				} else {
					s := &sudog{g: m.cur, v: copyVal(cases[j].send.get(fr)), done: new(bool)}
					ch.sendq = append(ch.sendq, s)
					m.block("channel send", func() bool { return *s.done })
				}
			} else {
				v, ok := m.doRecv(ch)
				res[1] = ok
				n := 2
				for x := 0; x < j; x++ {
					if cases[x].send == nil {
						n++
					}
				}
				res[n] = v
			}
		}
		fr.regs[dst] = res
	}
}

// ---- happens-before race detection (optional)

type shadow struct {
	wg  int32
	wt  int32
	rvc []int32
	fn  string
}

type raceState struct {
	cells map[any]*shadow
	sync  map[any][]int32
}

func newRaceState() *raceState {
	return &raceState{cells: map[any]*shadow{}, sync: map[any][]int32{}}
}

func (r *raceState) newG(g, parent *G) {
	if parent != nil {
		g.vc = append([]int32(nil), parent.vc...)
		parent.tick()
	}
	g.grow(g.id + 1)
	g.vc[g.id]++
}

func (g *G) grow(n int) {
	for len(g.vc) < n {
		g.vc = append(g.vc, 0)
	}
}

func (g *G) tick() { g.grow(g.id + 1); g.vc[g.id]++ }

func (g *G) join(vc []int32) {
	g.grow(len(vc))
	for i, v := range vc {
		if v > g.vc[i] {
			g.vc[i] = v
		}
	}
}

func (g *G) at(i int32) int32 {
	if int(i) < len(g.vc) {
		return g.vc[i]
	}
	return 0
}

// acquire/release a synchronisation object.
func (m *Machine) acq(o any) {
	if m.races != nil {
		if vc, ok := m.races.sync[o]; ok {
			m.cur.join(vc)
		}
	}
}

func (m *Machine) rel(o any) {
	if m.races != nil {
		g := m.cur
		vc := m.races.sync[o]
		for len(vc) < len(g.vc) {
			vc = append(vc, 0)
		}
		nv := append([]int32(nil), vc...)
		for i, v := range g.vc {
			if v > nv[i] {
				nv[i] = v
			}
		}
		m.races.sync[o] = nv
		g.tick()
	}
}

func (m *Machine) acqChan(ch *Chan) { m.acq(ch) }
func (m *Machine) relChan(ch *Chan) { m.rel(ch) }

func (r *raceState) read(fr *frame, p *Value)      { r.access(fr, p, false) }
func (r *raceState) write(fr *frame, p *Value)     { r.access(fr, p, true) }
func (r *raceState) readObj(fr *frame, o *MapObj)  { r.access(fr, o, false) }
func (r *raceState) writeObj(fr *frame, o *MapObj) { r.access(fr, o, true) }

func (r *raceState) access(fr *frame, o any, write bool) {
	m := fr.m
	if fr.fn.quiet {
		return // the models of the environment
	}
	if len(m.gs) <= 1 || !m.inPath {
		// before the first goroutine everything is ordered
		if m.inPath && write {
			delete(r.cells, o)
		}
		return
	}
	g := m.cur
	s := r.cells[o]
	if s == nil {
		s = &shadow{wg: -1}
		r.cells[o] = s
	}
	bad := func(kind string, other string) {
		panic(fatalErr{"data race", kind + " in " + fr.fn.name + " and " + other})
	}
	if s.wg >= 0 && s.wg != int32(g.id) && g.at(s.wg) < s.wt {
		bad("unsynchronised access", s.fn)
	}
	if write {
		for i, t := range s.rvc {
			if i != g.id && t > 0 && g.at(int32(i)) < t {
				bad("unsynchronised write", "a read by goroutine "+fmt.Sprint(i))
			}
		}
		s.wg, s.wt, s.fn = int32(g.id), g.at(int32(g.id)), fr.fn.name
		s.rvc = nil
		return
	}
	for len(s.rvc) <= g.id {
		s.rvc = append(s.rvc, 0)
	}
	s.rvc[g.id] = g.at(int32(g.id))
}
