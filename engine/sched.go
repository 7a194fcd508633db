package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the program under test run as goroutines of the engine that pass a control token:
// exactly one runs at any time and control changes hands only at synchronisation operations. Which
// goroutine continues is a decision of the path and therefore explored.

type gor struct {
	id    int
	name  string
	stack []*frame
	wake  chan bool // true: run, false: die
	ready func() bool
	until int64 // virtual time at which the wait ends (<0: never)
	done  bool
	timed bool
	vc    vclock
	why   string
	dead  chan struct{}
}

type vtimer struct {
	at     int64
	period int64
	fire   func()
	on     bool
	seq    int
}

type sched struct {
	ex       *Exec
	gs       []*gor
	cur      *gor
	now      int64
	timers   []*vtimer
	seq      int
	fatal    interface{}
	preempt  int // remaining preemptions
	choice   int // remaining free choices at blocking points
	killing  bool
	chans    int
	switches int
	locked   map[*Value]*lockSt
}

type lockSt struct {
	w int
	r int
}

type killG struct{}

func (ex *Exec) sc() *sched {
	if ex.sch == nil {
		s := &sched{ex: ex, locked: map[*Value]*lockSt{}}
		g := &gor{id: 0, name: "main", wake: make(chan bool, 1), until: -1}
		s.gs = []*gor{g}
		s.cur = g
		ex.sch = s
	}
	return ex.sch
}

func (s *sched) runnable() []*gor {
	var r []*gor
	for _, g := range s.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() || (g.until >= 0 && s.now >= g.until) {
			r = append(r, g)
		}
	}
	return r
}

func (s *sched) fireTimers() {
	for {
		var best *vtimer
		for _, t := range s.timers {
			if t.on && t.at <= s.now && (best == nil || t.at < best.at || t.at == best.at && t.seq < best.seq) {
				best = t
			}
		}
		if best == nil {
			break
		}
		if best.period > 0 {
			best.at += best.period
		} else {
			best.on = false
		}
		best.fire()
	}
	k := s.timers[:0]
	for _, t := range s.timers {
		if t.on {
			k = append(k, t)
		}
	}
	s.timers = k
}

// next picks the goroutine to run; the current one is blocked (or finished).
func (s *sched) next() *gor {
	for n := 0; ; n++ {
		s.fireTimers()
		r := s.runnable()
		if len(r) > 0 {
			if len(r) > 1 && s.choice > 0 {
				s.choice--
				// order: round robin after the current one so that the default is fair
				o := s.rotate(r)
				return o[s.ex.choose(len(o), "goroutine")]
			}
			return s.rotate(r)[0]
		}
		// advance the clock
		var t int64 = -1
		for _, g := range s.gs {
			if !g.done && g.until >= 0 && (t < 0 || g.until < t) {
				t = g.until
			}
		}
		for _, v := range s.timers {
			if v.on && (t < 0 || v.at < t) {
				t = v.at
			}
		}
		if t < 0 {
			return nil
		}
		if t > s.now {
			s.now = t
		}
		if s.now > 3600e9 || n > 100000 {
			panic(pathEnd{endBudget, "virtual time limit: " + s.describe()})
		}
	}
}

func (s *sched) rotate(r []*gor) []*gor {
	k := 0
	for i, g := range r {
		if g.id > s.cur.id {
			k = i
			break
		}
	}
	return append(append([]*gor(nil), r[k:]...), r[:k]...)
}

func (s *sched) describe() string {
	d := ""
	for _, g := range s.gs {
		if !g.done {
			d += fmt.Sprintf("[%s %s]", g.name, g.why)
		}
	}
	return d
}

// switchTo hands the token to g and waits until it comes back.
func (s *sched) switchTo(g *gor) {
	me := s.cur
	if g == me {
		return
	}
	s.switches++
	ex := s.ex
	me.stack = ex.stack
	s.cur = g
	ex.stack = g.stack
	g.wake <- true
	if !<-me.wake {
		panic(killG{})
	}
	if s.fatal != nil && me.id == 0 {
		f := s.fatal
		panic(f)
	}
}

// block suspends the current goroutine until ready() holds or the virtual time reaches until.
// It reports false on timeout.
func (ex *Exec) block(why string, ready func() bool, until int64) bool {
	if ex.spec > 0 {
		panic(specAbort{"blocking"})
	}
	s := ex.sc()
	me := s.cur
	s.fireTimers()
	if ready != nil && ready() {
		return true
	}
	if until >= 0 && s.now >= until {
		return false
	}
	if ready == nil {
		me.ready = func() bool { return false }
	} else {
		me.ready = ready
	}
	me.until = until
	me.why = why
	g := s.next()
	if g == nil {
		d := s.describe()
		me.ready = nil
		me.until = -1
		panic(pathEnd{endBudget, "deadlock: " + d})
	}
	s.switchTo(g)
	ok := ready != nil && ready()
	me.ready = nil
	me.until = -1
	me.why = ""
	return ok
}

// yield is a possible preemption point.
func (ex *Exec) yield(why string) {
	if ex.sch == nil || ex.spec > 0 || ex.sch.preempt <= 0 {
		return
	}
	s := ex.sch
	if len(s.gs) < 2 {
		return
	}
	r := s.rotate(s.runnable())
	var others []*gor
	for _, g := range r {
		if g != s.cur {
			others = append(others, g)
		}
	}
	if len(others) == 0 {
		return
	}
	k := ex.choose(len(others)+1, "preempt")
	if k == 0 {
		return
	}
	s.preempt--
	s.switchTo(others[k-1])
}

func (ex *Exec) gosched() {
	s := ex.sc()
	if ex.spec > 0 {
		panic(specAbort{"gosched"})
	}
	for _, g := range s.rotate(s.runnable()) {
		if g != s.cur {
			s.switchTo(g)
			return
		}
	}
}

func (ex *Exec) goStmt(fn Value, args []Value, ci *cInstr) {
	ex.startG("go", func() {
		ex.doCall(nil, ci, fn, args, nil)
	}, ci)
	ex.yield("go")
}

func (ex *Exec) startG(name string, body func(), ci *cInstr) *gor {
	s := ex.sc()
	if len(s.gs) > 400 {
		panic(pathEnd{endBudget, "goroutine limit"})
	}
	if ci != nil && ci.in != nil {
		p := ex.w.prog.fset.Position(ci.in.Pos())
		name = fmt.Sprintf("go %s:%d", shortFile(p.Filename), p.Line)
	}
	g := &gor{id: len(s.gs), name: name, wake: make(chan bool, 1), until: -1, dead: make(chan struct{})}
	g.vc = ex.snapshot()
	s.gs = append(s.gs, g)
	go func() {
		defer close(g.dead)
		if !<-g.wake {
			return
		}
		defer func() {
			r := recover()
			if _, k := r.(killG); k || s.killing {
				return
			}
			g.done = true
			if r != nil {
				if s.fatal == nil {
					s.fatal = r
				}
				if os.Getenv("VENGINE_DEBUG") != "" {
					fmt.Printf("GOROUTINE %s: %v\n%s\n", g.name, r, ex.where())
				}
				// give control back to main, which re-panics
				m := s.gs[0]
				s.cur = m
				ex.stack = m.stack
				m.wake <- true
				return
			}
			var n *gor
			func() {
				defer func() {
					if r := recover(); r != nil {
						if s.fatal == nil {
							s.fatal = r
						}
					}
				}()
				n = s.next()
			}()
			if n == nil {
				if s.fatal == nil {
					s.fatal = pathEnd{endBudget, "deadlock: " + s.describe()}
				}
				n = s.gs[0]
			}
			s.cur = n
			ex.stack = n.stack
			n.wake <- true
		}()
		body()
	}()
	return g
}

// killAll terminates every goroutine of the path (called from the main one).
func (s *sched) killAll() {
	s.killing = true
	for _, g := range s.gs[1:] {
		if g.done {
			continue
		}
		g.wake <- false
		<-g.dead
	}
}

// ---------- channels ----------

type waiter struct {
	g    *gor
	sel  *selSt
	idx  int
	val  Value
	send bool
	ok   bool
	ch   *ChanV
	vc   vclock
}
type selSt struct {
	fired bool
	w     *waiter
}

type ChanV struct {
	buf    []Value
	bufvc  []vclock
	capn   int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	et     types.Type
	id     int
}

func (ex *Exec) makeChan(n int, et types.Type) Value {
	if ex.spec > 0 {
		panic(specAbort{"make chan"})
	}
	ex.sc().chans++
	return &ChanV{capn: n, et: et, id: ex.sc().chans}
}

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}
func liveW(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (ex *Exec) canSend(c *ChanV) bool { return c.closed || liveW(c.recvq) || len(c.buf) < c.capn }
func (ex *Exec) canRecv(c *ChanV) bool { return len(c.buf) > 0 || liveW(c.sendq) || c.closed }

func (ex *Exec) doSend(c *ChanV, v Value) {
	if c.closed {
		panic(&targetPanic{v: &Iface{t: ex.w.prog.runtimeErrT, v: litStr("send on closed channel")}, msg: "send on closed channel", stack: ex.where()})
	}
	if w := popW(&c.recvq); w != nil {
		w.sel.fired = true
		w.sel.w = w
		w.val, w.ok, w.vc = v, true, ex.snapshot()
		return
	}
	c.buf = append(c.buf, v)
	c.bufvc = append(c.bufvc, ex.snapshot())
	ex.acquire(c) // of the receive that made room
}

func (ex *Exec) doRecv(c *ChanV) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		ex.receive(c.bufvc[0])
		c.bufvc = append([]vclock(nil), c.bufvc[1:]...)
		ex.release(c)
		if w := popW(&c.sendq); w != nil {
			w.sel.fired = true
			w.sel.w = w
			c.buf = append(c.buf, w.val)
			c.bufvc = append(c.bufvc, w.vc)
		}
		return v, true
	}
	if w := popW(&c.sendq); w != nil {
		ex.receive(w.vc)
		ex.release(c)
		w.sel.fired = true
		w.sel.w = w
		return w.val, true
	}
	ex.acquire(&c.closed)
	return ex.w.zero(c.et), false
}

func (ex *Exec) chanSend(c *ChanV, v Value) {
	if ex.spec > 0 {
		panic(specAbort{"chan"})
	}
	ex.yield("send")
	if c == nil {
		ex.block("send on nil channel", nil, -1)
	}
	if ex.canSend(c) {
		ex.doSend(c, v)
		return
	}
	w := &waiter{g: ex.sc().cur, sel: &selSt{}, val: v, send: true, ch: c, vc: ex.snapshot()}
	c.sendq = append(c.sendq, w)
	ex.block(fmt.Sprintf("send chan%d at %s", c.id, ex.pos1()), func() bool { return w.sel.fired || c.closed }, -1)
	if !w.sel.fired {
		w.sel.fired = true
		ex.doSend(c, v) // closed: panics
	}
	ex.acquire(c)
}

func (ex *Exec) pos1() string {
	for i := len(ex.stack) - 1; i >= 0; i-- {
		if c := ex.stack[i].cur; c != nil && c.in.Pos().IsValid() {
			p := ex.w.prog.fset.Position(c.in.Pos())
			return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
		}
	}
	return "?"
}

func (ex *Exec) chanRecv(c *ChanV) (Value, bool) {
	if ex.spec > 0 {
		panic(specAbort{"chan"})
	}
	ex.yield("recv")
	if c == nil {
		ex.block("receive on nil channel", nil, -1)
	}
	if ex.canRecv(c) {
		return ex.doRecv(c)
	}
	w := &waiter{g: ex.sc().cur, sel: &selSt{}, ch: c}
	c.recvq = append(c.recvq, w)
	ex.block(fmt.Sprintf("recv chan%d at %s", c.id, ex.pos1()), func() bool { return w.sel.fired || c.closed }, -1)
	if w.sel.fired {
		ex.receive(w.vc)
		ex.release(c)
		return w.val, w.ok
	}
	w.sel.fired = true
	return ex.doRecv(c)
}

func (ex *Exec) chanClose(c *ChanV) {
	if ex.spec > 0 {
		panic(specAbort{"chan"})
	}
	if c == nil || c.closed {
		m := "close of closed channel"
		if c == nil {
			m = "close of nil channel"
		}
		panic(&targetPanic{v: &Iface{t: ex.w.prog.runtimeErrT, v: litStr(m)}, msg: m, stack: ex.where()})
	}
	ex.yield("close")
	ex.sc()
	ex.release(&c.closed)
	c.closed = true
}

func (ex *Exec) selectStmt(fr *frame, ci *cInstr) Value {
	if ex.spec > 0 {
		panic(specAbort{"select"})
	}
	sel := ci.in.(*ssa.Select)
	ex.yield("select")
	n := len(sel.States)
	chans := make([]*ChanV, n)
	vals := make([]Value, n)
	k := 0
	for i, s := range sel.States {
		chans[i], _ = fr.get(&ci.ops[k]).(*ChanV)
		k++
		if s.Dir == types.SendOnly {
			vals[i] = copyVal(fr.get(&ci.ops[k]))
		}
		k++
	}
	res := func(idx int, v Value, ok bool) Value {
		t := Tuple{ex.ctx.Int(int64(idx)), ex.ctx.Bool(ok)}
		for i, s := range sel.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, ex.w.zero(under(s.Chan.Type()).(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	ready := func() []int {
		var r []int
		for i, s := range sel.States {
			if chans[i] == nil {
				continue
			}
			if s.Dir == types.SendOnly && ex.canSend(chans[i]) || s.Dir == types.RecvOnly && ex.canRecv(chans[i]) {
				r = append(r, i)
			}
		}
		return r
	}
	s := ex.sc()
	s.fireTimers()
	try := func() (Value, bool) {
		r := ready()
		if len(r) == 0 {
			return nil, false
		}
		i := r[0]
		if len(r) > 1 {
			if s.choice > 0 {
				s.choice--
				i = r[ex.choose(len(r), "select")]
			} else {
				// fair rotation stands in for the random choice
				s.seq++
				i = r[s.seq%len(r)]
			}
		}
		if sel.States[i].Dir == types.SendOnly {
			ex.doSend(chans[i], vals[i])
			return res(i, nil, false), true
		}
		v, ok := ex.doRecv(chans[i])
		return res(i, v, ok), true
	}
	if v, ok := try(); ok {
		return v
	}
	if !sel.Blocking {
		return res(-1, nil, false)
	}
	st := &selSt{}
	for i, d := range sel.States {
		if chans[i] == nil {
			continue
		}
		w := &waiter{g: s.cur, sel: st, idx: i, ch: chans[i]}
		if d.Dir == types.SendOnly {
			w.send, w.val, w.vc = true, vals[i], ex.snapshot()
			chans[i].sendq = append(chans[i].sendq, w)
		} else {
			chans[i].recvq = append(chans[i].recvq, w)
		}
	}
	ex.block("select at "+ex.pos1(), func() bool {
		if st.fired {
			return true
		}
		for _, c := range chans {
			if c != nil && c.closed {
				return true
			}
		}
		return false
	}, -1)
	if st.fired {
		w := st.w
		if w.send {
			ex.acquire(w.ch)
		} else {
			ex.receive(w.vc)
			ex.release(w.ch)
		}
		return res(w.idx, w.val, w.ok)
	}
	st.fired = true
	if v, ok := try(); ok {
		return v
	}
	panic(unsupported("select woke without a ready case"))
}

// ---------- sync, time ----------

func (ex *Exec) lockOf(p Value) *lockSt {
	q, _ := p.(*Value)
	if q == nil {
		ex.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := ex.sc()
	l := s.locked[q]
	if l == nil {
		l = &lockSt{}
		s.locked[q] = l
	}
	return l
}

func (ex *Exec) fatalErr(msg string) {
	panic(&targetPanic{msg: "fatal error: " + msg, stack: ex.where()})
}

func fieldSlot(p Value, name string, t types.Type) *Value {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return &(*p.(*Value)).(*Agg).f[i]
		}
	}
	return nil
}

func (ex *Exec) addTimer(d, period int64, fire func()) *vtimer {
	s := ex.sc()
	s.seq++
	t := &vtimer{at: s.now + d, period: period, fire: fire, on: true, seq: s.seq}
	if d < 0 {
		t.at = s.now
	}
	s.timers = append(s.timers, t)
	return t
}

func (ex *Exec) timeVal() Value {
	t := ex.w.prog.typeOf("time", "Time")
	a := ex.w.zero(t).(*Agg)
	// wall carries nothing; ext is the virtual clock, offset so that the value is not the zero time
	a.f[1] = ex.ctx.Int(ex.sc().now + 1_000_000_000_000)
	return a
}

func (ex *Exec) durOf(v Value) int64 { return ex.concInt(v.(*Term)) }

func init() {
	I := intrinsics
	op := func(name string, f func(ex *Exec, a []Value) Value) {
		I[name] = func(ex *Exec, a []Value, ci *cInstr) Value {
			if ex.spec > 0 {
				panic(specAbort{"sync"})
			}
			return f(ex, a)
		}
	}
	lock := func(ex *Exec, a []Value) Value {
		ex.yield("lock")
		l := ex.lockOf(a[0])
		if l.w != 0 || l.r != 0 {
			ex.block("lock at "+ex.pos1(), func() bool { return l.w == 0 && l.r == 0 }, -1)
		}
		l.w = 1
		ex.acquire(l)
		ex.acquire(&l.r)
		return nil
	}
	unlock := func(ex *Exec, a []Value) Value {
		l := ex.lockOf(a[0])
		if l.w == 0 {
			ex.fatalErr("sync: unlock of unlocked mutex")
		}
		l.w = 0
		ex.release(l)
		ex.yield("unlock")
		return nil
	}
	for _, t := range []string{"sync.Mutex", "sync.RWMutex"} {
		op("(*"+t+").Lock", lock)
		op("(*"+t+").Unlock", unlock)
		op("(*"+t+").TryLock", func(ex *Exec, a []Value) Value {
			l := ex.lockOf(a[0])
			if l.w != 0 || l.r != 0 {
				return ex.ctx.tFalse
			}
			l.w = 1
			ex.acquire(l)
			ex.acquire(&l.r)
			return ex.ctx.tTrue
		})
	}
	op("(*sync.RWMutex).RLock", func(ex *Exec, a []Value) Value {
		ex.yield("rlock")
		l := ex.lockOf(a[0])
		if l.w != 0 {
			ex.block("rlock at "+ex.pos1(), func() bool { return l.w == 0 }, -1)
		}
		l.r++
		ex.acquire(l)
		return nil
	})
	op("(*sync.RWMutex).RUnlock", func(ex *Exec, a []Value) Value {
		l := ex.lockOf(a[0])
		if l.r == 0 {
			ex.fatalErr("sync: RUnlock of unlocked RWMutex")
		}
		l.r--
		ex.release(&l.r)
		ex.yield("runlock")
		return nil
	})
	wg := func(ex *Exec, p Value) *lockSt { return ex.lockOf(p) }
	op("(*sync.WaitGroup).Add", func(ex *Exec, a []Value) Value {
		l := wg(ex, a[0])
		l.w += int(ex.concInt(a[1].(*Term)))
		if l.w < 0 {
			panic(&targetPanic{v: &Iface{t: types.Typ[types.String], v: litStr("sync: negative WaitGroup counter")}, msg: "sync: negative WaitGroup counter", stack: ex.where()})
		}
		ex.yield("wg.Add")
		return nil
	})
	op("(*sync.WaitGroup).Done", func(ex *Exec, a []Value) Value {
		l := wg(ex, a[0])
		ex.release(l)
		l.w--
		if l.w < 0 {
			panic(&targetPanic{v: &Iface{t: types.Typ[types.String], v: litStr("sync: negative WaitGroup counter")}, msg: "sync: negative WaitGroup counter", stack: ex.where()})
		}
		ex.yield("wg.Done")
		return nil
	})
	op("(*sync.WaitGroup).Wait", func(ex *Exec, a []Value) Value {
		ex.yield("wg.Wait")
		l := wg(ex, a[0])
		if l.w > 0 {
			ex.block("wg.Wait at "+ex.pos1(), func() bool { return l.w == 0 }, -1)
		}
		ex.acquire(l)
		return nil
	})
	op("(*sync.WaitGroup).Go", func(ex *Exec, a []Value) Value {
		l := wg(ex, a[0])
		l.w++
		f := a[1].(*FuncV)
		ex.startG("wg.Go", func() {
			ex.callFuncV(f, nil, nil, nil)
			ex.release(l)
			l.w--
		}, nil)
		return nil
	})
	op("(*sync.Once).Do", func(ex *Exec, a []Value) Value {
		l := ex.lockOf(a[0])
		if l.r == 1 {
			ex.acquire(l)
			return nil
		}
		if l.w == 1 {
			ex.block("once", func() bool { return l.r == 1 }, -1)
			ex.acquire(l)
			return nil
		}
		l.w = 1
		f, _ := a[1].(*FuncV)
		ex.callFuncV(f, nil, nil, nil)
		ex.release(l)
		l.r = 1
		return nil
	})

	// sync/atomic functions
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		I["sync/atomic.Load"+k] = func(ex *Exec, a []Value, ci *cInstr) Value {
			ex.yield("atomic")
			ex.acquire(a[0])
			return ex.load(a[0])
		}
		I["sync/atomic.Store"+k] = func(ex *Exec, a []Value, ci *cInstr) Value {
			ex.yield("atomic")
			ex.release(a[0])
			ex.store(a[0], a[1])
			return nil
		}
		I["sync/atomic.Add"+k] = func(ex *Exec, a []Value, ci *cInstr) Value {
			ex.yield("atomic")
			ex.acquire(a[0])
			ex.release(a[0])
			v := ex.ctx.Bin(OpAdd, ex.load(a[0]).(*Term), a[1].(*Term))
			ex.store(a[0], v)
			return v
		}
		I["sync/atomic.Swap"+k] = func(ex *Exec, a []Value, ci *cInstr) Value {
			ex.yield("atomic")
			ex.acquire(a[0])
			ex.release(a[0])
			o := ex.load(a[0])
			ex.store(a[0], a[1])
			return o
		}
		I["sync/atomic.CompareAndSwap"+k] = func(ex *Exec, a []Value, ci *cInstr) Value {
			ex.yield("atomic")
			ex.acquire(a[0])
			ex.release(a[0])
			if ex.branch(ex.eqVal(ex.load(a[0]), a[1])) {
				ex.store(a[0], a[2])
				return ex.ctx.tTrue
			}
			return ex.ctx.tFalse
		}
	}
	aval := func(p Value) *Value { return &(*p.(*Value)).(*Agg).f[0] }
	op("(*sync/atomic.Value).Load", func(ex *Exec, a []Value) Value { ex.acquire(a[0]); return *aval(a[0]) })
	op("(*sync/atomic.Value).Store", func(ex *Exec, a []Value) Value { ex.release(a[0]); ex.set(aval(a[0]), a[1]); return nil })
	// atomic.Pointer[T]: fields _ [0]*T; _ noCopy; v unsafe.Pointer
	ap := func(p Value) *Value { f := (*p.(*Value)).(*Agg).f; return &f[len(f)-1] }
	op("(*sync/atomic.Pointer[T]).Load", func(ex *Exec, a []Value) Value { ex.acquire(a[0]); return *ap(a[0]) })
	op("(*sync/atomic.Pointer[T]).Store", func(ex *Exec, a []Value) Value { ex.release(a[0]); ex.set(ap(a[0]), a[1]); return nil })
	op("(*sync/atomic.Pointer[T]).CompareAndSwap", func(ex *Exec, a []Value) Value {
		ex.acquire(a[0])
		ex.release(a[0])
		if ex.branch(ex.eqVal(*ap(a[0]), a[1])) {
			ex.set(ap(a[0]), a[2])
			return ex.ctx.tTrue
		}
		return ex.ctx.tFalse
	})
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		P := "(*sync/atomic." + k + ")."
		slot := func(p Value) *Value { f := (*p.(*Value)).(*Agg).f; return &f[len(f)-1] }
		op(P+"Load", func(ex *Exec, a []Value) Value { ex.yield("atomic"); ex.acquire(a[0]); return *slot(a[0]) })
		op(P+"Store", func(ex *Exec, a []Value) Value {
			ex.yield("atomic")
			ex.release(a[0])
			ex.set(slot(a[0]), a[1])
			return nil
		})
		op(P+"Add", func(ex *Exec, a []Value) Value {
			ex.yield("atomic")
			ex.acquire(a[0])
			ex.release(a[0])
			v := ex.ctx.Bin(OpAdd, (*slot(a[0])).(*Term), a[1].(*Term))
			ex.set(slot(a[0]), v)
			return v
		})
	}
	bslot := func(p Value) *Value { f := (*p.(*Value)).(*Agg).f; return &f[len(f)-1] }
	op("(*sync/atomic.Bool).Load", func(ex *Exec, a []Value) Value {
		ex.yield("atomic")
		ex.acquire(a[0])
		return ex.ctx.Not(ex.ctx.Eq((*bslot(a[0])).(*Term), ex.ctx.BV(0, 32)))
	})
	op("(*sync/atomic.Bool).Store", func(ex *Exec, a []Value) Value {
		ex.yield("atomic")
		ex.release(a[0])
		ex.set(bslot(a[0]), ex.ctx.BoolToBV(a[1].(*Term), 32))
		return nil
	})

	// time
	op("time.Now", func(ex *Exec, a []Value) Value { return ex.timeVal() })
	tns := func(v Value) *Term { return v.(*Agg).f[1].(*Term) }
	op("time.Since", func(ex *Exec, a []Value) Value { return ex.ctx.Bin(OpSub, tns(ex.timeVal()), tns(a[0])) })
	op("time.Until", func(ex *Exec, a []Value) Value { return ex.ctx.Bin(OpSub, tns(a[0]), tns(ex.timeVal())) })
	op("(time.Time).Sub", func(ex *Exec, a []Value) Value { return ex.ctx.Bin(OpSub, tns(a[0]), tns(a[1])) })
	op("(time.Time).Add", func(ex *Exec, a []Value) Value {
		r := copyVal(a[0]).(*Agg)
		r.f[1] = ex.ctx.Bin(OpAdd, tns(a[0]), a[1].(*Term))
		return r
	})
	op("(time.Time).After", func(ex *Exec, a []Value) Value { return ex.ctx.Slt(tns(a[1]), tns(a[0])) })
	op("(time.Time).Before", func(ex *Exec, a []Value) Value { return ex.ctx.Slt(tns(a[0]), tns(a[1])) })
	op("(time.Time).Equal", func(ex *Exec, a []Value) Value { return ex.ctx.Eq(tns(a[0]), tns(a[1])) })
	op("(time.Time).IsZero", func(ex *Exec, a []Value) Value { return ex.ctx.Eq(tns(a[0]), ex.ctx.Int(0)) })
	op("(time.Time).UnixNano", func(ex *Exec, a []Value) Value { return tns(a[0]) })
	op("(time.Time).Unix", func(ex *Exec, a []Value) Value { return ex.ctx.Bin(OpSDiv, tns(a[0]), ex.ctx.Int(1e9)) })
	op("(time.Time).UnixMilli", func(ex *Exec, a []Value) Value { return ex.ctx.Bin(OpSDiv, tns(a[0]), ex.ctx.Int(1e6)) })
	op("(time.Duration).Seconds", func(ex *Exec, a []Value) Value {
		return ex.ctx.FBin(OpFDiv, ex.ctx.FFromInt(a[0].(*Term), true, SF64), ex.ctx.F64(1e9))
	})
	op("(time.Duration).Milliseconds", func(ex *Exec, a []Value) Value {
		return ex.ctx.Bin(OpSDiv, a[0].(*Term), ex.ctx.Int(1e6))
	})
	op("(time.Duration).String", func(ex *Exec, a []Value) Value { return concatStr(ex.decStr(a[0].(*Term), false), litStr("ns")) })
	op("time.Sleep", func(ex *Exec, a []Value) Value {
		d := ex.durOf(a[0])
		if d <= 0 {
			ex.gosched()
			return nil
		}
		ex.block("sleep at "+ex.pos1(), nil, ex.sc().now+d)
		return nil
	})
	tchan := func(ex *Exec) *ChanV {
		return ex.makeChan(1, ex.w.prog.typeOf("time", "Time")).(*ChanV)
	}
	tick := func(ex *Exec, c *ChanV) func() {
		return func() {
			if len(c.buf) < c.capn || liveW(c.recvq) {
				ex.inReady++ // not from the goroutine that happens to be running
				ex.doSend(c, ex.timeVal())
				ex.inReady--
			}
		}
	}
	op("time.After", func(ex *Exec, a []Value) Value {
		c := tchan(ex)
		ex.addTimer(ex.durOf(a[0]), 0, tick(ex, c))
		return c
	})
	op("time.Tick", func(ex *Exec, a []Value) Value {
		c := tchan(ex)
		d := ex.durOf(a[0])
		ex.addTimer(d, d, tick(ex, c))
		return c
	})
	vt := map[string]bool{}
	_ = vt
	mk := func(ex *Exec, tname string, c *ChanV, t *vtimer) Value {
		tt := ex.w.prog.typeOf("time", tname)
		p := new(Value)
		*p = ex.w.zero(tt)
		(*p).(*Agg).f[0] = c
		ex.uniq[fmt.Sprintf("timer%p", p)] = &Native{kind: "timer", v: t}
		return p
	}
	get := func(ex *Exec, p Value) *vtimer {
		n, _ := ex.uniq[fmt.Sprintf("timer%p", p)].(*Native)
		if n == nil {
			panic(unsupported("unknown timer"))
		}
		return n.v.(*vtimer)
	}
	op("time.NewTimer", func(ex *Exec, a []Value) Value {
		c := tchan(ex)
		return mk(ex, "Timer", c, ex.addTimer(ex.durOf(a[0]), 0, tick(ex, c)))
	})
	op("time.NewTicker", func(ex *Exec, a []Value) Value {
		c := tchan(ex)
		d := ex.durOf(a[0])
		return mk(ex, "Ticker", c, ex.addTimer(d, d, tick(ex, c)))
	})
	op("time.AfterFunc", func(ex *Exec, a []Value) Value {
		f := a[1].(*FuncV)
		return mk(ex, "Timer", nil, ex.addTimer(ex.durOf(a[0]), 0, func() {
			ex.startG("AfterFunc", func() { ex.callFuncV(f, nil, nil, nil) }, nil)
		}))
	})
	stop := func(ex *Exec, a []Value) Value {
		t := get(ex, a[0])
		was := t.on
		t.on = false
		// since Go 1.23 no stale value is received after Stop/Reset
		if c, _ := (*a[0].(*Value)).(*Agg).f[0].(*ChanV); c != nil {
			c.buf = nil
		}
		return ex.ctx.Bool(was)
	}
	op("(*time.Timer).Stop", stop)
	op("(*time.Ticker).Stop", func(ex *Exec, a []Value) Value { stop(ex, a); return nil })
	reset := func(ex *Exec, a []Value) Value {
		t := get(ex, a[0])
		was := t.on
		if c, _ := (*a[0].(*Value)).(*Agg).f[0].(*ChanV); c != nil {
			c.buf = nil
		}
		t.on = false
		s := ex.sc()
		d := ex.durOf(a[1])
		n := &vtimer{at: s.now + d, fire: t.fire, on: true, seq: s.seq + 1}
		if t.period > 0 {
			n.period = d
		}
		s.seq++
		s.timers = append(s.timers, n)
		ex.uniq[fmt.Sprintf("timer%p", a[0])] = &Native{kind: "timer", v: n}
		return ex.ctx.Bool(was)
	}
	op("(*time.Timer).Reset", reset)
	op("(*time.Ticker).Reset", func(ex *Exec, a []Value) Value { reset(ex, a); return nil })
}
