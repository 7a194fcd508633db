package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- worker: state shared by all paths executed by one solver ----------

type Worker struct {
	prog     *Program
	ctx      *TermCtx
	solver   *Solver
	globals  map[*ssa.Global]*Value
	compiled map[*ssa.Function]*cfn
	intrOf   map[*ssa.Function]intrinsic
	intrSet  map[*ssa.Function]bool
	initSt   map[*ssa.Package]int
	bytes    [256]*Term
	methods  map[methKey]*ssa.Function
	jsonTI   map[types.Type]*jsonStruct
	regexes  map[string]*Regex
	rxCache  map[rxKey]*rxRes
	nBase    int
	encoded  map[string]int // functions executed symbolically -> instruction count
	eqUF     int
}

type methKey struct {
	t    types.Type
	name string
}

func NewWorker(p *Program) *Worker {
	w := &Worker{prog: p, ctx: NewTermCtx(), globals: map[*ssa.Global]*Value{}, compiled: map[*ssa.Function]*cfn{},
		intrOf: map[*ssa.Function]intrinsic{}, intrSet: map[*ssa.Function]bool{}, initSt: map[*ssa.Package]int{}, methods: map[methKey]*ssa.Function{},
		jsonTI: map[types.Type]*jsonStruct{}, regexes: map[string]*Regex{}, rxCache: map[rxKey]*rxRes{}, encoded: map[string]int{}}
	w.solver = NewSolver(w.ctx)
	for i := range w.bytes {
		w.bytes[i] = w.ctx.BV(uint64(i), 8)
	}
	return w
}

func (w *Worker) byteT(b byte) *Term { return w.bytes[b] }

func (w *Worker) globalPtr(g *ssa.Global, user *ssa.Function) Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	et := under(g.Type()).(*types.Pointer).Elem()
	if g.Name() != "init$guard" {
		w.ensureInit(g.Pkg)
		if p, ok := w.globals[g]; ok {
			return p
		}
	}
	p := new(Value)
	*p = w.zero(et)
	w.globals[g] = p
	if f, ok := globalOverride[g.String()]; ok {
		*p = f(w, et)
	}
	return p
}

// ensureInit runs the package initialiser (lazily, on first use of one of its globals).
func (w *Worker) ensureInit(pkg *ssa.Package) {
	if w.initSt[pkg] != 0 {
		return
	}
	w.initSt[pkg] = 1
	if !w.prog.interpretable(pkg.Pkg.Path()) {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	ex := newExec(w)
	ex.initMode = true
	ex.initPkg = pkg
	ex.callFn(f, nil, nil)
	w.initSt[pkg] = 2
}

// ---------- path termination ----------

type endKind int

const (
	endOK endKind = iota
	endInfeasible
	endUnsupported
	endBudget
	endDiverged
	endKilled
	endUndecided
	endViolated
)

type pathEnd struct {
	kind endKind
	msg  string
}

func unsupported(m string) pathEnd { return pathEnd{endUnsupported, m} }

type specAbort struct{ why string }

type targetPanic struct {
	v     *Iface
	msg   string
	stack string
	exit  bool // runtime.Goexit
}

// ---------- decisions ----------

const (
	dT uint8 = iota
	dF
	dFT
	dFF
	dM
	dC
	dN
	dA
)

type decision struct {
	k   uint8
	v   uint64
	chk uint32
}

type workItem struct {
	log   []decision
	model map[string]uint64
	depth int
}

type inputRec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	term *Term
	str  *Str
	vals []Value
}

type obsRec struct {
	name string
	typ  types.Type
	val  Value
}

type violation struct {
	msg   string
	kind  string // assert, panic, hang, globwrite
	model Model
	where string
}

type jent struct {
	slot *Value
	old  Value
	undo func()
}

// Exec executes one path.
type Exec struct {
	w   *Worker
	ctx *TermCtx

	log    []decision
	pos    int
	forked int // number of alternatives pushed

	pc      []*Term
	model   Model
	ev      *Evaluator
	byName  map[string]uint64
	nameCnt map[string]int
	inputs  []inputRec
	obs     []obsRec
	reachL  []string
	reach   map[string]int
	notes   map[string]int
	viol    []violation
	undec   []string

	journal   []jent
	journalOn bool
	spec      int
	specAlloc map[*Value]struct{}
	initMode  bool
	initPkg   *ssa.Package

	steps      int64
	budget     int64
	depth      int
	specLimit  int64
	noMerge    bool
	push       func(workItem)
	rng        uint64
	tier       int
	mapPerm    int
	randLeft   int
	freshN     int
	stack      []*frame
	sch        *sched
	uniq       map[string]Value
	asserts    int
	forbidGlob bool
	deadline   func() bool
	branches   int
	dialHook   *FuncV
	closed     bool
	transcript []string
	curRepoFn  string
	atomCache  map[uint32]*Str
	strUF      map[string]*Term
	maxAlloc   int64
	mapWrites  []*MapV
	digs       []*digitRun
	race       *raceSt
	inReady    int
}

func newExec(w *Worker) *Exec {
	return &Exec{w: w, ctx: w.ctx, nameCnt: map[string]int{}, reach: map[string]int{}, notes: map[string]int{}, budget: 1 << 40, model: Model{}, uniq: map[string]Value{}}
}

func (ex *Exec) replaying() bool { return ex.pos < len(ex.log) }

func (ex *Exec) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	ex.pc = append(ex.pc, t)
}

func (ex *Exec) setModel(m Model) {
	ex.model = m
	ex.ev = nil
}
func (ex *Exec) eval(t *Term) (uint64, bool) {
	if ex.model == nil {
		return 0, false
	}
	if ex.ev == nil || len(ex.ev.memo) > 100000 {
		ex.ev = NewEval(ex.model)
	}
	ex.ev.fail = false
	v := ex.ev.Eval(t)
	if ex.ev.fail {
		ex.ev = nil
		return 0, false
	}
	return v, true
}

// slice returns the constraints sharing variables (transitively) with t.
func (ex *Exec) slice(t *Term) []*Term {
	vs := map[uint32]bool{}
	for _, v := range t.Vars() {
		vs[v] = true
	}
	used := make([]bool, len(ex.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range ex.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.Vars() {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.Vars() {
					if !vs[v] {
						vs[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// feasible decides pc && t; the returned model extends the current one.
func (ex *Exec) feasible(t *Term) (SatResult, Model) {
	if t.isTrue() {
		return Sat, ex.model
	}
	if t.isFalse() {
		return Unsat, nil
	}
	if ex.deadline != nil && ex.deadline() {
		panic(pathEnd{endKilled, "time budget"})
	}
	cs := append(ex.slice(t), t)
	r, m := ex.w.solver.Check(cs)
	if r == Sat {
		nm := make(Model, len(ex.model)+len(m))
		for k, v := range ex.model {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		return Sat, nm
	}
	return r, nil
}

func (ex *Exec) chk(t *Term) uint32 {
	return uint32(t.op)<<24 | uint32(t.srt)<<16 | uint32(t.depth)&0xffff
}

// split decides both sides of cond.
func (ex *Exec) split(cond *Term) (tOK, fOK bool, mT, mF Model) {
	ex.branches++
	v, ok := ex.eval(cond)
	nc := ex.ctx.Not(cond)
	if ok && v == 1 {
		mT, tOK = ex.model, true
		r, m := ex.feasible(nc)
		if r == Unknown {
			ex.undec = append(ex.undec, "branch")
		}
		fOK, mF = r == Sat, m
		return
	}
	if ok {
		mF, fOK = ex.model, true
		r, m := ex.feasible(cond)
		if r == Unknown {
			ex.undec = append(ex.undec, "branch")
		}
		tOK, mT = r == Sat, m
		return
	}
	r1, m1 := ex.feasible(cond)
	r2, m2 := ex.feasible(nc)
	if r1 == Unknown || r2 == Unknown {
		ex.undec = append(ex.undec, "branch")
	}
	return r1 == Sat, r2 == Sat, m1, m2
}

func (ex *Exec) rec(d decision) {
	ex.log = append(ex.log[:ex.pos], d)
	ex.pos++
}

func (ex *Exec) diverged(what string) {
	panic(pathEnd{endDiverged, "replay divergence: " + what})
}

// branch makes a path decision on cond.
func (ex *Exec) branch(cond *Term) bool {
	if cond.op == OpConst {
		return cond.c == 1
	}
	if ex.replaying() {
		d := ex.log[ex.pos]
		ex.pos++
		if d.k > dFF || d.chk != ex.chk(cond) {
			ex.diverged("branch")
		}
		switch d.k {
		case dT:
			ex.addPC(cond)
			return true
		case dF:
			ex.addPC(ex.ctx.Not(cond))
			return false
		case dFT:
			return true
		}
		return false
	}
	tOK, fOK, mT, mF := ex.split(cond)
	return ex.resolve(cond, tOK, fOK, mT, mF)
}

func (ex *Exec) resolve(cond *Term, tOK, fOK bool, mT, mF Model) bool {
	ck := ex.chk(cond)
	switch {
	case tOK && !fOK:
		ex.rec(decision{k: dFT, chk: ck})
		ex.setModel(mT)
		return true
	case fOK && !tOK:
		ex.rec(decision{k: dFF, chk: ck})
		ex.setModel(mF)
		return false
	case !tOK && !fOK:
		panic(pathEnd{endUndecided, "neither side decided feasible"})
	}
	if ex.spec > 0 {
		panic(specAbort{"fork"})
	}
	// current model picks the side we continue on
	v, ok := ex.eval(cond)
	takeT := !ok || v == 1
	if takeT {
		ex.pushAlt(decision{k: dF, chk: ck}, mF)
		ex.rec(decision{k: dT, chk: ck})
		ex.addPC(cond)
		ex.setModel(mT)
		return true
	}
	ex.pushAlt(decision{k: dT, chk: ck}, mT)
	ex.rec(decision{k: dF, chk: ck})
	ex.addPC(ex.ctx.Not(cond))
	ex.setModel(mF)
	return false
}

func (ex *Exec) pushAlt(d decision, m Model) {
	if ex.push == nil {
		panic(pathEnd{endUnsupported, "fork in non-exploring context"})
	}
	if forkDebug {
		forkMu.Lock()
		forkAt[ex.where()]++
		forkMu.Unlock()
	}
	lg := make([]decision, ex.pos+1)
	copy(lg, ex.log[:ex.pos])
	lg[ex.pos] = d
	ex.forked++
	ex.push(workItem{log: lg, model: ex.namedModel(m), depth: len(lg)})
}

func (ex *Exec) namedModel(m Model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for _, in := range ex.inputs {
		if in.term != nil && in.term.op == OpVar {
			if v, ok := m[in.term.id]; ok {
				r[in.term.name] = v
			}
		}
	}
	return r
}

// choose makes an n-way decision with no solver involvement.
func (ex *Exec) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if ex.replaying() {
		d := ex.log[ex.pos]
		ex.pos++
		if d.k != dN || d.chk != uint32(n) {
			ex.diverged("choose " + what)
		}
		return int(d.v)
	}
	if ex.spec > 0 {
		panic(specAbort{"choose"})
	}
	for i := n - 1; i >= 1; i-- {
		ex.pushAlt(decision{k: dN, v: uint64(i), chk: uint32(n)}, ex.model)
	}
	ex.rec(decision{k: dN, v: 0, chk: uint32(n)})
	return 0
}

// concretize picks a value for t, forking over all its feasible values.
func (ex *Exec) concretize(t *Term) uint64 {
	for {
		if t.isConst() {
			return t.c
		}
		var v uint64
		if ex.replaying() {
			d := ex.log[ex.pos]
			ex.pos++
			if d.k != dC {
				ex.diverged("concretize")
			}
			v = d.v
		} else {
			mv, ok := ex.eval(t)
			if !ok {
				r, m := ex.feasible(ex.ctx.tTrue)
				_ = r
				ex.setModel(m)
				mv, _ = ex.eval(t)
			}
			v = mv
			ex.rec(decision{k: dC, v: v})
		}
		if ex.branch(ex.ctx.Eq(t, ex.ctx.BV(v, t.srt))) {
			return v
		}
	}
}

func (ex *Exec) concInt(t *Term) int64 { return sext(ex.concretize(t), t.srt) }

func (ex *Exec) assume(cond *Term) {
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		panic(pathEnd{endInfeasible, "assume"})
	}
	if ex.replaying() {
		d := ex.log[ex.pos]
		ex.pos++
		if d.k != dA {
			ex.diverged("assume")
		}
		ex.addPC(cond)
		return
	}
	if ex.spec > 0 {
		panic(specAbort{"assume"})
	}
	if v, ok := ex.eval(cond); !ok || v == 0 {
		r, m := ex.feasible(cond)
		if r == Unsat {
			panic(pathEnd{endInfeasible, "assume"})
		}
		if r == Unknown {
			ex.undec = append(ex.undec, "assume")
			panic(pathEnd{endUndecided, "assume"})
		}
		ex.setModel(m)
	}
	ex.rec(decision{k: dA})
	ex.addPC(cond)
}

func (ex *Exec) assertTrue(cond *Term, msg string) {
	ex.asserts++
	if cond.isTrue() {
		return
	}
	if ex.replaying() {
		d := ex.log[ex.pos]
		ex.pos++
		if d.k != dA {
			ex.diverged("assert")
		}
		if d.v == 1 {
			ex.addPC(cond)
		}
		return
	}
	if ex.spec > 0 {
		panic(specAbort{"assert"})
	}
	nc := ex.ctx.Not(cond)
	var bad Model
	if v, ok := ex.eval(cond); ok && v == 0 {
		bad = ex.model
	} else {
		r, m := ex.feasible(nc)
		switch r {
		case Unsat:
			ex.rec(decision{k: dA})
			return
		case Unknown:
			ex.undec = append(ex.undec, "assert: "+msg)
			ex.rec(decision{k: dA})
			return
		}
		bad = m
	}
	ex.viol = append(ex.viol, violation{msg: msg, kind: "assert", model: bad, where: ex.where()})
	r, m := ex.feasible(cond)
	if r != Sat {
		panic(pathEnd{endViolated, msg})
	}
	ex.setModel(m)
	ex.rec(decision{k: dA, v: 1})
	ex.addPC(cond)
}

func (ex *Exec) where() string {
	var sb strings.Builder
	n := 0
	for i := len(ex.stack) - 1; i >= 0 && n < 12; i-- {
		fr := ex.stack[i]
		pos := ""
		if fr.cur != nil {
			p := ex.w.prog.fset.Position(fr.cur.in.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
			}
		}
		fmt.Fprintf(&sb, "%s %s\n", fr.cf.name, pos)
		n++
	}
	return sb.String()
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	if i := strings.LastIndex(f, "/src/"); i >= 0 {
		return f[i+5:]
	}
	return f
}

// ---------- variables ----------

func (ex *Exec) occName(name string) string {
	n := ex.nameCnt[name]
	ex.nameCnt[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

// newVar creates the symbolic input; lo/hi restrict it (signed when sgn).
func (ex *Exec) newVar(name, kind string, srt uint8, sgn bool, lo, hi uint64, ranged bool) *Term {
	nm := ex.occName(name)
	key := nm + "/" + kind
	if ranged {
		key = fmt.Sprintf("%s[%d,%d]", key, lo, hi)
	}
	t := ex.ctx.Var(key, srt)
	if ranged && t.varsOK == false {
		t.Vars()
		if sgn {
			t.slo, t.shi = int64(lo), int64(hi)
		} else {
			t.ulo, t.uhi = lo, hi
		}
		t.recon()
	}
	if v, ok := ex.byName[key]; ok {
		ex.model[t.id] = v
		ex.ev = nil
	}
	ex.inputs = append(ex.inputs, inputRec{Name: nm, Kind: kind, term: t})
	return t
}

func (ex *Exec) fresh(srt uint8, why string) *Term {
	ex.freshN++
	return ex.newVar("!"+why, "fresh", srt, false, 0, 0, false)
}

// ---------- memory ----------

func (ex *Exec) set(slot *Value, v Value) {
	if ex.journalOn {
		ex.journal = append(ex.journal, jent{slot: slot, old: *slot})
	}
	*slot = v
}

func (ex *Exec) onUndo(f func()) {
	if ex.journalOn {
		if ex.spec > 0 {
			panic(specAbort{"non-scalar side effect"})
		}
		ex.journal = append(ex.journal, jent{undo: f})
	}
}

func (ex *Exec) undoTo(n int) {
	for i := len(ex.journal) - 1; i >= n; i-- {
		j := &ex.journal[i]
		if j.undo != nil {
			j.undo()
		} else {
			*j.slot = j.old
		}
	}
	ex.journal = ex.journal[:n]
}

func (ex *Exec) storeSlot(slot *Value, v Value) {
	if a, ok := v.(*Agg); ok {
		dst, ok := (*slot).(*Agg)
		if !ok || len(dst.f) != len(a.f) {
			ex.set(slot, copyVal(v))
			return
		}
		if dst == a {
			return
		}
		for i := range a.f {
			ex.storeSlot(&dst.f[i], a.f[i])
		}
		return
	}
	ex.set(slot, v)
}

func (ex *Exec) regAlloc(slot *Value) {
	if ex.spec == 0 {
		return
	}
	ex.specAlloc[slot] = struct{}{}
	if a, ok := (*slot).(*Agg); ok {
		for i := range a.f {
			ex.regAlloc(&a.f[i])
		}
	}
}
func (ex *Exec) regSlice(s []Value) {
	if ex.spec == 0 {
		return
	}
	s = s[:cap(s)]
	for i := range s {
		ex.regAlloc(&s[i])
	}
}

func (ex *Exec) rtPanic(msg string) {
	panic(&targetPanic{v: &Iface{t: ex.w.prog.runtimeErrT, v: litStr("runtime error: " + msg)}, msg: "runtime error: " + msg, stack: ex.whereIfLive()})
}
func (ex *Exec) whereIfLive() string { return ex.where() }

func (ex *Exec) load(p Value) Value {
	switch q := p.(type) {
	case *Value:
		if q == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*q)
	case *SymPtr:
		return ex.symLoad(q)
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

func (ex *Exec) store(p, v Value) {
	switch q := p.(type) {
	case *Value:
		if q == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		ex.storeSlot(q, v)
	case *SymPtr:
		ex.symStore(q, v)
	default:
		panic(unsupported(fmt.Sprintf("store through %T", p)))
	}
}

func pathGet(v Value, path []int) Value {
	for _, i := range path {
		v = v.(*Agg).f[i]
	}
	return v
}
func pathSlot(slot *Value, path []int) *Value {
	for _, i := range path {
		slot = &(*slot).(*Agg).f[i]
	}
	return slot
}

const symIdxLimit = 4096

func (ex *Exec) symLoad(q *SymPtr) Value {
	lo, hi := q.idx.ulo, q.idx.uhi
	if hi >= uint64(len(q.base)) {
		hi = uint64(len(q.base)) - 1
	}
	if hi-lo < symIdxLimit {
		allTerm := true
		for i := lo; i <= hi; i++ {
			if _, ok := pathGet(q.base[i], q.path).(*Term); !ok {
				allTerm = false
				break
			}
		}
		if allTerm {
			return ex.iteTree(q, lo, hi)
		}
	}
	i := ex.concretize(q.idx)
	return copyVal(pathGet(q.base[i], q.path))
}

// iteTree builds a selection over elements lo..hi, collapsing runs of equal values.
func (ex *Exec) iteTree(q *SymPtr, lo, hi uint64) *Term {
	c := ex.ctx
	type run struct {
		from, to uint64
		t        *Term
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		t := pathGet(q.base[i], q.path).(*Term)
		if n := len(runs); n > 0 && runs[n-1].t == t {
			runs[n-1].to = i
		} else {
			runs = append(runs, run{i, i, t})
		}
	}
	if t := ex.constTable(q.idx, lo, hi, func(i uint64) *Term { return pathGet(q.base[i], q.path).(*Term) }, len(runs)); t != nil {
		return t
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return runs[a].t
		}
		m := (a + b) / 2
		return c.Ite(c.Ule(q.idx, c.BV(runs[m].to, q.idx.srt)), build(a, m), build(m+1, b))
	}
	return build(0, len(runs)-1)
}

// constTable selects from a table of constants by the bits of the index or, if the index is a function of one small
// variable, by the bits of that variable. Where the index is out of range, which is excluded before, any value does.
func (ex *Exec) constTable(idx *Term, lo, hi uint64, at func(uint64) *Term, runs int) *Term {
	if runs <= 8 || hi-lo > 1<<12 {
		return nil
	}
	for i := lo; i <= hi; i++ {
		if !at(i).isConst() {
			return nil
		}
	}
	c := ex.ctx
	sel, from, to, get := idx, lo, hi, at
	if vs := idx.Vars(); len(vs) == 1 && vs[0] != 0 {
		if v := c.varOf[vs[0]]; v != nil {
			if isBV(v.srt) && (v.srt <= 8 || v.uhi-v.ulo < 512 && v.slo >= 0) {
				tab := map[uint64]*Term{}
				for x := v.ulo; x <= v.uhi; x++ {
					i := NewEval(Model{v.id: x}).Eval(idx)
					if i < lo || i > hi {
						i = lo
					}
					tab[x] = at(i)
				}
				sel, from, to, get = v, v.ulo, v.uhi, func(x uint64) *Term { return tab[x] }
			}
		}
	}
	nb := bits.Len64(to)
	var build func(b int, base uint64) *Term
	build = func(b int, base uint64) *Term {
		if b < 0 {
			return get(min(max(base, from), to))
		}
		l0, l1 := base, base|1<<uint(b)
		switch {
		case l1 > to:
			return build(b-1, l0)
		case l1-1 < from:
			return build(b-1, l1)
		}
		return c.Ite(c.Eq(c.Extract(sel, b, b), c.BV(1, 1)), build(b-1, l1), build(b-1, l0))
	}
	return build(nb-1, 0)
}

func (ex *Exec) symStore(q *SymPtr, v Value) {
	lo, hi := q.idx.ulo, q.idx.uhi
	if hi >= uint64(len(q.base)) {
		hi = uint64(len(q.base)) - 1
	}
	nv, isT := v.(*Term)
	if isT && hi-lo < symIdxLimit {
		for i := lo; i <= hi; i++ {
			slot := pathSlot(&q.base[i], q.path)
			old := (*slot).(*Term)
			n := ex.ctx.Ite(ex.ctx.Eq(q.idx, ex.ctx.BV(i, q.idx.srt)), nv, old)
			if n != old {
				ex.set(slot, n)
			}
		}
		return
	}
	i := ex.concretize(q.idx)
	ex.storeSlot(pathSlot(&q.base[i], q.path), v)
}

// ---------- equality ----------

func (ex *Exec) eqVal(a, b Value) *Term {
	c := ex.ctx
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return c.tFalse
		}
		if isFloat(x.srt) {
			return c.FCmp(OpFEq, x, y)
		}
		return c.Eq(x, y)
	case *Str:
		return ex.strEq(x, b.(*Str))
	case *Agg:
		y := b.(*Agg)
		r := c.tTrue
		for i := range x.f {
			r = c.And(r, ex.eqVal(x.f[i], y.f[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Value:
		y, ok := b.(*Value)
		return c.Bool(ok && x == y)
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			if b == nil {
				return c.Bool(x == nil)
			}
			panic(unsupported("iface compare"))
		}
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.tFalse
		}
		switch under(x.t).(type) {
		case *types.Slice, *types.Map, *types.Signature:
			ex.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return ex.eqVal(x.v, y.v)
	case *ChanV:
		y, ok := b.(*ChanV)
		return c.Bool(ok && x == y)
	case *MapV:
		y, _ := b.(*MapV)
		return c.Bool(x == y)
	case *FuncV:
		y, _ := b.(*FuncV)
		return c.Bool(x == nil && y == nil || x == y)
	case []Value:
		switch y := b.(type) {
		case []Value:
			return c.Bool(x == nil && y == nil) // only nil comparison is legal
		case *ByteRope:
			return c.tFalse
		}
	case *ByteRope:
		return c.tFalse // compared to nil
	case *SymPtr:
		return c.tFalse
	case nil:
		switch y := b.(type) {
		case nil:
			return c.tTrue
		case *Iface:
			return c.Bool(y == nil)
		}
	}
	panic(unsupported(fmt.Sprintf("eq %T %T", a, b)))
}

// ---------- maps ----------

func keyStr(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("t%d:%d", x.srt, x.c), true
		}
	case *Str:
		if x.lit {
			return "s" + x.s, true
		}
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *Agg:
		s := "a("
		for _, f := range x.f {
			k, ok := keyStr(f)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return s + ")", true
	case *Iface:
		if x == nil {
			return "nil", true
		}
		k, ok := keyStr(x.v)
		return "i" + x.t.String() + ":" + k, ok
	case *ChanV:
		return fmt.Sprintf("c%p", x), true
	}
	return "", false
}

func newMap(kt types.Type) *MapV { return &MapV{idx: map[string]*mapEntry{}, kt: kt} }

func (ex *Exec) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, ok := keyStr(k)
	if ok && !m.symKeys {
		return m.idx[ks]
	}
	if ok {
		if e := m.idx[ks]; e != nil {
			return e
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if ex.branch(ex.eqVal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (ex *Exec) mapSet(m *MapV, k, v Value) {
	if m == nil {
		panic(&targetPanic{v: &Iface{t: ex.w.prog.runtimeErrT, v: litStr("assignment to entry in nil map")}, msg: "assignment to entry in nil map", stack: ex.where()})
	}
	if e := ex.mapFind(m, k); e != nil {
		old := e.v
		ex.mapWrites = append(ex.mapWrites, m)
		ex.onUndo(func() { e.v = old })
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	ks, ok := keyStr(k)
	wasSym := m.symKeys
	n := len(m.entries)
	ex.mapWrites = append(ex.mapWrites, m)
	ex.onUndo(func() {
		m.entries = m.entries[:n]
		m.n--
		m.symKeys = wasSym
		if ok {
			delete(m.idx, ks)
		}
	})
	m.entries = append(m.entries, e)
	m.n++
	if ok {
		m.idx[ks] = e
	} else {
		m.symKeys = true
	}
}

func (ex *Exec) mapDelete(m *MapV, k Value) {
	e := ex.mapFind(m, k)
	if e == nil {
		return
	}
	ks, ok := keyStr(e.k)
	ex.mapWrites = append(ex.mapWrites, m)
	ex.onUndo(func() {
		e.dead = false
		m.n++
		if ok {
			m.idx[ks] = e
		}
	})
	e.dead = true
	m.n--
	if ok {
		delete(m.idx, ks)
	}
}

func (ex *Exec) mapKeys(m *MapV) []*mapEntry {
	var r []*mapEntry
	if m == nil {
		return nil
	}
	for _, e := range m.entries {
		if !e.dead {
			r = append(r, e)
		}
	}
	return r
}

// ---------- slices ----------

func (ex *Exec) asSlice(v Value) []Value {
	switch x := v.(type) {
	case []Value:
		return x
	case *ByteRope:
		if x.mat == nil {
			b := ex.strBytes(x.s)
			if b == nil {
				b = []Value{}
			}
			x.mat = b[:len(b):len(b)]
		}
		return x.mat
	case nil:
		return nil
	}
	panic(unsupported(fmt.Sprintf("asSlice %T", v)))
}

func (ex *Exec) bytesToStr(v Value) *Str {
	switch x := v.(type) {
	case *ByteRope:
		if x.mat == nil {
			return x.s
		}
		return ex.bytesToStr(x.mat)
	case []Value:
		ps := make([]part, 0, 8)
		var lit []byte
		for _, e := range x {
			t := e.(*Term)
			if t.isConst() {
				lit = append(lit, byte(t.c))
				continue
			}
			if lit != nil {
				ps = append(ps, part{k: pLit, s: string(lit)})
				lit = nil
			}
			ps = append(ps, part{k: pByte, t: t})
		}
		if lit != nil {
			ps = append(ps, part{k: pLit, s: string(lit)})
		}
		return mkStr(ps)
	case nil:
		return emptyStr
	}
	panic(unsupported(fmt.Sprintf("bytesToStr %T", v)))
}

func (ex *Exec) appendVals(a, b []Value) []Value {
	if len(b) == 0 {
		return a
	}
	n := len(a) + len(b)
	if n <= cap(a) {
		r := a[:n]
		for i, v := range b {
			ex.storeSlot(&r[len(a)+i], v)
		}
		return r
	}
	nc := cap(a) * 2
	if cap(a) >= 256 {
		nc = cap(a) + cap(a)/4 + 192
	}
	if nc < n {
		nc = n
	}
	r := make([]Value, n, nc)
	for i, v := range a {
		r[i] = copyVal(v)
	}
	for i, v := range b {
		r[len(a)+i] = copyVal(v)
	}
	// spare capacity keeps a usable zero value of the element type
	if nc > n {
		z := ex.zeroLike(r[0])
		full := r[:nc]
		for i := n; i < nc; i++ {
			full[i] = copyVal(z)
		}
	}
	ex.regSlice(r)
	return r
}

func (ex *Exec) zeroLike(v Value) Value {
	switch x := v.(type) {
	case *Term:
		if x.srt == SBool {
			return ex.ctx.tFalse
		}
		if isFloat(x.srt) {
			return ex.ctx.FC(0, x.srt)
		}
		return ex.ctx.BV(0, x.srt)
	case *Str:
		return emptyStr
	case *Agg:
		n := &Agg{f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = ex.zeroLike(x.f[i])
		}
		return n
	case *Value, *SymPtr:
		return (*Value)(nil)
	case *Iface:
		return (*Iface)(nil)
	case []Value, *ByteRope:
		return []Value(nil)
	case *MapV:
		return (*MapV)(nil)
	case *FuncV:
		return (*FuncV)(nil)
	case *ChanV:
		return (*ChanV)(nil)
	}
	return nil
}

// sortedKeys helper
func sortedKeys(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var forkDebug = os.Getenv("VENGINE_FORKS") != ""
var forkMu sync.Mutex
var forkAt = map[string]int{}

func dumpForks() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range forkAt {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i == 12 {
			break
		}
		fmt.Printf("forks %d at %s\n", x.n, x.k)
	}
}
