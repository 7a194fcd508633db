package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	cf        *cfn
	regs      []Value
	defers    []deferred
	ret       Value
	panicking *targetPanic
	deferOf   *frame
	cur       *cInstr
}

type deferred struct {
	fn   Value
	args []Value
	call *cInstr
}

type intrinsic func(ex *Exec, args []Value, call *cInstr) Value

func (fr *frame) get(o *operand) Value {
	if o.reg < 0 {
		return o.c
	}
	return fr.regs[o.reg]
}

const maxDepth = 3000

// callFn calls a function (intrinsic or interpreted).
func (ex *Exec) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	return ex.callFn2(fn, args, env, nil, nil)
}

func (ex *Exec) callFn2(fn *ssa.Function, args []Value, env []Value, ci *cInstr, deferOf *frame) Value {
	if it := ex.w.intrinsicFor(fn); it != nil {
		return it(ex, args, ci)
	}
	if ex.initMode {
		if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" && fn.Pkg != ex.initPkg {
			return nil // other packages are initialised lazily
		}
	}
	if fn.Pkg != nil && !ex.w.prog.interpretable(fn.Pkg.Pkg.Path()) && !ex.initMode {
		panic(unsupported("call to unmodelled function " + fn.String()))
	} else if ex.initMode && fn.Pkg != nil && !ex.w.prog.interpretable(fn.Pkg.Pkg.Path()) {
		return ex.w.zeroResult(fn.Signature)
	}
	if o := fn.Origin(); ex.initMode && fn.Pkg == nil && o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "reflect" {
		return ex.w.zeroResult(fn.Signature) // type descriptors in package variables
	}
	cf := ex.w.compile(fn)
	if len(ex.stack) > maxDepth {
		panic(pathEnd{endBudget, "call depth"})
	}
	fr := &frame{cf: cf, regs: make([]Value, cf.nregs), deferOf: deferOf}
	for i, p := range cf.params {
		fr.regs[p] = args[i]
	}
	for i, p := range cf.frees {
		fr.regs[p] = env[i]
	}
	if !ex.initMode {
		ex.w.encoded[cf.name]++
	}
	ex.stack = append(ex.stack, fr)
	n := len(ex.stack)
	r := ex.runFrame(fr)
	ex.stack = ex.stack[:n-1]
	return r
}

func (w *Worker) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return w.zero(sig.Results().At(0).Type())
	}
	return w.zero(sig.Results())
}

func (ex *Exec) runFrame(fr *frame) Value {
	if !fr.cf.hasDefer {
		ex.runBlocks(fr, fr.cf.blocks[0], nil, nil, false)
		return fr.ret
	}
	depth := len(ex.stack)
	ex.protect(fr, func() { ex.runBlocks(fr, fr.cf.blocks[0], nil, nil, false) })
	if fr.panicking != nil {
		ex.stack = ex.stack[:depth]
		ex.runDefers(fr)
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.cf.recover != nil {
			ex.runBlocks(fr, fr.cf.recover, nil, nil, false)
			return fr.ret
		}
		return ex.w.zeroResult(fr.cf.fn.Signature)
	}
	return fr.ret
}

func (ex *Exec) protect(fr *frame, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(*targetPanic); ok {
				fr.panicking = tp
				return
			}
			panic(r)
		}
	}()
	f()
}

func (ex *Exec) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := len(ex.stack)
		old := fr.panicking
		ex.protect2(fr, depth, func() {
			ex.doCall(fr, d.call, d.fn, d.args, fr)
		})
		_ = old
	}
}

func (ex *Exec) protect2(fr *frame, depth int, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(*targetPanic); ok {
				fr.panicking = tp
				ex.stack = ex.stack[:depth]
				return
			}
			panic(r)
		}
	}()
	f()
}

// runBlocks interprets from b until stop (exclusive) or a return. It reports whether stop was
// reached and the predecessor through which (nil: phis of stop are already set).
func (ex *Exec) runBlocks(fr *frame, b, prev, stop *cBlock, skipPhi bool) (bool, *cBlock) {
	first := true
	for {
		if b == stop && !first {
			return true, prev
		}
		first = false
		if !skipPhi && len(b.phis) > 0 {
			pi := -1
			for i, p := range b.preds {
				if p == prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				ph := b.phis[0]
				fr.regs[ph.dst] = fr.get(&ph.ops[pi])
			} else {
				var tmp [16]Value
				var vals []Value
				if len(b.phis) <= 16 {
					vals = tmp[:len(b.phis)]
				} else {
					vals = make([]Value, len(b.phis))
				}
				for i, ph := range b.phis {
					vals[i] = fr.get(&ph.ops[pi])
				}
				for i, ph := range b.phis {
					fr.regs[ph.dst] = vals[i]
				}
			}
		}
		skipPhi = false
		ex.steps += int64(len(b.body)) + 1
		if ex.steps > ex.budget {
			panic(pathEnd{endBudget, "instruction budget at " + ex.where()})
		}
		if ex.spec > 0 && ex.steps > ex.specLimit {
			panic(specAbort{"limit"})
		}
		var next *cBlock
	body:
		for i := range b.body {
			ci := &b.body[i]
			fr.cur = ci
			switch ci.op {
			case iJump:
				next = b.succs[0]
				break body
			case iIf:
				cond := fr.get(&ci.ops[0]).(*Term)
				if cond.op == OpConst {
					if cond.c == 1 {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break body
				}
				dir, merged := ex.symIf(fr, b, ci, cond)
				if merged {
					if ci.pdom == nil {
						return false, nil
					}
					b = ci.pdom
					if b == stop {
						return true, nil
					}
					skipPhi = true
					prev = nil
					next = nil
					goto continueOuter
				}
				if dir {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
				break body
			case iReturn:
				switch len(ci.ops) {
				case 0:
					fr.ret = nil
				case 1:
					fr.ret = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range ci.ops {
						t[j] = fr.get(&ci.ops[j])
					}
					fr.ret = t
				}
				return false, nil
			case iPanic:
				v := fr.get(&ci.ops[0])
				ifc, _ := v.(*Iface)
				panic(&targetPanic{v: ifc, msg: "panic: " + ex.panicText(ifc), stack: ex.where()})
			case iRunDefers:
				if len(fr.defers) > 0 {
					if ex.spec > 0 {
						panic(specAbort{"defers"})
					}
					ex.runDefers(fr)
					if fr.panicking != nil {
						p := fr.panicking
						panic(p)
					}
				}
			default:
				ex.step(fr, ci)
			}
		}
		prev, b = b, next
		continue
	continueOuter:
	}
}

func (ex *Exec) panicText(i *Iface) string {
	if i == nil {
		return "nil"
	}
	switch v := i.v.(type) {
	case *Str:
		return v.String()
	case *Term:
		return fmt.Sprint(v.c)
	}
	return i.t.String()
}

// ---------- symbolic branches with merging ----------

type armResult struct {
	phis   []Value
	ret    Value
	writes map[*Value]Value
	order  []*Value
	failed string
}

var mergeDebug = false

func (ex *Exec) symIf(fr *frame, b *cBlock, ci *cInstr, cond *Term) (dir, merged bool) {
	if cond.hasFloat {
		cond = ex.unfloat(cond)
		if cond.isConst() {
			return cond.isTrue(), false
		}
	}
	if ex.replaying() {
		d := ex.log[ex.pos]
		if d.k != dM {
			return ex.branch(cond), false
		}
		ex.pos++
		if d.chk != ex.chk(cond) {
			ex.diverged("merge")
		}
		if !ex.tryMerge(fr, b, ci, cond, ex.model, ex.model) {
			ex.diverged("merge failed on replay")
		}
		return false, true
	}
	tOK, fOK, mT, mF := ex.split(cond)
	if tOK && fOK && ci.mergeable && !ex.noMerge && !(ci.mergeFail >= 3 && ci.mergeFail > 2*ci.mergeOK) {
		pos := ex.pos
		save := append([]decision(nil), ex.log[pos:]...)
		ex.rec(decision{k: dM, chk: ex.chk(cond)})
		model := ex.model
		if ex.tryMerge(fr, b, ci, cond, mT, mF) {
			ci.mergeOK++
			ex.setModel(model)
			return false, true
		}
		ci.mergeFail++
		ex.setModel(model)
		ex.pos = pos
		ex.log = append(ex.log[:pos], save...)
	}
	return ex.resolve(cond, tOK, fOK, mT, mF), false
}

func (ex *Exec) tryMerge(fr *frame, b *cBlock, ci *cInstr, cond *Term, mT, mF Model) bool {
	jstart := len(ex.journal)
	npc := len(ex.pc)
	jon := ex.journalOn
	ex.journalOn = true
	if ex.spec == 0 {
		ex.specAlloc = map[*Value]struct{}{}
		ex.specLimit = ex.steps + 30000
	}
	ex.spec++
	depth := len(ex.stack)
	defN := len(fr.defers)
	savedInputs := len(ex.inputs)
	restore := func() {
		ex.undoTo(jstart)
		ex.pc = ex.pc[:npc]
		ex.stack = ex.stack[:depth]
		fr.defers = fr.defers[:defN]
	}
	nundec := len(ex.undec)
	finish := func() {
		ex.spec--
		ex.journalOn = jon
	}
	runArm := func(c *Term, m Model, start *cBlock) (res *armResult) {
		res = &armResult{}
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case specAbort:
					res.failed = x.why
				case *targetPanic:
					res.failed = "panic"
				case pathEnd:
					if x.kind == endDiverged || x.kind == endKilled {
						panic(r)
					}
					res.failed = x.msg
				default:
					panic(r)
				}
			}
		}()
		ex.addPC(c)
		ex.setModel(m)
		J := ci.pdom
		if start != J {
			reached, pv := ex.runBlocks(fr, start, b, J, false)
			if J == nil {
				res.ret = fr.ret
			} else {
				if !reached {
					res.failed = "returned"
					return
				}
				res.phis = ex.phiVals(fr, J, pv)
			}
		} else {
			res.phis = ex.phiVals(fr, J, b)
		}
		if len(ex.inputs) != savedInputs {
			res.failed = "new inputs"
			return
		}
		res.writes = map[*Value]Value{}
		for i := jstart; i < len(ex.journal); i++ {
			j := &ex.journal[i]
			if j.undo != nil {
				res.failed = "undo"
				return
			}
			if _, ok := res.writes[j.slot]; !ok {
				res.order = append(res.order, j.slot)
			}
			res.writes[j.slot] = *j.slot
		}
		return
	}
	a := runArm(cond, mT, b.succs[0])
	restore()
	if a.failed != "" {
		if mergeDebug {
			fmt.Printf("merge fail A %s: %s\n", fr.cf.name, a.failed)
		}
		ex.undec = ex.undec[:nundec]
		finish()
		return false
	}
	bb := runArm(ex.ctx.Not(cond), mF, b.succs[1])
	restore()
	if bb.failed != "" {
		if mergeDebug {
			fmt.Printf("merge fail B %s: %s\n", fr.cf.name, bb.failed)
		}
		ex.undec = ex.undec[:nundec]
		finish()
		return false
	}
	// merge
	var phis []Value
	ok := true
	if ci.pdom == nil {
		fr.ret, ok = ex.mergeVal(cond, a.ret, bb.ret)
	} else {
		phis = make([]Value, len(a.phis))
		for i := range a.phis {
			phis[i], ok = ex.mergeVal(cond, a.phis[i], bb.phis[i])
			if !ok {
				break
			}
		}
	}
	type wr struct {
		s *Value
		v Value
	}
	var ws []wr
	if ok {
		seen := map[*Value]bool{}
		for _, lst := range [2][]*Value{a.order, bb.order} {
			for _, s := range lst {
				if seen[s] {
					continue
				}
				seen[s] = true
				va, ina := a.writes[s]
				vb, inb := bb.writes[s]
				if !ina {
					va = *s
				}
				if !inb {
					vb = *s
				}
				if _, al := ex.specAlloc[s]; al && (!ina || !inb) {
					// allocated inside one arm: only that arm can see it
					if ina {
						ws = append(ws, wr{s, va})
					} else {
						ws = append(ws, wr{s, vb})
					}
					continue
				}
				v, good := ex.mergeVal(cond, va, vb)
				if !good {
					ok = false
					if mergeDebug {
						fmt.Printf("merge fail store %s: %T %T\n", fr.cf.name, va, vb)
					}
					break
				}
				ws = append(ws, wr{s, v})
			}
		}
	} else if mergeDebug {
		fmt.Printf("merge fail values %s\n", fr.cf.name)
	}
	finish()
	if !ok {
		ex.undec = ex.undec[:nundec]
		return false
	}
	for _, x := range ws {
		ex.set(x.s, x.v)
	}
	if ci.pdom != nil {
		for i, ph := range ci.pdom.phis {
			fr.regs[ph.dst] = phis[i]
		}
	}
	return true
}

func (ex *Exec) phiVals(fr *frame, J, pv *cBlock) []Value {
	r := make([]Value, len(J.phis))
	if pv == nil {
		for i, ph := range J.phis {
			r[i] = fr.regs[ph.dst]
		}
		return r
	}
	pi := -1
	for i, p := range J.preds {
		if p == pv {
			pi = i
			break
		}
	}
	for i, ph := range J.phis {
		r[i] = fr.get(&ph.ops[pi])
	}
	return r
}

func (ex *Exec) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.srt != y.srt {
			return nil, false
		}
		return ex.unfloat(ex.ctx.Ite(c, x, y)), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x == y || (x.lit && y.lit && x.s == y.s) {
			return x, true
		}
		if x.bytesOnly() && y.bytesOnly() && x.blen() == y.blen() && x.blen() <= 2 {
			xb, yb := ex.strBytes(x), ex.strBytes(y)
			ps := make([]part, len(xb))
			for i := range xb {
				ps[i] = part{k: pByte, t: ex.ctx.Ite(c, xb[i].(*Term), yb[i].(*Term))}
			}
			return mkStr(ps), true
		}
		if ex.sameStr(x, y) {
			return x, true
		}
		return nil, false
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		n := &Agg{f: make([]Value, len(x.f))}
		for i := range x.f {
			v, ok := ex.mergeVal(c, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			n.f[i] = v
		}
		return n, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			v, ok := ex.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	case *Value:
		y, ok := b.(*Value)
		return x, ok && x == y
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := ex.mergeVal(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return &Iface{t: x.t, v: v}, true
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return nil, false
		}
		if len(x) == 0 {
			if cap(x) == 0 || &x[:1][0] == &y[:1][0] {
				return x, true
			}
			return nil, false
		}
		return x, &x[0] == &y[0]
	case *ByteRope:
		y, ok := b.(*ByteRope)
		return x, ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return x, ok && x == y
	case *FuncV:
		y, ok := b.(*FuncV)
		return x, ok && (x == y || (x != nil && y != nil && x.fn == y.fn && len(x.env) == 0 && len(y.env) == 0 && x.native == nil && y.native == nil))
	case *ChanV:
		y, ok := b.(*ChanV)
		return x, ok && x == y
	case *Native:
		y, ok := b.(*Native)
		return x, ok && x == y
	case *SymPtr:
		y, ok := b.(*SymPtr)
		return x, ok && x == y
	case nil:
		return nil, b == nil
	}
	return nil, false
}

// ---------- instructions ----------

func (ex *Exec) step(fr *frame, ci *cInstr) {
	switch ci.op {
	case iAlloc:
		p := new(Value)
		*p = ex.w.zero(ci.t)
		ex.regAlloc(p)
		fr.regs[ci.dst] = p
	case iBinOp:
		fr.regs[ci.dst] = ex.binop(ci, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case iUnOp:
		if ex.race != nil && ci.tok == token.MUL {
			ex.accessPtr(fr.get(&ci.ops[0]), false)
		}
		fr.regs[ci.dst] = ex.unop(ci, fr.get(&ci.ops[0]))
	case iCall:
		fr.regs[ci.dst] = ex.call(fr, ci)
	case iChangeInterface, iChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case iConvert:
		fr.regs[ci.dst] = ex.convert(ci, fr.get(&ci.ops[0]))
	case iDefer:
		if ex.spec > 0 {
			panic(specAbort{"defer"})
		}
		fn, args := ex.prepCall(fr, ci)
		fr.defers = append(fr.defers, deferred{fn, args, ci})
	case iExtract:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[ci.n]
	case iField:
		fr.regs[ci.dst] = copyVal(fr.get(&ci.ops[0]).(*Agg).f[ci.n])
	case iFieldAddr:
		switch p := fr.get(&ci.ops[0]).(type) {
		case *Value:
			if p == nil {
				ex.rtPanic("invalid memory address or nil pointer dereference")
			}
			a, ok := (*p).(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address in %T (%s)", *p, ci.in)))
			}
			fr.regs[ci.dst] = &a.f[ci.n]
		case *SymPtr:
			fr.regs[ci.dst] = &SymPtr{base: p.base, idx: p.idx, path: append(append([]int(nil), p.path...), ci.n)}
		default:
			panic(unsupported(fmt.Sprintf("FieldAddr on %T", p)))
		}
	case iGo:
		if ex.spec > 0 {
			panic(specAbort{"go"})
		}
		fn, args := ex.prepCall(fr, ci)
		ex.goStmt(fn, args, ci)
	case iIndex:
		fr.regs[ci.dst] = ex.index(ci, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]).(*Term))
	case iIndexAddr:
		fr.regs[ci.dst] = ex.indexAddr(ci, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]).(*Term))
	case iLookup:
		if ex.race != nil {
			ex.accessMap(fr.get(&ci.ops[0]), false)
		}
		fr.regs[ci.dst] = ex.lookup(ci, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case iMakeChan:
		n := ex.concInt(fr.get(&ci.ops[0]).(*Term))
		fr.regs[ci.dst] = ex.makeChan(int(n), under(ci.in.(*ssa.MakeChan).Type()).(*types.Chan).Elem())
	case iMakeClosure:
		env := make([]Value, len(ci.ops))
		for i := range ci.ops {
			env[i] = fr.get(&ci.ops[i])
		}
		fr.regs[ci.dst] = &FuncV{fn: ci.in.(*ssa.MakeClosure).Fn.(*ssa.Function), env: env}
	case iMakeInterface:
		fr.regs[ci.dst] = &Iface{t: ci.t, v: copyVal(fr.get(&ci.ops[0]))}
	case iMakeMap:
		fr.regs[ci.dst] = newMap(under(ci.t).(*types.Map).Key())
	case iMakeSlice:
		mk := ci.in.(*ssa.MakeSlice)
		ln := ex.wide(fr.get(&ci.ops[0]), mk.Len).(*Term)
		cp := ex.wide(fr.get(&ci.ops[1]), mk.Cap).(*Term)
		fr.regs[ci.dst] = ex.makeSlice(under(ci.t).(*types.Slice).Elem(), ln, cp)
	case iMapUpdate:
		m := fr.get(&ci.ops[0]).(*MapV)
		if ex.race != nil {
			ex.accessMap(m, true)
		}
		ex.mapSet(m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case iNext:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(*iterV).next(ex, ci)
	case iRange:
		if ex.race != nil {
			ex.accessMap(fr.get(&ci.ops[0]), false)
		}
		fr.regs[ci.dst] = ex.rangeIter(ci, fr.get(&ci.ops[0]))
	case iSelect:
		fr.regs[ci.dst] = ex.selectStmt(fr, ci)
	case iSend:
		ex.chanSend(fr.get(&ci.ops[0]).(*ChanV), copyVal(fr.get(&ci.ops[1])))
	case iSlice:
		fr.regs[ci.dst] = ex.sliceBounds(ci.in.(*ssa.Slice), ci, fr)
	case iSliceToArrayPtr:
		s := ex.asSlice(fr.get(&ci.ops[0]))
		n := int(under(under(ci.t).(*types.Pointer).Elem()).(*types.Array).Len())
		if len(s) < n {
			ex.rtPanic("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = &Agg{f: s[:n:n]}
		fr.regs[ci.dst] = p
	case iStore:
		if ex.race != nil {
			ex.accessPtr(fr.get(&ci.ops[0]), true)
		}
		ex.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case iTypeAssert:
		fr.regs[ci.dst] = ex.typeAssert(ci, fr.get(&ci.ops[0]))
	default:
		panic(unsupported(fmt.Sprintf("instr %d", ci.op)))
	}
}

func (ex *Exec) makeSlice(et types.Type, ln, cp *Term) Value {
	bad := ex.ctx.Or(ex.ctx.Slt(ln, ex.ctx.BV(0, ln.srt)), ex.ctx.Slt(ex.sx64(cp), ex.sx64(ln)))
	if ex.branch(bad) {
		ex.rtPanic("makeslice: len out of range")
	}
	if ex.maxAlloc > 0 {
		sz := ex.w.prog.sizes.Sizeof(et)
		if sz < 1 {
			sz = 1
		}
		// first with a size that can be told natively
		ex.assertTrue(ex.ctx.Sle(ex.sx64(cp), ex.ctx.Int(max(ex.maxAlloc, 1<<26)/sz)), "allocation above the stated bound")
		ex.assertTrue(ex.ctx.Sle(ex.sx64(cp), ex.ctx.Int(ex.maxAlloc/sz)), "allocation above the stated bound")
	}
	n := ex.concInt(ln)
	m := ex.concInt(cp)
	if n > 1<<24 || m > 1<<24 {
		panic(unsupported(fmt.Sprintf("makeslice of %d", max(n, m))))
	}
	s := make([]Value, n, m)
	full := s[:m]
	z := ex.w.zero(et)
	for i := range full {
		if i == 0 {
			full[i] = z
		} else {
			full[i] = copyVal(z)
		}
	}
	ex.regSlice(s)
	return s
}

func (ex *Exec) sx64(t *Term) *Term { return ex.ctx.SExt(t, 64) }

func (ex *Exec) idx64(ci *cInstr, t *Term) *Term {
	if t.srt == 64 {
		return t
	}
	if ci.sgn {
		return ex.ctx.SExt(t, 64)
	}
	return ex.ctx.ZExt(t, 64)
}

// checkIdx validates 0 <= i < n, panicking in the program when violated.
func (ex *Exec) checkIdx(i *Term, n int) {
	if !ex.branch(ex.ctx.Ult(i, ex.ctx.BV(uint64(n), 64))) {
		if i.isConst() {
			ex.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.c), n))
		}
		ex.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (ex *Exec) indexAddr(ci *cInstr, x Value, i *Term) Value {
	var base []Value
	switch v := x.(type) {
	case *Value:
		if v == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		base = (*v).(*Agg).f
	case *SymPtr:
		// array inside a symbolically indexed element: resolve the outer index first
		o := ex.concretize(v.idx)
		base = pathGet(v.base[o], v.path).(*Agg).f
	default:
		base = ex.asSlice(x)
	}
	t := ex.idx64(ci, i)
	ex.checkIdx(t, len(base))
	if t.isConst() {
		return &base[t.c]
	}
	if lo, hi := t.ulo, t.uhi; lo == hi {
		return &base[lo]
	}
	return &SymPtr{base: base, idx: t}
}

func (ex *Exec) index(ci *cInstr, x Value, i *Term) Value {
	t := ex.idx64(ci, i)
	switch v := x.(type) {
	case *Agg:
		ex.checkIdx(t, len(v.f))
		if t.isConst() {
			return copyVal(v.f[t.c])
		}
		return ex.symLoad(&SymPtr{base: v.f, idx: t})
	case *Str:
		return ex.strIndex(v, t)
	}
	panic(unsupported(fmt.Sprintf("index of %T", x)))
}

func (ex *Exec) lookup(ci *cInstr, x, k Value) Value {
	if s, ok := x.(*Str); ok {
		return ex.strIndex(s, ex.idx64(ci, k.(*Term)))
	}
	m, _ := x.(*MapV)
	vt := under(ci.t).(*types.Map).Elem()
	e := ex.mapFind(m, k)
	if ci.n == 1 {
		if e != nil {
			return Tuple{copyVal(e.v), ex.ctx.tTrue}
		}
		return Tuple{ex.w.zero(vt), ex.ctx.tFalse}
	}
	if e != nil {
		return copyVal(e.v)
	}
	return ex.w.zero(vt)
}

// wide is an index operand in 64 bits, extended as its type says.
func (ex *Exec) wide(v Value, op ssa.Value) Value {
	t, ok := v.(*Term)
	if !ok || t == nil || t.srt == 64 {
		return v
	}
	if _, sgn, _ := scalarSort(op.Type()); sgn {
		return ex.ctx.SExt(t, 64)
	}
	return ex.ctx.ZExt(t, 64)
}

func (ex *Exec) sliceBounds(in *ssa.Slice, ci *cInstr, fr *frame) Value {
	return ex.sliceOp(ci, fr.get(&ci.ops[0]), ex.wide(fr.get(&ci.ops[1]), in.Low), ex.wide(fr.get(&ci.ops[2]), in.High), ex.wide(fr.get(&ci.ops[3]), in.Max))
}

func (ex *Exec) sliceOp(ci *cInstr, x, lo, hi, mx Value) Value {
	get := func(v Value, def int) (*Term, bool) {
		if v == nil {
			return ex.ctx.Int(int64(def)), false
		}
		t := v.(*Term)
		if t.srt < 64 {
			t = ex.ctx.SExt(t, 64)
		}
		return t, true
	}
	if s, ok := x.(*Str); ok {
		return ex.strSlice(s, lo, hi)
	}
	var base []Value
	isArr := false
	switch v := x.(type) {
	case *Value:
		if v == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		base = (*v).(*Agg).f
		isArr = true
	case *ByteRope:
		if lo == nil && hi == nil {
			return v
		}
		base = ex.asSlice(x)
	default:
		base = ex.asSlice(x)
	}
	_ = isArr
	l, _ := get(lo, 0)
	h, _ := get(hi, len(base))
	m, has := get(mx, cap(base))
	c := ex.ctx
	okc := c.And(c.Ule(l, h), c.Ule(h, m))
	okc = c.And(okc, c.Ule(m, c.Int(int64(cap(base)))))
	_ = has
	if !ex.branch(okc) {
		ex.rtPanic("slice bounds out of range")
	}
	li, hi2, mi := ex.concretize(l), ex.concretize(h), ex.concretize(m)
	if base == nil {
		return []Value(nil)
	}
	return base[li:hi2:mi]
}

func (ex *Exec) typeAssert(ci *cInstr, x Value) Value {
	i, _ := x.(*Iface)
	var v Value
	ok := false
	if i != nil {
		if it, is := under(ci.t).(*types.Interface); is {
			if ex.w.prog.implements(i.t, it) {
				ok = true
				v = i
			}
		} else if types.Identical(i.t, ci.t) {
			ok = true
			v = copyVal(i.v)
		}
	}
	if ci.n == 1 {
		if !ok {
			v = ex.w.zero(ci.t)
		}
		return Tuple{v, ex.ctx.Bool(ok)}
	}
	if !ok {
		if i == nil {
			ex.rtPanic("interface conversion: interface is nil, not " + ci.t.String())
		}
		ex.rtPanic("interface conversion: interface is " + i.t.String() + ", not " + ci.t.String())
	}
	return v
}

// ---------- calls ----------

func (ex *Exec) prepCall(fr *frame, ci *cInstr) (fn Value, args []Value) {
	cc := ci.call
	ops := ci.ops
	if cc.static == nil && cc.builtin == "" {
		fn = fr.get(&ops[0])
		ops = ops[1:]
	}
	args = make([]Value, len(ops))
	for i := range ops {
		args[i] = copyVal(fr.get(&ops[i]))
	}
	return
}

func (ex *Exec) call(fr *frame, ci *cInstr) Value {
	fn, args := ex.prepCall(fr, ci)
	return ex.doCall(fr, ci, fn, args, nil)
}

func (ex *Exec) doCall(fr *frame, ci *cInstr, fn Value, args []Value, deferOf *frame) Value {
	cc := ci.call
	switch {
	case cc.builtin != "":
		return ex.builtin(fr, ci, cc.builtin, args)
	case cc.static != nil:
		return ex.callFn2(cc.static, args, nil, ci, deferOf)
	case cc.invoke != nil:
		i, _ := fn.(*Iface)
		if i == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := ex.w.method(i.t, cc.invoke)
		return ex.callFn2(m, append([]Value{copyVal(i.v)}, args...), nil, ci, deferOf)
	}
	f, _ := fn.(*FuncV)
	return ex.callFuncV(f, args, ci, deferOf)
}

func (ex *Exec) callFuncV(f *FuncV, args []Value, ci *cInstr, deferOf *frame) Value {
	if f == nil {
		ex.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.native != nil {
		return f.native(ex, args)
	}
	return ex.callFn2(f.fn, args, f.env, ci, deferOf)
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.prog.lookupMethod(t, m)
	if f == nil {
		panic(unsupported("method " + m.String() + " on " + t.String()))
	}
	w.methods[k] = f
	return f
}

func (ex *Exec) lenOf(v Value) *Term {
	c := ex.ctx
	switch x := v.(type) {
	case *Str:
		return ex.strLen(x)
	case []Value:
		return c.Int(int64(len(x)))
	case *ByteRope:
		if x.mat != nil {
			return c.Int(int64(len(x.mat)))
		}
		return ex.strLen(x.s)
	case *MapV:
		if x == nil {
			return c.Int(0)
		}
		return c.Int(int64(x.n))
	case *ChanV:
		if x == nil {
			return c.Int(0)
		}
		return c.Int(int64(len(x.buf)))
	case *Value:
		if a, ok := (*x).(*Agg); ok {
			return c.Int(int64(len(a.f)))
		}
	case *Agg:
		return c.Int(int64(len(x.f)))
	}
	panic(unsupported(fmt.Sprintf("len of %T", v)))
}

func (ex *Exec) builtin(fr *frame, ci *cInstr, name string, args []Value) Value {
	c := ex.ctx
	switch name {
	case "len":
		return ex.lenOf(args[0])
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return c.Int(int64(cap(x)))
		case *ByteRope:
			return c.Int(int64(cap(ex.asSlice(x))))
		case *ChanV:
			return c.Int(int64(x.capn))
		}
		return ex.lenOf(args[0])
	case "append":
		if s, ok := args[1].(*Str); ok {
			a := ex.asSlice(args[0])
			if len(a) == 0 && !s.lit {
				return &ByteRope{s: s}
			}
			return ex.appendVals(a, ex.strBytes(s))
		}
		if br, ok := args[1].(*ByteRope); ok && br.mat == nil {
			if a, ok := args[0].([]Value); ok && len(a) == 0 && cap(a) == 0 {
				return &ByteRope{s: br.s}
			}
			if ar, ok := args[0].(*ByteRope); ok && ar.mat == nil {
				return &ByteRope{s: concatStr(ar.s, br.s)}
			}
		}
		a := ex.asSlice(args[0])
		b := ex.asSlice(args[1])
		if len(b) == 0 {
			return args[0]
		}
		return ex.appendVals(a, b)
	case "copy":
		dst := ex.asSlice(args[0])
		var src []Value
		if s, ok := args[1].(*Str); ok {
			src = ex.strBytes(s)
		} else {
			src = ex.asSlice(args[1])
		}
		n := min(len(dst), len(src))
		tmp := append([]Value(nil), src[:n]...)
		for i := 0; i < n; i++ {
			ex.storeSlot(&dst[i], tmp[i])
		}
		return c.Int(int64(n))
	case "delete":
		if ex.race != nil {
			ex.accessMap(args[0], true)
		}
		ex.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "close":
		ex.chanClose(args[0].(*ChanV))
		return nil
	case "panic":
		ifc, _ := args[0].(*Iface)
		panic(&targetPanic{v: ifc, msg: "panic: " + ex.panicText(ifc), stack: ex.where()})
	case "recover":
		if fr.deferOf != nil && fr.deferOf.panicking != nil && !fr.deferOf.panicking.exit {
			p := fr.deferOf.panicking
			fr.deferOf.panicking = nil
			if p.v == nil {
				return &Iface{t: types.Typ[types.String], v: litStr(p.msg)}
			}
			return p.v
		}
		return (*Iface)(nil)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if rt, ok := r.(*Term); ok {
				at := a.(*Term)
				_, sgn, _ := scalarSort(ci.t)
				lt := ex.less(at, rt, sgn)
				if name == "max" {
					lt = ex.less(rt, at, sgn)
				}
				r = c.Ite(lt, at, rt)
				continue
			}
			x, y := r.(*Str), a.(*Str)
			lt := ex.strLess(y, x)
			if name == "max" {
				lt = ex.strLess(x, y)
			}
			if ex.branch(lt) {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			for _, e := range ex.mapKeys(x) {
				ex.mapDelete(x, e.k)
			}
		default:
			s := ex.asSlice(x)
			for i := range s {
				ex.storeSlot(&s[i], ex.zeroLike(s[i]))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		p, _ := args[0].(*Value)
		if p == nil {
			ex.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		panic(unsupported("unsafe.String"))
	case "StringData", "SliceData", "Slice", "Add":
		panic(unsupported("unsafe." + name))
	}
	panic(unsupported("builtin " + name))
}

func (ex *Exec) less(a, b *Term, sgn bool) *Term {
	if isFloat(a.srt) {
		return ex.ctx.FCmp(OpFLt, a, b)
	}
	if sgn {
		return ex.ctx.Slt(a, b)
	}
	return ex.ctx.Ult(a, b)
}

// ---------- operators ----------

func (ex *Exec) unop(ci *cInstr, x Value) Value {
	c := ex.ctx
	switch ci.tok {
	case token.MUL:
		return ex.load(x)
	case token.NOT:
		return c.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if isFloat(t.srt) {
			return c.FUn(OpFNeg, 0, t)
		}
		return c.Neg(t)
	case token.XOR:
		return c.BNot(x.(*Term))
	case token.ARROW:
		ch, _ := x.(*ChanV)
		v, ok := ex.chanRecv(ch)
		if ci.n == 1 {
			return Tuple{v, c.Bool(ok)}
		}
		return v
	}
	panic(unsupported("unop " + ci.tok.String()))
}

func (ex *Exec) binop(ci *cInstr, x, y Value) Value {
	c := ex.ctx
	if ci.srt != 255 {
		if a, ok := x.(*Term); ok {
			b := y.(*Term)
			if a.hasFloat || b.hasFloat {
				a, b = ex.unfloat(a), ex.unfloat(b)
			}
			if isFloat(a.srt) {
				switch ci.tok {
				case token.ADD:
					return c.FBin(OpFAdd, a, b)
				case token.SUB:
					return c.FBin(OpFSub, a, b)
				case token.MUL:
					return c.FBin(OpFMul, a, b)
				case token.QUO:
					return c.FBin(OpFDiv, a, b)
				case token.EQL:
					return c.FCmp(OpFEq, a, b)
				case token.NEQ:
					return c.Not(c.FCmp(OpFEq, a, b))
				case token.LSS:
					return c.FCmp(OpFLt, a, b)
				case token.LEQ:
					return c.FCmp(OpFLe, a, b)
				case token.GTR:
					return c.FCmp(OpFLt, b, a)
				case token.GEQ:
					return c.FCmp(OpFLe, b, a)
				}
			}
			switch ci.tok {
			case token.ADD:
				return c.Bin(OpAdd, a, b)
			case token.SUB:
				return c.Bin(OpSub, a, b)
			case token.MUL:
				return c.Bin(OpMul, a, b)
			case token.QUO, token.REM:
				if ex.branch(c.Eq(b, c.BV(0, b.srt))) {
					ex.rtPanic("integer divide by zero")
				}
				if ci.tok == token.QUO {
					if ci.sgn {
						return c.Bin(OpSDiv, a, b)
					}
					return c.Bin(OpUDiv, a, b)
				}
				if ci.sgn {
					return c.Bin(OpSRem, a, b)
				}
				return c.Bin(OpURem, a, b)
			case token.AND:
				if a.srt == SBool {
					return c.And(a, b)
				}
				return c.Bin(OpBAnd, a, b)
			case token.OR:
				if a.srt == SBool {
					return c.Or(a, b)
				}
				return c.Bin(OpBOr, a, b)
			case token.XOR:
				return c.Bin(OpBXor, a, b)
			case token.AND_NOT:
				return c.Bin(OpBAnd, a, c.BNot(b))
			case token.SHL, token.SHR:
				if ci.n == 1 && b.slo < 0 { // signed shift count
					if ex.branch(c.Slt(b, c.BV(0, b.srt))) {
						ex.rtPanic("negative shift amount")
					}
				}
				// bring count to the width of a, saturating
				var cnt *Term
				if b.srt > a.srt {
					if b.uhi < uint64(a.srt) {
						cnt = c.Extract(b, int(a.srt)-1, 0)
					} else {
						cnt = c.Ite(c.Ult(b, c.BV(uint64(a.srt), b.srt)), c.Extract(b, int(a.srt)-1, 0), c.BV(uint64(a.srt), a.srt))
					}
				} else {
					cnt = c.ZExt(b, a.srt)
				}
				if ci.tok == token.SHL {
					return c.Bin(OpShl, a, cnt)
				}
				if ci.sgn {
					return c.Bin(OpAShr, a, cnt)
				}
				return c.Bin(OpLShr, a, cnt)
			case token.EQL:
				return c.Eq(a, b)
			case token.NEQ:
				return c.Not(c.Eq(a, b))
			case token.LSS:
				return ex.less(a, b, ci.sgn)
			case token.GTR:
				return ex.less(b, a, ci.sgn)
			case token.LEQ:
				return c.Not(ex.less(b, a, ci.sgn))
			case token.GEQ:
				return c.Not(ex.less(a, b, ci.sgn))
			}
		}
	}
	if a, ok := x.(*Str); ok {
		b := y.(*Str)
		switch ci.tok {
		case token.ADD:
			return concatStr(a, b)
		case token.EQL:
			return ex.strEq(a, b)
		case token.NEQ:
			return c.Not(ex.strEq(a, b))
		case token.LSS:
			return ex.strLess(a, b)
		case token.GTR:
			return ex.strLess(b, a)
		case token.LEQ:
			return c.Not(ex.strLess(b, a))
		case token.GEQ:
			return c.Not(ex.strLess(a, b))
		}
	}
	switch ci.tok {
	case token.EQL:
		return ex.eqVal(x, y)
	case token.NEQ:
		return c.Not(ex.eqVal(x, y))
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", ci.tok, x)))
}

func (ex *Exec) convert(ci *cInstr, x Value) Value {
	var from, to types.Type
	switch in := ci.in.(type) {
	case *ssa.Convert:
		from, to = in.X.Type(), in.Type()
	case *ssa.MultiConvert:
		from, to = in.X.Type(), in.Type()
	}
	return ex.convertT(x, from, to)
}

func (ex *Exec) convertT(x Value, from, to types.Type) Value {
	c := ex.ctx
	ut, uf := under(to), under(from)
	if ts, _, ok := scalarSort(to); ok {
		t, isT := x.(*Term)
		if !isT {
			panic(unsupported("convert " + from.String() + " -> " + to.String()))
		}
		_, fsgn, _ := scalarSort(from)
		_, tsgn, _ := scalarSort(to)
		switch {
		case t.srt == SBool:
			return t
		case isFloat(t.srt) && isFloat(ts):
			return c.FCvt(t, ts)
		case isFloat(t.srt):
			return ex.unfloat(c.FToInt(t, tsgn, ts))
		case isFloat(ts):
			return c.FFromInt(t, fsgn, ts)
		default:
			if ts <= t.srt {
				return c.Extract(t, int(ts)-1, 0)
			}
			if fsgn {
				return c.SExt(t, ts)
			}
			return c.ZExt(t, ts)
		}
	}
	if isString(to) {
		switch v := x.(type) {
		case *Str:
			return v
		case *Term:
			// rune -> string
			if v.isConst() {
				_, sgn, _ := scalarSort(from)
				r := int64(v.c)
				if sgn {
					r = sext(v.c, v.srt)
				}
				if r < 0 || r > 0x10ffff {
					r = utf8.RuneError
				}
				return litStr(string(rune(r)))
			}
			if ex.branch(c.Ult(v, c.BV(0x80, v.srt))) {
				return mkStr([]part{{k: pByte, t: c.Extract(v, 7, 0)}})
			}
			r := ex.concretize(v)
			return litStr(string(rune(sext(r, v.srt))))
		default:
			if sl, ok := uf.(*types.Slice); ok {
				if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Int32 {
					var ps []*Str
					for _, e := range ex.asSlice(x) {
						ps = append(ps, ex.convertT(e, types.Typ[types.Int32], types.Typ[types.String]).(*Str))
					}
					return concatStr(ps...)
				}
			}
			return ex.bytesToStr(x)
		}
	}
	if sl, ok := ut.(*types.Slice); ok {
		if s, ok := x.(*Str); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Int32 {
				var out []Value
				pos := 0
				for {
					r, n, ok := ex.decodeRune(s, pos)
					if !ok {
						break
					}
					out = append(out, r)
					pos += n
				}
				if out == nil {
					out = []Value{}
				}
				return out
			}
			if s.lit {
				return ex.strBytes(s)
			}
			return &ByteRope{s: s}
		}
		return x
	}
	switch ut.(type) {
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan, *types.Struct, *types.Array, *types.Interface:
		return x
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	panic(unsupported("convert " + from.String() + " -> " + to.String()))
}

// ---------- range ----------

type iterV struct {
	m     []*mapEntry
	s     *Str
	i     int
	kt    types.Type
	vt    types.Type
	isMap bool
	spec  int
}

func (ex *Exec) rangeIter(ci *cInstr, x Value) Value {
	switch v := x.(type) {
	case *Str:
		return &iterV{s: v, spec: ex.spec}
	case *MapV:
		mt := under(ci.t).(*types.Map)
		es := ex.mapKeys(v)
		if ex.mapPerm > 1 && len(es) > 1 && len(es) <= ex.mapPerm && ex.spec == 0 {
			es = ex.permute(es)
		}
		return &iterV{spec: ex.spec, m: es, isMap: true, kt: mt.Key(), vt: mt.Elem()}
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

func (ex *Exec) permute(es []*mapEntry) []*mapEntry {
	r := append([]*mapEntry(nil), es...)
	if len(r) <= 4 {
		for i := 0; i < len(r)-1; i++ {
			j := i + ex.choose(len(r)-i, "maporder")
			r[i], r[j] = r[j], r[i]
		}
		return r
	}
	if ex.choose(2, "maporder") == 1 {
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

// next on iterators is deterministic; iterators are only stepped outside of merged arms or
// entirely inside one (the frame re-executes the range instruction then).
func (it *iterV) next(ex *Exec, ci *cInstr) Value {
	c := ex.ctx
	if ex.spec != it.spec {
		panic(specAbort{"iterator"}) // engine side iteration state must not be shared between arms
	}
	if it.isMap {
		for it.i < len(it.m) {
			e := it.m[it.i]
			it.i++
			if e.dead {
				continue
			}
			return Tuple{c.tTrue, copyVal(e.k), copyVal(e.v)}
		}
		return Tuple{c.tFalse, ex.w.zero(it.kt), ex.w.zero(it.vt)}
	}
	r, n, ok := ex.decodeRune(it.s, it.i)
	if !ok {
		return Tuple{c.tFalse, c.Int(0), c.BV(0, 32)}
	}
	i := it.i
	it.i += n
	return Tuple{c.tTrue, c.Int(int64(i)), r}
}

// decodeRune decodes the rune at byte position pos.
func (ex *Exec) decodeRune(s *Str, pos int) (*Term, int, bool) {
	c := ex.ctx
	if s.lit {
		if pos >= len(s.s) {
			return nil, 0, false
		}
		r, n := utf8.DecodeRuneInString(s.s[pos:])
		return c.BV(uint64(uint32(r)), 32), n, true
	}
	bs := ex.strBytes(s)
	if pos >= len(bs) {
		return nil, 0, false
	}
	b0 := bs[pos].(*Term)
	if ex.branch(c.Ult(b0, c.BV(0x80, 8))) {
		return c.ZExt(b0, 32), 1, true
	}
	// general case: gather the concrete case split of the UTF-8 tables
	get := func(i int) *Term {
		if pos+i < len(bs) {
			return bs[pos+i].(*Term)
		}
		return nil
	}
	in := func(t *Term, lo, hi uint64) bool {
		if t == nil {
			return false
		}
		return ex.branch(c.And(c.Ule(c.BV(lo, 8), t), c.Ule(t, c.BV(hi, 8))))
	}
	bad := func() (*Term, int, bool) { return c.BV(utf8.RuneError, 32), 1, true }
	z := func(t *Term, mask uint64, sh uint64) *Term {
		return c.Bin(OpShl, c.Bin(OpBAnd, c.ZExt(t, 32), c.BV(mask, 32)), c.BV(sh, 32))
	}
	or := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = c.Bin(OpBOr, r, t)
		}
		return r
	}
	switch {
	case in(b0, 0xC2, 0xDF):
		if b1 := get(1); in(b1, 0x80, 0xBF) {
			return or(z(b0, 0x1f, 6), z(b1, 0x3f, 0)), 2, true
		}
		return bad()
	case in(b0, 0xE0, 0xEF):
		b1, b2 := get(1), get(2)
		lo, hi := uint64(0x80), uint64(0xBF)
		if ex.branch(c.Eq(b0, c.BV(0xE0, 8))) {
			lo = 0xA0
		} else if ex.branch(c.Eq(b0, c.BV(0xED, 8))) {
			hi = 0x9F
		}
		if in(b1, lo, hi) && in(b2, 0x80, 0xBF) {
			return or(z(b0, 0xf, 12), z(b1, 0x3f, 6), z(b2, 0x3f, 0)), 3, true
		}
		return bad()
	case in(b0, 0xF0, 0xF4):
		b1, b2, b3 := get(1), get(2), get(3)
		lo, hi := uint64(0x80), uint64(0xBF)
		if ex.branch(c.Eq(b0, c.BV(0xF0, 8))) {
			lo = 0x90
		} else if ex.branch(c.Eq(b0, c.BV(0xF4, 8))) {
			hi = 0x8F
		}
		if in(b1, lo, hi) && in(b2, 0x80, 0xBF) && in(b3, 0x80, 0xBF) {
			return or(z(b0, 7, 18), z(b1, 0x3f, 12), z(b2, 0x3f, 6), z(b3, 0x3f, 0)), 4, true
		}
		return bad()
	}
	return bad()
}

var _ = bits.Len
var _ = strings.Join
