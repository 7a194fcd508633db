package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBinOp
	iUnOp
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iMultiConvert
	iNext
	iPanic
	iPhi
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArrayPtr
	iStore
	iTypeAssert
)

type operand struct {
	reg int // -1: constant
	c   Value
}

type cInstr struct {
	op   iop
	dst  int
	ops  []operand
	in   ssa.Instruction
	n    int
	t    types.Type
	tok  token.Token
	srt  uint8
	sgn  bool
	call *cCall
	// If
	pdom      *cBlock // nil = function exit
	mergeable bool
	mergeFail int
	mergeOK   int
}

type cCall struct {
	static  *ssa.Function
	intr    intrinsic
	builtin string
	invoke  *types.Func
	sig     *types.Signature
	resT    types.Type
}

type cBlock struct {
	idx    int
	phis   []*cInstr
	body   []cInstr
	succs  []*cBlock
	preds  []*cBlock
	ipdom  *cBlock
	toExit bool // can reach a Return
	pdomOK bool
}

type cfn struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*cBlock
	recover  *cBlock
	params   []int
	frees    []int
	regOf    map[ssa.Value]int
	hasDefer bool
	name     string
	inRepo   bool
}

func (w *Worker) compile(fn *ssa.Function) *cfn {
	if c, ok := w.compiled[fn]; ok {
		return c
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	c := &cfn{fn: fn, regOf: map[ssa.Value]int{}, name: fn.String(), inRepo: w.prog.inRepo(fn)}
	alloc := func(v ssa.Value) int {
		r := c.nregs
		c.nregs++
		c.regOf[v] = r
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		c.frees = append(c.frees, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	bl := map[*ssa.BasicBlock]*cBlock{}
	for i, b := range fn.Blocks {
		cb := &cBlock{idx: i}
		bl[b] = cb
		c.blocks = append(c.blocks, cb)
	}
	for _, b := range fn.Blocks {
		cb := bl[b]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, bl[s])
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, bl[s])
		}
	}
	if fn.Recover != nil {
		c.recover = bl[fn.Recover]
	}
	w.compiled[fn] = c
	for _, b := range fn.Blocks {
		cb := bl[b]
		for _, in := range b.Instrs {
			ci := w.compileInstr(c, in)
			if ci == nil {
				continue
			}
			if ci.op == iPhi {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.body = append(cb.body, *ci)
			}
			if ci.op == iDefer {
				c.hasDefer = true
			}
		}
	}
	c.computePdom()
	for _, cb := range c.blocks {
		for i := range cb.body {
			ci := &cb.body[i]
			if ci.op == iIf {
				ci.pdom = cb.ipdom
				ci.mergeable = cb.pdomOK && !(c.hasDefer && cb.ipdom == nil) && !regionHits(cb, ci.pdom)
			}
		}
	}
	return c
}

// computePdom computes immediate post-dominators over blocks that can reach a Return.
func (c *cfn) computePdom() {
	n := len(c.blocks)
	// reverse reachability from return blocks
	isRet := make([]bool, n)
	for i, b := range c.blocks {
		if k := len(b.body); k > 0 && b.body[k-1].op == iReturn {
			isRet[i] = true
		}
	}
	var mark func(b *cBlock)
	mark = func(b *cBlock) {
		if b.toExit {
			return
		}
		b.toExit = true
		for _, p := range b.preds {
			mark(p)
		}
	}
	for i, b := range c.blocks {
		if isRet[i] {
			mark(b)
		}
	}
	// iterative set-based post dominators (bitsets); exit is virtual node n
	words := (n + 64) / 64
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = make([]uint64, words)
		for j := range pd[i] {
			pd[i][j] = ^uint64(0)
		}
	}
	changed := true
	tmp := make([]uint64, words)
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := c.blocks[i]
			if !b.toExit {
				continue
			}
			if isRet[i] {
				for j := range tmp {
					tmp[j] = 0
				}
			} else {
				for j := range tmp {
					tmp[j] = ^uint64(0)
				}
				for _, s := range b.succs {
					if !s.toExit {
						continue
					}
					for j := range tmp {
						tmp[j] &= pd[s.idx][j]
					}
				}
			}
			tmp[i/64] |= 1 << (i % 64)
			for j := range tmp {
				if tmp[j] != pd[i][j] {
					pd[i][j] = tmp[j]
					changed = true
				}
			}
		}
	}
	has := func(i, j int) bool { return pd[i][j/64]>>(j%64)&1 == 1 }
	for i, b := range c.blocks {
		if !b.toExit {
			continue
		}
		b.pdomOK = true
		// immediate: the strict post-dominator that is post-dominated by all the others
		for j := 0; j < n; j++ {
			if j == i || !has(i, j) || !c.blocks[j].toExit {
				continue
			}
			imm := true
			for k := 0; k < n; k++ {
				if k == i || k == j || !has(i, k) || !c.blocks[k].toExit {
					continue
				}
				if !has(j, k) {
					imm = false
					break
				}
			}
			if imm {
				b.ipdom = c.blocks[j]
				break
			}
		}
	}
}

func regionHits(b, stop *cBlock) bool {
	seen := map[*cBlock]bool{}
	var st []*cBlock
	st = append(st, b.succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == stop || seen[x] {
			continue
		}
		if x == b {
			return true
		}
		seen[x] = true
		st = append(st, x.succs...)
	}
	return false
}

func (w *Worker) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return w.zero(t)
	}
	u, ok := under(t).(*types.Basic)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	if u.Info()&types.IsString != 0 {
		if k.Value.Kind() == constant.String {
			return litStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(constant.ToInt(k.Value))
		return litStr(string(rune(i)))
	}
	s, _, ok := basicSort(u)
	if !ok {
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case s == SBool:
		return w.ctx.Bool(constant.BoolVal(k.Value))
	case isFloat(s):
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if s == SF32 {
			f32, _ := constant.Float32Val(constant.ToFloat(k.Value))
			return w.ctx.F32(f32)
		}
		return w.ctx.F64(f)
	}
	v := constant.ToInt(k.Value)
	if v.Kind() != constant.Int {
		f, _ := constant.Float64Val(k.Value)
		return w.ctx.BV(uint64(int64(math.Trunc(f))), s)
	}
	if i, ok := constant.Int64Val(v); ok {
		return w.ctx.BV(uint64(i), s)
	}
	ui, _ := constant.Uint64Val(v)
	return w.ctx.BV(ui, s)
}

func (w *Worker) operandOf(c *cfn, v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{-1, w.constVal(x)}
	case *ssa.Global:
		return operand{-1, w.globalPtr(x, c.fn)}
	case *ssa.Function:
		return operand{-1, &FuncV{fn: x}}
	case *ssa.Builtin:
		return operand{-1, nil}
	}
	r, ok := c.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), c.fn))
	}
	return operand{reg: r}
}

func (w *Worker) compileInstr(c *cfn, in ssa.Instruction) *cInstr {
	ci := &cInstr{in: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		ci.dst = c.regOf[v]
		ci.t = v.Type()
	}
	op := func(v ssa.Value) { ci.ops = append(ci.ops, w.operandOf(c, v)) }
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		ci.op = iAlloc
		ci.t = under(x.Type()).(*types.Pointer).Elem()
	case *ssa.BinOp:
		ci.op = iBinOp
		ci.tok = x.Op
		ci.t = x.X.Type()
		op(x.X)
		op(x.Y)
		ci.srt, ci.sgn, _ = scalarSort(x.X.Type())
		if s, sg, ok := scalarSort(x.Y.Type()); ok && (x.Op == token.SHL || x.Op == token.SHR) {
			_ = s
			if sg {
				ci.n = 1
			}
		}
		if !isScalarType(x.X.Type()) {
			ci.srt = 255
		}
	case *ssa.UnOp:
		ci.op = iUnOp
		ci.tok = x.Op
		op(x.X)
		ci.srt, ci.sgn, _ = scalarSort(x.X.Type())
		if x.CommaOk {
			ci.n = 1
		}
		if x.Op == token.ARROW {
			ci.t = under(x.X.Type()).(*types.Chan).Elem()
		}
	case *ssa.Call:
		ci.op = iCall
		ci.call = w.compileCall(c, ci, &x.Call, x.Type())
	case *ssa.Go:
		ci.op = iGo
		ci.call = w.compileCall(c, ci, &x.Call, nil)
	case *ssa.Defer:
		ci.op = iDefer
		ci.call = w.compileCall(c, ci, &x.Call, nil)
	case *ssa.ChangeInterface:
		ci.op = iChangeInterface
		op(x.X)
	case *ssa.ChangeType:
		ci.op = iChangeType
		op(x.X)
	case *ssa.Convert:
		ci.op = iConvert
		op(x.X)
	case *ssa.MultiConvert:
		ci.op = iConvert
		op(x.X)
	case *ssa.Extract:
		ci.op = iExtract
		ci.n = x.Index
		op(x.Tuple)
	case *ssa.Field:
		ci.op = iField
		ci.n = x.Field
		op(x.X)
	case *ssa.FieldAddr:
		ci.op = iFieldAddr
		ci.n = x.Field
		op(x.X)
	case *ssa.If:
		ci.op = iIf
		op(x.Cond)
	case *ssa.Index:
		ci.op = iIndex
		op(x.X)
		op(x.Index)
		_, ci.sgn, _ = scalarSort(x.Index.Type())
	case *ssa.IndexAddr:
		ci.op = iIndexAddr
		op(x.X)
		op(x.Index)
		_, ci.sgn, _ = scalarSort(x.Index.Type())
	case *ssa.Jump:
		ci.op = iJump
	case *ssa.Lookup:
		ci.op = iLookup
		op(x.X)
		op(x.Index)
		if x.CommaOk {
			ci.n = 1
		}
		_, ci.sgn, _ = scalarSort(x.Index.Type())
		ci.t = x.X.Type()
	case *ssa.MakeChan:
		ci.op = iMakeChan
		op(x.Size)
	case *ssa.MakeClosure:
		ci.op = iMakeClosure
		for _, b := range x.Bindings {
			op(b)
		}
	case *ssa.MakeInterface:
		ci.op = iMakeInterface
		op(x.X)
		ci.t = x.X.Type()
	case *ssa.MakeMap:
		ci.op = iMakeMap
	case *ssa.MakeSlice:
		ci.op = iMakeSlice
		op(x.Len)
		op(x.Cap)
	case *ssa.MapUpdate:
		ci.op = iMapUpdate
		op(x.Map)
		op(x.Key)
		op(x.Value)
	case *ssa.Next:
		ci.op = iNext
		op(x.Iter)
		if x.IsString {
			ci.n = 1
		}
	case *ssa.Panic:
		ci.op = iPanic
		op(x.X)
	case *ssa.Phi:
		ci.op = iPhi
		for _, e := range x.Edges {
			op(e)
		}
	case *ssa.Range:
		ci.op = iRange
		op(x.X)
		ci.t = x.X.Type()
	case *ssa.Return:
		ci.op = iReturn
		for _, r := range x.Results {
			op(r)
		}
	case *ssa.RunDefers:
		ci.op = iRunDefers
	case *ssa.Select:
		ci.op = iSelect
		for _, st := range x.States {
			op(st.Chan)
			if st.Send != nil {
				op(st.Send)
			} else {
				ci.ops = append(ci.ops, operand{-1, nil})
			}
		}
	case *ssa.Send:
		ci.op = iSend
		op(x.Chan)
		op(x.X)
	case *ssa.Slice:
		ci.op = iSlice
		op(x.X)
		for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v == nil {
				ci.ops = append(ci.ops, operand{-1, nil})
			} else {
				op(v)
			}
		}
	case *ssa.SliceToArrayPointer:
		ci.op = iSliceToArrayPtr
		op(x.X)
	case *ssa.Store:
		ci.op = iStore
		op(x.Addr)
		op(x.Val)
	case *ssa.TypeAssert:
		ci.op = iTypeAssert
		op(x.X)
		ci.t = x.AssertedType
		if x.CommaOk {
			ci.n = 1
		}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return ci
}

func isScalarType(t types.Type) bool {
	_, _, ok := scalarSort(t)
	return ok
}

func (w *Worker) compileCall(c *cfn, ci *cInstr, cc *ssa.CallCommon, resT types.Type) *cCall {
	r := &cCall{sig: cc.Signature(), resT: resT}
	if cc.IsInvoke() {
		r.invoke = cc.Method
		ci.ops = append(ci.ops, w.operandOf(c, cc.Value))
		for _, a := range cc.Args {
			ci.ops = append(ci.ops, w.operandOf(c, a))
		}
		return r
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		r.builtin = b.Name()
		for _, a := range cc.Args {
			ci.ops = append(ci.ops, w.operandOf(c, a))
		}
		return r
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		r.static = f
		for _, a := range cc.Args {
			ci.ops = append(ci.ops, w.operandOf(c, a))
		}
		return r
	}
	ci.ops = append(ci.ops, w.operandOf(c, cc.Value))
	for _, a := range cc.Args {
		ci.ops = append(ci.ops, w.operandOf(c, a))
	}
	return r
}
