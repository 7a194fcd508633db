package main

// Hash-consed terms over booleans, bit-vectors of width 1..64 and IEEE floats, with a
// constant-folding, range-propagating simplifier.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // aux = lo, result width = hi-lo+1
	OpZExt
	OpSExt
	OpConcat
	// floats
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFAbs
	OpFSqrt
	OpFLt
	OpFLe
	OpFEq
	OpFRound // aux: 0 RNE 1 RNA 2 toward +inf(ceil) 3 toward -inf(floor) 4 toward zero
	OpFFromS // signed bv -> float
	OpFFromU // unsigned bv -> float
	OpFToS   // float -> signed bv (RTZ)
	OpFToU   // float -> unsigned bv (RTZ)
	OpFCvt   // float <-> float
	OpFIsNaN
	OpUF // uninterpreted function application: name, args (BV/Bool/Float results)
)

const (
	SBool uint8 = 0
	SF32  uint8 = 70
	SF64  uint8 = 71
)

type Term struct {
	op       Op
	srt      uint8
	id       uint32
	aux      int32
	c        uint64 // constant bits
	name     string
	args     []*Term
	ulo, uhi uint64
	slo, shi int64
	vars     []uint32 // sorted ids of variables
	varsOK   bool
	emitted  bool
	hasFloat bool
	kz       uint64 // bits known to be zero (knownZero)
	kzOK     bool
	depth    int32
}

type termKey struct {
	op         Op
	srt        uint8
	aux        int32
	c          uint64
	a0, a1, a2 uint32
	name       string
}

type TermCtx struct {
	tab       map[termKey]*Term
	next      uint32
	tTrue     *Term
	tFalse    *Term
	varOf     map[uint32]*Term
	chains    map[uint32]*monoChain
	unfloated map[[3]int64]*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, next: 1, varOf: map[uint32]*Term{}, chains: map[uint32]*monoChain{}, unfloated: map[[3]int64]*Term{}}
	c.tTrue = c.mk(termKey{op: OpConst, srt: SBool, c: 1}, nil)
	c.tFalse = c.mk(termKey{op: OpConst, srt: SBool, c: 0}, nil)
	return c
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func isBV(s uint8) bool    { return s >= 1 && s <= 64 }
func isFloat(s uint8) bool { return s == SF32 || s == SF64 }

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.srt == SBool && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.srt == SBool && t.c == 0 }

func (c *TermCtx) mk(k termKey, args []*Term) *Term {
	if len(args) <= 3 {
		if len(args) > 0 {
			k.a0 = args[0].id
		}
		if len(args) > 1 {
			k.a1 = args[1].id
		}
		if len(args) > 2 {
			k.a2 = args[2].id
		}
	} else {
		s := k.name
		for _, a := range args {
			s += fmt.Sprintf("|%d", a.id)
		}
		k.name = s
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	nm := k.name
	if len(args) > 3 {
		for i := range nm {
			if nm[i] == '|' {
				nm = nm[:i]
				break
			}
		}
	}
	t := &Term{op: k.op, srt: k.srt, id: c.next, aux: k.aux, c: k.c, name: nm, args: append([]*Term(nil), args...)}
	c.next++
	for _, a := range args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		if a.hasFloat {
			t.hasFloat = true
		}
	}
	if isFloat(t.srt) {
		t.hasFloat = true
	}
	if isBV(t.srt) {
		t.computeRange()
	}
	c.tab[k] = t
	return t
}

// ---- ranges ----

func (t *Term) setFull() {
	t.ulo, t.uhi = 0, maskW(t.srt)
	t.slo, t.shi = sext(uint64(1)<<(t.srt-1), t.srt), int64(maskW(t.srt)>>1)
}

func (t *Term) fromU(lo, hi uint64) {
	m := maskW(t.srt)
	if lo > hi || hi > m {
		return
	}
	if lo > t.ulo {
		t.ulo = lo
	}
	if hi < t.uhi {
		t.uhi = hi
	}
}
func (t *Term) fromS(lo, hi int64) {
	if lo > hi {
		return
	}
	if lo > t.slo {
		t.slo = lo
	}
	if hi < t.shi {
		t.shi = hi
	}
}

// reconcile signed/unsigned views
func (t *Term) recon() {
	half := maskW(t.srt) >> 1
	if t.uhi <= half { // nonneg
		if int64(t.ulo) > t.slo {
			t.slo = int64(t.ulo)
		}
		if int64(t.uhi) < t.shi {
			t.shi = int64(t.uhi)
		}
	} else if t.ulo > half {
		l, h := sext(t.ulo, t.srt), sext(t.uhi, t.srt)
		if l > t.slo {
			t.slo = l
		}
		if h < t.shi {
			t.shi = h
		}
	}
	m := maskW(t.srt)
	if t.slo >= 0 {
		if uint64(t.slo) > t.ulo {
			t.ulo = uint64(t.slo)
		}
		if uint64(t.shi) < t.uhi {
			t.uhi = uint64(t.shi)
		}
	} else if t.shi < 0 {
		l, h := uint64(t.slo)&m, uint64(t.shi)&m
		if l > t.ulo {
			t.ulo = l
		}
		if h < t.uhi {
			t.uhi = h
		}
	}
}

func addOvS(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, true
	}
	return s, false
}
func mulOvS(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	if p/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, true
	}
	return p, false
}

func (t *Term) inS(v int64) bool {
	return v >= sext(uint64(1)<<(t.srt-1), t.srt) && v <= int64(maskW(t.srt)>>1)
}

func (t *Term) computeRange() {
	t.setFull()
	w := t.srt
	m := maskW(w)
	a := func(i int) *Term { return t.args[i] }
	switch t.op {
	case OpConst:
		t.ulo, t.uhi = t.c, t.c
		t.slo, t.shi = sext(t.c, w), sext(t.c, w)
		return
	case OpVar:
		return
	case OpIte:
		x, y := a(1), a(2)
		t.ulo, t.uhi = min(x.ulo, y.ulo), max(x.uhi, y.uhi)
		t.slo, t.shi = min(x.slo, y.slo), max(x.shi, y.shi)
		return
	case OpAdd:
		x, y := a(0), a(1)
		if s, cy := bits.Add64(x.uhi, y.uhi, 0); cy == 0 && s <= m {
			t.fromU(x.ulo+y.ulo, s)
		}
		l, o1 := addOvS(x.slo, y.slo)
		h, o2 := addOvS(x.shi, y.shi)
		if !o1 && !o2 && t.inS(l) && t.inS(h) {
			t.fromS(l, h)
		}
	case OpSub:
		x, y := a(0), a(1)
		if x.ulo >= y.uhi {
			t.fromU(x.ulo-y.uhi, x.uhi-y.ulo)
		}
		if y.slo != math.MinInt64 && y.shi != math.MinInt64 {
			l, o1 := addOvS(x.slo, -y.shi)
			h, o2 := addOvS(x.shi, -y.slo)
			if !o1 && !o2 && t.inS(l) && t.inS(h) {
				t.fromS(l, h)
			}
		}
	case OpNeg:
		x := a(0)
		if x.slo != math.MinInt64 && t.inS(-x.slo) && t.inS(-x.shi) {
			t.fromS(-x.shi, -x.slo)
		}
	case OpMul:
		x, y := a(0), a(1)
		if h, lo := bits.Mul64(x.uhi, y.uhi); h == 0 && lo <= m {
			t.fromU(x.ulo*y.ulo, lo)
		}
		var l, h int64
		ok := true
		for i, p := range [4][2]int64{{x.slo, y.slo}, {x.slo, y.shi}, {x.shi, y.slo}, {x.shi, y.shi}} {
			v, ov := mulOvS(p[0], p[1])
			if ov || !t.inS(v) {
				ok = false
				break
			}
			if i == 0 || v < l {
				l = v
			}
			if i == 0 || v > h {
				h = v
			}
		}
		if ok {
			t.fromS(l, h)
		}
	case OpUDiv:
		x, y := a(0), a(1)
		if y.ulo > 0 {
			t.fromU(x.ulo/y.uhi, x.uhi/y.ulo)
		}
	case OpURem:
		x, y := a(0), a(1)
		if y.ulo > 0 {
			t.fromU(0, min(x.uhi, y.uhi-1))
		}
	case OpSDiv:
		x, y := a(0), a(1)
		if y.slo > 0 {
			c := []int64{x.slo / y.slo, x.slo / y.shi, x.shi / y.slo, x.shi / y.shi}
			sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
			t.fromS(c[0], c[3])
		}
	case OpSRem:
		x, y := a(0), a(1)
		if y.slo > 0 {
			l, h := -(y.shi - 1), y.shi-1
			if x.slo >= 0 {
				l = 0
			}
			if x.shi <= 0 {
				h = 0
			}
			if x.shi >= 0 && x.shi < h {
				h = x.shi
			}
			if x.slo <= 0 && x.slo > l {
				l = x.slo
			}
			t.fromS(l, h)
		}
	case OpBAnd:
		x, y := a(0), a(1)
		t.fromU(0, min(x.uhi, y.uhi))
	case OpBOr:
		x, y := a(0), a(1)
		hb := bits.Len64(x.uhi | y.uhi)
		t.fromU(max(x.ulo, y.ulo), maskW(uint8(max(hb, 1))))
		if hb == 0 {
			t.fromU(0, 0)
		}
	case OpBXor:
		x, y := a(0), a(1)
		hb := bits.Len64(x.uhi | y.uhi)
		if hb == 0 {
			t.fromU(0, 0)
		} else {
			t.fromU(0, maskW(uint8(hb)))
		}
	case OpShl:
		x, y := a(0), a(1)
		if y.isConst() && y.c < uint64(w) {
			if x.uhi <= m>>y.c {
				t.fromU(x.ulo<<y.c, x.uhi<<y.c)
			}
			// low bits zero
		}
	case OpLShr:
		x, y := a(0), a(1)
		if y.isConst() {
			if y.c < uint64(w) {
				t.fromU(x.ulo>>y.c, x.uhi>>y.c)
			}
		} else {
			t.fromU(0, x.uhi)
		}
	case OpAShr:
		x, y := a(0), a(1)
		if y.isConst() && y.c < uint64(w) {
			t.fromS(x.slo>>y.c, x.shi>>y.c)
		}
	case OpZExt:
		x := a(0)
		t.ulo, t.uhi = x.ulo, x.uhi
	case OpSExt:
		x := a(0)
		t.slo, t.shi = x.slo, x.shi
	case OpExtract:
		x := a(0)
		if t.aux == 0 {
			if x.uhi <= m {
				t.fromU(x.ulo, x.uhi)
			}
			if t.inS(x.slo) && t.inS(x.shi) {
				t.fromS(x.slo, x.shi)
			}
		} else {
			t.fromU(0, min(m, x.uhi>>uint(t.aux)))
		}
	case OpConcat:
		x, y := a(0), a(1)
		t.fromU(x.ulo<<y.srt|y.ulo, x.uhi<<y.srt|y.uhi)
	}
	t.recon()
}

// ---- constructors ----

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (c *TermCtx) BV(v uint64, w uint8) *Term {
	return c.mk(termKey{op: OpConst, srt: w, c: v & maskW(w)}, nil)
}
func (c *TermCtx) Int(v int64) *Term { return c.BV(uint64(v), 64) }
func (c *TermCtx) F64(f float64) *Term {
	return c.mk(termKey{op: OpConst, srt: SF64, c: math.Float64bits(f)}, nil)
}
func (c *TermCtx) F32(f float32) *Term {
	return c.mk(termKey{op: OpConst, srt: SF32, c: uint64(math.Float32bits(f))}, nil)
}
func (c *TermCtx) FC(f float64, s uint8) *Term {
	if s == SF32 {
		return c.F32(float32(f))
	}
	return c.F64(f)
}
func (t *Term) fval() float64 {
	if t.srt == SF32 {
		return float64(math.Float32frombits(uint32(t.c)))
	}
	return math.Float64frombits(t.c)
}

// Var creates a fresh variable; lo/hi give the signed or unsigned range it is constrained to
// (the solver is told about it as well).
func (c *TermCtx) Var(name string, s uint8) *Term {
	t := c.mk(termKey{op: OpVar, srt: s, name: name}, nil)
	c.varOf[t.id] = t
	return t
}

func (c *TermCtx) UF(name string, s uint8, args ...*Term) *Term {
	return c.mk(termKey{op: OpUF, srt: s, name: name}, args)
}

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Bool(a.c == 0)
	case OpNot:
		return a.args[0]
	case OpUlt:
		return c.Ule(a.args[1], a.args[0])
	case OpUle:
		return c.Ult(a.args[1], a.args[0])
	case OpSlt:
		return c.Sle(a.args[1], a.args[0])
	case OpSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(termKey{op: OpNot}, []*Term{a})
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.args[0] == b) || (b.op == OpNot && b.args[0] == a) {
		return c.tFalse
	}
	if a.op == OpAnd && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OpAnd && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OpAnd}, []*Term{a, b})
}
func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.args[0] == b) || (b.op == OpNot && b.args[0] == a) {
		return c.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OpOr}, []*Term{a, b})
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		if isFloat(a.srt) {
			return c.Not(c.FIsNaN(a)) // Go equality semantics are handled by FEq; bit equality here
		}
		return c.tTrue
	}
	if a.srt != b.srt {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.srt, b.srt))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.srt == SBool {
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return c.Not(a)
		}
		if (a.op == OpNot && a.args[0] == b) || (b.op == OpNot && b.args[0] == a) {
			return c.tFalse
		}
	}
	if isBV(a.srt) {
		if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo {
			return c.tFalse
		}
		if t := c.monoCmp(OpEq, a, b); t != nil {
			return t
		}
		if b.isConst() {
			switch a.op {
			case OpZExt:
				x := a.args[0]
				if b.c > maskW(x.srt) {
					return c.tFalse
				}
				return c.Eq(x, c.BV(b.c, x.srt))
			case OpSExt:
				x := a.args[0]
				if sext(b.c&maskW(x.srt), x.srt) != sext(b.c, b.srt) {
					return c.tFalse
				}
				return c.Eq(x, c.BV(b.c, x.srt))
			case OpIte:
				if a.args[1].isConst() && a.args[2].isConst() {
					p, q := a.args[1].c == b.c, a.args[2].c == b.c
					switch {
					case p && q:
						return c.tTrue
					case p:
						return a.args[0]
					case q:
						return c.Not(a.args[0])
					default:
						return c.tFalse
					}
				}
				if a.args[1].isConst() {
					if a.args[1].c == b.c {
						return c.Or(a.args[0], c.Eq(a.args[2], b))
					}
					return c.And(c.Not(a.args[0]), c.Eq(a.args[2], b))
				}
				if a.args[2].isConst() {
					if a.args[2].c == b.c {
						return c.Or(c.Not(a.args[0]), c.Eq(a.args[1], b))
					}
					return c.And(a.args[0], c.Eq(a.args[1], b))
				}
			case OpAdd:
				if a.args[1].isConst() {
					return c.Eq(a.args[0], c.BV(b.c-a.args[1].c, a.srt))
				}
			case OpConcat:
				y := a.args[1]
				return c.And(c.Eq(y, c.BV(b.c, y.srt)), c.Eq(a.args[0], c.BV(b.c>>y.srt, a.args[0].srt)))
			}
		}
		if a.op == OpZExt && b.op == OpZExt && a.args[0].srt == b.args[0].srt {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OpSExt && b.op == OpSExt && a.args[0].srt == b.args[0].srt {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OpEq}, []*Term{a, b})
}

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p.isConst() {
		if p.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if p.op == OpNot {
		return c.Ite(p.args[0], b, a)
	}
	if a.srt == SBool {
		if a.isConst() {
			if a.c == 1 {
				return c.Or(p, b)
			}
			return c.And(c.Not(p), b)
		}
		if b.isConst() {
			if b.c == 1 {
				return c.Or(c.Not(p), a)
			}
			return c.And(p, a)
		}
	}
	if a.op == OpIte && a.args[0] == p {
		return c.Ite(p, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == p {
		return c.Ite(p, a, b.args[2])
	}
	return c.unfloat(c.mk(termKey{op: OpIte, srt: a.srt}, []*Term{p, a, b}))
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if a.uhi < b.ulo {
		return c.tTrue
	}
	if a.ulo >= b.uhi {
		return c.tFalse
	}
	if a.slo >= 0 && b.slo >= 0 {
		if t := c.monoCmp(OpSlt, a, b); t != nil {
			return t
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].srt == b.args[0].srt {
		return c.Ult(a.args[0], b.args[0])
	}
	if a.op == OpZExt && b.isConst() && b.c <= maskW(a.args[0].srt) {
		return c.Ult(a.args[0], c.BV(b.c, a.args[0].srt))
	}
	if b.op == OpZExt && a.isConst() && a.c <= maskW(b.args[0].srt) {
		return c.Ult(c.BV(a.c, b.args[0].srt), b.args[0])
	}
	if b.isConst() && b.c == 1 {
		return c.Eq(a, c.BV(0, a.srt))
	}
	return c.mk(termKey{op: OpUlt}, []*Term{a, b})
}
func (c *TermCtx) Ule(a, b *Term) *Term {
	if a == b || a.uhi <= b.ulo {
		return c.tTrue
	}
	if a.ulo > b.uhi {
		return c.tFalse
	}
	if a.slo >= 0 && b.slo >= 0 {
		if t := c.monoCmp(OpSle, a, b); t != nil {
			return t
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].srt == b.args[0].srt {
		return c.Ule(a.args[0], b.args[0])
	}
	if a.op == OpZExt && b.isConst() && b.c <= maskW(a.args[0].srt) {
		return c.Ule(a.args[0], c.BV(b.c, a.args[0].srt))
	}
	if b.op == OpZExt && a.isConst() && a.c <= maskW(b.args[0].srt) {
		return c.Ule(c.BV(a.c, b.args[0].srt), b.args[0])
	}
	return c.mk(termKey{op: OpUle}, []*Term{a, b})
}
func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if a.shi < b.slo {
		return c.tTrue
	}
	if a.slo >= b.shi {
		return c.tFalse
	}
	if t := c.monoCmp(OpSlt, a, b); t != nil {
		return t
	}
	if a.slo >= 0 && b.slo >= 0 {
		return c.Ult(a, b)
	}
	if a.op == OpSExt && b.op == OpSExt && a.args[0].srt == b.args[0].srt {
		return c.Slt(a.args[0], b.args[0])
	}
	if a.op == OpSExt && b.isConst() && fitsS(sext(b.c, b.srt), a.args[0].srt) {
		return c.Slt(a.args[0], c.BV(b.c, a.args[0].srt))
	}
	if b.op == OpSExt && a.isConst() && fitsS(sext(a.c, a.srt), b.args[0].srt) {
		return c.Slt(c.BV(a.c, b.args[0].srt), b.args[0])
	}
	return c.mk(termKey{op: OpSlt}, []*Term{a, b})
}
func (c *TermCtx) Sle(a, b *Term) *Term {
	if a == b || a.shi <= b.slo {
		return c.tTrue
	}
	if a.slo > b.shi {
		return c.tFalse
	}
	if t := c.monoCmp(OpSle, a, b); t != nil {
		return t
	}
	if a.slo >= 0 && b.slo >= 0 {
		return c.Ule(a, b)
	}
	if a.op == OpSExt && b.op == OpSExt && a.args[0].srt == b.args[0].srt {
		return c.Sle(a.args[0], b.args[0])
	}
	if a.op == OpSExt && b.isConst() && fitsS(sext(b.c, b.srt), a.args[0].srt) {
		return c.Sle(a.args[0], c.BV(b.c, a.args[0].srt))
	}
	if b.op == OpSExt && a.isConst() && fitsS(sext(a.c, a.srt), b.args[0].srt) {
		return c.Sle(c.BV(a.c, b.args[0].srt), b.args[0])
	}
	return c.mk(termKey{op: OpSle}, []*Term{a, b})
}

func fitsS(v int64, w uint8) bool {
	if w >= 64 {
		return true
	}
	return v >= -(int64(1)<<(w-1)) && v < int64(1)<<(w-1)
}

func (c *TermCtx) foldBin(op Op, a, b *Term) (*Term, bool) {
	if !a.isConst() || !b.isConst() {
		return nil, false
	}
	w := a.srt
	x, y := a.c, b.c
	sx, sy := sext(x, w), sext(y, w)
	var r uint64
	switch op {
	case OpAdd:
		r = x + y
	case OpSub:
		r = x - y
	case OpMul:
		r = x * y
	case OpUDiv:
		if y == 0 {
			r = maskW(w)
		} else {
			r = x / y
		}
	case OpURem:
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case OpSDiv:
		if y == 0 {
			if sx >= 0 {
				r = maskW(w)
			} else {
				r = 1
			}
		} else if sy == -1 {
			r = -x
		} else {
			r = uint64(sx / sy)
		}
	case OpSRem:
		if y == 0 {
			r = x
		} else if sy == -1 {
			r = 0
		} else {
			r = uint64(sx % sy)
		}
	case OpBAnd:
		r = x & y
	case OpBOr:
		r = x | y
	case OpBXor:
		r = x ^ y
	case OpShl:
		if y < uint64(w) {
			r = x << y
		}
	case OpLShr:
		if y < uint64(w) {
			r = x >> y
		}
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		r = uint64(sx >> y)
	default:
		return nil, false
	}
	return c.BV(r, w), true
}

// knownZero returns a mask of bits known to be zero.
func knownZero(t *Term) uint64 {
	if !t.kzOK {
		t.kz, t.kzOK = knownZero1(t), t.op != OpVar
	}
	return t.kz
}

func knownZero1(t *Term) uint64 {
	m := maskW(t.srt)
	hb := bits.Len64(t.uhi)
	kz := m &^ maskWn(hb)
	switch t.op {
	case OpConst:
		return m &^ t.c
	case OpShl:
		if t.args[1].isConst() && t.args[1].c < uint64(t.srt) {
			kz |= ((knownZero(t.args[0]) << t.args[1].c) | ((uint64(1) << t.args[1].c) - 1)) & m
		}
	case OpBAnd:
		kz |= (knownZero(t.args[0]) | knownZero(t.args[1])) & m
	case OpBOr:
		kz |= knownZero(t.args[0]) & knownZero(t.args[1]) & m
	case OpZExt:
		kz |= knownZero(t.args[0]) | (m &^ maskW(t.args[0].srt))
	case OpIte:
		kz |= knownZero(t.args[1]) & knownZero(t.args[2]) & m
	case OpExtract:
		kz |= (knownZero(t.args[0]) >> uint(t.aux)) & m
	case OpLShr:
		if t.args[1].isConst() && t.args[1].c < uint64(t.srt) {
			kz |= (knownZero(t.args[0]) >> t.args[1].c) & m
		}
	}
	return kz
}
func maskWn(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.srt != b.srt {
		panic(fmt.Sprintf("Bin sort mismatch op %d: %d %d", op, a.srt, b.srt))
	}
	if r, ok := c.foldBin(op, a, b); ok {
		return r
	}
	w := a.srt
	m := maskW(w)
	zero := func() *Term { return c.BV(0, w) }
	// commutative: constant to the right
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	// push through ite with constant leaves
	if b.isConst() && a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Bin(op, a.args[1], b), c.Bin(op, a.args[2], b))
	}
	if a.isConst() && b.op == OpIte && b.args[1].isConst() && b.args[2].isConst() {
		return c.Ite(b.args[0], c.Bin(op, a, b.args[1]), c.Bin(op, a, b.args[2]))
	}
	switch op {
	case OpAdd:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].isConst() {
				return c.Bin(OpAdd, a.args[0], c.BV(a.args[1].c+b.c, w))
			}
		}
		if a.op == OpSub && a.args[1] == b {
			return a.args[0]
		}
		if b.op == OpSub && b.args[1] == a {
			return b.args[0]
		}
		// move constants outward: (x+c)+y -> (x+y)+c
		if a.op == OpAdd && a.args[1].isConst() && !b.isConst() {
			return c.Bin(OpAdd, c.Bin(OpAdd, a.args[0], b), a.args[1])
		}
		if b.op == OpAdd && b.args[1].isConst() {
			return c.Bin(OpAdd, c.Bin(OpAdd, a, b.args[0]), b.args[1])
		}
	case OpSub:
		if b.isConst() {
			return c.Bin(OpAdd, a, c.BV(-b.c, w))
		}
		if a == b {
			return zero()
		}
		if a.op == OpAdd {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
		}
		if a.isConst() && a.c == 0 {
			return c.Neg(b)
		}
		if a.op == OpAdd && a.args[1].isConst() {
			return c.Bin(OpAdd, c.Bin(OpSub, a.args[0], b), a.args[1])
		}
		if b.op == OpAdd && b.args[1].isConst() {
			return c.Bin(OpAdd, c.Bin(OpSub, a, b.args[0]), c.BV(-b.args[1].c, w))
		}
		if b.op == OpAdd && b.args[0] == a {
			return c.Neg(b.args[1])
		}
		if b.op == OpAdd && b.args[1] == a {
			return c.Neg(b.args[0])
		}
	case OpMul:
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
			if b.c == m {
				return c.Neg(a)
			}
			if a.op == OpMul && a.args[1].isConst() {
				return c.Bin(OpMul, a.args[0], c.BV(a.args[1].c*b.c, w))
			}
			if bits.OnesCount64(b.c) == 1 {
				return c.Bin(OpShl, a, c.BV(uint64(bits.TrailingZeros64(b.c)), w))
			}
		}
		// narrow when ranges are small
		if w > 16 {
			if nw := narrowWidth(a, b); nw > 0 && nw < w {
				neg := a.slo < 0 || b.slo < 0
				x := c.Bin(OpMul, c.Extract(a, int(nw)-1, 0), c.Extract(b, int(nw)-1, 0))
				if neg {
					return c.SExt(x, w)
				}
				return c.ZExt(x, w)
			}
		}
	case OpUDiv, OpURem:
		if b.isConst() && b.c != 0 {
			if b.c == 1 {
				if op == OpUDiv {
					return a
				}
				return zero()
			}
			if bits.OnesCount64(b.c) == 1 {
				if op == OpUDiv {
					return c.Bin(OpLShr, a, c.BV(uint64(bits.TrailingZeros64(b.c)), w))
				}
				return c.Bin(OpBAnd, a, c.BV(b.c-1, w))
			}
			if a.uhi < b.c {
				if op == OpUDiv {
					return zero()
				}
				return a
			}
		}
		if w > 8 {
			hb := max(bits.Len64(a.uhi), bits.Len64(b.uhi), 1)
			if uint8(hb) < w && b.ulo > 0 {
				x := c.mkBin(op, c.Extract(a, hb-1, 0), c.Extract(b, hb-1, 0))
				return c.ZExt(x, w)
			}
		}
	case OpSDiv, OpSRem:
		if a.slo >= 0 && b.slo > 0 {
			if op == OpSDiv {
				return c.Bin(OpUDiv, a, b)
			}
			return c.Bin(OpURem, a, b)
		}
		if b.isConst() && b.c == 1 {
			if op == OpSDiv {
				return a
			}
			return zero()
		}
		if w > 16 && b.slo > 0 {
			nw := max(sBits(a), sBits(b))
			if nw < int(w) {
				x := c.mkBin(op, c.Extract(a, nw-1, 0), c.Extract(b, nw-1, 0))
				return c.SExt(x, w)
			}
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == m {
				return a
			}
			kz := knownZero(a)
			if kz|b.c == m { // all bits masked out are already zero
				return a
			}
			if b.c&^kz == 0 {
				return zero()
			}
			if a.op == OpBAnd && a.args[1].isConst() {
				return c.Bin(OpBAnd, a.args[0], c.BV(a.args[1].c&b.c, w))
			}
			if a.op == OpBOr { // distribute over or
				x, y := c.Bin(OpBAnd, a.args[0], b), c.Bin(OpBAnd, a.args[1], b)
				if x.isConst() || y.isConst() || x == a.args[0] || y == a.args[1] {
					return c.Bin(OpBOr, x, y)
				}
			}
			// low mask => extract+zext
			if b.c&(b.c+1) == 0 {
				n := bits.Len64(b.c)
				return c.ZExt(c.Extract(a, n-1, 0), w)
			}
		}
	case OpBOr:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c == m {
				return b
			}
			if a.op == OpBOr && a.args[1].isConst() {
				return c.Bin(OpBOr, a.args[0], c.BV(a.args[1].c|b.c, w))
			}
		}
	case OpBXor:
		if a == b {
			return zero()
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		if b.isConst() && b.c == m {
			return c.BNot(a)
		}
	case OpShl, OpLShr, OpAShr:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) {
				if op == OpAShr {
					b = c.BV(uint64(w)-1, w)
				} else {
					return zero()
				}
			}
			if op == OpAShr && a.slo >= 0 {
				return c.Bin(OpLShr, a, b)
			}
			if op == OpLShr {
				if a.uhi>>b.c == 0 {
					return zero()
				}
				if a.op == OpLShr && a.args[1].isConst() {
					return c.Bin(OpLShr, a.args[0], c.BV(a.args[1].c+b.c, w))
				}
				if a.op == OpShl && a.args[1].isConst() && a.args[1].c == b.c && a.args[0].uhi <= m>>b.c {
					return a.args[0]
				}
				if a.op == OpBOr {
					return c.Bin(OpBOr, c.Bin(OpLShr, a.args[0], b), c.Bin(OpLShr, a.args[1], b))
				}
				if a.op == OpBAnd && a.args[1].isConst() {
					return c.Bin(OpBAnd, c.Bin(OpLShr, a.args[0], b), c.BV(a.args[1].c>>b.c, w))
				}
				if a.op == OpZExt && b.c < uint64(a.args[0].srt) {
					x := a.args[0]
					return c.ZExt(c.Bin(OpLShr, x, c.BV(b.c, x.srt)), w)
				}
			}
			if op == OpShl {
				if a.op == OpShl && a.args[1].isConst() {
					return c.Bin(OpShl, a.args[0], c.BV(a.args[1].c+b.c, w))
				}
			}
		}
	}
	return c.mkBin(op, a, b)
}

func (c *TermCtx) mkBin(op Op, a, b *Term) *Term {
	if r, ok := c.foldBin(op, a, b); ok {
		return r
	}
	return c.mk(termKey{op: op, srt: a.srt}, []*Term{a, b})
}

func sBits(t *Term) int {
	f := func(v int64) int {
		if v < 0 {
			return bits.Len64(uint64(^v)) + 1
		}
		return bits.Len64(uint64(v)) + 1
	}
	return max(f(t.slo), f(t.shi))
}

func narrowWidth(a, b *Term) uint8 {
	if a.slo >= 0 && b.slo >= 0 {
		h, l := bits.Mul64(a.uhi, b.uhi)
		if h != 0 {
			return 0
		}
		return uint8(max(bits.Len64(l), bits.Len64(a.uhi), bits.Len64(b.uhi), 1))
	}
	n := sBits(a) + sBits(b)
	if n > 62 {
		return 0
	}
	return uint8(n)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(-a.c, a.srt)
	}
	if a.op == OpNeg {
		return a.args[0]
	}
	if a.op == OpSub {
		return c.Bin(OpSub, a.args[1], a.args[0])
	}
	return c.mk(termKey{op: OpNeg, srt: a.srt}, []*Term{a})
}
func (c *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.c, a.srt)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return c.mk(termKey{op: OpBNot, srt: a.srt}, []*Term{a})
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := uint8(hi - lo + 1)
	if lo == 0 && w == a.srt {
		return a
	}
	if a.isConst() {
		return c.BV(a.c>>uint(lo), w)
	}
	switch a.op {
	case OpExtract:
		return c.Extract(a.args[0], hi+int(a.aux), lo+int(a.aux))
	case OpZExt:
		x := a.args[0]
		if hi < int(x.srt) {
			return c.Extract(x, hi, lo)
		}
		if lo >= int(x.srt) {
			return c.BV(0, w)
		}
		if lo == 0 {
			return c.ZExt(x, w)
		}
		return c.ZExt(c.Extract(x, int(x.srt)-1, lo), w)
	case OpSExt:
		x := a.args[0]
		if hi < int(x.srt) {
			return c.Extract(x, hi, lo)
		}
		if lo == 0 {
			return c.SExt(x, w)
		}
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		if lo == 0 || a.args[1].isConst() || a.args[0].op == OpShl || a.args[1].op == OpShl {
			return c.Bin(a.op, c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	case OpNeg:
		if lo == 0 {
			return c.Neg(c.Extract(a.args[0], hi, 0))
		}
	case OpShl:
		if a.args[1].isConst() {
			k := int(a.args[1].c)
			if lo >= k {
				return c.Extract(a.args[0], hi-k, lo-k)
			}
			if hi < k {
				return c.BV(0, w)
			}
			if lo == 0 && k < int(w) {
				return c.Bin(OpShl, c.Extract(a.args[0], hi, 0), c.BV(uint64(k), w))
			}
		}
	case OpLShr:
		if a.args[1].isConst() {
			k := int(a.args[1].c)
			if hi+k < int(a.srt) {
				return c.Extract(a.args[0], hi+k, lo+k)
			}
		}
	case OpConcat:
		y := a.args[1]
		if hi < int(y.srt) {
			return c.Extract(y, hi, lo)
		}
		if lo >= int(y.srt) {
			return c.Extract(a.args[0], hi-int(y.srt), lo-int(y.srt))
		}
	}
	if lo > 0 && a.uhi>>uint(lo) == 0 {
		return c.BV(0, w)
	}
	return c.mk(termKey{op: OpExtract, srt: w, aux: int32(lo)}, []*Term{a})
}

func (c *TermCtx) ZExt(a *Term, w uint8) *Term {
	if a.srt == w {
		return a
	}
	if a.srt > w {
		return c.Extract(a, int(w)-1, 0)
	}
	if a.isConst() {
		return c.BV(a.c, w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
	}
	if a.op == OpExtract && a.aux == 0 && a.args[0].srt == w && a.args[0].uhi <= maskW(a.srt) {
		return a.args[0]
	}
	return c.mk(termKey{op: OpZExt, srt: w}, []*Term{a})
}
func (c *TermCtx) SExt(a *Term, w uint8) *Term {
	if a.srt == w {
		return a
	}
	if a.srt > w {
		return c.Extract(a, int(w)-1, 0)
	}
	if a.isConst() {
		return c.BV(uint64(sext(a.c, a.srt)), w)
	}
	if a.slo >= 0 {
		return c.ZExt(a, w)
	}
	if a.op == OpSExt {
		return c.SExt(a.args[0], w)
	}
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.SExt(a.args[1], w), c.SExt(a.args[2], w))
	}
	if a.op == OpExtract && a.aux == 0 && a.args[0].srt == w && fitsS(a.args[0].slo, a.srt) && fitsS(a.args[0].shi, a.srt) {
		return a.args[0]
	}
	return c.mk(termKey{op: OpSExt, srt: w}, []*Term{a})
}

// BoolToBV gives 1/0 of width w.
func (c *TermCtx) BoolToBV(a *Term, w uint8) *Term { return c.Ite(a, c.BV(1, w), c.BV(0, w)) }

// ---- floats ----

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.fval(), b.fval()
		var r float64
		if a.srt == SF32 {
			fx, fy := float32(x), float32(y)
			var fr float32
			switch op {
			case OpFAdd:
				fr = fx + fy
			case OpFSub:
				fr = fx - fy
			case OpFMul:
				fr = fx * fy
			case OpFDiv:
				fr = fx / fy
			}
			return c.F32(fr)
		}
		switch op {
		case OpFAdd:
			r = x + y
		case OpFSub:
			r = x - y
		case OpFMul:
			r = x * y
		case OpFDiv:
			r = x / y
		}
		return c.F64(r)
	}
	return c.mk(termKey{op: op, srt: a.srt}, []*Term{a, b})
}
func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.fval(), b.fval()
		switch op {
		case OpFLt:
			return c.Bool(x < y)
		case OpFLe:
			return c.Bool(x <= y)
		case OpFEq:
			return c.Bool(x == y)
		}
	}
	if ia, ib, ok := c.intPair(a, b); ok {
		switch op {
		case OpFLt:
			return c.Slt(ia, ib)
		case OpFLe:
			return c.Sle(ia, ib)
		case OpFEq:
			return c.Eq(ia, ib)
		}
	}
	return c.mk(termKey{op: op, srt: SBool}, []*Term{a, b})
}

// intPair recognises comparison of exactly converted integers with integers/integral constants.
func (c *TermCtx) intPair(a, b *Term) (*Term, *Term, bool) {
	conv := func(t *Term) *Term {
		if t.isConst() {
			f := t.fval()
			if f == math.Trunc(f) && math.Abs(f) < 1<<50 {
				return c.Int(int64(f))
			}
			return nil
		}
		lim := int64(1) << 53
		if t.srt == SF32 {
			lim = 1 << 24
		}
		if t.op == OpFFromS {
			x := t.args[0]
			if x.slo > -lim && x.shi < lim {
				return c.SExt(x, 64)
			}
		}
		if t.op == OpFFromU {
			x := t.args[0]
			if x.uhi < uint64(lim) {
				return c.ZExt(x, 64)
			}
		}
		return nil
	}
	x := conv(a)
	if x == nil {
		return nil, nil, false
	}
	y := conv(b)
	if y == nil {
		return nil, nil, false
	}
	return x, y, true
}

func (c *TermCtx) FUn(op Op, aux int32, a *Term) *Term {
	if a.isConst() {
		x := a.fval()
		switch op {
		case OpFNeg:
			return c.FC(-x, a.srt)
		case OpFAbs:
			return c.FC(math.Abs(x), a.srt)
		case OpFSqrt:
			return c.FC(math.Sqrt(x), a.srt)
		case OpFRound:
			return c.FC(roundMode(x, aux), a.srt)
		}
	}
	if op == OpFAbs && a.op == OpFFromS && isBV(a.args[0].srt) && a.args[0].slo > math.MinInt64 {
		x := c.SExt(a.args[0], 64)
		return c.FFromInt(c.Ite(c.Slt(x, c.Int(0)), c.Neg(x), x), true, a.srt)
	}
	if op == OpFRound {
		if a.op == OpFFromS || a.op == OpFFromU {
			return a
		}
		// ceil/floor of exact integer quotient
		if (aux == 2 || aux == 3 || aux == 4) && a.op == OpFDiv && a.srt == SF64 {
			if n, d, ok := c.intPair(a.args[0], a.args[1]); ok && d.isConst() && int64(d.c) > 0 && d.c < 1<<20 && n.slo >= 0 && n.shi < 1<<31 {
				q := n
				if aux == 2 {
					q = c.Bin(OpAdd, n, c.Int(int64(d.c)-1))
				}
				return c.FFromInt(c.Bin(OpSDiv, q, d), true, SF64)
			}
		}
	}
	return c.mk(termKey{op: op, srt: a.srt, aux: aux}, []*Term{a})
}

func roundMode(x float64, m int32) float64 {
	switch m {
	case 0:
		return math.RoundToEven(x)
	case 1:
		return math.Round(x)
	case 2:
		return math.Ceil(x)
	case 3:
		return math.Floor(x)
	}
	return math.Trunc(x)
}

func (c *TermCtx) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return c.Bool(math.IsNaN(a.fval()))
	}
	if a.op == OpFFromS || a.op == OpFFromU {
		return c.tFalse
	}
	return c.mk(termKey{op: OpFIsNaN, srt: SBool}, []*Term{a})
}

func (c *TermCtx) FFromInt(a *Term, signed bool, s uint8) *Term {
	if a.isConst() {
		if s == SF32 {
			if signed {
				return c.F32(float32(sext(a.c, a.srt)))
			}
			return c.F32(float32(a.c))
		}
		if signed {
			return c.F64(float64(sext(a.c, a.srt)))
		}
		return c.F64(float64(a.c))
	}
	op := OpFFromU
	if signed {
		op = OpFFromS
	}
	return c.mk(termKey{op: op, srt: s}, []*Term{a})
}

func (c *TermCtx) FToInt(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		x := a.fval()
		if math.IsNaN(x) || math.Abs(x) >= 9.3e18 { // amd64 conversion result
			return c.BV(1<<63>>(64-uint(w)), w)
		}
		if signed || x < 0 {
			return c.BV(uint64(int64(x)), w)
		}
		return c.BV(uint64(x), w)
	}
	lim := int64(1) << 53
	if a.srt == SF32 {
		lim = 1 << 24
	}
	if a.op == OpFFromS && a.args[0].slo > -lim && a.args[0].shi < lim {
		return c.SExt(a.args[0], w)
	}
	if a.op == OpFFromU && a.args[0].uhi < uint64(lim) {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OpFDiv && signed {
		r := c.FUn(OpFRound, 4, a)
		if r.op == OpFFromS {
			return c.FToInt(r, signed, w)
		}
	}
	op := OpFToU
	if signed {
		op = OpFToS
	}
	// Go on amd64 converts through int64 then truncates
	if w < 64 {
		return c.Extract(c.FToInt(a, true, 64), int(w)-1, 0)
	}
	t := c.mk(termKey{op: op, srt: w}, []*Term{a})
	if m := c.chainOf(t); m != nil { // The ends of the chain are the ends of its result.
		l, _ := m.at(m.x.slo)
		h, _ := m.at(m.x.shi)
		t.fromS(min(l, h), max(l, h))
		t.recon()
	}
	return c.unfloat(t)
}

func (c *TermCtx) FCvt(a *Term, s uint8) *Term {
	if a.srt == s {
		return a
	}
	if a.isConst() {
		return c.FC(a.fval(), s)
	}
	if s == SF64 && a.op == OpFFromS && a.args[0].slo > -(1<<24) && a.args[0].shi < 1<<24 {
		return c.FFromInt(a.args[0], true, SF64)
	}
	return c.mk(termKey{op: OpFCvt, srt: s}, []*Term{a})
}

// ---- variables of a term ----

func mergeSorted(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast paths
	r := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

func (t *Term) Vars() []uint32 {
	if t.varsOK {
		return t.vars
	}
	if t.op == OpVar {
		t.vars = []uint32{t.id}
	} else {
		var v []uint32
		for _, a := range t.args {
			v = mergeSorted(v, a.Vars())
		}
		if t.op == OpUF {
			v = mergeSorted(v, []uint32{0}) // all UF terms are considered connected
		}
		t.vars = v
	}
	t.varsOK = true
	return t.vars
}

// ---- concrete evaluation under a model ----

type Model map[uint32]uint64 // var term id -> bits (missing = default 0 or range lo)

type Evaluator struct {
	m    Model
	memo map[uint32]uint64
	fail bool // met an uninterpreted application
}

func NewEval(m Model) *Evaluator { return &Evaluator{m: m, memo: map[uint32]uint64{}} }

func defaultVal(t *Term) uint64 {
	if isBV(t.srt) {
		if t.ulo > 0 {
			return t.ulo
		}
		if t.slo > 0 {
			return uint64(t.slo)
		}
		if t.shi < 0 {
			return uint64(t.shi) & maskW(t.srt)
		}
	}
	return 0
}

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpVar:
		if v, ok := e.m[t.id]; ok {
			return v
		}
		return defaultVal(t)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t.id] = v
	return v
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func bitsF(v uint64, s uint8) float64 {
	if s == SF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fBits(f float64, s uint8) uint64 {
	if s == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

var foldCtx = NewTermCtx()

func (e *Evaluator) eval1(t *Term) uint64 {
	if t.op == OpIte {
		if e.Eval(t.args[0]) == 1 {
			return e.Eval(t.args[1])
		}
		return e.Eval(t.args[2])
	}
	if t.op == OpAnd {
		if e.Eval(t.args[0]) == 0 {
			return 0
		}
		return e.Eval(t.args[1])
	}
	if t.op == OpOr {
		if e.Eval(t.args[0]) == 1 {
			return 1
		}
		return e.Eval(t.args[1])
	}
	var a [3]uint64
	for i := range t.args {
		if i < 3 {
			a[i] = e.Eval(t.args[i])
		}
	}
	w := t.srt
	var aw uint8
	if len(t.args) > 0 {
		aw = t.args[0].srt
	}
	m := maskW(w)
	switch t.op {
	case OpNot:
		return 1 - a[0]
	case OpEq:
		return b2u(a[0] == a[1])
	case OpAdd:
		return (a[0] + a[1]) & m
	case OpSub:
		return (a[0] - a[1]) & m
	case OpMul:
		return (a[0] * a[1]) & m
	case OpUDiv, OpURem, OpSDiv, OpSRem, OpShl, OpLShr, OpAShr:
		return evalDiv(t.op, a[0], a[1], w)
	case OpBAnd:
		return a[0] & a[1]
	case OpBOr:
		return a[0] | a[1]
	case OpBXor:
		return a[0] ^ a[1]
	case OpBNot:
		return ^a[0] & m
	case OpNeg:
		return -a[0] & m
	case OpUlt:
		return b2u(a[0] < a[1])
	case OpUle:
		return b2u(a[0] <= a[1])
	case OpSlt:
		return b2u(sext(a[0], aw) < sext(a[1], aw))
	case OpSle:
		return b2u(sext(a[0], aw) <= sext(a[1], aw))
	case OpExtract:
		return (a[0] >> uint(t.aux)) & m
	case OpZExt:
		return a[0]
	case OpSExt:
		return uint64(sext(a[0], aw)) & m
	case OpConcat:
		return a[0]<<t.args[1].srt | a[1]
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		x, y := bitsF(a[0], w), bitsF(a[1], w)
		var r float64
		if w == SF32 {
			var fr float32
			switch t.op {
			case OpFAdd:
				fr = float32(x) + float32(y)
			case OpFSub:
				fr = float32(x) - float32(y)
			case OpFMul:
				fr = float32(x) * float32(y)
			case OpFDiv:
				fr = float32(x) / float32(y)
			}
			r = float64(fr)
		} else {
			switch t.op {
			case OpFAdd:
				r = x + y
			case OpFSub:
				r = x - y
			case OpFMul:
				r = x * y
			case OpFDiv:
				r = x / y
			}
		}
		return fBits(r, w)
	case OpFNeg:
		return fBits(-bitsF(a[0], w), w)
	case OpFAbs:
		return fBits(math.Abs(bitsF(a[0], w)), w)
	case OpFSqrt:
		return fBits(math.Sqrt(bitsF(a[0], w)), w)
	case OpFRound:
		return fBits(roundMode(bitsF(a[0], w), t.aux), w)
	case OpFLt:
		return b2u(bitsF(a[0], aw) < bitsF(a[1], aw))
	case OpFLe:
		return b2u(bitsF(a[0], aw) <= bitsF(a[1], aw))
	case OpFEq:
		return b2u(bitsF(a[0], aw) == bitsF(a[1], aw))
	case OpFIsNaN:
		return b2u(math.IsNaN(bitsF(a[0], aw)))
	case OpFFromS:
		if w == SF32 {
			return uint64(math.Float32bits(float32(sext(a[0], aw))))
		}
		return math.Float64bits(float64(sext(a[0], aw)))
	case OpFFromU:
		if w == SF32 {
			return uint64(math.Float32bits(float32(a[0])))
		}
		return math.Float64bits(float64(a[0]))
	case OpFToS, OpFToU:
		x := bitsF(a[0], aw)
		if math.IsNaN(x) || math.Abs(x) >= 9.3e18 {
			return uint64(1) << (w - 1)
		}
		if t.op == OpFToS || x < 0 {
			return uint64(int64(x)) & m
		}
		return uint64(x) & m
	case OpFCvt:
		return fBits(bitsF(a[0], aw), w)
	case OpUF:
		e.fail = true
		return 0
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

func evalDiv(op Op, x, y uint64, w uint8) uint64 {
	sx, sy := sext(x, w), sext(y, w)
	m := maskW(w)
	switch op {
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		if y == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return -x & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		if y == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpShl:
		if y < uint64(w) {
			return (x << y) & m
		}
		return 0
	case OpLShr:
		if y < uint64(w) {
			return x >> y
		}
		return 0
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	}
	return 0
}
