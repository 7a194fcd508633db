package main

import (
	"fmt"
	"math/bits"
	"strconv"
)

// Terms whose interval shows that they fit in few bits are emitted at that width: n<id> holds the low bits and
// t<id> is its sign extension. This only changes how a term is written down for the solver.

// nWidth is the width a term is emitted at: its own, or less if it is known to fit (as a signed number).
func nWidth(t *Term) int {
	if !isBV(t.srt) || t.srt < 16 {
		return int(t.srt)
	}
	if k := sBits(t); k+4 <= int(t.srt) {
		return k
	}
	return int(t.srt)
}

func isNarrow(t *Term) bool { return isBV(t.srt) && nWidth(t) < int(t.srt) }

func bvConst(v uint64, w int) string {
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

// nref writes the low k bits of t.
func nref(t *Term, k int) string {
	if t.op == OpConst {
		return bvConst(uint64(sext(t.c, t.srt)), k)
	}
	id := strconv.Itoa(int(t.id))
	w := nWidth(t)
	base := "t" + id
	if w < int(t.srt) {
		base = "n" + id
	}
	switch {
	case w == k:
		return base
	case w < k:
		return fmt.Sprintf("((_ sign_extend %d) %s)", k-w, base)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", k-1, base)
}

func fit(s string, w, k int) string {
	switch {
	case w == k:
		return s
	case w < k:
		return fmt.Sprintf("((_ sign_extend %d) %s)", k-w, s)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", k-1, s)
}

// nbody writes the low k bits of t (k is its narrow width).
func nbody(t *Term, k int) string {
	a := t.args
	switch t.op {
	case OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor:
		return "(" + opNames[t.op] + " " + nref(a[0], k) + " " + nref(a[1], k) + ")"
	case OpNeg, OpBNot:
		return "(" + opNames[t.op] + " " + nref(a[0], k) + ")"
	case OpIte:
		return "(ite " + ref(a[0]) + " " + nref(a[1], k) + " " + nref(a[2], k) + ")"
	case OpShl:
		if a[1].isConst() && a[1].c < uint64(k) {
			return "(bvshl " + nref(a[0], k) + " " + bvConst(a[1].c, k) + ")"
		}
	case OpAShr, OpLShr:
		w := nWidth(a[0])
		if a[1].isConst() && a[1].c < uint64(w) && (t.op == OpAShr || a[0].slo >= 0) {
			return fit("(bvashr "+nref(a[0], w)+" "+bvConst(a[1].c, w)+")", w, k)
		}
	case OpSDiv, OpSRem:
		if b := a[1]; b.isConst() && b.c > 0 && b.c&(b.c-1) == 0 && b.c < 1<<30 {
			sh := bits.TrailingZeros64(b.c)
			w := min(max(nWidth(a[0]), sh+1)+1, int(t.srt))
			x := nref(a[0], w)
			q := "(bvashr (bvadd " + x + " (bvand (bvashr " + x + " " + bvConst(uint64(w-1), w) + ") " + bvConst(b.c-1, w) + ")) " + bvConst(uint64(sh), w) + ")"
			if a[0].slo >= 0 {
				q = "(bvashr " + x + " " + bvConst(uint64(sh), w) + ")"
			}
			if t.op == OpSDiv {
				return fit(q, w, k)
			}
			return fit("(bvsub "+x+" (bvshl "+q+" "+bvConst(uint64(sh), w)+"))", w, k)
		}
		if w := max(nWidth(a[0]), nWidth(a[1])) + 1; w < int(t.srt) {
			return fit("("+opNames[t.op]+" "+nref(a[0], w)+" "+nref(a[1], w)+")", w, k)
		}
	case OpUDiv, OpURem:
		if w := max(nWidth(a[0]), nWidth(a[1])) + 1; w < int(t.srt) && a[0].slo >= 0 && a[1].slo >= 0 {
			return fit("("+opNames[t.op]+" "+nref(a[0], w)+" "+nref(a[1], w)+")", w, k)
		}
	case OpZExt:
		w := int(a[0].srt)
		if w < k {
			return fmt.Sprintf("((_ zero_extend %d) %s)", k-w, ref(a[0]))
		}
		return nref(a[0], k)
	case OpSExt:
		return nref(a[0], k)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", k-1, body(t))
}

// cmpBody writes a comparison at the width both sides fit in, or "".
func cmpBody(t *Term) string {
	switch t.op {
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		a, b := t.args[0], t.args[1]
		if !isBV(a.srt) || a.srt < 16 {
			return ""
		}
		if w := max(nWidthC(a), nWidthC(b)); w < int(a.srt) {
			return "(" + opNames[t.op] + " " + nref(a, w) + " " + nref(b, w) + ")"
		}
	}
	return ""
}

func nWidthC(t *Term) int {
	if t.op == OpConst {
		return sBits(t)
	}
	return nWidth(t)
}

// widenModel gives the variables declared at less than their width their full value.
func (s *Solver) widenModel(m Model) Model {
	for id, v := range m {
		if t := s.vars[id]; t != nil && isNarrow(t) {
			m[id] = uint64(sext(v, uint8(nWidth(t)))) & maskW(t.srt)
		}
	}
	return m
}
