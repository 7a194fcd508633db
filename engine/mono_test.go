package main

import (
	"math/rand"
	"testing"
)

// TestMono compares the thresholds of chains with their evaluation.
func TestMono(t *testing.T) {
	floats := 0
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewTermCtx()
		v := c.Var("x", []uint8{64, 32}[r.Intn(2)])
		lim := []int64{9, 300, 1 << 20, 1<<31 - 1}[r.Intn(4)]
		v.slo, v.shi = -lim, lim
		if r.Intn(3) == 0 {
			v.slo, v.ulo, v.uhi = 0, 0, uint64(lim)
		}
		x := v
		if v.srt == 32 {
			x = c.SExt(v, 64)
		}
		x = c.Bin(OpSub, x, c.Int(r.Int63n(2*lim)-lim))
		if v.srt == 32 && r.Intn(3) == 0 { // wraps
			x = c.Bin(OpSub, v, c.BV(uint64(r.Uint32()), 32))
			if r.Intn(2) == 0 {
				x = c.Bin(OpAdd, c.SExt(x, 64), c.Int(r.Int63n(2*lim)-lim))
			} else if r.Intn(2) == 0 {
				x = c.Bin(OpAdd, c.ZExt(x, 64), c.Int(r.Int63n(2*lim)-lim))
			}
		}
		f := c.FFromInt(x, true, SF64)
		for i := r.Intn(5); i >= 0; i-- {
			k := c.F64([]float64{3, 0.1, -7, 4294967295, 1e-3, -2.5, 100, 64, 1}[r.Intn(9)])
			op := []Op{OpFAdd, OpFSub, OpFMul, OpFDiv}[r.Intn(4)]
			if op != OpFDiv && r.Intn(3) == 0 {
				f = c.FBin(op, k, f)
			} else {
				f = c.FBin(op, f, k)
			}
			if r.Intn(5) == 0 {
				f = c.FUn(OpFRound, int32(r.Intn(5)), f)
			}
		}
		y := c.FToInt(f, true, 64)
		if r.Intn(2) == 0 {
			y = c.Bin(OpAdd, y, c.Int(r.Int63n(9)-4))
		}
		if r.Intn(2) == 0 { // constrained, and moved: a step function
			w := r.Int63n(60)
			clamp := func(y *Term) *Term {
				return c.Ite(c.Slt(y, c.Int(0)), c.Int(0), c.Ite(c.Slt(c.Int(w), y), c.Int(w), y))
			}
			y = c.Bin(OpSub, clamp(y), c.Int(w/2))
			if r.Intn(2) == 0 {
				y = c.Ite(c.Slt(y, c.Int(0)), c.Neg(y), y)
			}
			if r.Intn(2) == 0 {
				y = clamp(y)
				if y.hasFloat {
					floats++
				}
			}
		}
		for i := 0; i < 30; i++ {
			val := v.slo + r.Int63n(v.shi-v.slo+1)
			m := Model{v.id: uint64(val) & maskW(v.srt)}
			got := int64(NewEval(m).Eval(y))
			if got < y.slo || got > y.shi {
				t.Fatalf("seed %d: %d outside of %d..%d", seed, got, y.slo, y.shi)
			}
			k := got + r.Int63n(5) - 2
			for op, p := range map[string][2]interface{}{"slt": {c.Slt(y, c.Int(k)), got < k}, "sle": {c.Sle(y, c.Int(k)), got <= k}, "eq": {c.Eq(y, c.Int(k)), got == k}, "sgt": {c.Slt(c.Int(k), y), k < got}, "sge": {c.Sle(c.Int(k), y), k <= got}} {
				if (NewEval(m).Eval(p[0].(*Term)) == 1) != p[1].(bool) {
					t.Fatalf("seed %d: %s at %d: %d and %d", seed, op, val, got, k)
				}
			}
		}
	}
	if floats > 200 {
		t.Errorf("%d step functions were not recognised", floats)
	}
}
