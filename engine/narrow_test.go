package main

import (
	"math/rand"
	"testing"
)

// TestNarrow compares the narrow emission with the evaluator: a random term over random values of its variables.
func TestNarrow(t *testing.T) {
	for seed := int64(0); seed < 60; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewTermCtx()
		s := NewSolver(c)
		m := Model{}
		var ts []*Term
		for i := 0; i < 6; i++ {
			v := c.Var(string(rune(97+i)), []uint8{64, 64, 32, 16, 8, 64}[i])
			lim := []int64{5, 300, 70000, 90, 100, 1 << 40}[i]
			lo, hi := -lim, lim
			if r.Intn(3) == 0 {
				lo = 0
			}
			v.slo, v.shi = lo, hi
			if lo >= 0 {
				v.ulo, v.uhi = 0, uint64(hi)
			}
			m[v.id] = uint64(lo+r.Int63n(hi-lo+1)) & maskW(v.srt)
			if r.Intn(4) == 0 {
				m[v.id] = uint64(lo) & maskW(v.srt)
			}
			if v.srt < 16 {
				v.setFull()
			}
			ts = append(ts, v)
		}
		var cmps []*Term
		var eqs []*Term
		for _, v := range ts {
			eqs = append(eqs, c.Eq(v, c.BV(m[v.id], v.srt)))
		}
		ops := []Op{OpAdd, OpSub, OpMul, OpSDiv, OpSRem, OpUDiv, OpURem, OpBAnd, OpBOr, OpBXor, OpShl, OpLShr, OpAShr}
		pick := func(w uint8) *Term {
			for k := 0; k < 50; k++ {
				x := ts[r.Intn(len(ts))]
				if x.srt == w {
					return x
				}
			}
			return c.BV(uint64(r.Intn(20)), w)
		}
		for i := 0; i < 120; i++ {
			w := []uint8{64, 64, 64, 32, 16, 8}[r.Intn(6)]
			var x *Term
			switch r.Intn(8) {
			case 0, 1, 2, 3:
				op := ops[r.Intn(len(ops))]
				b := pick(w)
				if r.Intn(2) == 0 || op >= OpShl && op <= OpAShr {
					b = c.BV(uint64(1+r.Intn(9)), w)
				}
				if op == OpSDiv || op == OpSRem || op == OpUDiv || op == OpURem {
					b = c.BV(uint64([]int{1, 2, 4, 8, 16, 3, 7, 10}[r.Intn(8)]), w)
				}
				x = c.Bin(op, pick(w), b)
			case 4:
				if len(cmps) > 0 {
					x = c.Ite(cmps[r.Intn(len(cmps))], pick(w), pick(w))
				}
			case 5:
				x = c.Neg(pick(w))
			case 6:
				if w > 16 {
					x = c.SExt(pick(16), w)
				}
			case 7:
				if w == 64 {
					x = c.ZExt(pick(32), w)
				} else {
					x = c.Extract(pick(64), int(w)-1, 0)
				}
			}
			if x == nil {
				continue
			}
			ts = append(ts, x)
			p, q := pick(64), pick(64)
			cmps = append(cmps, []*Term{c.Ult(p, q), c.Slt(p, q), c.Sle(p, q), c.Ule(p, q), c.Eq(p, q)}[r.Intn(5)])
		}
		ev := NewEval(m)
		var bad *Term = c.Bool(false)
		for _, x := range ts {
			bad = c.Or(bad, c.Not(c.Eq(x, c.BV(ev.Eval(x), x.srt))))
		}
		for _, x := range cmps {
			bad = c.Or(bad, c.Not(c.Eq(x, c.Bool(ev.Eval(x) == 1))))
		}
		res, _ := s.Check(append(eqs, bad))
		if res != Unsat {
			t.Fatalf("seed %d: %v", seed, res)
		}
		for i, e := range eqs {
			if r, _ := s.Check([]*Term{e}); r != Sat {
				t.Logf("seed %d var %d [%d,%d] u[%d,%d] val %x %v", seed, i, ts[i].slo, ts[i].shi, ts[i].ulo, ts[i].uhi, m[ts[i].id], r)
			}
		}
		res, mm := s.Check(eqs)
		if res != Sat {
			t.Fatalf("seed %d: %v", seed, res)
		}
		for id, v := range m {
			if got, ok := mm[id]; ok && got != v {
				t.Fatalf("seed %d: model %x != %x", seed, got, v)
			}
		}
		s.Close()
	}
}
