package main

import "math"

// Chains of floating point steps from one integer: converted to float64, then added to, subtracted from, multiplied or
// divided by constants, rounded, and converted back. Every such step rounds a monotone function, so it is monotone, and
// so is the chain. A comparison of its result with a constant is therefore a comparison of the integer with a threshold,
// which bisection over concrete evaluations finds exactly. (Solvers bit-blast the same question for minutes.)

type monoChain struct {
	x     *Term // the integer
	down  bool  // the result falls when x grows
	steps []func(float64) float64
	adds  []int64 // integer constants added after the conversion back
	srt   uint8
}

// at is the value of the chain; ok is false if it leaves what the lemma covers.
func (m *monoChain) at(v int64) (r int64, ok bool) {
	f := float64(v)
	for _, s := range m.steps {
		f = s(f)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 0, false
		}
	}
	if math.Abs(f) >= 1<<62 {
		return 0, false
	}
	r = int64(f)
	for _, a := range m.adds {
		n, o := addOvS(r, a)
		if o {
			return 0, false
		}
		r = n
	}
	return r, true
}

// chainOf recognises a chain; nil if t is none.
func (c *TermCtx) chainOf(t *Term) *monoChain {
	if !t.hasFloat || t.srt != 64 || (t.op != OpFToS && t.op != OpAdd && t.op != OpSub) {
		return nil
	}
	if m, ok := c.chains[t.id]; ok {
		return m
	}
	m := &monoChain{srt: t.srt}
	if !m.build(t) {
		m = nil
	} else {
		_, ok1 := m.at(m.x.slo)
		_, ok2 := m.at(m.x.shi)
		if !ok1 || !ok2 {
			m = nil
		}
	}
	c.chains[t.id] = m
	return m
}

func (m *monoChain) build(t *Term) bool {
	for t.op == OpAdd || t.op == OpSub {
		x, y := t.args[0], t.args[1]
		if t.op == OpAdd && x.isConst() {
			x, y = y, x
		}
		if !y.isConst() || !x.hasFloat {
			return false
		}
		k := int64(y.c)
		if t.op == OpSub {
			if k == math.MinInt64 {
				return false
			}
			k = -k
		}
		m.adds = append([]int64{k}, m.adds...)
		t = x
	}
	if t.op != OpFToS {
		return false
	}
	t = t.args[0]
	var rev []func(float64) float64
	for t.op != OpFFromS {
		if t.srt != SF64 {
			return false
		}
		switch t.op {
		case OpFNeg:
			m.down = !m.down
			rev = append(rev, func(f float64) float64 { return -f })
			t = t.args[0]
		case OpFRound:
			aux := t.aux
			rev = append(rev, func(f float64) float64 { return roundMode(f, aux) })
			t = t.args[0]
		case OpFAdd, OpFSub, OpFMul, OpFDiv:
			op, x, y := t.op, t.args[0], t.args[1]
			left := false // the constant is on the left
			if x.isConst() {
				if op == OpFDiv {
					return false
				}
				x, y, left = y, x, true
			}
			if !y.isConst() {
				return false
			}
			k := y.fval()
			if math.IsNaN(k) || math.IsInf(k, 0) {
				return false
			}
			switch op {
			case OpFAdd:
				rev = append(rev, func(f float64) float64 { return f + k })
			case OpFSub:
				if left {
					m.down = !m.down
					rev = append(rev, func(f float64) float64 { return k - f })
				} else {
					rev = append(rev, func(f float64) float64 { return f - k })
				}
			case OpFMul:
				if k == 0 {
					return false
				}
				if k < 0 {
					m.down = !m.down
				}
				rev = append(rev, func(f float64) float64 { return f * k })
			case OpFDiv:
				if k == 0 {
					return false
				}
				if k < 0 {
					m.down = !m.down
				}
				rev = append(rev, func(f float64) float64 { return f / k })
			}
			t = x
		default:
			return false
		}
	}
	if t.srt != SF64 || !isBV(t.args[0].srt) {
		return false
	}
	m.x = t.args[0]
	for i := len(rev) - 1; i >= 0; i-- {
		m.steps = append(m.steps, rev[i])
	}
	return true
}

// reaches is the condition that the value is at least k.
func (c *TermCtx) reaches(m *monoChain, k int64) *Term {
	lo, hi := m.x.slo, m.x.shi
	holds := func(v int64) bool { r, _ := m.at(v); return r >= k }
	if m.down {
		// Holds up to some value of x.
		if !holds(lo) {
			return c.tFalse
		}
		for lo < hi {
			mid := lo + int64(uint64(hi-lo)/2) + 1
			if mid > hi {
				mid = hi
			}
			if holds(mid) {
				lo = mid
			} else {
				hi = mid - 1
			}
		}
		return c.Sle(m.x, c.BV(uint64(lo), m.x.srt))
	}
	if !holds(hi) {
		return c.tFalse
	}
	for lo < hi {
		mid := lo + int64(uint64(hi-lo)/2)
		if holds(mid) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return c.Sle(c.BV(uint64(lo), m.x.srt), m.x)
}

// monoCmp rewrites a signed comparison of a chain with a constant, or returns nil.
func (c *TermCtx) monoCmp(op Op, a, b *Term) *Term {
	if !a.hasFloat && !b.hasFloat {
		return nil
	}
	if b.isConst() {
		m := c.chainOf(a)
		if m == nil {
			return nil
		}
		k := int64(b.c)
		switch op {
		case OpSlt: // a < k
			return c.Not(c.reaches(m, k))
		case OpSle:
			if k == math.MaxInt64 {
				return c.tTrue
			}
			return c.Not(c.reaches(m, k+1))
		case OpEq:
			if k == math.MaxInt64 {
				return c.reaches(m, k)
			}
			return c.And(c.reaches(m, k), c.Not(c.reaches(m, k+1)))
		}
	}
	if a.isConst() {
		m := c.chainOf(b)
		if m == nil {
			return nil
		}
		k := int64(a.c)
		switch op {
		case OpSlt: // k < b
			if k == math.MaxInt64 {
				return c.tFalse
			}
			return c.reaches(m, k+1)
		case OpSle:
			return c.reaches(m, k)
		case OpEq:
			return c.monoCmp(op, b, a)
		}
	}
	return nil
}

// stepFn is a function of one integer with few values: value vals[i] from at[i] (up to the next).
type stepFn struct {
	at   []int64
	vals []uint64
}

const maxSteps = 300

// linPart is a part lo..hi of the values of a variable where a term is (as a signed number) the variable plus d.
type linPart struct{ lo, hi, d int64 }

const maxParts = 8

// linear is t, over lo..hi, as the variable v plus constants: sign and zero extensions, truncations, and (wrapping)
// additions of constants.
func (c *TermCtx) linear(t, v *Term, lo, hi int64) ([]linPart, bool) {
	if t == v && isBV(t.srt) {
		return []linPart{{lo, hi, 0}}, true
	}
	if len(t.args) == 0 || !isBV(t.srt) {
		return nil, false
	}
	k, sub := int64(0), t.args[0]
	switch t.op {
	case OpSExt:
		return c.linear(sub, v, lo, hi)
	case OpZExt:
		in, ok := c.linear(sub, v, lo, hi)
		if !ok || sub.srt > 62 {
			return nil, false
		}
		var out []linPart
		for _, p := range in {
			if p.lo+p.d < 0 { // the values below zero gain 2^w
				q := p
				if q.hi+q.d >= 0 {
					q.hi = -q.d - 1
				}
				q.d += 1 << sub.srt
				out = append(out, q)
				p.lo = q.hi + 1
			}
			if p.lo <= p.hi {
				out = append(out, p)
			}
		}
		return out, len(out) <= maxParts
	case OpExtract:
		if t.aux != 0 {
			return nil, false
		}
	case OpAdd, OpSub:
		if t.op == OpAdd && t.args[0].isConst() {
			sub, k = t.args[1], sext(t.args[0].c, t.srt)
		} else if t.args[1].isConst() {
			k = sext(t.args[1].c, t.srt)
			if t.op == OpSub {
				k = -k
			}
		} else {
			return nil, false
		}
		if k == math.MinInt64 {
			return nil, false
		}
	default:
		return nil, false
	}
	in, ok := c.linear(sub, v, lo, hi)
	if !ok {
		return nil, false
	}
	var out []linPart
	for _, p := range in {
		d, o := addOvS(p.d, k)
		from, o1 := addOvS(p.lo, d)
		to, o2 := addOvS(p.hi, d)
		if o || o1 || o2 {
			return nil, false
		}
		p.d = d
		if t.srt == 64 {
			out = append(out, p)
			continue
		}
		size := int64(1) << t.srt
		wraps := func(n int64) int64 { return (n + size/2) >> t.srt } // how often n leaves the range
		if from > math.MaxInt64-size || to > math.MaxInt64-size || from < math.MinInt64+size {
			return nil, false
		}
		if wraps(to)-wraps(from) > maxParts {
			return nil, false
		}
		for p.lo <= p.hi {
			w := wraps(p.lo + d)
			q := p
			if end := w*size + size/2 - 1 - d; q.hi > end {
				q.hi = end
			}
			q.d = d - w*size
			out = append(out, q)
			p.lo = q.hi + 1
		}
	}
	return out, len(out) <= maxParts
}

// split is p, a comparison of v (plus constants) with a constant, as a function of v over lo..hi.
func (c *TermCtx) split(p, v *Term, lo, hi int64) (f stepFn, ok bool) {
	neg := false
	if p.op == OpNot {
		neg, p = true, p.args[0]
	}
	switch p.op {
	case OpSlt, OpSle, OpUlt, OpUle:
	default:
		return f, false
	}
	a, b := p.args[0], p.args[1]
	x, k := a, b
	if a.isConst() {
		x, k = b, a
	} else if !b.isConst() {
		return f, false
	}
	parts, ok := c.linear(x, v, lo, hi)
	if !ok {
		return f, false
	}
	unsigned := p.op == OpUlt || p.op == OpUle
	for _, q := range parts {
		ends := []linPart{q}
		if unsigned && q.lo+q.d < 0 && q.hi+q.d >= 0 { // the order is another one below zero
			l, h := q, q
			l.hi = -q.d - 1
			h.lo = -q.d
			ends = []linPart{l, h}
		}
		for _, q := range ends {
			holds := func(n int64) bool {
				m, r := uint64(n+q.d)&maskW(x.srt), false
				l, h := m, k.c
				if a.isConst() {
					l, h = h, l
				}
				switch p.op {
				case OpUlt:
					r = l < h
				case OpUle:
					r = l <= h
				case OpSlt:
					r = sext(l, x.srt) < sext(h, x.srt)
				default:
					r = sext(l, x.srt) <= sext(h, x.srt)
				}
				return r != neg
			}
			val := func(b bool) uint64 {
				if b {
					return 1
				}
				return 0
			}
			first := holds(q.lo)
			f.add(q.lo, val(first))
			if holds(q.hi) == first {
				continue
			}
			l, h := q.lo, q.hi // the last with holds==first
			for l < h {
				mid := l + int64(uint64(h-l)/2) + 1
				if mid > h {
					mid = h
				}
				if holds(mid) == first {
					l = mid
				} else {
					h = mid - 1
				}
			}
			f.add(l+1, val(!first))
		}
	}
	return f, true
}

// hull is a part of lo..hi outside of which p, a condition on v, does not hold.
func (c *TermCtx) hull(p, v *Term, lo, hi int64) (from, to int64, ok bool) {
	fuel := 3000
	f, ok := c.steps(p, v, lo, hi, &fuel)
	if !ok {
		return 0, 0, false
	}
	from, to = hi+1, hi
	for j := range f.at {
		if f.vals[j] != 0 {
			if from > hi {
				from = f.at[j]
			}
			to = f.end(j, hi)
		}
	}
	return from, to, true
}

// end is the last argument with value j.
func (f stepFn) end(j int, hi int64) int64 {
	if j+1 < len(f.at) {
		return f.at[j+1] - 1
	}
	return hi
}

// add continues f with a value from n.
func (f *stepFn) add(n int64, val uint64) {
	if k := len(f.vals); k > 0 && f.vals[k-1] == val {
		return
	}
	f.at, f.vals = append(f.at, n), append(f.vals, val)
}

// steps is t, whose only variable is v, over lo..hi as a function of v with few values.
func (c *TermCtx) steps(t, v *Term, lo, hi int64, fuel *int) (f stepFn, ok bool) {
	if *fuel--; *fuel < 0 || lo > hi {
		return f, false
	}
	if t.isConst() {
		return stepFn{[]int64{lo}, []uint64{t.c}}, true
	}
	if lo == hi {
		return stepFn{[]int64{lo}, []uint64{NewEval(Model{v.id: uint64(lo) & maskW(v.srt)}).Eval(t)}}, true
	}
	if t.op == OpIte {
		g, ok := c.steps(t.args[0], v, lo, hi, fuel)
		if !ok {
			return f, false
		}
		for j := range g.at {
			arm := t.args[2]
			if g.vals[j] != 0 {
				arm = t.args[1]
			}
			h, ok := c.steps(arm, v, g.at[j], g.end(j, hi), fuel)
			if !ok {
				return f, false
			}
			for k := range h.at {
				f.add(h.at[k], h.vals[k])
			}
		}
		return f, len(f.at) <= maxSteps
	}
	if t.srt == SBool {
		if g, ok := c.split(t, v, lo, hi); ok {
			return g, true
		}
	}
	if m := c.chainOf(t); m != nil {
		parts, ok := c.linear(m.x, v, lo, hi)
		if !ok {
			return f, false
		}
		for _, p := range parts {
			first, _ := m.at(p.lo + p.d)
			last, _ := m.at(p.hi + p.d)
			if n := last - first; n > maxSteps || n < -maxSteps {
				return f, false
			}
			for at := p.lo; ; {
				val, _ := m.at(at + p.d)
				f.add(at, uint64(val)&maskW(t.srt))
				l, h := at, p.hi // the last with this value
				for l < h {
					mid := l + int64(uint64(h-l)/2) + 1
					if mid > h {
						mid = h
					}
					if r, _ := m.at(mid + p.d); r == val {
						l = mid
					} else {
						h = mid - 1
					}
				}
				if l == p.hi {
					break
				}
				at = l + 1
			}
		}
		return f, len(f.at) <= maxSteps
	}
	if len(t.args) == 0 || t.op == OpUF || isFloat(t.srt) {
		return f, false
	}
	// Any other operation: at the steps of its operands.
	gs := make([]stepFn, len(t.args))
	for i, a := range t.args {
		g, ok := c.steps(a, v, lo, hi, fuel)
		if !ok {
			return f, false
		}
		gs[i] = g
	}
	pos := make([]int, len(gs))
	for n := lo; ; {
		e := NewEval(Model{})
		next, more := hi, false
		for i := range gs {
			for pos[i]+1 < len(gs[i].at) && gs[i].at[pos[i]+1] <= n {
				pos[i]++
			}
			if pos[i]+1 < len(gs[i].at) && gs[i].at[pos[i]+1] <= next {
				next, more = gs[i].at[pos[i]+1], true
			}
			e.memo[t.args[i].id] = gs[i].vals[pos[i]]
		}
		f.add(n, e.Eval(t))
		if !more {
			return f, len(f.at) <= maxSteps
		}
		n = next
	}
}

// unfloat rewrites an integer term which is a step function of one variable (between lo and hi) as a decision tree over
// thresholds.
func (c *TermCtx) unfloat(t *Term) *Term {
	v := c.floatVar(t)
	if v == nil {
		return t
	}
	return c.unfloatIn(t, v, v.slo, v.shi)
}

// floatVar is the only variable of an integer term with floating point inside; or nil.
func (c *TermCtx) floatVar(t *Term) *Term {
	if !t.hasFloat || (t.srt != 64 && t.srt != SBool) {
		return nil
	}
	vs := t.Vars()
	if len(vs) != 1 {
		return nil
	}
	v := c.varOf[vs[0]]
	if v == nil || !isBV(v.srt) {
		return nil
	}
	return v
}

func (c *TermCtx) unfloatIn(t, v *Term, lo, hi int64) *Term {
	key := [3]int64{int64(t.id), lo, hi}
	if r, ok := c.unfloated[key]; ok {
		return r
	}
	r := t
	fuel := 3000
	if f, ok := c.steps(t, v, lo, hi, &fuel); ok && len(f.at) > 0 {
		var tree func(i, j int) *Term
		tree = func(i, j int) *Term {
			if j-i == 1 {
				if t.srt == SBool {
					return c.Bool(f.vals[i] != 0)
				}
				return c.BV(f.vals[i], t.srt)
			}
			k := (i + j) / 2
			return c.Ite(c.Slt(v, c.BV(uint64(f.at[k])&maskW(v.srt), v.srt)), tree(i, k), tree(k, j))
		}
		r = tree(0, len(f.at))
	}
	c.unfloated[key] = r
	return r
}

// unfloat does the same within what the path condition says about the variable.
func (ex *Exec) unfloat(t *Term) *Term {
	c := ex.ctx
	v := c.floatVar(t)
	if v == nil {
		return t
	}
	lo, hi := v.slo, v.shi
	for _, p := range ex.pc {
		if vs := p.Vars(); len(vs) != 1 || vs[0] != v.id {
			continue
		}
		if l, h, ok := c.hull(p, v, lo, hi); ok && l <= h {
			lo, hi = l, h
		}
	}
	return c.unfloatIn(t, v, lo, hi)
}
