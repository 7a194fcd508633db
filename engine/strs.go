package main

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

var pow10 = func() [20]uint64 {
	var p [20]uint64
	p[0] = 1
	for i := 1; i < 20; i++ {
		p[i] = p[i-1] * 10
	}
	return p
}()

func (ex *Exec) decStr(t *Term, unsigned bool) *Str {
	if t.srt < 64 {
		if unsigned {
			t = ex.ctx.ZExt(t, 64)
		} else {
			t = ex.ctx.SExt(t, 64)
		}
	}
	if unsigned && t.uhi < 1<<63 {
		unsigned = false
	}
	return mkStr([]part{{k: pAtom, a: &Atom{kind: aDec, t: t, unsigned: unsigned}}})
}

// strBytes expands a string to byte terms (forking on the digit count of decimal atoms).
func (ex *Exec) strBytes(s *Str) []Value {
	if s.lit {
		out := make([]Value, len(s.s))
		for i := 0; i < len(s.s); i++ {
			out[i] = ex.w.bytes[s.s[i]]
		}
		return out
	}
	var out []Value
	for _, p := range s.parts {
		switch p.k {
		case pLit:
			for i := 0; i < len(p.s); i++ {
				out = append(out, ex.w.bytes[p.s[i]])
			}
		case pByte:
			out = append(out, p.t)
		case pAtom:
			for _, b := range ex.atomBytes(p.a) {
				out = append(out, b)
			}
		}
	}
	return out
}

func (ex *Exec) atomBytes(a *Atom) []*Term {
	c := ex.ctx
	switch a.kind {
	case aDec:
		t := a.t
		var out []*Term
		if !a.unsigned && t.slo < 0 {
			if ex.branch(c.Slt(t, c.Int(0))) {
				out = append(out, ex.w.bytes['-'])
				t = c.Neg(t)
			}
		}
		n := 1
		for n < 20 && n <= 19 {
			if t.uhi < pow10[n] {
				break
			}
			if t.ulo >= pow10[n] {
				n++
				continue
			}
			if ex.branch(c.Ult(t, c.BV(pow10[n], 64))) {
				break
			}
			n++
			if n == 20 {
				break
			}
		}
		if n < 20 {
			return append(out, ex.digits(t, n)...)
		}
		for i := n - 1; i >= 0; i-- {
			d := t
			if i > 0 {
				d = c.Bin(OpUDiv, d, c.BV(pow10[i], 64))
			}
			if i < n-1 || n == 20 {
				d = c.Bin(OpURem, d, c.BV(10, 64))
			}
			out = append(out, c.Bin(OpAdd, c.Extract(d, 7, 0), c.BV('0', 8)))
		}
		return out
	case aB64:
		return ex.b64Bytes(a.data)
	}
	panic(unsupported("bytes of atom " + a.String()))
}

// digits introduces the n decimal digits of t (10^(n-1) <= t < 10^n, or n = 1) as fresh variables
// tied to t by their weighted sum, and returns their characters.
func (ex *Exec) digits(t *Term, n int) []*Term {
	c := ex.ctx
	if t.isConst() {
		var out []*Term
		for _, ch := range fmt.Sprintf("%0*d", n, t.c) {
			out = append(out, ex.w.bytes[byte(ch)])
		}
		return out
	}
	for _, d := range ex.digs {
		if d.t == t && len(d.ch) == n {
			return d.ch
		}
	}
	if ex.spec > 0 {
		panic(specAbort{"digits"})
	}
	v, ok := ex.eval(t)
	ds := &digitRun{t: t}
	sum := c.BV(0, 64)
	vars := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		lo := uint64(0)
		if i == n-1 && n > 1 {
			lo = 1
		}
		d := ex.newVar("!dig", "digit", 8, false, lo, 9, true)
		ex.addPC(c.And(c.Ule(c.BV(lo, 8), d), c.Ule(d, c.BV(9, 8))))
		vars[i] = d
		sum = c.Bin(OpAdd, sum, c.Bin(OpMul, c.ZExt(d, 64), c.BV(pow10[i], 64)))
		ds.ch = append(ds.ch, c.Bin(OpAdd, d, c.BV('0', 8)))
	}
	ex.addPC(c.Eq(sum, t))
	if ok {
		m := make(Model, len(ex.model)+n)
		for k, x := range ex.model {
			m[k] = x
		}
		for i := 0; i < n; i++ {
			m[vars[i].id] = v / pow10[i] % 10
		}
		ex.setModel(m)
	}
	ex.digs = append(ex.digs, ds)
	return ds.ch
}

type digitRun struct {
	t  *Term
	ch []*Term
}

// undigits recognises the complete digit run of a known number.
func (ex *Exec) undigits(bs []*Term) *Term {
next:
	for _, d := range ex.digs {
		if len(d.ch) != len(bs) {
			continue
		}
		for i := range bs {
			if bs[i] != d.ch[i] {
				continue next
			}
		}
		return d.t
	}
	return nil
}

func (ex *Exec) b64Char(v *Term) *Term {
	c := ex.ctx
	// v: 8-bit value 0..63
	lt := func(k uint64) *Term { return c.Ult(v, c.BV(k, 8)) }
	add := func(k uint64) *Term { return c.Bin(OpAdd, v, c.BV(k, 8)) }
	return c.Ite(lt(26), add('A'), c.Ite(lt(52), add('a'-26), c.Ite(lt(62), c.Bin(OpAdd, v, c.BV(uint64(0x100+'0'-52), 8)), c.Ite(lt(63), c.BV('+', 8), c.BV('/', 8)))))
}

func (ex *Exec) b64Bytes(data []Value) []*Term {
	c := ex.ctx
	var out []*Term
	get := func(i int) *Term {
		if i < len(data) {
			return data[i].(*Term)
		}
		return c.BV(0, 8)
	}
	bits := func(t *Term, sh, mask uint64, left bool) *Term {
		if left {
			return c.Bin(OpBAnd, c.Bin(OpShl, t, c.BV(sh, 8)), c.BV(mask, 8))
		}
		return c.Bin(OpBAnd, c.Bin(OpLShr, t, c.BV(sh, 8)), c.BV(mask, 8))
	}
	for i := 0; i < len(data); i += 3 {
		b0, b1, b2 := get(i), get(i+1), get(i+2)
		out = append(out, ex.b64Char(bits(b0, 2, 0x3f, false)), ex.b64Char(c.Bin(OpBOr, bits(b0, 4, 0x30, true), bits(b1, 4, 0x0f, false))))
		if i+1 < len(data) {
			out = append(out, ex.b64Char(c.Bin(OpBOr, bits(b1, 2, 0x3c, true), bits(b2, 6, 0x03, false))))
		} else {
			out = append(out, ex.w.bytes['='])
		}
		if i+2 < len(data) {
			out = append(out, ex.b64Char(bits(b2, 0, 0x3f, false)))
		} else {
			out = append(out, ex.w.bytes['='])
		}
	}
	return out
}

func (ex *Exec) b64Str(data []Value) *Str {
	all := true
	raw := make([]byte, len(data))
	for i, d := range data {
		t := d.(*Term)
		if !t.isConst() {
			all = false
			break
		}
		raw[i] = byte(t.c)
	}
	if all {
		return litStr(base64.StdEncoding.EncodeToString(raw))
	}
	return mkStr([]part{{k: pAtom, a: &Atom{kind: aB64, data: append([]Value(nil), data...)}}})
}

func b64Len(n int) int { return (n + 2) / 3 * 4 }

func (ex *Exec) bytesStr(bs []Value) *Str { return ex.bytesToStr(bs) }

// expand returns an equal string made of bytes only.
func (ex *Exec) expand(s *Str) *Str {
	if s.bytesOnly() {
		return s
	}
	return ex.bytesToStr(ex.strBytes(s))
}

func (ex *Exec) strLen(s *Str) *Term {
	c := ex.ctx
	if s.lit {
		return c.Int(int64(len(s.s)))
	}
	n := c.Int(0)
	for _, p := range s.parts {
		switch p.k {
		case pLit:
			n = c.Bin(OpAdd, n, c.Int(int64(len(p.s))))
		case pByte:
			n = c.Bin(OpAdd, n, c.Int(1))
		default:
			switch p.a.kind {
			case aB64:
				n = c.Bin(OpAdd, n, c.Int(int64(b64Len(len(p.a.data)))))
			case aDec:
				n = c.Bin(OpAdd, n, ex.decLen(p.a))
			default:
				panic(unsupported("len of " + p.a.String()))
			}
		}
	}
	return n
}

func (ex *Exec) decLen(a *Atom) *Term {
	c := ex.ctx
	t := a.t
	ul := func(t *Term) *Term {
		r := c.Int(20)
		for n := 19; n >= 1; n-- {
			r = c.Ite(c.Ult(t, c.BV(pow10[n], 64)), c.Int(int64(n)), r)
		}
		return r
	}
	if a.unsigned || t.slo >= 0 {
		return ul(t)
	}
	return c.Ite(c.Slt(t, c.Int(0)), c.Bin(OpAdd, ul(c.Neg(t)), c.Int(1)), ul(t))
}

func (ex *Exec) strIndex(s *Str, i *Term) Value {
	if s.lit && i.isConst() {
		if i.c >= uint64(len(s.s)) {
			ex.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.c), len(s.s)))
		}
		return ex.w.bytes[s.s[i.c]]
	}
	if i.isConst() {
		// walk parts without expanding trailing atoms
		pos := uint64(0)
		for _, p := range s.each() {
			switch p.k {
			case pLit:
				if i.c < pos+uint64(len(p.s)) {
					return ex.w.bytes[p.s[i.c-pos]]
				}
				pos += uint64(len(p.s))
			case pByte:
				if i.c == pos {
					return p.t
				}
				pos++
			default:
				goto full
			}
		}
	}
full:
	bs := ex.strBytes(s)
	ex.checkIdx(i, len(bs))
	if i.isConst() {
		return bs[i.c]
	}
	return ex.symLoad(&SymPtr{base: bs, idx: i})
}

func (ex *Exec) strSlice(s *Str, lo, hi Value) Value {
	c := ex.ctx
	if lo == nil && hi == nil {
		return s
	}
	l := c.Int(0)
	if lo != nil {
		l = c.SExt(lo.(*Term), 64)
	}
	if s.lit || s.bytesOnly() {
		n := s.blen()
		h := c.Int(int64(n))
		if hi != nil {
			h = c.SExt(hi.(*Term), 64)
		}
		if !ex.branch(c.And(c.Ule(l, h), c.Ule(h, c.Int(int64(n))))) {
			ex.rtPanic("slice bounds out of range")
		}
		a, b := int(ex.concretize(l)), int(ex.concretize(h))
		if s.lit {
			return litStr(s.s[a:b])
		}
		return ex.bytesToStr(ex.strBytes(s)[a:b])
	}
	if x := ex.ropeSlice(s, l, lo != nil, hi); x != nil {
		return x
	}
	// with atoms: s[k:] inside the leading byte region keeps the atoms
	if hi == nil && l.isConst() {
		k := int(l.c)
		pos := 0
		for pi, p := range s.parts {
			if p.k == pAtom {
				if pos == k {
					return mkStr(s.parts[pi:])
				}
				break
			}
			n := 1
			if p.k == pLit {
				n = len(p.s)
			}
			if k < pos+n {
				var ps []part
				if p.k == pLit {
					ps = append(ps, part{k: pLit, s: p.s[k-pos:]})
				} else {
					ps = append(ps, p)
				}
				return mkStr(append(ps, s.parts[pi+1:]...))
			}
			pos += n
		}
	}
	if hi != nil && l.isConst() {
		h := hi.(*Term)
		if h.isConst() {
			// prefix within leading region
			pos := 0
			ok := true
			for _, p := range s.parts {
				if p.k == pAtom {
					ok = false
					break
				}
				n := 1
				if p.k == pLit {
					n = len(p.s)
				}
				pos += n
				if uint64(pos) >= h.c {
					break
				}
			}
			if ok && uint64(pos) >= h.c && l.c <= h.c {
				var ps []part
				for _, p := range s.parts {
					if p.k == pAtom {
						break
					}
					ps = append(ps, p)
				}
				x := mkStr(ps)
				return ex.strSlice(x, l, h)
			}
		}
	}
	e := ex.expand(s)
	return ex.strSlice(e, lo, hi)
}

// linear splits a sum into its constant and its other summands (sorted by id).
func linear(t *Term) (int64, []*Term) {
	var k int64
	var ts []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch {
		case t.isConst():
			k += int64(t.c)
		case t.op == OpAdd:
			walk(t.args[0])
			walk(t.args[1])
		case t.op == OpSub && t.args[1].isConst():
			walk(t.args[0])
			k -= int64(t.args[1].c)
		default:
			ts = append(ts, t)
		}
	}
	walk(t)
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return k, ts
}

// ropeSlice slices at positions that are known distances from an atom's boundary.
func (ex *Exec) ropeSlice(s *Str, l *Term, hasLo bool, hi Value) *Str {
	cs := cellsOf(s)
	locate := func(t *Term) int {
		if t.srt != 64 {
			return -1
		}
		k, ts := linear(t)
		var bk int64
		var bts []*Term
		for i := 0; ; i++ {
			if bk == k && len(bts) == len(ts) {
				same := true
				for j := range ts {
					if ts[j] != bts[j] {
						same = false
						break
					}
				}
				if same {
					return i
				}
			}
			if len(ts) > 0 && i > 0 && ex.strLen(cellStr(cs[:i])) == t {
				return i
			}
			if i == len(cs) {
				return -1
			}
			if cs[i].k == pAtom {
				n := ex.strLen(cellStr(cs[i : i+1]))
				ak, ats := linear(n)
				bk += ak
				bts = append(append([]*Term(nil), bts...), ats...)
				sort.Slice(bts, func(i, j int) bool { return bts[i].id < bts[j].id })
			} else {
				bk++
			}
		}
	}
	a, b := 0, len(cs)
	if hasLo {
		if a = locate(l); a < 0 {
			return nil
		}
	}
	if hi != nil {
		if b = locate(ex.ctx.SExt(hi.(*Term), 64)); b < 0 {
			return nil
		}
	}
	if a > b {
		return nil
	}
	return cellStr(cs[a:b])
}

// sameStr: structurally identical (no solver involved)
func (ex *Exec) sameStr(a, b *Str) bool {
	if a == b {
		return true
	}
	if a.lit != b.lit {
		return false
	}
	if a.lit {
		return a.s == b.s
	}
	if len(a.parts) != len(b.parts) {
		return false
	}
	for i := range a.parts {
		if !samePart(&a.parts[i], &b.parts[i]) {
			return false
		}
	}
	return true
}

func samePart(p, q *part) bool {
	if p.k != q.k || p.s != q.s || p.t != q.t {
		return false
	}
	if p.k == pAtom {
		return sameAtom(p.a, q.a)
	}
	return true
}

func sameAtom(a, b *Atom) bool {
	if a == b {
		return true
	}
	if a.kind != b.kind || a.t != b.t || a.unsigned != b.unsigned || a.fmtc != b.fmtc || a.prec != b.prec || a.bits != b.bits || len(a.data) != len(b.data) {
		return false
	}
	for i := range a.data {
		if a.data[i] != b.data[i] {
			return false
		}
	}
	return a.kind != aOpq
}

// atomHas: may the atom's text contain byte ch?
func atomHas(a *Atom, ch byte) bool {
	switch a.kind {
	case aDec:
		return ch >= '0' && ch <= '9' || (ch == '-' && !a.unsigned && a.t.slo < 0)
	case aB64:
		return ch >= 'A' && ch <= 'Z' || ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9' || ch == '+' || ch == '/' || ch == '='
	case aFloat:
		return ch >= '0' && ch <= '9' || strings.IndexByte("+-.eEINfNan", ch) >= 0
	}
	return true
}

type cell struct {
	k partKind
	b byte
	t *Term
	a *Atom
}

func cellsOf(s *Str) []cell {
	var out []cell
	for _, p := range s.each() {
		switch p.k {
		case pLit:
			for i := 0; i < len(p.s); i++ {
				out = append(out, cell{k: pLit, b: p.s[i]})
			}
		case pByte:
			out = append(out, cell{k: pByte, t: p.t})
		default:
			out = append(out, cell{k: pAtom, a: p.a})
		}
	}
	return out
}

func cellStr(cs []cell) *Str {
	ps := make([]part, 0, len(cs))
	var lit []byte
	flush := func() {
		if len(lit) > 0 {
			ps = append(ps, part{k: pLit, s: string(lit)})
			lit = nil
		}
	}
	for _, c := range cs {
		switch c.k {
		case pLit:
			lit = append(lit, c.b)
		case pByte:
			flush()
			ps = append(ps, part{k: pByte, t: c.t})
		default:
			flush()
			ps = append(ps, part{k: pAtom, a: c.a})
		}
	}
	flush()
	return mkStr(ps)
}

func (ex *Exec) cellT(c cell) *Term {
	if c.k == pLit {
		return ex.w.bytes[c.b]
	}
	return c.t
}

func (c cell) maybeDigit() bool {
	switch c.k {
	case pLit:
		return c.b >= '0' && c.b <= '9'
	case pByte:
		return !(c.t.uhi < '0' || c.t.ulo > '9')
	}
	return atomHas(c.a, '0')
}

// strEq gives the equality of two strings as a term.
func (ex *Exec) strEq(a, b *Str) *Term {
	c := ex.ctx
	if a.lit && b.lit {
		return c.Bool(a.s == b.s)
	}
	if ex.sameStr(a, b) {
		return c.tTrue
	}
	if a.bytesOnly() && b.bytesOnly() {
		if a.blen() != b.blen() {
			return c.tFalse
		}
		return ex.cellsEq(cellsOf(a), cellsOf(b))
	}
	return ex.cellsEq(cellsOf(a), cellsOf(b))
}

func minLenCells(cs []cell) int {
	n := 0
	for _, c := range cs {
		if c.k == pAtom {
			if c.a.kind == aB64 {
				n += b64Len(len(c.a.data))
			} else {
				n++
			}
		} else {
			n++
		}
	}
	return n
}

func (ex *Exec) cellsEq(x, y []cell) *Term {
	c := ex.ctx
	r := c.tTrue
	// suffix stripping first finds literal mismatches cheaply
	for len(x) > 0 && len(y) > 0 {
		p, q := x[len(x)-1], y[len(y)-1]
		if p.k == pAtom && q.k == pAtom && sameAtom(p.a, q.a) {
			// same trailing atom: sound to strip only when the text before cannot shift: equal strings with an
			// equal suffix have equal prefixes
			x, y = x[:len(x)-1], y[:len(y)-1]
			continue
		}
		if p.k == pAtom || q.k == pAtom {
			break
		}
		if p.k == pLit && q.k == pLit {
			if p.b != q.b {
				return c.tFalse
			}
		} else {
			r = c.And(r, c.Eq(ex.cellT(p), ex.cellT(q)))
			if r.isFalse() {
				return r
			}
		}
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	for {
		if len(x) == 0 && len(y) == 0 {
			return r
		}
		if len(x) == 0 {
			if minLenCells(y) > 0 {
				return c.tFalse
			}
			return r
		}
		if len(y) == 0 {
			if minLenCells(x) > 0 {
				return c.tFalse
			}
			return r
		}
		p, q := x[0], y[0]
		if p.k != pAtom && q.k != pAtom {
			r = c.And(r, c.Eq(ex.cellT(p), ex.cellT(q)))
			if r.isFalse() {
				return r
			}
			x, y = x[1:], y[1:]
			continue
		}
		if p.k == pAtom && q.k == pAtom && sameAtom(p.a, q.a) {
			x, y = x[1:], y[1:]
			continue
		}
		if p.k != pAtom {
			x, y = y, x
			p, q = q, p
		}
		// p is an atom
		switch p.a.kind {
		case aDec:
			restOK := len(x) == 1 || !x[1].maybeDigit()
			if q.k == pAtom && q.a.kind == aDec && restOK && (len(y) == 1 || !y[1].maybeDigit()) {
				if p.a.unsigned == q.a.unsigned {
					r = c.And(r, c.Eq(p.a.t, q.a.t))
				} else {
					u, s := p.a, q.a
					if !u.unsigned {
						u, s = s, u
					}
					r = c.And(r, c.And(c.Eq(u.t, s.t), c.Sle(c.Int(0), s.t)))
				}
				if r.isFalse() {
					return r
				}
				x, y = x[1:], y[1:]
				continue
			}
			if q.k == pLit {
				if !atomHas(p.a, q.b) {
					return c.tFalse
				}
				// maximal literal digit run in y
				n := 0
				if y[0].b == '-' {
					n = 1
				}
				for n < len(y) && y[n].k == pLit && y[n].b >= '0' && y[n].b <= '9' {
					n++
				}
				if restOK && (n == len(y) || !y[n].maybeDigit()) {
					lit := make([]byte, n)
					for i := 0; i < n; i++ {
						lit[i] = y[i].b
					}
					if p.a.unsigned {
						v, err := strconv.ParseUint(string(lit), 10, 64)
						if err != nil || strconv.FormatUint(v, 10) != string(lit) {
							return c.tFalse
						}
						r = c.And(r, c.Eq(p.a.t, c.BV(v, 64)))
					} else {
						v, err := strconv.ParseInt(string(lit), 10, 64)
						if err != nil || strconv.FormatInt(v, 10) != string(lit) {
							return c.tFalse
						}
						r = c.And(r, c.Eq(p.a.t, c.Int(v)))
					}
					if r.isFalse() {
						return r
					}
					x, y = x[1:], y[n:]
					continue
				}
			}
		case aB64:
			if q.k == pAtom && q.a.kind == aB64 && len(q.a.data) == len(p.a.data) {
				for i := range p.a.data {
					r = c.And(r, c.Eq(p.a.data[i].(*Term), q.a.data[i].(*Term)))
				}
				if r.isFalse() {
					return r
				}
				x, y = x[1:], y[1:]
				continue
			}
			if q.k == pLit && !atomHas(p.a, q.b) && len(p.a.data) > 0 {
				return c.tFalse
			}
		case aFloat:
			if q.k == pLit && !atomHas(p.a, q.b) {
				return c.tFalse
			}
			if q.k == pAtom && q.a.kind == aFloat && q.a.fmtc == p.a.fmtc && q.a.prec == p.a.prec && q.a.bits == p.a.bits && len(x) == 1 && len(y) == 1 {
				// equal values print equally; different values may or may not
				if ex.branch(c.Eq(p.a.t, q.a.t)) {
					return r
				}
				panic(unsupported("comparison of two different formatted floats"))
			}
		}
		if r.isFalse() {
			return r
		}
		// fall back to expanding the leading atoms
		xs := append(cellsOf(ex.expand(cellStr(x[:1]))), x[1:]...)
		x = xs
		if y[0].k == pAtom {
			y = append(cellsOf(ex.expand(cellStr(y[:1]))), y[1:]...)
		}
	}
}

func (ex *Exec) strLess(a, b *Str) *Term {
	c := ex.ctx
	if a.lit && b.lit {
		return c.Bool(a.s < b.s)
	}
	x, y := ex.strBytes(a), ex.strBytes(b)
	n := min(len(x), len(y))
	r := c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := x[i].(*Term), y[i].(*Term)
		r = c.Or(c.Ult(p, q), c.And(c.Eq(p, q), r))
	}
	return r
}

// ---------- searching ----------

// matchAt decides whether literal sub occurs at cell index i. expand reports that an atom in the
// way may contain part of sub.
func (ex *Exec) matchCond(cs []cell, i int, sub []cell) (cond *Term, needExpand int) {
	c := ex.ctx
	cond = c.tTrue
	for j := 0; j < len(sub); j++ {
		if i+j >= len(cs) {
			return c.tFalse, -1
		}
		x := cs[i+j]
		if x.k == pAtom {
			if sub[j].k == pLit && !atomHas(x.a, sub[j].b) {
				if x.a.kind == aB64 && len(x.a.data) == 0 {
					return cond, i + j
				}
				return c.tFalse, -1
			}
			return cond, i + j
		}
		cond = c.And(cond, c.Eq(ex.cellT(x), ex.cellT(sub[j])))
		if cond.isFalse() {
			return cond, -1
		}
	}
	return cond, -1
}

// findSub finds the first occurrence of sub at or after cell index from; cs may be rewritten by
// expansion (returned).
func (ex *Exec) findSub(cs []cell, sub []cell, from int) ([]cell, int) {
	for i := from; i <= len(cs); i++ {
		if len(sub) == 0 {
			return cs, i
		}
		if i == len(cs) {
			break
		}
		if cs[i].k == pAtom && sub[0].k == pLit && !atomHas(cs[i].a, sub[0].b) {
			continue
		}
		cond, ne := ex.matchCond(cs, i, sub)
		if ne >= 0 && !cond.isFalse() {
			cs = append(append(append([]cell(nil), cs[:ne]...), cellsOf(ex.expand(cellStr(cs[ne:ne+1])))...), cs[ne+1:]...)
			i--
			continue
		}
		if ex.branch(cond) {
			return cs, i
		}
	}
	return cs, -1
}

func (ex *Exec) noAtoms(s *Str) *Str {
	if s.bytesOnly() {
		return s
	}
	return ex.expand(s)
}

func (ex *Exec) splitStr(s, sep *Str, n int) []*Str {
	if s.lit && sep.lit {
		var out []*Str
		for _, x := range strings.SplitN(s.s, sep.s, n) {
			out = append(out, litStr(x))
		}
		return out
	}
	if n == 0 {
		return nil
	}
	cs := cellsOf(s)
	sub := cellsOf(ex.noAtoms(sep))
	if len(sub) == 0 {
		panic(unsupported("split on empty separator"))
	}
	var out []*Str
	for n < 0 || len(out) < n-1 {
		var i int
		cs, i = ex.findSub(cs, sub, 0)
		if i < 0 {
			break
		}
		out = append(out, cellStr(cs[:i]))
		cs = cs[i+len(sub):]
	}
	return append(out, cellStr(cs))
}

func (ex *Exec) hasPrefix(s, pre *Str) *Term {
	if s.lit && pre.lit {
		return ex.ctx.Bool(strings.HasPrefix(s.s, pre.s))
	}
	cs, ps := cellsOf(s), cellsOf(pre)
	for {
		// strip common atoms
		if len(ps) > 0 && len(cs) > 0 && ps[0].k == pAtom && cs[0].k == pAtom && sameAtom(ps[0].a, cs[0].a) && len(ps) == 1 {
			return ex.ctx.tTrue
		}
		cond, ne := ex.matchCond(cs, 0, ps)
		if ne < 0 {
			for _, p := range ps {
				if p.k == pAtom {
					ps = cellsOf(ex.expand(cellStr(ps)))
					cond, ne = ex.matchCond(cs, 0, ps)
					break
				}
			}
		}
		if ne < 0 || cond.isFalse() {
			return cond
		}
		cs = append(append(append([]cell(nil), cs[:ne]...), cellsOf(ex.expand(cellStr(cs[ne:ne+1])))...), cs[ne+1:]...)
	}
}

func (ex *Exec) hasSuffix(s, suf *Str) *Term {
	if s.lit && suf.lit {
		return ex.ctx.Bool(strings.HasSuffix(s.s, suf.s))
	}
	c := ex.ctx
	cs, ps := cellsOf(s), cellsOf(ex.noAtoms(suf))
	cond := c.tTrue
	for j := 1; j <= len(ps); j++ {
		if j > len(cs) {
			return c.tFalse
		}
		x := cs[len(cs)-j]
		p := ps[len(ps)-j]
		if x.k == pAtom {
			if p.k == pLit && !atomHas(x.a, p.b) {
				return c.tFalse
			}
			if cond.isFalse() {
				return cond
			}
			return ex.hasSuffix(ex.expand(s), suf)
		}
		cond = c.And(cond, c.Eq(ex.cellT(x), ex.cellT(p)))
		if cond.isFalse() {
			return cond
		}
	}
	return cond
}

func (ex *Exec) isSpaceT(t *Term) *Term {
	c := ex.ctx
	return c.Or(c.Eq(t, c.BV(' ', 8)), c.And(c.Ule(c.BV(9, 8), t), c.Ule(t, c.BV(13, 8))))
}

// wideSpace tells whether the bytes at one end of cs are a white-space character beyond ASCII, and of how many bytes.
func (ex *Exec) wideSpace(cs []cell, end bool) int {
	c := ex.ctx
	for n := 2; n <= 3 && n <= len(cs); n++ {
		x := cs[:n]
		if end {
			x = cs[len(cs)-n:]
		}
		var t [3]*Term
		atom := false
		for i := range x {
			if x[i].k == pAtom {
				atom = true
				break
			}
			t[i] = ex.cellT(x[i])
		}
		if atom {
			return 0
		}
		is := func(i int, v uint64) *Term { return c.Eq(t[i], c.BV(v, 8)) }
		var cond *Term
		if n == 2 {
			cond = c.And(is(0, 0xC2), c.Or(is(1, 0x85), is(1, 0xA0)))
		} else {
			e280 := c.Or(c.And(c.Ule(c.BV(0x80, 8), t[2]), c.Ule(t[2], c.BV(0x8A, 8))), c.Or(is(2, 0xA8), c.Or(is(2, 0xA9), is(2, 0xAF))))
			e2 := c.And(is(0, 0xE2), c.Or(c.And(is(1, 0x81), is(2, 0x9F)), c.And(is(1, 0x80), e280)))
			cond = c.Or(e2, c.Or(c.And(is(0, 0xE1), c.And(is(1, 0x9A), is(2, 0x80))), c.And(is(0, 0xE3), c.And(is(1, 0x80), is(2, 0x80)))))
		}
		if ex.branch(cond) {
			return n
		}
	}
	return 0
}

// trimSpace implements strings.TrimSpace.
func (ex *Exec) trimSpace(s *Str) (*Str, bool) {
	if s.lit {
		return litStr(strings.TrimSpace(s.s)), true
	}
	cs := cellsOf(s)
	for len(cs) > 0 && cs[0].k != pAtom {
		n := 1
		if !ex.branch(ex.isSpaceT(ex.cellT(cs[0]))) {
			if n = ex.wideSpace(cs, false); n == 0 {
				break
			}
		}
		cs = cs[n:]
	}
	for len(cs) > 0 && cs[len(cs)-1].k != pAtom {
		n := 1
		if !ex.branch(ex.isSpaceT(ex.cellT(cs[len(cs)-1]))) {
			if n = ex.wideSpace(cs, true); n == 0 {
				break
			}
		}
		cs = cs[:len(cs)-n]
	}
	return cellStr(cs), true
}

func (ex *Exec) joinStrs(ss []*Str, sep *Str) *Str {
	var all []*Str
	for i, s := range ss {
		if i > 0 {
			all = append(all, sep)
		}
		all = append(all, s)
	}
	return concatStr(all...)
}

// concreteStr evaluates a rope under a model (for reports and replays).
func (ex *Exec) concreteStr(s *Str, ev *Evaluator) string {
	if s.lit {
		return s.s
	}
	var sb strings.Builder
	for _, p := range s.parts {
		switch p.k {
		case pLit:
			sb.WriteString(p.s)
		case pByte:
			sb.WriteByte(byte(ev.Eval(p.t)))
		default:
			switch p.a.kind {
			case aDec:
				v := ev.Eval(p.a.t)
				if p.a.unsigned {
					sb.WriteString(strconv.FormatUint(v, 10))
				} else {
					sb.WriteString(strconv.FormatInt(int64(v), 10))
				}
			case aB64:
				raw := make([]byte, len(p.a.data))
				for i, d := range p.a.data {
					raw[i] = byte(ev.Eval(d.(*Term)))
				}
				sb.WriteString(base64.StdEncoding.EncodeToString(raw))
			case aFloat:
				f := bitsF(ev.Eval(p.a.t), p.a.t.srt)
				sb.WriteString(strconv.FormatFloat(f, p.a.fmtc, p.a.prec, p.a.bits))
			}
		}
	}
	return sb.String()
}
