package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Model of the protobuf runtime for the generated structs, driven by their struct tags.

type pbField struct {
	idx    int
	num    int
	wire   string // varint, zigzag32, fixed32, bytes
	rep    bool
	packed bool
	t      types.Type
	isMap  bool
}

var pbCache = map[string]map[types.Type][]pbField{}

func (w *Worker) pbFields(t types.Type) []pbField {
	s := under(t).(*types.Struct)
	var r []pbField
	for i := 0; i < s.NumFields(); i++ {
		tag := reflect.StructTag(s.Tag(i))
		pb := tag.Get("protobuf")
		if pb == "" {
			if tag.Get("protobuf_oneof") != "" {
				panic(unsupported("oneof in " + t.String()))
			}
			continue
		}
		ps := strings.Split(pb, ",")
		n, _ := strconv.Atoi(ps[1])
		f := pbField{idx: i, num: n, wire: ps[0], rep: ps[2] == "rep", t: s.Field(i).Type()}
		for _, o := range ps[3:] {
			if o == "packed" {
				f.packed = true
			}
		}
		if tag.Get("protobuf_key") != "" {
			f.isMap = true
		}
		r = append(r, f)
	}
	sort.Slice(r, func(a, b int) bool { return r[a].num < r[b].num })
	return r
}

func pbStructOf(i *Iface) (types.Type, *Agg, bool) {
	if i == nil {
		return nil, nil, false
	}
	pt, ok := under(i.t).(*types.Pointer)
	if !ok {
		panic(unsupported("proto message of type " + i.t.String()))
	}
	p, _ := i.v.(*Value)
	if p == nil {
		return pt.Elem(), nil, true
	}
	return pt.Elem(), (*p).(*Agg), true
}

func (ex *Exec) unknownSlot(t types.Type, a *Agg) *Value {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "unknownFields" {
			return &a.f[i]
		}
	}
	panic(unsupported("no unknownFields in " + t.String()))
}

// ---- Equal ----

func (ex *Exec) pbEqual(t types.Type, a, b *Agg) *Term {
	c := ex.ctx
	if a == nil || b == nil {
		return c.Bool(a == nil && b == nil)
	}
	r := c.tTrue
	for _, f := range ex.w.pbFields(t) {
		r = c.And(r, ex.pbFieldEq(f, a.f[f.idx], b.f[f.idx]))
		if r.isFalse() {
			return r
		}
	}
	ua, ub := *ex.unknownSlot(t, a), *ex.unknownSlot(t, b)
	return c.And(r, ex.strEq(ex.bytesToStr(ua), ex.bytesToStr(ub)))
}

func (ex *Exec) pbFieldEq(f pbField, x, y Value) *Term {
	c := ex.ctx
	switch u := under(f.t).(type) {
	case *types.Basic:
		if isString(f.t) {
			return ex.strEq(x.(*Str), y.(*Str))
		}
		a, b := x.(*Term), y.(*Term)
		if isFloat(a.srt) {
			return c.Or(c.FCmp(OpFEq, a, b), c.And(c.FIsNaN(a), c.FIsNaN(b)))
		}
		return c.Eq(a, b)
	case *types.Pointer:
		p, _ := x.(*Value)
		q, _ := y.(*Value)
		if p == nil || q == nil {
			return c.Bool(p == nil && q == nil)
		}
		if p == q {
			return c.tTrue
		}
		return ex.pbEqual(u.Elem(), (*p).(*Agg), (*q).(*Agg))
	case *types.Slice:
		if isByteSlice(f.t) {
			return ex.strEq(ex.bytesToStr(x), ex.bytesToStr(y))
		}
		a, b := ex.asSlice(x), ex.asSlice(y)
		if len(a) != len(b) {
			return c.tFalse
		}
		r := c.tTrue
		ef := pbField{t: u.Elem()}
		for i := range a {
			r = c.And(r, ex.pbFieldEq(ef, a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Map:
		a, _ := x.(*MapV)
		b, _ := y.(*MapV)
		na, nb := 0, 0
		if a != nil {
			na = a.n
		}
		if b != nil {
			nb = b.n
		}
		if na != nb {
			return c.tFalse
		}
		r := c.tTrue
		ef := pbField{t: u.Elem()}
		for _, e := range ex.mapKeys(a) {
			o := ex.mapFind(b, e.k)
			if o == nil {
				return c.tFalse
			}
			r = c.And(r, ex.pbFieldEq(ef, e.v, o.v))
		}
		return r
	}
	panic(unsupported("proto field " + f.t.String()))
}

// ---- Marshal ----

type pbErr struct{ msg string }

func (ex *Exec) varintStr(v *Term) []part {
	c := ex.ctx
	v = c.ZExt(v, 64)
	if v.isConst() {
		var b []byte
		x := v.c
		for x >= 0x80 {
			b = append(b, byte(x)|0x80)
			x >>= 7
		}
		return []part{{k: pLit, s: string(append(b, byte(x)))}}
	}
	n := 1
	for n < 10 && !ex.branch(c.Ult(v, c.BV(1<<(7*uint(n)), 64))) {
		n++
		if 7*n >= 64 {
			break
		}
	}
	var ps []part
	for i := 0; i < n; i++ {
		b := c.Extract(c.Bin(OpLShr, v, c.BV(uint64(7*i), 64)), 7, 0)
		if i < n-1 {
			b = c.Bin(OpBOr, b, c.BV(0x80, 8))
		} else {
			b = c.Bin(OpBAnd, b, c.BV(0x7f, 8))
		}
		ps = append(ps, part{k: pByte, t: b})
	}
	return ps
}

func (ex *Exec) pbTag(num, wt int) []part { return ex.varintStr(ex.ctx.Int(int64(num<<3 | wt))) }

func (ex *Exec) lenPrefixed(num int, s *Str) []part {
	ps := ex.pbTag(num, 2)
	ps = append(ps, ex.varintStr(ex.strLen(s))...)
	return append(ps, s.each()...)
}

func (ex *Exec) pbScalar(f pbField, v Value) []part {
	c := ex.ctx
	t := v.(*Term)
	switch f.wire {
	case "varint":
		if t.srt == SBool {
			return ex.varintStr(c.BoolToBV(t, 64))
		}
		_, sgn, _ := scalarSort(f.t)
		if sgn {
			return ex.varintStr(c.SExt(t, 64))
		}
		return ex.varintStr(c.ZExt(t, 64))
	case "zigzag32":
		z := c.Bin(OpBXor, c.Bin(OpShl, t, c.BV(1, 32)), c.Bin(OpAShr, t, c.BV(31, 32)))
		return ex.varintStr(c.ZExt(z, 64))
	case "fixed32":
		if isFloat(t.srt) {
			if !t.isConst() {
				panic(unsupported("marshal of symbolic float"))
			}
			t = c.BV(t.c, 32)
		}
		var ps []part
		for i := 0; i < 4; i++ {
			ps = append(ps, part{k: pByte, t: c.Extract(t, 8*i+7, 8*i)})
		}
		return ps
	}
	panic(unsupported("proto wire " + f.wire))
}

func wireType(w string) int {
	switch w {
	case "varint", "zigzag32", "zigzag64":
		return 0
	case "fixed64":
		return 1
	case "fixed32":
		return 5
	}
	return 2
}

func (ex *Exec) validUTF8(s *Str) bool {
	for _, p := range s.each() {
		if p.k == pLit {
			continue
		}
		if p.k == pByte && !ex.branch(ex.ctx.Ult(p.t, ex.ctx.BV(0x80, 8))) {
			// general scan
			n := s
			for pos := 0; ; {
				_, k, ok := ex.decodeRune(n, pos)
				if !ok {
					return true
				}
				if k == 1 {
					b := ex.strBytes(n)[pos].(*Term)
					if !ex.branch(ex.ctx.Ult(b, ex.ctx.BV(0x80, 8))) {
						return false
					}
				}
				pos += k
			}
		}
	}
	return true
}

func (ex *Exec) pbMarshal(t types.Type, a *Agg) []part {
	var out []part
	if a == nil {
		return nil
	}
	c := ex.ctx
	for _, f := range ex.w.pbFields(t) {
		v := a.f[f.idx]
		switch u := under(f.t).(type) {
		case *types.Map:
			m, _ := v.(*MapV)
			for _, e := range ex.permuteIf(ex.mapKeys(m)) {
				var ps []part
				ps = append(ps, ex.pbTag(1, 0)...)
				ps = append(ps, ex.pbScalar(pbField{wire: "varint", t: u.Key()}, e.k)...)
				ps = append(ps, ex.pbTag(2, 0)...)
				ps = append(ps, ex.pbScalar(pbField{wire: "varint", t: u.Elem()}, e.v)...)
				out = append(out, ex.lenPrefixed(f.num, mkStr(ps))...)
			}
		case *types.Slice:
			if isByteSlice(f.t) && !f.rep {
				s := ex.bytesToStr(v)
				if ex.branch(c.Eq(ex.strLen(s), c.Int(0))) {
					continue
				}
				out = append(out, ex.lenPrefixed(f.num, s)...)
				continue
			}
			l := ex.asSlice(v)
			if len(l) == 0 {
				continue
			}
			if f.packed {
				var ps []part
				for _, e := range l {
					ps = append(ps, ex.pbScalar(pbField{wire: f.wire, t: u.Elem()}, e)...)
				}
				out = append(out, ex.lenPrefixed(f.num, mkStr(ps))...)
				continue
			}
			for _, e := range l {
				switch x := e.(type) {
				case *Str:
					if !ex.validUTF8(x) {
						panic(pbErr{"invalid UTF-8"})
					}
					out = append(out, ex.lenPrefixed(f.num, x)...)
				case *Value:
					var sub []part
					if x != nil {
						sub = ex.pbMarshal(under(u.Elem()).(*types.Pointer).Elem(), (*x).(*Agg))
					}
					out = append(out, ex.lenPrefixed(f.num, mkStr(sub))...)
				default:
					panic(unsupported(fmt.Sprintf("repeated %T", e)))
				}
			}
		case *types.Pointer:
			p, _ := v.(*Value)
			if p == nil {
				continue
			}
			out = append(out, ex.lenPrefixed(f.num, mkStr(ex.pbMarshal(u.Elem(), (*p).(*Agg))))...)
		case *types.Basic:
			if s, ok := v.(*Str); ok {
				if ex.branch(c.Eq(ex.strLen(s), c.Int(0))) {
					continue
				}
				if !ex.validUTF8(s) {
					panic(pbErr{"invalid UTF-8"})
				}
				out = append(out, ex.lenPrefixed(f.num, s)...)
				continue
			}
			if ex.isZeroJSON(f.t, v) {
				continue
			}
			out = append(out, ex.pbTag(f.num, wireType(f.wire))...)
			out = append(out, ex.pbScalar(f, v)...)
		default:
			panic(unsupported("proto field " + f.t.String()))
		}
	}
	out = append(out, ex.bytesToStr(*ex.unknownSlot(t, a)).each()...)
	return out
}

func (ex *Exec) permuteIf(es []*mapEntry) []*mapEntry {
	if ex.mapPerm > 1 && len(es) > 1 && len(es) <= ex.mapPerm && ex.spec == 0 {
		return ex.permute(es)
	}
	return es
}

// ---- Unmarshal ----

type pbDec struct {
	ex *Exec
	bs []Value
	i  int
}

func (d *pbDec) varint() *Term {
	c := d.ex.ctx
	v := c.BV(0, 64)
	for n := 0; n < 10; n++ {
		if d.i >= len(d.bs) {
			panic(pbErr{"unexpected EOF"})
		}
		b := d.bs[d.i].(*Term)
		d.i++
		low := c.ZExt(c.Bin(OpBAnd, b, c.BV(0x7f, 8)), 64)
		v = c.Bin(OpBOr, v, c.Bin(OpShl, low, c.BV(uint64(7*n), 64)))
		if n == 9 {
			if d.ex.branch(c.Ule(b, c.BV(1, 8))) {
				return v
			}
			panic(pbErr{"overflow"})
		}
		if d.ex.branch(c.Ult(b, c.BV(0x80, 8))) {
			return v
		}
	}
	panic(pbErr{"overflow"})
}

func (d *pbDec) take(n *Term) []Value {
	c := d.ex.ctx
	if !d.ex.branch(c.Ule(n, c.Int(int64(len(d.bs)-d.i)))) {
		panic(pbErr{"unexpected EOF"})
	}
	k := int(d.ex.concretize(n))
	r := d.bs[d.i : d.i+k : d.i+k]
	d.i += k
	return r
}

func (d *pbDec) skip(num *Term, wt int) {
	switch wt {
	case 0:
		d.varint()
	case 1:
		d.take(d.ex.ctx.Int(8))
	case 2:
		d.take(d.varint())
	case 5:
		d.take(d.ex.ctx.Int(4))
	case 3:
		for {
			_, w2, n2 := d.tag(nil)
			if w2 == 4 {
				if !d.ex.branch(d.ex.ctx.Eq(n2, num)) {
					panic(pbErr{"mismatching end group"})
				}
				return
			}
			d.skip(n2, w2)
		}
	default:
		panic(pbErr{"wire type"})
	}
}

// tag reads a field key; num is -1 for a number that is not among the known ones.
func (d *pbDec) tag(known []int) (num, wt int, n *Term) {
	ex := d.ex
	c := ex.ctx
	t := d.varint()
	n = c.Bin(OpLShr, t, c.BV(3, 64))
	if !ex.branch(c.And(c.Ule(c.BV(1, 64), n), c.Ule(n, c.BV(1<<29-1, 64)))) {
		panic(pbErr{"invalid field number"})
	}
	w := c.Bin(OpBAnd, t, c.BV(7, 64))
	if !ex.branch(c.Ule(w, c.BV(5, 64))) {
		panic(pbErr{"wire type"})
	}
	num = -1
	if n.isConst() {
		for _, k := range known {
			if uint64(k) == n.c {
				num = k
			}
		}
	} else {
		for _, k := range known {
			if ex.branch(c.Eq(n, c.BV(uint64(k), 64))) {
				num = k
				n = c.BV(uint64(k), 64)
				break
			}
		}
	}
	return num, int(ex.concretize(w)), n
}

func (ex *Exec) pbUnmarshal(t types.Type, a *Agg, bs []Value, depth int) {
	if depth > 50 {
		panic(pbErr{"recursion"})
	}
	c := ex.ctx
	d := &pbDec{ex: ex, bs: bs}
	fields := ex.w.pbFields(t)
	nums := make([]int, len(fields))
	for k := range fields {
		nums[k] = fields[k].num
	}
	for d.i < len(d.bs) {
		start := d.i
		num, wt, nt := d.tag(nums)
		if wt == 4 {
			panic(pbErr{"end group"})
		}
		var f *pbField
		for k := range fields {
			if fields[k].num == num {
				f = &fields[k]
			}
		}
		unknown := func() {
			d.skip(nt, wt)
			us := ex.unknownSlot(t, a)
			ex.set(us, append(append([]Value(nil), ex.asSlice(*us)...), d.bs[start:d.i]...))
		}
		if f == nil {
			unknown()
			continue
		}
		slot := &a.f[f.idx]
		scalar := func(ft types.Type, wire string) Value {
			srt, _, _ := scalarSort(ft)
			switch wire {
			case "varint":
				v := d.varint()
				if srt == SBool {
					return c.Not(c.Eq(v, c.BV(0, 64)))
				}
				if srt < 64 {
					return c.Extract(v, int(srt)-1, 0)
				}
				return v
			case "zigzag32":
				v := c.Extract(d.varint(), 31, 0)
				return c.Bin(OpBXor, c.Bin(OpLShr, v, c.BV(1, 32)), c.Neg(c.Bin(OpBAnd, v, c.BV(1, 32))))
			case "fixed32":
				b := d.take(c.Int(4))
				v := c.BV(0, 32)
				for k := 3; k >= 0; k-- {
					v = c.Bin(OpBOr, c.Bin(OpShl, v, c.BV(8, 32)), c.ZExt(b[k].(*Term), 32))
				}
				if srt == SF32 {
					if v.isConst() {
						return c.mk(termKey{op: OpConst, srt: SF32, c: v.c}, nil)
					}
					panic(unsupported("symbolic float on the wire"))
				}
				return v
			}
			panic(unsupported("wire " + wire))
		}
		switch u := under(f.t).(type) {
		case *types.Map:
			if wt != 2 {
				unknown()
				continue
			}
			e := &pbDec{ex: ex, bs: d.take(d.varint())}
			k, v := ex.w.zero(u.Key()), ex.w.zero(u.Elem())
			old := d
			d = e
			for e.i < len(e.bs) {
				n2, w2, nt := e.tag([]int{1, 2})
				if n2 == 1 && w2 == 0 {
					k = scalar(u.Key(), "varint")
				} else if n2 == 2 && w2 == 0 {
					v = scalar(u.Elem(), "varint")
				} else {
					e.skip(nt, w2)
				}
			}
			d = old
			m, _ := (*slot).(*MapV)
			if m == nil {
				m = newMap(u.Key())
				ex.set(slot, m)
			}
			ex.mapSet(m, k, v)
		case *types.Slice:
			if isByteSlice(f.t) && !f.rep {
				if wt != 2 {
					unknown()
					continue
				}
				b := d.take(d.varint())
				ex.set(slot, append([]Value{}, b...))
				continue
			}
			l := append([]Value(nil), ex.asSlice(*slot)...)
			if pt, ok := under(u.Elem()).(*types.Pointer); ok {
				if wt != 2 {
					unknown()
					continue
				}
				p := new(Value)
				*p = ex.w.zero(pt.Elem())
				b := d.take(d.varint())
				ex.set(slot, append(l, p))
				ex.pbUnmarshal(pt.Elem(), (*p).(*Agg), b, depth+1)
				continue
			}
			if isString(u.Elem()) {
				if wt != 2 {
					unknown()
					continue
				}
				s := ex.bytesToStr(d.take(d.varint()))
				if !ex.validUTF8(s) {
					panic(pbErr{"invalid UTF-8"})
				}
				ex.set(slot, append(l, s))
				continue
			}
			if wt == 2 {
				e := &pbDec{ex: ex, bs: d.take(d.varint())}
				old := d
				d = e
				for e.i < len(e.bs) {
					l = append(l, scalar(u.Elem(), f.wire))
				}
				d = old
				ex.set(slot, l)
				continue
			}
			if wt != wireType(f.wire) {
				unknown()
				continue
			}
			ex.set(slot, append(l, scalar(u.Elem(), f.wire)))
		case *types.Pointer:
			if wt != 2 {
				unknown()
				continue
			}
			b := d.take(d.varint())
			p, _ := (*slot).(*Value)
			if p == nil {
				p = new(Value)
				*p = ex.w.zero(u.Elem())
				ex.set(slot, p)
			}
			ex.pbUnmarshal(u.Elem(), (*p).(*Agg), b, depth+1)
		case *types.Basic:
			if isString(f.t) {
				if wt != 2 {
					unknown()
					continue
				}
				s := ex.bytesToStr(d.take(d.varint()))
				if !ex.validUTF8(s) {
					panic(pbErr{"invalid UTF-8"})
				}
				ex.set(slot, s)
				continue
			}
			if wt != wireType(f.wire) {
				unknown()
				continue
			}
			ex.set(slot, scalar(f.t, f.wire))
		default:
			panic(unsupported("proto field " + f.t.String()))
		}
	}
}

func (ex *Exec) pbTry(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(pbErr); ok {
				msg = "proto: " + e.msg
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

func (ex *Exec) pbClone(t types.Type, a *Agg) *Agg {
	n := ex.w.zero(t).(*Agg)
	for _, f := range ex.w.pbFields(t) {
		n.f[f.idx] = ex.pbCloneVal(f.t, a.f[f.idx])
	}
	us := ex.unknownSlot(t, a)
	*ex.unknownSlot(t, n) = *us
	return n
}

func (ex *Exec) pbCloneVal(t types.Type, v Value) Value {
	switch u := under(t).(type) {
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			return (*Value)(nil)
		}
		q := new(Value)
		*q = ex.pbClone(u.Elem(), (*p).(*Agg))
		return q
	case *types.Slice:
		if s, ok := v.([]Value); ok && s == nil {
			return v
		}
		l := ex.asSlice(v)
		r := make([]Value, len(l))
		for i := range l {
			r[i] = ex.pbCloneVal(u.Elem(), l[i])
		}
		return r
	case *types.Map:
		m, _ := v.(*MapV)
		if m == nil {
			return v
		}
		r := newMap(u.Key())
		for _, e := range ex.mapKeys(m) {
			ex.mapSet(r, e.k, ex.pbCloneVal(u.Elem(), e.v))
		}
		return r
	}
	return copyVal(v)
}

func init() {
	I := intrinsics
	P := "google.golang.org/protobuf/proto."
	I[P+"Equal"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		x, _ := a[0].(*Iface)
		y, _ := a[1].(*Iface)
		if x == nil || y == nil {
			return ex.ctx.Bool(x == nil && y == nil)
		}
		tx, ax, _ := pbStructOf(x)
		ty, ay, _ := pbStructOf(y)
		if !types.Identical(tx, ty) {
			return ex.ctx.tFalse
		}
		return ex.pbEqual(tx, ax, ay)
	}
	I[P+"Marshal"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		x, _ := a[0].(*Iface)
		if x == nil {
			return Tuple{[]Value(nil), nilErr}
		}
		t, ag, _ := pbStructOf(x)
		var ps []part
		if e := ex.pbTry(func() { ps = ex.pbMarshal(t, ag) }); e != "" {
			return Tuple{[]Value(nil), ex.newErr(litStr(e))}
		}
		if len(ps) == 0 {
			return Tuple{[]Value{}, nilErr}
		}
		return Tuple{&ByteRope{s: mkStr(ps)}, nilErr}
	}
	I[P+"Unmarshal"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		ex.noSpec("proto.Unmarshal")
		x, _ := a[1].(*Iface)
		t, ag, _ := pbStructOf(x)
		if ag == nil {
			ex.rtPanic("proto.Unmarshal into nil message")
		}
		ex.store(x.v, ex.w.zero(t))
		bs := ex.asSlice(a[0])
		if e := ex.pbTry(func() { ex.pbUnmarshal(t, ag, bs, 0) }); e != "" {
			return ex.newErr(litStr(e))
		}
		return nilErr
	}
	I[P+"Size"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		x, _ := a[0].(*Iface)
		t, ag, _ := pbStructOf(x)
		return ex.strLen(mkStr(ex.pbMarshal(t, ag)))
	}
	I[P+"Clone"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		x, _ := a[0].(*Iface)
		if x == nil {
			return x
		}
		t, ag, _ := pbStructOf(x)
		if ag == nil {
			return x
		}
		p := new(Value)
		*p = ex.pbClone(t, ag)
		return &Iface{t: x.t, v: p}
	}
	I[P+"Reset"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		x, _ := a[0].(*Iface)
		t, _, _ := pbStructOf(x)
		ex.store(x.v, ex.w.zero(t))
		return nil
	}
}
