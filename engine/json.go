package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Model of encoding/json over ropes, driven by the static types of the program under test.

type jsonField struct {
	idx       int
	name      string
	omitEmpty bool
	asString  bool
	t         types.Type
}
type jsonStruct struct {
	fields []jsonField
	byName map[string]int
}

func (w *Worker) jsonInfo(t types.Type, s *types.Struct) *jsonStruct {
	if r, ok := w.jsonTI[t]; ok {
		return r
	}
	r := &jsonStruct{byName: map[string]int{}}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Embedded() {
			if !f.Exported() {
				continue
			}
			if name == "" {
				panic(unsupported("embedded struct in JSON type " + t.String()))
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		jf := jsonField{idx: i, name: name, t: f.Type()}
		for _, o := range strings.Split(opts, ",") {
			if o == "omitempty" {
				jf.omitEmpty = true
			}
			if o == "string" {
				jf.asString = true
			}
			if o == "omitzero" {
				panic(unsupported("omitzero"))
			}
		}
		r.byName[name] = len(r.fields)
		r.fields = append(r.fields, jf)
	}
	w.jsonTI[t] = r
	return r
}

type jsonW struct {
	ex  *Exec
	out []*Str
	err string
}

func (j *jsonW) lit(s string) { j.out = append(j.out, litStr(s)) }

func (ex *Exec) jsonMarshal(t types.Type, v Value) (*Str, string) {
	j := &jsonW{ex: ex}
	j.val(t, v, 0)
	if j.err != "" {
		return nil, j.err
	}
	return concatStr(j.out...), ""
}

func (ex *Exec) isZeroJSON(t types.Type, v Value) bool {
	c := ex.ctx
	switch x := v.(type) {
	case *Term:
		if x.srt == SBool {
			return ex.branch(c.Not(x))
		}
		if isFloat(x.srt) {
			return ex.branch(c.FCmp(OpFEq, x, c.FC(0, x.srt)))
		}
		return ex.branch(c.Eq(x, c.BV(0, x.srt)))
	case *Str:
		return ex.branch(c.Eq(ex.strLen(x), c.Int(0)))
	case *Value:
		return x == nil
	case *Iface:
		return x == nil
	case []Value:
		return len(x) == 0
	case *ByteRope:
		return ex.branch(c.Eq(ex.lenOf(x), c.Int(0)))
	case *MapV:
		return x == nil || x.n == 0
	}
	return false
}

func (j *jsonW) val(t types.Type, v Value, depth int) {
	if depth > 60 {
		panic(unsupported("json depth"))
	}
	ex := j.ex
	if j.err != "" {
		return
	}
	if m := ex.methodOf(t, "MarshalJSON"); m != nil {
		if p, ok := v.(*Value); ok && p == nil {
			j.lit("null")
			return
		}
		r := ex.callFn(m, []Value{v}, nil).(Tuple)
		if e, _ := r[1].(*Iface); e != nil {
			j.err = "MarshalJSON failed"
			return
		}
		j.out = append(j.out, ex.bytesToStr(r[0]))
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			j.str(v.(*Str))
			return
		}
		srt, sgn, _ := basicSort(u)
		x := v.(*Term)
		switch {
		case srt == SBool:
			if ex.branch(x) {
				j.lit("true")
			} else {
				j.lit("false")
			}
		case isFloat(srt):
			if x.isConst() {
				f := x.fval()
				if math.IsNaN(f) || math.IsInf(f, 0) {
					j.err = "unsupported value"
					return
				}
				var b []byte
				if srt == SF32 {
					b, _ = json.Marshal(float32(f))
				} else {
					b, _ = json.Marshal(f)
				}
				j.lit(string(b))
				return
			}
			c := ex.ctx
			inf := c.FC(math.MaxFloat64, srt)
			if srt == SF32 {
				inf = c.FC(math.MaxFloat32, srt)
			}
			fin := c.And(c.FCmp(OpFLe, x, inf), c.FCmp(OpFLe, c.FUn(OpFNeg, 0, x), inf))
			if !ex.branch(fin) {
				j.err = "unsupported value"
				return
			}
			bits := 64
			if srt == SF32 {
				bits = 32
			}
			j.out = append(j.out, mkStr([]part{{k: pAtom, a: &Atom{kind: aFloat, t: x, fmtc: 'j', prec: -1, bits: bits}}}))
		default:
			j.out = append(j.out, ex.decStr(x, !sgn))
		}
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			j.lit("null")
			return
		}
		j.val(u.Elem(), *p, depth+1)
	case *types.Interface:
		i, _ := v.(*Iface)
		if i == nil {
			j.lit("null")
			return
		}
		j.val(i.t, i.v, depth+1)
	case *types.Struct:
		info := ex.w.jsonInfo(t, u)
		a := v.(*Agg)
		j.lit("{")
		first := true
		for _, f := range info.fields {
			fv := a.f[f.idx]
			if f.omitEmpty && ex.isZeroJSON(f.t, fv) {
				continue
			}
			if !first {
				j.lit(",")
			}
			first = false
			j.str(litStr(f.name))
			j.lit(":")
			if f.asString {
				j.lit(`"`)
			}
			j.val(f.t, fv, depth+1)
			if f.asString {
				j.lit(`"`)
			}
		}
		j.lit("}")
	case *types.Slice:
		if s, ok := v.([]Value); ok && s == nil || v == nil {
			j.lit("null")
			return
		}
		if isByteSlice(t) {
			j.lit(`"`)
			j.out = append(j.out, ex.b64Str(ex.asSlice(v)))
			j.lit(`"`)
			return
		}
		j.lit("[")
		for i, e := range ex.asSlice(v) {
			if i > 0 {
				j.lit(",")
			}
			j.val(u.Elem(), e, depth+1)
		}
		j.lit("]")
	case *types.Array:
		j.lit("[")
		for i, e := range v.(*Agg).f {
			if i > 0 {
				j.lit(",")
			}
			j.val(u.Elem(), e, depth+1)
		}
		j.lit("]")
	case *types.Map:
		m, _ := v.(*MapV)
		if m == nil {
			j.lit("null")
			return
		}
		es := append([]*mapEntry(nil), ex.mapKeys(m)...)
		keys := make([]*Str, len(es))
		for i, e := range es {
			switch k := e.k.(type) {
			case *Str:
				keys[i] = k
			case *Term:
				_, sgn, _ := scalarSort(u.Key())
				keys[i] = ex.decStr(k, !sgn)
			default:
				panic(unsupported("json map key"))
			}
		}
		order := make([]int, len(es))
		for i := range order {
			order[i] = i
		}
		if allLit(keys) {
			sort.Slice(order, func(a, b int) bool { return keys[order[a]].s < keys[order[b]].s })
		} else {
			for p := 1; p < len(order); p++ {
				for q := p; q > 0 && ex.branch(ex.strLess(keys[order[q]], keys[order[q-1]])); q-- {
					order[q], order[q-1] = order[q-1], order[q]
				}
			}
		}
		j.lit("{")
		for n, i := range order {
			if n > 0 {
				j.lit(",")
			}
			j.str(keys[i])
			j.lit(":")
			j.val(u.Elem(), es[i].v, depth+1)
		}
		j.lit("}")
	default:
		j.err = "json: unsupported type"
	}
}

func allLit(ss []*Str) bool {
	for _, s := range ss {
		if !s.lit {
			return false
		}
	}
	return true
}

func (j *jsonW) str(s *Str) {
	ex := j.ex
	if s.lit {
		b, _ := json.Marshal(s.s)
		j.lit(string(b))
		return
	}
	c := ex.ctx
	j.lit(`"`)
	cs := cellsOf(s)
	for i := 0; i < len(cs); i++ {
		x := cs[i]
		if x.k == pAtom {
			j.out = append(j.out, cellStr(cs[i:i+1]))
			continue
		}
		t := ex.cellT(x)
		if ex.branch(jsonPlain(c, t)) {
			j.out = append(j.out, cellStr(cs[i:i+1]))
			continue
		}
		if !ex.branch(c.Ult(t, c.BV(0x80, 8))) {
			k := i
			for k < len(cs) && cs[k].k != pAtom && k < i+4 {
				k++
			}
			r, n, _ := ex.decodeRune(cellStr(cs[i:k]), 0)
			if n == 1 {
				j.lit("\uFFFD")
				continue
			}
			if n == 3 && ex.branch(c.Or(c.Eq(r, c.BV(0x2028, 32)), c.Eq(r, c.BV(0x2029, 32)))) {
				if ex.branch(c.Eq(r, c.BV(0x2028, 32))) {
					j.lit(`\u2028`)
				} else {
					j.lit(`\u2029`)
				}
				i += n - 1
				continue
			}
			j.out = append(j.out, cellStr(cs[i:i+n]))
			i += n - 1
			continue
		}
		v := byte(ex.concretize(t))
		b, _ := json.Marshal(string(rune(v)))
		j.lit(string(b[1 : len(b)-1]))
	}
	j.lit(`"`)
}

func jsonPlain(c *TermCtx, t *Term) *Term {
	p := c.And(c.Ule(c.BV(0x20, 8), t), c.Ult(t, c.BV(0x80, 8)))
	for _, b := range []byte{'"', '\\', '<', '>', '&'} {
		p = c.And(p, c.Not(c.Eq(t, c.BV(uint64(b), 8))))
	}
	return p
}

// ---------- parsing ----------

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jval struct {
	k    jkind
	b    bool
	s    *Str
	arr  []*jval
	keys []*Str
}

type jsonSyntax struct{ msg string }

type jparser struct {
	ex *Exec
	cs []cell
	i  int
}

func (p *jparser) fail(m string) { panic(jsonSyntax{m}) }

func (p *jparser) is(t *Term, set string) bool {
	c := p.ex.ctx
	r := c.tFalse
	for i := 0; i < len(set); i++ {
		r = c.Or(r, c.Eq(t, c.BV(uint64(set[i]), 8)))
	}
	return p.ex.branch(r)
}

// peek skips white space and gives the next byte term (nil at the end or before an atom).
func (p *jparser) peek() (*Term, bool) {
	for p.i < len(p.cs) {
		x := p.cs[p.i]
		if x.k == pAtom {
			return nil, true
		}
		t := p.ex.cellT(x)
		if p.is(t, " \t\r\n") {
			p.i++
			continue
		}
		return t, true
	}
	return nil, false
}

func (p *jparser) value(depth int) *jval {
	ex := p.ex
	if depth > 100 {
		panic(unsupported("json nesting"))
	}
	t, ok := p.peek()
	if !ok {
		p.fail("unexpected end")
	}
	if t == nil {
		return p.number()
	}
	switch {
	case p.is(t, `"`):
		p.i++
		return &jval{k: jStr, s: p.str()}
	case p.is(t, "{"):
		p.i++
		v := &jval{k: jObj}
		t, ok := p.peek()
		if !ok {
			p.fail("unexpected end")
		}
		if t != nil && p.is(t, "}") {
			p.i++
			return v
		}
		for {
			t, ok := p.peek()
			if !ok || t == nil || !p.is(t, `"`) {
				p.fail("object key expected")
			}
			p.i++
			v.keys = append(v.keys, p.str())
			t, ok = p.peek()
			if !ok || t == nil || !p.is(t, ":") {
				p.fail("colon expected")
			}
			p.i++
			v.arr = append(v.arr, p.value(depth+1))
			t, ok = p.peek()
			if !ok || t == nil {
				p.fail("unexpected end")
			}
			if p.is(t, ",") {
				p.i++
				continue
			}
			if p.is(t, "}") {
				p.i++
				return v
			}
			p.fail("object")
		}
	case p.is(t, "["):
		p.i++
		v := &jval{k: jArr}
		t, ok := p.peek()
		if !ok {
			p.fail("unexpected end")
		}
		if t != nil && p.is(t, "]") {
			p.i++
			return v
		}
		for {
			v.arr = append(v.arr, p.value(depth+1))
			t, ok := p.peek()
			if !ok || t == nil {
				p.fail("unexpected end")
			}
			if p.is(t, ",") {
				p.i++
				continue
			}
			if p.is(t, "]") {
				p.i++
				return v
			}
			p.fail("array")
		}
	case p.is(t, "tfn"):
		w := "null"
		if p.is(t, "t") {
			w = "true"
		} else if p.is(t, "f") {
			w = "false"
		}
		for k := 0; k < len(w); k++ {
			if p.i >= len(p.cs) || p.cs[p.i].k == pAtom || !p.is(ex.cellT(p.cs[p.i]), w[k:k+1]) {
				p.fail("literal")
			}
			p.i++
		}
		if w == "null" {
			return &jval{k: jNull}
		}
		return &jval{k: jBool, b: w == "true"}
	}
	return p.number()
}

func (p *jparser) byteAt() *Term {
	if p.i < len(p.cs) && p.cs[p.i].k != pAtom {
		return p.ex.cellT(p.cs[p.i])
	}
	return nil
}

func (p *jparser) number() *jval {
	ex := p.ex
	start := p.i
	if p.i < len(p.cs) && p.cs[p.i].k == pAtom {
		a := p.cs[p.i].a
		if a.kind == aFloat || a.kind == aDec {
			p.i++
			// digits directly following an atom: expand and retry
			if t := p.byteAt(); t != nil && p.is(t, "0123456789.eE-+") || p.i < len(p.cs) && p.cs[p.i].k == pAtom {
				if a.kind == aFloat {
					panic(unsupported("json number after float atom"))
				}
				p.cs = expandCell(ex, p.cs, start)
				p.i = start
				return p.number()
			}
			return &jval{k: jNum, s: cellStr(p.cs[start:p.i])}
		}
		p.cs = expandCell(ex, p.cs, p.i)
		return p.value(0)
	}
	digit := func() bool {
		if p.i < len(p.cs) && p.cs[p.i].k == pAtom {
			if p.cs[p.i].a.kind == aDec {
				p.cs = expandCell(ex, p.cs, p.i)
			} else {
				return false
			}
		}
		t := p.byteAt()
		if t != nil && p.is(t, "0123456789") {
			p.i++
			return true
		}
		return false
	}
	t := p.byteAt()
	if t != nil && p.is(t, "-") {
		p.i++
	}
	if p.i < len(p.cs) && p.cs[p.i].k == pAtom && p.cs[p.i].a.kind == aDec {
		p.cs = expandCell(ex, p.cs, p.i)
	}
	t = p.byteAt()
	if t == nil {
		p.fail("number")
	}
	if p.is(t, "0") {
		p.i++
	} else if p.is(t, "123456789") {
		p.i++
		for digit() {
		}
	} else {
		p.fail("value")
	}
	if t := p.byteAt(); t != nil && p.is(t, ".") {
		p.i++
		if !digit() {
			p.fail("fraction")
		}
		for digit() {
		}
	}
	if t := p.byteAt(); t != nil && p.is(t, "eE") {
		p.i++
		if t := p.byteAt(); t != nil && p.is(t, "+-") {
			p.i++
		}
		if !digit() {
			p.fail("exponent")
		}
		for digit() {
		}
	}
	return &jval{k: jNum, s: cellStr(p.cs[start:p.i])}
}

// str parses the rest of a string literal (after the opening quote) into its decoded value.
func (p *jparser) str() *Str {
	ex := p.ex
	c := ex.ctx
	var out []part
	lit := func(s string) { out = append(out, part{k: pLit, s: s}) }
	for {
		if p.i >= len(p.cs) {
			p.fail("unterminated string")
		}
		x := p.cs[p.i]
		if x.k == pAtom {
			out = append(out, part{k: pAtom, a: x.a})
			p.i++
			continue
		}
		t := ex.cellT(x)
		plain := c.And(c.And(c.Ule(c.BV(0x20, 8), t), c.Ult(t, c.BV(0x80, 8))), c.And(c.Not(c.Eq(t, c.BV('"', 8))), c.Not(c.Eq(t, c.BV('\\', 8)))))
		if ex.branch(plain) {
			out = append(out, part{k: pByte, t: t})
			p.i++
			continue
		}
		if p.is(t, `"`) {
			p.i++
			return mkStr(out)
		}
		if p.is(t, `\`) {
			p.i++
			e := p.byteAt()
			if e == nil {
				p.fail("escape")
			}
			p.i++
			switch {
			case p.is(e, `"\/`):
				out = append(out, part{k: pByte, t: e})
			case p.is(e, "b"):
				lit("\b")
			case p.is(e, "f"):
				lit("\f")
			case p.is(e, "n"):
				lit("\n")
			case p.is(e, "r"):
				lit("\r")
			case p.is(e, "t"):
				lit("\t")
			case p.is(e, "u"):
				r := p.hex4()
				if r >= 0xd800 && r < 0xdc00 {
					// surrogate pair
					save := p.i
					if b := p.byteAt(); b != nil && p.is(b, `\`) {
						p.i++
						if b := p.byteAt(); b != nil && p.is(b, "u") {
							p.i++
							r2 := p.hex4()
							if r2 >= 0xdc00 && r2 < 0xe000 {
								lit(string((r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000))
								continue
							}
						}
						p.i = save
					}
					r = utf8.RuneError
				} else if r >= 0xdc00 && r < 0xe000 {
					r = utf8.RuneError
				}
				lit(string(r))
			default:
				p.fail("escape")
			}
			continue
		}
		if ex.branch(c.Ult(t, c.BV(0x20, 8))) {
			p.fail("control character")
		}
		k := p.i
		for k < len(p.cs) && p.cs[k].k != pAtom && k < p.i+4 {
			k++
		}
		_, n, _ := ex.decodeRune(cellStr(p.cs[p.i:k]), 0)
		if n == 1 {
			lit("\uFFFD")
		} else {
			out = append(out, cellStr(p.cs[p.i:p.i+n]).each()...)
		}
		p.i += n
	}
}

func (p *jparser) hex4() rune {
	var r rune
	for k := 0; k < 4; k++ {
		t := p.byteAt()
		if t == nil || !p.is(t, "0123456789abcdefABCDEF") {
			p.fail("\\u escape")
		}
		v, _ := strconv.ParseUint(string(rune(p.ex.concretize(t))), 16, 8)
		r = r<<4 | rune(v)
		p.i++
	}
	return r
}

func (ex *Exec) jsonParse(s *Str) (v *jval, err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonSyntax); ok {
				v, err = nil, "invalid JSON: "+e.msg
				return
			}
			panic(r)
		}
	}()
	p := &jparser{ex: ex, cs: cellsOf(s)}
	v = p.value(0)
	if _, more := p.peek(); more {
		p.fail("trailing data")
	}
	return v, ""
}

// jsonUnmarshal decodes into the slot; it reports the first type error.
func (ex *Exec) jsonUnmarshal(s *Str, dst *Iface) string {
	v, err := ex.jsonParse(s)
	if err != "" {
		return err
	}
	if dst == nil {
		return "json: Unmarshal(nil)"
	}
	pt, ok := under(dst.t).(*types.Pointer)
	p, _ := dst.v.(*Value)
	if !ok || p == nil {
		return "json: Unmarshal(non-pointer)"
	}
	j := &jdec{ex: ex}
	j.dec(v, pt.Elem(), p)
	return j.err
}

type jdec struct {
	ex  *Exec
	err string
}

func (j *jdec) bad(what string, t types.Type) {
	if j.err == "" {
		j.err = "json: cannot unmarshal " + what + " into " + t.String()
	}
}

func (j *jdec) dec(v *jval, t types.Type, slot *Value) {
	ex := j.ex
	if m := ex.methodOf(types.NewPointer(t), "UnmarshalJSON"); m != nil {
		panic(unsupported("UnmarshalJSON method of " + t.String()))
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if v.k == jNull {
			ex.set(slot, (*Value)(nil))
			return
		}
		p, _ := (*slot).(*Value)
		if p == nil {
			p = new(Value)
			*p = ex.w.zero(u.Elem())
			ex.regAlloc(p)
			ex.set(slot, p)
		}
		j.dec(v, u.Elem(), p)
	case *types.Interface:
		if u.NumMethods() > 0 {
			if v.k != jNull {
				j.bad("value", t)
			} else {
				ex.set(slot, nilErr)
			}
			return
		}
		ex.set(slot, j.generic(v))
	case *types.Struct:
		switch v.k {
		case jNull:
		case jObj:
			info := ex.w.jsonInfo(t, u)
			a := (*slot).(*Agg)
			for i, k := range v.keys {
				f := j.field(info, k)
				if f == nil {
					continue
				}
				if f.asString {
					panic(unsupported("json ,string"))
				}
				j.dec(v.arr[i], f.t, &a.f[f.idx])
			}
		default:
			j.bad("non-object", t)
		}
	case *types.Map:
		switch v.k {
		case jNull:
			ex.set(slot, (*MapV)(nil))
		case jObj:
			m, _ := (*slot).(*MapV)
			if m == nil {
				m = newMap(u.Key())
				ex.set(slot, m)
			}
			for i, k := range v.keys {
				var key Value = k
				if !isString(u.Key()) {
					n, ok := j.integer(k, u.Key())
					if !ok {
						j.bad("key", t)
						continue
					}
					key = n
				}
				e := new(Value)
				*e = ex.w.zero(u.Elem())
				j.dec(v.arr[i], u.Elem(), e)
				ex.mapSet(m, key, *e)
			}
		default:
			j.bad("non-object", t)
		}
	case *types.Slice:
		switch v.k {
		case jNull:
			ex.set(slot, []Value(nil))
		case jStr:
			if !isByteSlice(t) {
				j.bad("string", t)
				return
			}
			r := ex.b64Decode(v.s).(Tuple)
			if e, _ := r[1].(*Iface); e != nil {
				if j.err == "" {
					j.err = "illegal base64"
				}
				return
			}
			b := r[0].([]Value)
			if b == nil {
				b = []Value{}
			}
			ex.set(slot, b)
		case jArr:
			old, _ := (*slot).([]Value)
			n := make([]Value, 0, len(v.arr))
			for i := range v.arr {
				e := new(Value)
				if i < len(old) {
					*e = copyVal(old[i])
				} else {
					*e = ex.w.zero(u.Elem())
				}
				j.dec(v.arr[i], u.Elem(), e)
				n = append(n, *e)
			}
			ex.set(slot, n)
		default:
			j.bad("scalar", t)
		}
	case *types.Array:
		switch v.k {
		case jNull:
		case jArr:
			a := (*slot).(*Agg)
			for i := range a.f {
				if i < len(v.arr) {
					j.dec(v.arr[i], u.Elem(), &a.f[i])
				} else {
					ex.set(&a.f[i], ex.w.zero(u.Elem()))
				}
			}
		default:
			j.bad("non-array", t)
		}
	case *types.Basic:
		if v.k == jNull {
			return
		}
		if u.Info()&types.IsString != 0 {
			if v.k != jStr {
				j.bad("non-string", t)
				return
			}
			ex.set(slot, v.s)
			return
		}
		srt, _, _ := basicSort(u)
		switch {
		case srt == SBool:
			if v.k != jBool {
				j.bad("non-bool", t)
				return
			}
			ex.set(slot, ex.ctx.Bool(v.b))
		case isFloat(srt):
			if v.k != jNum {
				j.bad("non-number", t)
				return
			}
			if len(v.s.parts) == 1 && v.s.parts[0].k == pAtom && v.s.parts[0].a.kind == aFloat && v.s.parts[0].a.fmtc == 'j' {
				ft := v.s.parts[0].a.t
				if ft.srt == srt {
					ex.set(slot, ft)
					return
				}
			}
			bits := 64
			if srt == SF32 {
				bits = 32
			}
			r := ex.parseFloat(v.s, ex.ctx.Int(int64(bits))).(Tuple)
			if e, _ := r[1].(*Iface); e != nil {
				j.bad("number", t)
				return
			}
			f := r[0].(*Term)
			if srt == SF32 {
				f = ex.ctx.FCvt(f, SF32)
			}
			ex.set(slot, f)
		default:
			if v.k != jNum {
				j.bad("non-number", t)
				return
			}
			n, ok := j.integer(v.s, t)
			if !ok {
				j.bad("number", t)
				return
			}
			ex.set(slot, n)
		}
	default:
		panic(unsupported("json decode into " + t.String()))
	}
}

func (j *jdec) field(info *jsonStruct, k *Str) *jsonField {
	if k.lit {
		if i, ok := info.byName[k.s]; ok {
			return &info.fields[i]
		}
		for i := range info.fields {
			if strings.EqualFold(info.fields[i].name, k.s) {
				return &info.fields[i]
			}
		}
		return nil
	}
	ex := j.ex
	for i := range info.fields {
		if ex.branch(ex.strEq(k, litStr(info.fields[i].name))) {
			return &info.fields[i]
		}
	}
	if !k.bytesOnly() {
		return nil // atoms only hold digits or base64 text; no field is spelled that way in this model
	}
	// case folding, ASCII only (K and s have non-ASCII folds, outside the model)
	c := ex.ctx
	bs := ex.strBytes(k)
	for i := range info.fields {
		n := info.fields[i].name
		if len(n) != len(bs) {
			continue
		}
		r := c.tTrue
		for q := range bs {
			b := bs[q].(*Term)
			ch := n[q]
			e := c.Eq(b, c.BV(uint64(ch), 8))
			if l := ch | 0x20; l >= 'a' && l <= 'z' {
				e = c.Or(e, c.Eq(b, c.BV(uint64(ch^0x20), 8)))
			}
			r = c.And(r, e)
		}
		if ex.branch(r) {
			return &info.fields[i]
		}
	}
	return nil
}

// integer parses a JSON number token as the integer type t.
func (j *jdec) integer(s *Str, t types.Type) (*Term, bool) {
	ex := j.ex
	c := ex.ctx
	srt, sgn, _ := scalarSort(t)
	var v *Term
	if s.lit {
		if sgn {
			n, err := strconv.ParseInt(s.s, 10, int(srt))
			return c.BV(uint64(n), srt), err == nil
		}
		n, err := strconv.ParseUint(s.s, 10, int(srt))
		return c.BV(n, srt), err == nil
	}
	neg := false
	ps := s.parts
	if len(ps) == 2 && ps[0].k == pLit && ps[0].s == "-" {
		neg = true
		ps = ps[1:]
	}
	uns := false
	if len(ps) == 1 && ps[0].k == pAtom && ps[0].a.kind == aDec {
		v = ps[0].a.t
		uns = ps[0].a.unsigned
	} else {
		r := ex.parseDigits(ex.expand(s)).(Tuple)
		if e, _ := r[1].(*Iface); e != nil {
			return nil, false
		}
		v = r[0].(*Term)
		neg = false
	}
	if neg {
		if uns {
			return nil, false
		}
		v = c.Neg(v)
	}
	var in *Term
	switch {
	case sgn && srt == 64:
		in = c.Bool(true)
		if uns {
			in = c.Sle(c.Int(0), v)
		}
	case sgn:
		in = c.And(c.Sle(c.Int(-1<<(srt-1)), v), c.Sle(v, c.Int(1<<(srt-1)-1)))
	case srt == 64:
		in = c.tTrue
		if !uns {
			in = c.Sle(c.Int(0), v)
		}
	default:
		in = c.Ule(v, c.BV(maskW(srt), 64))
	}
	if !ex.branch(in) {
		return nil, false
	}
	if srt < 64 {
		v = c.Extract(v, int(srt)-1, 0)
	}
	return v, true
}

func (j *jdec) generic(v *jval) Value {
	ex := j.ex
	anyT := types.Universe.Lookup("any").Type()
	switch v.k {
	case jNull:
		return nilErr
	case jBool:
		return &Iface{t: types.Typ[types.Bool], v: ex.ctx.Bool(v.b)}
	case jStr:
		return &Iface{t: types.Typ[types.String], v: v.s}
	case jNum:
		r := ex.parseFloat(v.s, ex.ctx.Int(64)).(Tuple)
		return &Iface{t: types.Typ[types.Float64], v: r[0]}
	case jArr:
		s := make([]Value, len(v.arr))
		for i := range s {
			s[i] = j.generic(v.arr[i])
		}
		return &Iface{t: types.NewSlice(anyT), v: s}
	}
	m := newMap(types.Typ[types.String])
	for i, k := range v.keys {
		ex.mapSet(m, k, j.generic(v.arr[i]))
	}
	return &Iface{t: types.NewMap(types.Typ[types.String], anyT), v: m}
}

// indentJSON re-renders a parsed document.
func (ex *Exec) indentJSON(v *jval, prefix, indent string, depth int, out *[]*Str) {
	nl := func(d int) { *out = append(*out, litStr("\n"+prefix+strings.Repeat(indent, d))) }
	jw := &jsonW{ex: ex}
	switch v.k {
	case jArr:
		if len(v.arr) == 0 {
			*out = append(*out, litStr("[]"))
			return
		}
		*out = append(*out, litStr("["))
		for i, e := range v.arr {
			if i > 0 {
				*out = append(*out, litStr(","))
			}
			nl(depth + 1)
			ex.indentJSON(e, prefix, indent, depth+1, out)
		}
		nl(depth)
		*out = append(*out, litStr("]"))
	case jObj:
		if len(v.arr) == 0 {
			*out = append(*out, litStr("{}"))
			return
		}
		*out = append(*out, litStr("{"))
		for i, e := range v.arr {
			if i > 0 {
				*out = append(*out, litStr(","))
			}
			nl(depth + 1)
			jw.out = nil
			jw.str(v.keys[i])
			*out = append(*out, jw.out...)
			*out = append(*out, litStr(": "))
			ex.indentJSON(e, prefix, indent, depth+1, out)
		}
		nl(depth)
		*out = append(*out, litStr("}"))
	case jStr:
		jw.str(v.s)
		*out = append(*out, jw.out...)
	case jNum:
		*out = append(*out, v.s)
	case jNull:
		*out = append(*out, litStr("null"))
	default:
		*out = append(*out, litStr(fmt.Sprint(v.b)))
	}
}

func init() {
	I := intrinsics
	I["encoding/json.Marshal"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		i, _ := a[0].(*Iface)
		if i == nil {
			return Tuple{&ByteRope{s: litStr("null")}, nilErr}
		}
		s, err := ex.jsonMarshal(i.t, i.v)
		if err != "" {
			return Tuple{[]Value(nil), ex.newErr(litStr(err))}
		}
		return Tuple{&ByteRope{s: s}, nilErr}
	}
	I["encoding/json.MarshalIndent"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		i, _ := a[0].(*Iface)
		s := litStr("null")
		if i != nil {
			var err string
			s, err = ex.jsonMarshal(i.t, i.v)
			if err != "" {
				return Tuple{[]Value(nil), ex.newErr(litStr(err))}
			}
		}
		v, err := ex.jsonParse(s)
		if err != "" {
			panic(unsupported("MarshalIndent"))
		}
		var out []*Str
		ex.indentJSON(v, st(a[1]).s, st(a[2]).s, 0, &out)
		return Tuple{&ByteRope{s: concatStr(out...)}, nilErr}
	}
	I["encoding/json.Unmarshal"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		dst, _ := a[1].(*Iface)
		if err := ex.jsonUnmarshal(ex.bytesToStr(a[0]), dst); err != "" {
			return ex.newErr(litStr(err))
		}
		return nilErr
	}
	I["encoding/json.Valid"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		_, err := ex.jsonParse(ex.bytesToStr(a[0]))
		return ex.ctx.Bool(err == "")
	}
}
