package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func (w *Worker) intrinsicFor(fn *ssa.Function) intrinsic {
	if w.intrSet[fn] {
		return w.intrOf[fn]
	}
	w.intrSet[fn] = true
	it := w.findIntrinsic(fn)
	w.intrOf[fn] = it
	return it
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

const logPath = "github.com/s00500/env_logger"

// models are functions replaced by Go code of harness/zzmodel, if a harness imports it.
var models = map[string]string{"image/png.Encode": "PngEncode", "image/png.Decode": "PngDecode", "net.Dial": "NetDial", "net.DialTimeout": "NetDialTimeout",
	"(*net.Dialer).Dial": "DialerDial", "(*net.Dialer).DialContext": "DialerDialContext"}

func (w *Worker) findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if it, ok := intrinsics[name]; ok {
		return it
	}
	if o := fn.Origin(); o != nil && o != fn {
		if it, ok := intrinsics[o.String()]; ok {
			return it
		}
	}
	if mn, ok := models[name]; ok {
		if mp := w.prog.pkgs[modPath+"/zzverif/zzmodel"]; mp != nil {
			if mf := mp.Func(mn); mf != nil {
				return func(ex *Exec, args []Value, ci *cInstr) Value { return ex.callFn2(mf, args, nil, ci, nil) }
			}
		}
	}
	path := pkgPathOf(fn)
	switch path {
	case logPath, "github.com/sirupsen/logrus":
		return logIntrinsic(fn)
	case modPath + "/ibeam_rawpanel":
		return pbIntrinsic(w, fn)
	}
	return nil
}

// ---- helpers ----

func (ex *Exec) newErr(msg *Str) Value {
	p := new(Value)
	*p = &Agg{f: []Value{msg}}
	ex.regAlloc(p)
	return &Iface{t: ex.w.prog.errStringT, v: p}
}

var nilErr = (*Iface)(nil)

func st(v Value) *Str {
	switch s := v.(type) {
	case *Str:
		return s
	}
	panic(unsupported(fmt.Sprintf("string expected, got %T", v)))
}

func strSlice2(ss []*Str) Value {
	r := make([]Value, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

func (ex *Exec) strList(v Value) []*Str {
	var r []*Str
	for _, x := range ex.asSlice(v) {
		r = append(r, x.(*Str))
	}
	return r
}

// interp runs the real body of an intrinsified function.
func (ex *Exec) interp(fn *ssa.Function, args []Value) Value {
	cf := ex.w.compile(fn)
	fr := &frame{cf: cf, regs: make([]Value, cf.nregs)}
	for i, p := range cf.params {
		fr.regs[p] = args[i]
	}
	ex.w.encoded[cf.name]++
	ex.stack = append(ex.stack, fr)
	n := len(ex.stack)
	r := ex.runFrame(fr)
	ex.stack = ex.stack[:n-1]
	return r
}

func (ex *Exec) stdFn(pkg, name string) *ssa.Function {
	p := ex.w.prog.pkgs[pkg]
	if p == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("function " + pkg + "." + name))
	}
	return f
}

func constOf(t Value) (uint64, bool) {
	x, ok := t.(*Term)
	if !ok || !x.isConst() {
		return 0, false
	}
	return x.c, true
}

func (ex *Exec) noSpec(what string) {
	if ex.spec > 0 {
		panic(specAbort{what})
	}
}

func logIntrinsic(fn *ssa.Function) intrinsic {
	switch fn.Name() {
	case "Should", "ShouldWrap", "ShouldWarn":
		return func(ex *Exec, a []Value, ci *cInstr) Value {
			i := 0
			if fn.Signature.Recv() != nil {
				i = 1
			}
			e, _ := a[i].(*Iface)
			return ex.ctx.Bool(e != nil)
		}
	case "Must", "MustFatal", "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln":
		return func(ex *Exec, a []Value, ci *cInstr) Value {
			if strings.HasPrefix(fn.Name(), "Must") {
				i := 0
				if fn.Signature.Recv() != nil {
					i = 1
				}
				if e, _ := a[i].(*Iface); e == nil {
					return nil
				}
			}
			panic(&targetPanic{v: &Iface{t: types.Typ[types.String], v: litStr("log." + fn.Name())}, msg: "log." + fn.Name() + " terminates the process", stack: ex.where()})
		}
	}
	return func(ex *Exec, a []Value, ci *cInstr) Value {
		r := fn.Signature.Results()
		if r.Len() == 1 {
			if pt, ok := under(r.At(0).Type()).(*types.Pointer); ok {
				p := new(Value)
				func() {
					defer func() { recover() }()
					*p = ex.w.zero(pt.Elem())
				}()
				return p
			}
			if isString(r.At(0).Type()) {
				return litStr("?log?")
			}
		}
		return ex.w.zeroResult(fn.Signature)
	}
}

func pbIntrinsic(w *Worker, fn *ssa.Function) intrinsic {
	recv := fn.Signature.Recv()
	if recv == nil {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || strings.HasPrefix(fn.Name(), "file_") {
			return nil
		}
		return nil
	}
	if fn.Name() == "String" {
		if _, isPtr := recv.Type().(*types.Pointer); !isPtr {
			n := recv.Type().(*types.Named)
			gname := n.Obj().Name() + "_name"
			return func(ex *Exec, a []Value, ci *cInstr) Value {
				g, ok := fn.Pkg.Members[gname].(*ssa.Global)
				if !ok {
					panic(unsupported("enum names " + gname))
				}
				m := (*(ex.w.globalPtr(g, fn).(*Value))).(*MapV)
				t := a[0].(*Term)
				for _, e := range ex.mapKeys(m) {
					if ex.branch(ex.ctx.Eq(e.k.(*Term), t)) {
						return e.v
					}
				}
				return ex.decStr(t, false)
			}
		}
	}
	switch fn.Name() {
	case "ProtoReflect", "Descriptor", "EnumDescriptor", "Number", "Type", "Enum", "String", "Reset":
		if fn.Name() == "Reset" {
			return func(ex *Exec, a []Value, ci *cInstr) Value {
				pt := under(recv.Type()).(*types.Pointer)
				ex.store(a[0], ex.w.zero(pt.Elem()))
				return nil
			}
		}
		return func(ex *Exec, a []Value, ci *cInstr) Value { panic(unsupported("proto reflection " + fn.String())) }
	}
	return nil
}

var globalOverride = map[string]func(w *Worker, t types.Type) Value{
	"os.Stdout": func(w *Worker, t types.Type) Value { return (*Value)(nil) },
	"os.Stderr": func(w *Worker, t types.Type) Value { return (*Value)(nil) },
	"os.Args":   func(w *Worker, t types.Type) Value { return []Value(nil) },
}

// ---- formatting ----

func (ex *Exec) methodOf(t types.Type, name string) *ssa.Function {
	ms := ex.w.prog.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return ex.w.prog.prog.MethodValue(s)
		}
	}
	return nil
}

func (ex *Exec) fmtValue(i *Iface, verb byte, top bool) *Str {
	if i == nil {
		return litStr("<nil>")
	}
	if verb == 's' || verb == 'v' {
		if m := ex.methodOf(i.t, "Error"); m != nil && m.Signature.Params().Len() == 0 {
			return st(ex.callFn(m, []Value{i.v}, nil))
		}
		if m := ex.methodOf(i.t, "String"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
			if p, ok := i.v.(*Value); ok && p == nil {
				return litStr("<nil>")
			}
			return st(ex.callFn(m, []Value{i.v}, nil))
		}
	}
	return ex.fmtPlain(i.t, i.v, verb, top)
}

func (ex *Exec) fmtPlain(t types.Type, v Value, verb byte, top bool) *Str {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch verb {
			case 's', 'v':
				return v.(*Str)
			case 'd':
				return concatStr(litStr("%!d(string="), v.(*Str), litStr(")"))
			case 'q':
				if v.(*Str).lit {
					return litStr(strconv.Quote(v.(*Str).s))
				}
			case 'x':
				if v.(*Str).lit {
					return litStr(fmt.Sprintf("%x", v.(*Str).s))
				}
			}
			panic(unsupported("format %" + string(verb) + " of symbolic string"))
		}
		srt, sgn, ok := basicSort(u)
		if !ok {
			panic(unsupported("format " + t.String()))
		}
		x := v.(*Term)
		if srt == SBool {
			if ex.branch(x) {
				return litStr("true")
			}
			return litStr("false")
		}
		if isFloat(srt) {
			bits := 64
			if srt == SF32 {
				bits = 32
			}
			if verb == 'v' {
				return ex.floatStr(x, 'g', -1, bits)
			}
			return ex.floatStr(x, verb, 6, bits)
		}
		switch verb {
		case 'd', 'v':
			return ex.decStr(x, !sgn)
		case 's':
			return concatStr(litStr("%!s("+t.String()+"="), ex.decStr(x, !sgn), litStr(")"))
		case 'c':
			return ex.runeStr(x)
		case 'x', 'X', 'b', 'o', 'U':
			var val interface{} = x.c
			if !x.isConst() {
				if verb == 'x' || verb == 'X' {
					return ex.hexStr(x, verb == 'X', sgn)
				}
				val = ex.concretize(x)
			}
			if sgn {
				val = sext(val.(uint64), x.srt)
			}
			return litStr(fmt.Sprintf("%"+string(verb), val))
		}
	case *types.Slice:
		if isByteSlice(t) && (verb == 's') {
			return ex.bytesToStr(v)
		}
		parts := []*Str{litStr("[")}
		for k, e := range ex.asSlice(v) {
			if k > 0 {
				parts = append(parts, litStr(" "))
			}
			parts = append(parts, ex.fmtElem(u.Elem(), e, verb))
		}
		return concatStr(append(parts, litStr("]"))...)
	case *types.Array:
		parts := []*Str{litStr("[")}
		for k, e := range v.(*Agg).f {
			if k > 0 {
				parts = append(parts, litStr(" "))
			}
			parts = append(parts, ex.fmtElem(u.Elem(), e, verb))
		}
		return concatStr(append(parts, litStr("]"))...)
	case *types.Struct:
		parts := []*Str{litStr("{")}
		for k, e := range v.(*Agg).f {
			if k > 0 {
				parts = append(parts, litStr(" "))
			}
			parts = append(parts, ex.fmtElem(u.Field(k).Type(), e, verb))
		}
		return concatStr(append(parts, litStr("}"))...)
	case *types.Pointer:
		if p, ok := v.(*Value); ok && p == nil {
			return litStr("<nil>")
		}
		if _, ok := under(u.Elem()).(*types.Struct); ok && top {
			return concatStr(litStr("&"), ex.fmtPlain(u.Elem(), ex.load(v), verb, false))
		}
		return litStr("0xc000000000")
	}
	panic(unsupported("format %" + string(verb) + " of " + t.String()))
}

func (ex *Exec) fmtElem(t types.Type, v Value, verb byte) *Str {
	if _, ok := under(t).(*types.Interface); ok {
		i, _ := v.(*Iface)
		return ex.fmtValue(i, verb, false)
	}
	return ex.fmtValue(&Iface{t: t, v: v}, verb, false)
}

func (ex *Exec) hexStr(x *Term, upper, sgn bool) *Str {
	if sgn && x.slo < 0 {
		panic(unsupported("hex of possibly negative value"))
	}
	c := ex.ctx
	t := c.ZExt(x, 64)
	n := 1
	for n < 16 {
		if ex.branch(c.Ult(t, c.BV(1<<(4*uint(n)), 64))) {
			break
		}
		n++
	}
	var ps []part
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	for i := n - 1; i >= 0; i-- {
		d := c.Bin(OpBAnd, c.Extract(c.Bin(OpLShr, t, c.BV(uint64(4*i), 64)), 7, 0), c.BV(15, 8))
		ps = append(ps, part{k: pByte, t: c.Ite(c.Ult(d, c.BV(10, 8)), c.Bin(OpAdd, d, c.BV('0', 8)), c.Bin(OpAdd, d, c.BV(a, 8)))})
	}
	return mkStr(ps)
}

func (ex *Exec) floatStr(x *Term, verb byte, prec, bits int) *Str {
	if x.isConst() {
		return litStr(strconv.FormatFloat(x.fval(), verb, prec, bits))
	}
	return mkStr([]part{{k: pAtom, a: &Atom{kind: aFloat, t: x, fmtc: verb, prec: prec, bits: bits}}})
}

func (ex *Exec) runeStr(x *Term) *Str {
	c := ex.ctx
	t := x
	if t.srt < 32 {
		t = c.ZExt(t, 32)
	} else if t.srt > 32 {
		if t.isConst() {
			return litStr(string(rune(int32(t.c))))
		}
		t = c.Extract(t, 31, 0)
	}
	if t.isConst() {
		return litStr(string(rune(int32(t.c))))
	}
	sh := func(s uint64, mask, or uint64) part {
		b := c.Extract(c.Bin(OpLShr, t, c.BV(s, 32)), 7, 0)
		return part{k: pByte, t: c.Bin(OpBOr, c.Bin(OpBAnd, b, c.BV(mask, 8)), c.BV(or, 8))}
	}
	if ex.branch(c.Ult(t, c.BV(0x80, 32))) {
		return mkStr([]part{{k: pByte, t: c.Extract(t, 7, 0)}})
	}
	if ex.branch(c.Ult(t, c.BV(0x800, 32))) {
		return mkStr([]part{sh(6, 0x1f, 0xc0), sh(0, 0x3f, 0x80)})
	}
	bad := c.Or(c.Ult(c.BV(0x10ffff, 32), t), c.And(c.Ule(c.BV(0xd800, 32), t), c.Ule(t, c.BV(0xdfff, 32))))
	if ex.branch(bad) {
		return litStr("\uFFFD")
	}
	if ex.branch(c.Ult(t, c.BV(0x10000, 32))) {
		return mkStr([]part{sh(12, 0x0f, 0xe0), sh(6, 0x3f, 0x80), sh(0, 0x3f, 0x80)})
	}
	return mkStr([]part{sh(18, 0x07, 0xf0), sh(12, 0x3f, 0x80), sh(6, 0x3f, 0x80), sh(0, 0x3f, 0x80)})
}

func (ex *Exec) sprintf(f *Str, args []Value) *Str {
	if !f.lit {
		panic(unsupported("symbolic format string"))
	}
	s := f.s
	var out []*Str
	ai := 0
	i := 0
	for i < len(s) {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			out = append(out, litStr(s[i:]))
			break
		}
		out = append(out, litStr(s[i:i+j]))
		i += j + 1
		spec := ""
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			spec += string(s[i])
			i++
		}
		if i >= len(s) {
			out = append(out, litStr("%!(NOVERB)"))
			break
		}
		verb := s[i]
		i++
		if verb == '%' {
			out = append(out, litStr("%"))
			continue
		}
		if ai >= len(args) {
			out = append(out, litStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a, _ := args[ai].(*Iface)
		ai++
		if verb == 'T' {
			if a == nil {
				out = append(out, litStr("<nil>"))
			} else {
				out = append(out, litStr(a.t.String()))
			}
			continue
		}
		out = append(out, ex.fmtVerb(a, spec, verb))
	}
	if ai < len(args) {
		out = append(out, litStr("%!(EXTRA)"))
	}
	return concatStr(out...)
}

func (ex *Exec) fmtVerb(a *Iface, spec string, verb byte) *Str {
	if spec == "" || a == nil || (spec == "+" && verb == 'v') {
		if verb == 'w' {
			verb = 'v'
		}
		return ex.fmtValue(a, verb, true)
	}
	width, prec := 0, -1
	flags := ""
	k := 0
	for k < len(spec) && strings.IndexByte("+-# 0", spec[k]) >= 0 {
		flags += string(spec[k])
		k++
	}
	rest := spec[k:]
	if d := strings.IndexByte(rest, '.'); d >= 0 {
		prec, _ = strconv.Atoi(rest[d+1:])
		width, _ = strconv.Atoi(rest[:d])
	} else {
		width, _ = strconv.Atoi(rest)
	}
	var s *Str
	if srt, _, ok := scalarSort(a.t); ok && isFloat(srt) {
		bits := 64
		if srt == SF32 {
			bits = 32
		}
		if prec < 0 && verb != 'v' && verb != 'g' {
			prec = 6
		}
		vb := verb
		if vb == 'v' {
			vb = 'g'
		}
		s = ex.floatStr(a.v.(*Term), vb, prec, bits)
		if !s.lit && (vb == 'f' && width <= prec+2 || width == 0) && strings.Trim(flags, "0") == "" {
			return s
		}
		if !s.lit {
			panic(unsupported("padded symbolic float"))
		}
		return litStr(fmt.Sprintf("%"+spec+string(verb), a.v.(*Term).fval()))
	}
	s = ex.fmtValue(a, verb, true)
	if prec >= 0 {
		if verb != 's' && verb != 'v' {
			panic(unsupported("precision on " + string(verb)))
		}
		if _, isStr := a.t.Underlying().(*types.Basic); !isStr {
			panic(unsupported("precision on " + a.t.String()))
		}
		bs := ex.strBytes(s)
		if len(bs) > prec { // As many runes
			pos := 0
			for n := 0; n < prec && pos < len(bs); n++ {
				_, size, _ := ex.decodeRune(s, pos)
				pos += size
			}
			s = ex.bytesToStr(bs[:pos])
		}
	}
	if strings.ContainsAny(flags, "+# ") {
		if x, ok := a.v.(*Term); ok && x.isConst() && verb != 'v' {
			_, sgn, _ := scalarSort(a.t)
			if sgn {
				return litStr(fmt.Sprintf("%"+spec+string(verb), sext(x.c, x.srt)))
			}
			return litStr(fmt.Sprintf("%"+spec+string(verb), x.c))
		}
		panic(unsupported("flags " + flags))
	}
	if width > 0 {
		bs := ex.strBytes(s)
		n := width - len(bs)
		if n > 0 {
			pad := " "
			if strings.Contains(flags, "0") {
				pad = "0"
			}
			if strings.Contains(flags, "-") {
				return concatStr(s, litStr(strings.Repeat(" ", n)))
			}
			if pad == "0" && len(bs) > 0 {
				b0 := bs[0].(*Term)
				if b0.isConst() && b0.c == '-' {
					return concatStr(litStr("-"+strings.Repeat("0", n)), ex.bytesToStr(bs[1:]))
				}
			}
			return concatStr(litStr(strings.Repeat(pad, n)), ex.bytesToStr(bs))
		}
	}
	return s
}

// ---- numbers ----

// atoi parses a rope as a decimal integer; ok=false means "use the real implementation".
func (ex *Exec) atoi(s *Str) (v *Term, valid bool, ok bool) {
	if s.lit {
		n, err := strconv.Atoi(s.s)
		return ex.ctx.Int(int64(n)), err == nil, true
	}
	if len(s.parts) == 1 && s.parts[0].k == pAtom && s.parts[0].a.kind == aDec {
		a := s.parts[0].a
		if a.unsigned {
			if ex.branch(ex.ctx.Slt(a.t, ex.ctx.Int(0))) {
				return ex.ctx.Int(math.MaxInt64), false, true
			}
		}
		return a.t, true, true
	}
	return nil, false, false
}

func init() {
	I := intrinsics
	str1 := func(name string, f func(ex *Exec, s *Str) (Value, bool)) {
		I[name] = func(ex *Exec, a []Value, ci *cInstr) Value {
			if v, ok := f(ex, st(a[0])); ok {
				return v
			}
			i := strings.LastIndexByte(name, '.')
			return ex.interp(ex.stdFn(name[:i], name[i+1:]), a)
		}
	}
	// fmt
	I["fmt.Sprintf"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.sprintf(st(a[0]), ex.asSlice(a[1])) }
	I["fmt.Errorf"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return ex.newErr(ex.sprintf(st(a[0]), ex.asSlice(a[1])))
	}
	sprint := func(ex *Exec, args []Value, ln bool) *Str {
		var out []*Str
		prevStr := true
		for i, x := range args {
			e, _ := x.(*Iface)
			isS := e != nil && isString(e.t)
			if i > 0 && (ln || (!isS && !prevStr)) {
				out = append(out, litStr(" "))
			}
			out = append(out, ex.fmtValue(e, 'v', true))
			prevStr = isS
		}
		if ln {
			out = append(out, litStr("\n"))
		}
		return concatStr(out...)
	}
	I["fmt.Sprint"] = func(ex *Exec, a []Value, ci *cInstr) Value { return sprint(ex, ex.asSlice(a[0]), false) }
	I["fmt.Sprintln"] = func(ex *Exec, a []Value, ci *cInstr) Value { return sprint(ex, ex.asSlice(a[0]), true) }
	for _, n := range []string{"Println", "Printf", "Print"} {
		I["fmt."+n] = func(ex *Exec, a []Value, ci *cInstr) Value { return Tuple{ex.ctx.Int(0), nilErr} }
	}
	fpr := func(render func(ex *Exec, a []Value) *Str) intrinsic {
		return func(ex *Exec, a []Value, ci *cInstr) Value {
			w, _ := a[0].(*Iface)
			if w == nil {
				ex.rtPanic("invalid memory address or nil pointer dereference")
			}
			s := render(ex, a[1:])
			m := ex.methodOf(w.t, "Write")
			return ex.callFn(m, []Value{w.v, &ByteRope{s: s}}, nil)
		}
	}
	I["fmt.Fprintf"] = fpr(func(ex *Exec, a []Value) *Str { return ex.sprintf(st(a[0]), ex.asSlice(a[1])) })
	I["fmt.Fprint"] = fpr(func(ex *Exec, a []Value) *Str { return sprint(ex, ex.asSlice(a[0]), false) })
	I["fmt.Fprintln"] = fpr(func(ex *Exec, a []Value) *Str { return sprint(ex, ex.asSlice(a[0]), true) })

	// strconv
	I["strconv.Itoa"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.decStr(a[0].(*Term), false) }
	I["strconv.Atoi"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		s := st(a[0])
		if v, valid, ok := ex.atoi(s); ok {
			if valid {
				return Tuple{v, nilErr}
			}
			return Tuple{v, ex.newErr(litStr("strconv.Atoi: parsing " + s.String()))}
		}
		return ex.parseDigits(ex.expand(s))
	}
	I["strconv.FormatInt"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		if b, ok := constOf(a[1]); ok && b == 10 {
			return ex.decStr(a[0].(*Term), false)
		}
		return ex.interp(ex.stdFn("strconv", "FormatInt"), a)
	}
	I["strconv.FormatUint"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		if b, ok := constOf(a[1]); ok && b == 10 {
			return ex.decStr(a[0].(*Term), true)
		}
		return ex.interp(ex.stdFn("strconv", "FormatUint"), a)
	}
	pint := func(name string, signed bool) {
		I["strconv."+name] = func(ex *Exec, a []Value, ci *cInstr) Value {
			s := st(a[0])
			base, ok1 := constOf(a[1])
			bits, ok2 := constOf(a[2])
			if ok1 && ok2 && (base == 10 || base == 0) && (bits == 0 || bits == 64 || bits == 32 || bits == 16 || bits == 8) && !s.lit {
				if bits == 0 {
					bits = 64
				}
				if len(s.parts) == 1 && s.parts[0].k == pAtom && s.parts[0].a.kind == aDec {
					at := s.parts[0].a
					c := ex.ctx
					t := at.t
					var inr *Term
					bad := ex.newErr(litStr("strconv." + name + ": value out of range"))
					if signed {
						if at.unsigned {
							inr = c.And(c.Sle(c.Int(0), t), c.Sle(t, c.Int(int64(maskW(uint8(bits))>>1))))
						} else {
							inr = c.And(c.Sle(c.Int(-1<<(bits-1)), t), c.Sle(t, c.Int(int64(maskW(uint8(bits))>>1))))
						}
						if ex.branch(inr) {
							return Tuple{t, nilErr}
						}
						if !at.unsigned && ex.branch(c.Slt(t, c.Int(0))) {
							return Tuple{c.Int(-1 << (bits - 1)), bad}
						}
						return Tuple{c.Int(int64(maskW(uint8(bits)) >> 1)), bad}
					}
					if !at.unsigned && ex.branch(c.Slt(t, c.Int(0))) {
						return Tuple{c.Int(0), bad}
					}
					inr = c.Ule(t, c.BV(maskW(uint8(bits)), 64))
					if ex.branch(inr) {
						return Tuple{t, nilErr}
					}
					return Tuple{c.BV(maskW(uint8(bits)), 64), bad}
				}
			}
			if s.lit && ok1 && ok2 {
				if signed {
					v, err := strconv.ParseInt(s.s, int(base), int(bits))
					if err != nil {
						return Tuple{ex.ctx.Int(v), ex.newErr(litStr(err.Error()))}
					}
					return Tuple{ex.ctx.Int(v), nilErr}
				}
				v, err := strconv.ParseUint(s.s, int(base), int(bits))
				if err != nil {
					return Tuple{ex.ctx.BV(v, 64), ex.newErr(litStr(err.Error()))}
				}
				return Tuple{ex.ctx.BV(v, 64), nilErr}
			}
			return ex.interp(ex.stdFn("strconv", name), []Value{ex.expand(s), a[1], a[2]})
		}
	}
	pint("ParseInt", true)
	pint("ParseUint", false)
	I["strconv.ParseFloat"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.parseFloat(st(a[0]), a[1]) }
	I["strconv.FormatFloat"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		f, ok1 := constOf(a[1])
		p, ok2 := constOf(a[2])
		b, ok3 := constOf(a[3])
		if !ok1 || !ok2 || !ok3 {
			panic(unsupported("FormatFloat"))
		}
		return ex.floatStr(a[0].(*Term), byte(f), int(sext(p, 64)), int(b))
	}
	I["strconv.Quote"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		if s := st(a[0]); s.lit {
			return litStr(strconv.Quote(s.s))
		}
		return ex.interp(ex.stdFn("strconv", "Quote"), a)
	}

	// strings
	I["strings.Split"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		if sep := st(a[1]); sep.lit && sep.s != "" {
			return strSlice2(ex.splitStr(st(a[0]), sep, -1))
		}
		return ex.interp(ex.stdFn("strings", "Split"), a)
	}
	I["strings.SplitN"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		n, ok := constOf(a[2])
		if sep := st(a[1]); ok && sep.lit && sep.s != "" {
			if int64(n) == 0 {
				return []Value(nil)
			}
			return strSlice2(ex.splitStr(st(a[0]), sep, int(int64(n))))
		}
		return ex.interp(ex.stdFn("strings", "SplitN"), a)
	}
	I["strings.Join"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.joinStrs(ex.strList(a[0]), st(a[1])) }
	str1("strings.TrimSpace", func(ex *Exec, s *Str) (Value, bool) { return ex.trimSpace(s) })
	I["strings.HasPrefix"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.hasPrefix(st(a[0]), st(a[1])) }
	I["strings.HasSuffix"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.hasSuffix(st(a[0]), st(a[1])) }
	find := func(ex *Exec, s, sub *Str) (before, after *Str, found bool) {
		cs, i := ex.findSub(cellsOf(s), cellsOf(ex.noAtoms(sub)), 0)
		if i < 0 {
			return s, emptyStr, false
		}
		return cellStr(cs[:i]), cellStr(cs[i+len(cellsOf(ex.noAtoms(sub))):]), true
	}
	I["strings.Contains"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		s, sub := st(a[0]), st(a[1])
		if sub.lit && sub.s == "" {
			return ex.ctx.tTrue
		}
		if s.bytesOnly() && sub.bytesOnly() {
			cs, ss := cellsOf(s), cellsOf(sub)
			r := ex.ctx.tFalse
			for i := 0; i+len(ss) <= len(cs); i++ {
				c, _ := ex.matchCond(cs, i, ss)
				r = ex.ctx.Or(r, c)
			}
			return r
		}
		_, _, ok := find(ex, s, sub)
		return ex.ctx.Bool(ok)
	}
	I["strings.Index"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		b, _, ok := find(ex, st(a[0]), st(a[1]))
		if !ok {
			return ex.ctx.Int(-1)
		}
		return ex.strLen(b)
	}
	I["strings.Cut"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		b, af, ok := find(ex, st(a[0]), st(a[1]))
		return Tuple{b, af, ex.ctx.Bool(ok)}
	}
	I["strings.TrimPrefix"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		s, p := st(a[0]), st(a[1])
		if ex.branch(ex.hasPrefix(s, p)) {
			return ex.strSlice(s, ex.strLen(p), nil)
		}
		return s
	}
	I["strings.TrimSuffix"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		s, p := st(a[0]), st(a[1])
		if ex.branch(ex.hasSuffix(s, p)) {
			return ex.strSlice(s, nil, ex.ctx.Bin(OpSub, ex.strLen(s), ex.strLen(p)))
		}
		return s
	}
	repl := func(ex *Exec, s, old, nw *Str, n int) *Str {
		if s.lit && old.lit && nw.lit {
			return litStr(strings.Replace(s.s, old.s, nw.s, n))
		}
		if old.lit && old.s == "" {
			panic(unsupported("replace of empty string"))
		}
		if n >= 0 {
			n++
		}
		return ex.joinStrs(ex.splitStr(s, old, n), nw)
	}
	I["strings.ReplaceAll"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return repl(ex, st(a[0]), st(a[1]), st(a[2]), -1)
	}
	I["strings.Replace"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		n, ok := constOf(a[3])
		if !ok {
			n = ex.concretize(a[3].(*Term))
		}
		if n == 0 {
			return a[0]
		}
		return repl(ex, st(a[0]), st(a[1]), st(a[2]), int(int64(n)))
	}
	I["strings.Repeat"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		n := ex.concInt(a[1].(*Term))
		if n < 0 {
			panic(&targetPanic{v: &Iface{t: types.Typ[types.String], v: litStr("strings: negative Repeat count")}, msg: "strings: negative Repeat count", stack: ex.where()})
		}
		var all []*Str
		for i := int64(0); i < n; i++ {
			all = append(all, st(a[0]))
		}
		return concatStr(all...)
	}
	lit1 := func(name string, f func(string) string) {
		I[name] = func(ex *Exec, a []Value, ci *cInstr) Value {
			if s := st(a[0]); s.lit {
				return litStr(f(s.s))
			}
			i := strings.LastIndexByte(name, '.')
			return ex.interp(ex.stdFn(name[:i], name[i+1:]), a)
		}
	}
	lit1("strings.ToLower", strings.ToLower)
	lit1("strings.ToUpper", strings.ToUpper)
	I["strings.EqualFold"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		if s, t := st(a[0]), st(a[1]); s.lit && t.lit {
			return ex.ctx.Bool(strings.EqualFold(s.s, t.s))
		}
		return ex.interp(ex.stdFn("strings", "EqualFold"), a)
	}
	// strings.Builder: field 1 (buf) holds a byte rope
	bbuf := func(ex *Exec, p Value) *Value {
		q, _ := p.(*Value)
		if q == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		return &(*q).(*Agg).f[1]
	}
	bstr := func(ex *Exec, p Value) *Str { return ex.bytesToStr(*bbuf(ex, p)) }
	badd := func(ex *Exec, p Value, s *Str) {
		ex.set(bbuf(ex, p), &ByteRope{s: concatStr(bstr(ex, p), s)})
	}
	B := "(*strings.Builder)."
	I[B+"String"] = func(ex *Exec, a []Value, ci *cInstr) Value { return bstr(ex, a[0]) }
	I[B+"Len"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.strLen(bstr(ex, a[0])) }
	I[B+"Cap"] = I[B+"Len"]
	I[B+"Grow"] = func(ex *Exec, a []Value, ci *cInstr) Value { return nil }
	I[B+"Reset"] = func(ex *Exec, a []Value, ci *cInstr) Value { ex.set(bbuf(ex, a[0]), []Value(nil)); return nil }
	I[B+"WriteString"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		badd(ex, a[0], st(a[1]))
		return Tuple{ex.strLen(st(a[1])), nilErr}
	}
	I[B+"WriteByte"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		badd(ex, a[0], mkStr([]part{{k: pByte, t: a[1].(*Term)}}))
		return nilErr
	}
	I[B+"Write"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		s := ex.bytesToStr(a[1])
		badd(ex, a[0], s)
		return Tuple{ex.strLen(s), nilErr}
	}
	I[B+"WriteRune"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		s := ex.runeStr(a[1].(*Term))
		badd(ex, a[0], s)
		return Tuple{ex.strLen(s), nilErr}
	}

	// internal/bytealg (assembly)
	idxByte := func(ex *Exec, bs []Value, b *Term) Value {
		for i, x := range bs {
			if ex.branch(ex.ctx.Eq(x.(*Term), b)) {
				return ex.ctx.Int(int64(i))
			}
		}
		return ex.ctx.Int(-1)
	}
	lidxByte := func(ex *Exec, bs []Value, b *Term) Value {
		for i := len(bs) - 1; i >= 0; i-- {
			if ex.branch(ex.ctx.Eq(bs[i].(*Term), b)) {
				return ex.ctx.Int(int64(i))
			}
		}
		return ex.ctx.Int(-1)
	}
	sIdx := func(ex *Exec, a []Value, ci *cInstr) Value {
		s, b := st(a[0]), a[1].(*Term)
		if s.lit && b.isConst() {
			return ex.ctx.Int(int64(strings.IndexByte(s.s, byte(b.c))))
		}
		return idxByte(ex, ex.strBytes(s), b)
	}
	I["internal/bytealg.IndexByteString"] = sIdx
	I["strings.IndexByte"] = sIdx
	I["internal/stringslite.IndexByte"] = sIdx
	I["internal/bytealg.IndexByte"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return idxByte(ex, ex.asSlice(a[0]), a[1].(*Term))
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.LastIndexByteString"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return lidxByte(ex, ex.strBytes(st(a[0])), a[1].(*Term))
	}
	I["internal/bytealg.LastIndexByte"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return lidxByte(ex, ex.asSlice(a[0]), a[1].(*Term))
	}
	count := func(ex *Exec, bs []Value, b *Term) Value {
		r := ex.ctx.Int(0)
		for _, x := range bs {
			r = ex.ctx.Bin(OpAdd, r, ex.ctx.BoolToBV(ex.ctx.Eq(x.(*Term), b), 64))
		}
		return r
	}
	I["internal/bytealg.CountString"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return count(ex, ex.strBytes(st(a[0])), a[1].(*Term))
	}
	I["internal/bytealg.Count"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return count(ex, ex.asSlice(a[0]), a[1].(*Term))
	}
	beq := func(ex *Exec, a []Value, ci *cInstr) Value {
		return ex.strEq(ex.bytesToStr(a[0]), ex.bytesToStr(a[1]))
	}
	I["bytes.Equal"] = beq
	I["internal/bytealg.Equal"] = beq
	I["internal/bytealg.Compare"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		x, y := ex.bytesToStr(a[0]), ex.bytesToStr(a[1])
		c := ex.ctx
		return c.Ite(ex.strEq(x, y), c.Int(0), c.Ite(ex.strLess(x, y), c.Int(-1), c.Int(1)))
	}
	I["internal/bytealg.CompareString"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		c := ex.ctx
		return c.Ite(ex.strEq(st(a[0]), st(a[1])), c.Int(0), c.Ite(ex.strLess(st(a[0]), st(a[1])), c.Int(-1), c.Int(1)))
	}
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.IndexString"] = I["strings.Index"]
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/bytealg.Index"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		b, _, ok := find(ex, ex.bytesToStr(a[0]), ex.bytesToStr(a[1]))
		if !ok {
			return ex.ctx.Int(-1)
		}
		return ex.strLen(b)
	}
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["internal/bytealg.MakeNoZero"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		n := a[0].(*Term)
		return ex.makeSlice(types.Typ[types.Uint8], n, n)
	}
	I["strings.Clone"] = func(ex *Exec, a []Value, ci *cInstr) Value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]

	// math
	fun1 := func(name string, mode int32) {
		I["math."+name] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.ctx.FUn(OpFRound, mode, a[0].(*Term)) }
	}
	fun1("Floor", rmFloor)
	fun1("Ceil", rmCeil)
	fun1("Trunc", rmTrunc)
	fun1("Round", rmRound)
	fun1("RoundToEven", rmEven)
	I["math.Abs"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.ctx.FUn(OpFAbs, 0, a[0].(*Term)) }
	I["math.Float64bits"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return ex.ctx.BV(math.Float64bits(t.fval()), 64)
		}
		return ex.ctx.UF("float64bits", 64, t)
	}
	I["math.Float32bits"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return ex.ctx.BV(uint64(math.Float32bits(float32(t.fval()))), 32)
		}
		return ex.ctx.UF("float32bits", 32, t)
	}
	I["math.Float64frombits"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return ex.ctx.F64(math.Float64frombits(ex.concretize(a[0].(*Term))))
	}
	I["math.Float32frombits"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return ex.ctx.F32(math.Float32frombits(uint32(ex.concretize(a[0].(*Term)))))
	}
	I["math.IsNaN"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.ctx.FIsNaN(a[0].(*Term)) }
	cf1 := func(name string, f func(float64) float64) {
		I["math."+name] = func(ex *Exec, a []Value, ci *cInstr) Value {
			t := a[0].(*Term)
			if !t.isConst() {
				panic(unsupported("math." + name + " of symbolic value"))
			}
			return ex.ctx.F64(f(t.fval()))
		}
	}
	cf1("Sin", math.Sin)
	cf1("Cos", math.Cos)
	cf1("Tan", math.Tan)
	cf1("Sqrt", math.Sqrt)
	cf1("Log10", math.Log10)
	cf1("Log", math.Log)
	cf1("Exp", math.Exp)
	I["math.Pow"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if !x.isConst() || !y.isConst() {
			panic(unsupported("math.Pow"))
		}
		return ex.ctx.F64(math.Pow(x.fval(), y.fval()))
	}
	mm := func(op Op) intrinsic {
		return func(ex *Exec, a []Value, ci *cInstr) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			return ex.ctx.Ite(ex.ctx.FCmp(op, x, y), x, y)
		}
	}
	I["math.Min"] = mm(OpFLt)
	I["math.Max"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		return ex.ctx.Ite(ex.ctx.FCmp(OpFLt, x, y), y, x)
	}

	// sort with a user supplied order
	sortSlice := func(ex *Exec, a []Value, ci *cInstr) Value {
		ex.noSpec("sort")
		i, _ := a[0].(*Iface)
		s := ex.asSlice(i.v)
		less := a[1].(*FuncV)
		for p := 1; p < len(s); p++ {
			for q := p; q > 0; q-- {
				l := ex.callFuncV(less, []Value{ex.ctx.Int(int64(q)), ex.ctx.Int(int64(q - 1))}, nil, nil).(*Term)
				if !ex.branch(l) {
					break
				}
				x, y := copyVal(s[q]), copyVal(s[q-1])
				ex.set(&s[q], y)
				ex.set(&s[q-1], x)
			}
		}
		return nil
	}
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice

	// base64
	I["(*encoding/base64.Encoding).EncodeToString"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return ex.b64Str(ex.asSlice(a[1]))
	}
	I["(*encoding/base64.Encoding).DecodeString"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return ex.b64Decode(st(a[1]))
	}

	// os / runtime
	I["runtime.Gosched"] = func(ex *Exec, a []Value, ci *cInstr) Value { ex.gosched(); return nil }
	I["runtime.KeepAlive"] = func(ex *Exec, a []Value, ci *cInstr) Value { return nil }
	I["runtime.SetFinalizer"] = I["runtime.KeepAlive"]
	I["os.Open"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return Tuple{(*Value)(nil), ex.newErr(litStr("open: no such file or directory"))}
	}
	I["os.Exit"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		panic(&targetPanic{msg: "os.Exit terminates the process", stack: ex.where()})
	}
	I["os.Getenv"] = func(ex *Exec, a []Value, ci *cInstr) Value { return emptyStr }

	// math/rand: every drawn number is an arbitrary one (natively: an overlay of the package draws the recorded ones)
	draw := func(ex *Exec) {
		if ex.randLeft--; ex.randLeft == 0 {
			panic(pathEnd{endInfeasible, "more random draws than allowed"})
		}
	}
	rnd := func(ex *Exec, n *Term) Value {
		c := ex.ctx
		if ex.branch(c.Sle(n, c.BV(0, n.srt))) {
			panic(&targetPanic{v: &Iface{t: types.Typ[types.String], v: litStr("invalid argument to Intn")}, msg: "invalid argument to Intn", stack: ex.where()})
		}
		draw(ex)
		hi := n.shi
		v := ex.newVar("rand", "rand", n.srt, true, 0, uint64(hi-1), true)
		if !n.isConst() {
			ex.assume(c.Slt(v, n))
		}
		return v
	}
	I["math/rand.NewSource"] = func(ex *Exec, a []Value, ci *cInstr) Value { return (*Iface)(nil) }
	I["math/rand.New"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return &Native{kind: "rand"}
	}
	both := func(nm string, f func(ex *Exec, a []Value) Value) {
		I["(*math/rand.Rand)."+nm] = func(ex *Exec, a []Value, ci *cInstr) Value { return f(ex, a[1:]) }
		I["math/rand."+nm] = func(ex *Exec, a []Value, ci *cInstr) Value { return f(ex, a) }
	}
	for _, nm := range []string{"Intn", "Int63n", "Int31n"} {
		both(nm, func(ex *Exec, a []Value) Value { return rnd(ex, a[0].(*Term)) })
	}
	both("Seed", func(ex *Exec, a []Value) Value { return nil })
	for nm, bits := range map[string]int{"Int": 63, "Int63": 63, "Int31": 31, "Uint32": 32} {
		bits, sort := bits, uint8(64)
		if nm == "Int31" || nm == "Uint32" {
			sort = 32
		}
		both(nm, func(ex *Exec, a []Value) Value {
			draw(ex)
			return ex.newVar("rand", "rand", sort, bits&1 == 1, 0, 1<<uint(bits)-1, true)
		})
	}
	both("Perm", func(ex *Exec, a []Value) Value {
		n := int(ex.concInt(a[0].(*Term)))
		r := make([]Value, n)
		for i := range r {
			r[i] = ex.ctx.Int(int64(i))
		}
		for i := n - 1; i > 0; i-- {
			j := ex.concInt(rnd(ex, ex.ctx.Int(int64(i+1))).(*Term))
			r[i], r[j] = r[j], r[i]
		}
		return r
	})
	both("Shuffle", func(ex *Exec, a []Value) Value {
		n := int(ex.concInt(a[0].(*Term)))
		for i := n - 1; i > 0; i-- {
			ex.callFuncV(a[1].(*FuncV), []Value{ex.ctx.Int(int64(i)), rnd(ex, ex.ctx.Int(int64(i+1)))}, nil, nil)
		}
		return nil
	})
	// errors helpers that need reflection
	I["errors.Is"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		e, _ := a[0].(*Iface)
		t, _ := a[1].(*Iface)
		for e != nil {
			if t != nil && types.Identical(e.t, t.t) && types.Comparable(e.t) && ex.branch(ex.eqVal(e.v, t.v)) {
				return ex.ctx.tTrue
			}
			m := ex.methodOf(e.t, "Unwrap")
			if m == nil || m.Signature.Results().Len() != 1 {
				break
			}
			e, _ = ex.callFn(m, []Value{e.v}, nil).(*Iface)
		}
		return ex.ctx.Bool(e == nil && t == nil)
	}
	I["internal/godebug.New"] = func(ex *Exec, a []Value, ci *cInstr) Value { return (*Value)(nil) }
	I["(*internal/godebug.Setting).Value"] = func(ex *Exec, a []Value, ci *cInstr) Value { return emptyStr }
	I["(*internal/godebug.Setting).IncNonDefault"] = func(ex *Exec, a []Value, ci *cInstr) Value { return nil }
}

// parseDigits is strconv.Atoi on a byte rope (the library's own implementation is used for
// literals; here the grammar [+-]?[0-9]+ is decided byte by byte).
func (ex *Exec) parseDigits(s *Str) Value {
	c := ex.ctx
	bs := ex.strBytes(s)
	bad := func() Value { return Tuple{c.Int(0), ex.newErr(litStr("strconv.Atoi: invalid syntax"))} }
	if len(bs) == 0 {
		return bad()
	}
	neg := false
	i := 0
	b0 := bs[0].(*Term)
	if ex.branch(c.Eq(b0, c.BV('-', 8))) {
		neg = true
		i = 1
	} else if ex.branch(c.Eq(b0, c.BV('+', 8))) {
		i = 1
	}
	if i == len(bs) {
		return bad()
	}
	run := make([]*Term, 0, len(bs)-i)
	for _, x := range bs[i:] {
		run = append(run, x.(*Term))
	}
	if t := ex.undigits(run); t != nil {
		if len(run) == 19 && ex.branch(c.Slt(t, c.Int(0))) {
			return ex.interp(ex.stdFn("strconv", "Atoi"), []Value{s})
		}
		if neg {
			t = c.Neg(t)
		}
		return Tuple{t, nilErr}
	}
	if len(bs)-i > 18 {
		// strip leading zeros, otherwise decide overflow with the real routine
		return ex.interp(ex.stdFn("strconv", "Atoi"), []Value{s})
	}
	all := c.tTrue
	v := c.Int(0)
	for _, x := range bs[i:] {
		d := c.Bin(OpSub, x.(*Term), c.BV('0', 8))
		all = c.And(all, c.Ult(d, c.BV(10, 8)))
		v = c.Bin(OpAdd, c.Bin(OpMul, v, c.Int(10)), c.ZExt(d, 64))
	}
	if !ex.branch(all) {
		return bad()
	}
	if neg {
		v = c.Neg(v)
	}
	return Tuple{v, nilErr}
}

func (ex *Exec) parseFloat(s *Str, bitsV Value) Value {
	c := ex.ctx
	b, _ := constOf(bitsV)
	if s.lit {
		f, err := strconv.ParseFloat(s.s, int(b))
		if err != nil {
			return Tuple{c.F64(f), ex.newErr(litStr(err.Error()))}
		}
		return Tuple{c.F64(f), nilErr}
	}
	key := fmt.Sprintf("parsefloat%d:", b)
	var args []*Term
	dots, valid := 0, true
	for i, p := range s.parts {
		switch p.k {
		case pLit:
			key += p.s
			for _, ch := range p.s {
				if ch == '.' {
					dots++
				} else if ch == '-' && i == 0 && len(p.s) == 1 {
				} else if ch < '0' || ch > '9' {
					valid = false
				}
			}
		case pAtom:
			if p.a.kind == aDec {
				if i > 0 && p.a.t.slo < 0 {
					valid = false
				}
				key += "%d"
			} else if p.a.kind == aFloat {
				key += fmt.Sprintf("%%%c.%d/%d", p.a.fmtc, p.a.prec, p.a.bits)
				if len(s.parts) != 1 {
					valid = false
				}
			} else {
				valid = false
			}
			args = append(args, p.a.t)
		default:
			valid = false
		}
	}
	if valid && dots <= 1 {
		return Tuple{c.UF(key, SF64, args...), nilErr}
	}
	// decide the syntax [+-]?digits[.digits]? on bytes; anything else is left to the caller as an error case
	bs := ex.strBytes(s)
	return ex.parseFloatBytes(bs, int(b))
}

func (ex *Exec) parseFloatBytes(bs []Value, bits int) Value {
	c := ex.ctx
	i := 0
	if len(bs) > 0 {
		b := bs[0].(*Term)
		if ex.branch(c.Or(c.Eq(b, c.BV('-', 8)), c.Eq(b, c.BV('+', 8)))) {
			i = 1
		}
	}
	digits, dots := 0, 0
	for ; i < len(bs); i++ {
		b := bs[i].(*Term)
		if ex.branch(c.Ult(c.Bin(OpSub, b, c.BV('0', 8)), c.BV(10, 8))) {
			digits++
			continue
		}
		if dots == 0 && ex.branch(c.Eq(b, c.BV('.', 8))) {
			dots++
			continue
		}
		// letters (exponent, inf, nan, hex, underscore): any outcome, a function of the text
		if ex.branch(c.Or(c.Or(c.Eq(b, c.BV('_', 8)), c.And(c.Ule(c.BV('A', 8), b), c.Ule(b, c.BV('Z', 8)))), c.And(c.Ule(c.BV('a', 8), b), c.Ule(b, c.BV('z', 8))))) {
			var args []*Term
			for _, x := range bs {
				args = append(args, x.(*Term))
			}
			n := fmt.Sprintf("%d:bytes%d", bits, len(bs))
			if ex.branch(c.UF("parsefloatok"+n, SBool, args...)) {
				return Tuple{c.UF("parsefloat"+n, SF64, args...), nilErr}
			}
			return Tuple{c.UF("parsefloaterr"+n, SF64, args...), ex.newErr(litStr("strconv.ParseFloat: error"))}
		}
		return Tuple{c.F64(0), ex.newErr(litStr("strconv.ParseFloat: invalid syntax"))}
	}
	if digits == 0 {
		return Tuple{c.F64(0), ex.newErr(litStr("strconv.ParseFloat: invalid syntax"))}
	}
	var args []*Term
	for _, b := range bs {
		args = append(args, b.(*Term))
	}
	return Tuple{c.UF(fmt.Sprintf("parsefloat%d:bytes%d", bits, len(bs)), SF64, args...), nilErr}
}

// b64Decode is base64.StdEncoding.DecodeString.
func (ex *Exec) b64Decode(s *Str) Value {
	c := ex.ctx
	if s.lit {
		d, err := stdB64(s.s)
		r := make([]Value, len(d))
		for i, x := range d {
			r[i] = ex.w.bytes[x]
		}
		if err != nil {
			return Tuple{r, ex.newErr(litStr(err.Error()))}
		}
		return Tuple{r, nilErr}
	}
	if len(s.parts) == 1 && s.parts[0].k == pAtom && s.parts[0].a.kind == aB64 {
		d := s.parts[0].a.data
		return Tuple{append([]Value{}, d...), nilErr}
	}
	// byte-wise: ignore CR/LF, quads, padding at the end only
	bs := ex.strBytes(s)
	var q []*Term
	var out []Value
	bad := func() Value { return Tuple{out, ex.newErr(litStr("illegal base64 data"))} }
	val := func(b *Term) *Term {
		rng := func(lo, hi byte) *Term { return c.And(c.Ule(c.BV(uint64(lo), 8), b), c.Ule(b, c.BV(uint64(hi), 8))) }
		sub := func(k int) *Term { return c.Bin(OpAdd, b, c.BV(uint64(uint8(k)), 8)) }
		return c.Ite(rng('A', 'Z'), sub(-'A'), c.Ite(rng('a', 'z'), sub(26-'a'), c.Ite(rng('0', '9'), sub(52-'0'), c.Ite(c.Eq(b, c.BV('+', 8)), c.BV(62, 8), c.BV(63, 8)))))
	}
	isA := func(b *Term) *Term {
		rng := func(lo, hi byte) *Term { return c.And(c.Ule(c.BV(uint64(lo), 8), b), c.Ule(b, c.BV(uint64(hi), 8))) }
		return c.Or(c.Or(rng('A', 'Z'), rng('a', 'z')), c.Or(rng('/', '9'), c.Eq(b, c.BV('+', 8))))
	}
	emit := func(n int) {
		v := make([]*Term, 4)
		for i := range v {
			if i < len(q) {
				v[i] = val(q[i])
			} else {
				v[i] = c.BV(0, 8)
			}
		}
		sh := func(a *Term, l, r uint64) *Term {
			return c.Bin(OpBOr, c.Bin(OpShl, a, c.BV(l, 8)), c.BV(0, 8))
		}
		b0 := c.Bin(OpBOr, sh(v[0], 2, 0), c.Bin(OpLShr, v[1], c.BV(4, 8)))
		b1 := c.Bin(OpBOr, sh(v[1], 4, 0), c.Bin(OpLShr, v[2], c.BV(2, 8)))
		b2 := c.Bin(OpBOr, sh(v[2], 6, 0), v[3])
		for i, b := range []*Term{b0, b1, b2} {
			if i < n {
				out = append(out, b)
			}
		}
		q = nil
	}
	if out == nil {
		out = []Value{}
	}
	for i := 0; i < len(bs); i++ {
		b := bs[i].(*Term)
		if ex.branch(isA(b)) {
			q = append(q, b)
			if len(q) == 4 {
				emit(3)
			}
			continue
		}
		if ex.branch(c.Or(c.Eq(b, c.BV('\n', 8)), c.Eq(b, c.BV('\r', 8)))) {
			continue
		}
		if !ex.branch(c.Eq(b, c.BV('=', 8))) {
			return bad()
		}
		if len(q) < 2 {
			return bad()
		}
		need := 0
		if len(q) == 2 {
			need = 1
		}
		j := i + 1
		for ; j < len(bs); j++ {
			t := bs[j].(*Term)
			if ex.branch(c.Or(c.Eq(t, c.BV('\n', 8)), c.Eq(t, c.BV('\r', 8)))) {
				continue
			}
			if need > 0 && ex.branch(c.Eq(t, c.BV('=', 8))) {
				need--
				continue
			}
			break
		}
		if need > 0 {
			return bad()
		}
		emit(len(q) - 1)
		if j < len(bs) {
			return bad()
		}
		return Tuple{out, nilErr}
	}
	if len(q) > 0 {
		return bad()
	}
	return Tuple{out, nilErr}
}
