package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term        bool, integer, float scalars
//	*Str         string (rope)
//	*Agg         struct or array (in place mutable, copied on load/store)
//	*Value       pointer (address of a slot); nil pointer is (*Value)(nil)
//	*SymPtr      address of an element with a symbolic index
//	[]Value      slice
//	*ByteRope    []byte made from a rope, materialised on demand
//	*Iface       interface value; nil interface is (*Iface)(nil)
//	*MapV        map; nil map is (*MapV)(nil)
//	*FuncV       function value; nil func is (*FuncV)(nil)
//	*ChanV       channel
//	Tuple        multiple results
//	*Native      engine-side object behind a pointer type (regexp, ...)
type Value interface{}

type Agg struct{ f []Value }

type SymPtr struct {
	base []Value
	idx  *Term // 64 bit, in [lo,hi]
	path []int // field path inside the element
}

type ByteRope struct {
	s   *Str
	mat []Value
}

type Iface struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn     *ssa.Function
	env    []Value
	native func(ex *Exec, args []Value) Value
	name   string
}

type Tuple []Value

type Native struct {
	kind string
	v    interface{}
}

type mapEntry struct {
	k, v Value
	dead bool
}
type MapV struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	symKeys bool
	n       int
	kt      types.Type
}

// ---- strings ----

type partKind uint8

const (
	pLit partKind = iota
	pByte
	pAtom
)

type part struct {
	k partKind
	s string
	t *Term
	a *Atom
}

type atomKind uint8

const (
	aDec   atomKind = iota // decimal of a signed 64-bit term
	aB64                   // std base64 (padded) of data
	aFloat                 // formatted float: fmtc, prec
	aOpq                   // opaque text with known identity
)

type Atom struct {
	kind     atomKind
	t        *Term
	unsigned bool // aDec: t is an unsigned 64 bit number
	data     []Value
	fmtc     byte
	prec     int
	bits     int
	id       int
	name     string
	minLen   int
	maxLen   int
	cls      *[256]bool
}

type Str struct {
	parts []part
	lit   bool
	s     string // when lit
}

var emptyStr = &Str{lit: true}

func litStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{lit: true, s: s}
}

func (s *Str) each() []part {
	if s.lit {
		if s.s == "" {
			return nil
		}
		return []part{{k: pLit, s: s.s}}
	}
	return s.parts
}

// mkStr normalises a part list.
func mkStr(ps []part) *Str {
	out := make([]part, 0, len(ps))
	for _, p := range ps {
		if p.k == pByte && p.t.isConst() {
			p = part{k: pLit, s: string([]byte{byte(p.t.c)})}
		}
		if p.k == pAtom && p.a.kind == aDec && p.a.t.isConst() {
			if p.a.unsigned {
				p = part{k: pLit, s: fmt.Sprint(p.a.t.c)}
			} else {
				p = part{k: pLit, s: fmt.Sprint(sext(p.a.t.c, 64))}
			}
		}
		if p.k == pLit {
			if p.s == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == pLit {
				out[n-1].s += p.s
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return emptyStr
	}
	if len(out) == 1 && out[0].k == pLit {
		return litStr(out[0].s)
	}
	return &Str{parts: out}
}

func concatStr(ss ...*Str) *Str {
	all := true
	for _, s := range ss {
		if !s.lit {
			all = false
			break
		}
	}
	if all {
		var sb strings.Builder
		for _, s := range ss {
			sb.WriteString(s.s)
		}
		return litStr(sb.String())
	}
	var ps []part
	for _, s := range ss {
		ps = append(ps, s.each()...)
	}
	return mkStr(ps)
}

// bytesOnly reports whether the string has a concrete length (no atoms).
func (s *Str) bytesOnly() bool {
	if s.lit {
		return true
	}
	for _, p := range s.parts {
		if p.k == pAtom {
			return false
		}
	}
	return true
}

// blen is the length when bytesOnly.
func (s *Str) blen() int {
	if s.lit {
		return len(s.s)
	}
	n := 0
	for _, p := range s.parts {
		if p.k == pLit {
			n += len(p.s)
		} else {
			n++
		}
	}
	return n
}

func (s *Str) String() string {
	if s.lit {
		return fmt.Sprintf("%q", s.s)
	}
	var sb strings.Builder
	for _, p := range s.parts {
		switch p.k {
		case pLit:
			fmt.Fprintf(&sb, "%q", p.s)
		case pByte:
			fmt.Fprintf(&sb, "<b%d>", p.t.id)
		default:
			fmt.Fprintf(&sb, "<%s>", p.a)
		}
	}
	return sb.String()
}
func (a *Atom) String() string {
	switch a.kind {
	case aDec:
		return fmt.Sprintf("dec t%d", a.t.id)
	case aB64:
		return fmt.Sprintf("b64 %d bytes", len(a.data))
	case aFloat:
		return fmt.Sprintf("float t%d %c.%d", a.t.id, a.fmtc, a.prec)
	}
	return "opq " + a.name
}

// ---- types ----

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func basicSort(b *types.Basic) (srt uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Float64, types.UntypedFloat:
		return SF64, true, true
	case types.Float32:
		return SF32, true, true
	}
	return 0, false, false
}

func scalarSort(t types.Type) (srt uint8, signed bool, ok bool) {
	if b, is := under(t).(*types.Basic); is {
		return basicSort(b)
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (w *Worker) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		s, _, ok := basicSort(u)
		if !ok {
			panic(unsupported("zero of " + t.String()))
		}
		if s == SBool {
			return w.ctx.tFalse
		}
		if isFloat(s) {
			return w.ctx.FC(0, s)
		}
		return w.ctx.BV(0, s)
	case *types.Struct:
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = w.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{f: make([]Value, n)}
		for i := range a.f {
			a.f[i] = w.zero(u.Elem())
		}
		return a
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Interface:
		return (*Iface)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = w.zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

func copyVal(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{f: make([]Value, len(a.f))}
		for i, x := range a.f {
			if _, is := x.(*Agg); is {
				n.f[i] = copyVal(x)
			} else {
				n.f[i] = x
			}
		}
		return n
	}
	return v
}
