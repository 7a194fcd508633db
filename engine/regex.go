package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"
)

// Regex executes a compiled regexp/syntax program over ropes with the leftmost-first semantics of
// the regexp package: an ordered thread list is advanced cell by cell. Symbolic bytes fork only
// over the byte classes the current threads distinguish; decimal/base64 atoms are consumed as a
// whole when every possible length leads to the same thread list.
type Regex struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

type rxKey struct{}
type rxRes struct{}

func (w *Worker) regex(src string) (*Regex, error) {
	if r, ok := w.regexes[src]; ok {
		return r, nil
	}
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	s, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(s.Simplify())
	if err != nil {
		return nil, err
	}
	r := &Regex{src: src, re: re, prog: p, ncap: p.NumCap}
	if r.ncap < 2 {
		r.ncap = 2
	}
	w.regexes[src] = r
	return r, nil
}

// positions: 2*i = boundary before cell i, 2*i+1 = somewhere inside cell i (atom or multi-byte rune)
type rxThread struct {
	pc  uint32
	cap []int
}

type rxState struct {
	list    []rxThread
	matched []int
}

func (r *Regex) addThread(list []rxThread, seen map[uint32]bool, pc uint32, cap []int, pos int, atStart, atEnd bool) []rxThread {
	if seen[pc] {
		return list
	}
	seen[pc] = true
	in := &r.prog.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		list = r.addThread(list, seen, in.Out, cap, pos, atStart, atEnd)
		return r.addThread(list, seen, in.Arg, cap, pos, atStart, atEnd)
	case syntax.InstNop:
		return r.addThread(list, seen, in.Out, cap, pos, atStart, atEnd)
	case syntax.InstEmptyWidth:
		op := syntax.EmptyOp(in.Arg)
		if op&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			panic(unsupported("regexp empty-width assertion in " + r.src))
		}
		if op&syntax.EmptyBeginText != 0 && !atStart {
			return list
		}
		if op&syntax.EmptyEndText != 0 && !atEnd {
			return list
		}
		return r.addThread(list, seen, in.Out, cap, pos, atStart, atEnd)
	case syntax.InstCapture:
		if int(in.Arg) < len(cap) {
			nc := append([]int(nil), cap...)
			nc[in.Arg] = pos
			cap = nc
		}
		return r.addThread(list, seen, in.Out, cap, pos, atStart, atEnd)
	case syntax.InstFail:
		return list
	}
	return append(list, rxThread{pc, cap})
}

// cut truncates the list at the first match thread, recording the match.
func (s *rxState) cut(r *Regex, pos int) {
	for i, t := range s.list {
		if r.prog.Inst[t.pc].Op == syntax.InstMatch {
			c := append([]int(nil), t.cap...)
			c[1] = pos
			s.matched = c
			s.list = s.list[:i]
			return
		}
	}
}

func (r *Regex) matchRune(pc uint32, x rune) bool { return r.prog.Inst[pc].MatchRune(x) }

// advance consumes one character for which accept(pc) tells the matching instructions.
func (r *Regex) advance(list []rxThread, accept func(pc uint32) bool, pos int, atEnd bool) []rxThread {
	var out []rxThread
	seen := map[uint32]bool{}
	for _, t := range list {
		if accept(t.pc) {
			out = r.addThread(out, seen, r.prog.Inst[t.pc].Out, t.cap, pos, false, atEnd)
		}
	}
	return out
}

func sameThreads(a, b []rxThread, caps bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].pc != b[i].pc {
			return false
		}
		if caps {
			for j := range a[i].cap {
				if a[i].cap[j] != b[i].cap[j] {
					return false
				}
			}
		}
	}
	return true
}

// nonASCII decides whether instruction pc accepts all or none of the runes >= 0x80.
func (r *Regex) nonASCII(pc uint32) (acc bool, uniform bool) {
	in := &r.prog.Inst[pc]
	switch in.Op {
	case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		return true, true
	}
	if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
		return false, false
	}
	a := in.MatchRune(0x80)
	for _, x := range []rune{0x81, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff} {
		if in.MatchRune(x) != a {
			return false, false
		}
	}
	// no range boundary strictly above 0x80
	for i := 0; i+1 < len(in.Rune); i += 2 {
		lo, hi := in.Rune[i], in.Rune[i+1]
		if (lo > 0x80) || (hi >= 0x80 && hi < 0x10ffff) {
			return false, false
		}
	}
	if len(in.Rune) == 1 && in.Rune[0] >= 0x80 {
		return false, false
	}
	return a, true
}

// match runs the regexp; the result holds capture positions as cell boundaries over the returned
// cells (which may have been expanded).
func (ex *Exec) rxMatch(r *Regex, s *Str) ([]cell, []int) {
	cs := cellsOf(s)
	for {
		out, caps, again := ex.rxRun(r, cs)
		if !again {
			return out, caps
		}
		cs = out
	}
}

func expandCell(ex *Exec, cs []cell, i int) []cell {
	mid := cellsOf(ex.expand(cellStr(cs[i : i+1])))
	out := append(append([]cell(nil), cs[:i]...), mid...)
	return append(out, cs[i+1:]...)
}

func (ex *Exec) rxRun(r *Regex, cs []cell) ([]cell, []int, bool) {
	c := ex.ctx
	newCap := func() []int {
		cp := make([]int, r.ncap)
		for i := range cp {
			cp[i] = -1
		}
		return cp
	}
	// end detection: an atom that may be empty would matter; decimal atoms never are
	S := &rxState{}
	start := func(i int, atEnd bool) {
		if S.matched != nil {
			return
		}
		seen := map[uint32]bool{}
		for _, t := range S.list {
			seen[t.pc] = true
		}
		// lower priority than everything already running
		cp := newCap()
		cp[0] = 2 * i
		S.list = r.addThread(S.list, seen, uint32(r.prog.Start), cp, 2*i, i == 0, atEnd)
	}
	anchored := r.prog.StartCond()&syntax.EmptyBeginText != 0
	for i := 0; ; i++ {
		atEnd := i == len(cs)
		if i == 0 || !anchored {
			start(i, atEnd)
		}
		S.cut(r, 2*i)
		if atEnd || (len(S.list) == 0 && (anchored || S.matched != nil)) {
			break
		}
		nextEnd := i+1 == len(cs)
		x := cs[i]
		if !anchored && len(S.list) == 0 && S.matched == nil {
			continue
		}
		switch x.k {
		case pLit:
			if x.b < 0x80 {
				S.list = r.advance(S.list, func(pc uint32) bool { return r.matchRune(pc, rune(x.b)) }, 2*(i+1), nextEnd)
				continue
			}
		case pByte:
			// partition the byte values by which threads accept them
			type grp struct {
				sig string
				set []bool
			}
			groups := map[string]*[256]bool{}
			var order []string
			lo, hi := int(x.t.ulo), int(x.t.uhi)
			// bytes of runes beyond ASCII that leave the threads as they are need no decoding
			hiSig := []byte("hi")
			if hi >= 0x80 {
				acc := map[uint32]bool{}
				sig := make([]byte, len(S.list))
				ok := true
				for k, t := range S.list {
					a, u := r.nonASCII(t.pc)
					ok = ok && u
					acc[t.pc] = a
					sig[k] = '0'
					if a {
						sig[k] = '1'
					}
				}
				if ok {
					adv := r.advance(S.list, func(pc uint32) bool { return acc[pc] }, 2*i+1, nextEnd)
					if len(adv) == 0 || anchored && sameThreads(adv, S.list, false) {
						hiSig = sig
					}
				}
			}
			for b := lo; b <= hi && b < 256; b++ {
				sig := make([]byte, len(S.list))
				if b >= 0x80 {
					sig = hiSig
				} else {
					for k, t := range S.list {
						if r.matchRune(t.pc, rune(b)) {
							sig[k] = '1'
						} else {
							sig[k] = '0'
						}
					}
				}
				g := groups[string(sig)]
				if g == nil {
					g = new([256]bool)
					groups[string(sig)] = g
					order = append(order, string(sig))
				}
				g[b] = true
			}
			chosen := order[len(order)-1]
			for _, sg := range order[:len(order)-1] {
				if ex.branch(ex.inSet(x.t, groups[sg])) {
					chosen = sg
					break
				}
			}
			if chosen != "hi" {
				idx := map[uint32]bool{}
				for k, t := range S.list {
					if chosen[k] == '1' {
						idx[t.pc] = true
					}
				}
				S.list = r.advance(S.list, func(pc uint32) bool { return idx[pc] }, 2*(i+1), nextEnd)
				continue
			}
		case pAtom:
			cls := atomClass(x.a)
			if cls == nil {
				return expandCell(ex, cs, i), nil, true
			}
			if x.a.kind == aB64 && len(x.a.data) == 0 {
				return expandCell(ex, cs, i), nil, true
			}
			acc := map[uint32]bool{}
			uniform := true
			for _, t := range S.list {
				first := true
				var v bool
				for b := 0; b < 256; b++ {
					if !cls[b] {
						continue
					}
					m := r.matchRune(t.pc, rune(b))
					if first {
						v, first = m, false
					} else if m != v {
						uniform = false
					}
				}
				acc[t.pc] = v
			}
			if !uniform || !anchored && S.matched == nil {
				return expandCell(ex, cs, i), nil, true
			}
			f := func(pc uint32) bool { return acc[pc] }
			ok := true
			// thread list after consuming n characters, last at the boundary
			one := r.advance(S.list, f, 2*(i+1), nextEnd)
			mid := r.advance(S.list, f, 2*i+1, false)
			for _, t := range mid {
				if r.prog.Inst[t.pc].Op == syntax.InstMatch {
					ok = false
				}
			}
			uni2 := true
			chk := func(l []rxThread) {
				for _, t := range l {
					first := true
					var v bool
					for b := 0; b < 256; b++ {
						if !cls[b] {
							continue
						}
						m := r.matchRune(t.pc, rune(b))
						if first {
							v, first = m, false
						} else if m != v {
							uni2 = false
						}
					}
					acc[t.pc] = v
				}
			}
			// E[n-1]: threads after n characters; mids reach a fixpoint
			filter := func(l []rxThread) []rxThread {
				if nextEnd || cs[i+1].k != pLit || cs[i+1].b >= 0x80 {
					return l
				}
				var o []rxThread
				for _, t := range l {
					if r.prog.Inst[t.pc].Op == syntax.InstMatch || r.matchRune(t.pc, rune(cs[i+1].b)) {
						o = append(o, t)
					}
				}
				return o
			}
			minL, maxL := atomLens(x.a)
			E := [][]rxThread{filter(one)}
			fixed := false
			for k := 0; k < 8 && ok; k++ {
				chk(mid)
				for _, t := range mid {
					if r.prog.Inst[t.pc].Op == syntax.InstMatch {
						ok = false
					}
				}
				E = append(E, filter(r.advance(mid, f, 2*(i+1), nextEnd)))
				m2 := r.advance(mid, f, 2*i+1, false)
				if fixed {
					break
				}
				fixed = sameThreads(mid, m2, false)
				mid = m2
			}
			var res []rxThread
			switch {
			case !ok || !uni2 || !fixed && maxL > len(E):
				ok = false
			default:
				if maxL > len(E) {
					maxL = len(E)
				}
				if minL > maxL {
					minL = maxL
				}
				res = E[minL-1]
				for n := minL; n <= maxL; n++ {
					if !sameThreads(res, E[n-1], true) {
						ok = false
					}
				}
			}
			if ok {
				for _, t := range res {
					for _, p := range t.cap {
						if p >= 0 && p&1 == 1 {
							ok = false
						}
					}
				}
			}
			if !ok {
				return expandCell(ex, cs, i), nil, true
			}
			S.list = res
			continue
		}
		// a byte >= 0x80: part of a rune
		uni := true
		acc := map[uint32]bool{}
		for _, t := range S.list {
			a, u := r.nonASCII(t.pc)
			if !u {
				uni = false
			}
			acc[t.pc] = a
		}
		f := func(pc uint32) bool { return acc[pc] }
		if uni {
			adv := r.advance(S.list, f, 2*i+1, nextEnd)
			fix := sameThreads(adv, S.list, false)
			if fix || len(adv) == 0 {
				if len(adv) == 0 || anchored {
					S.list = r.advance(S.list, f, 2*(i+1), nextEnd)
					continue
				}
			}
		}
		if !uni {
			panic(unsupported("regexp class above 0x7f in " + r.src))
		}
		// consume a whole rune
		rest := cellStr(cs[i:])
		if !rest.bytesOnly() {
			// decode only needs the next 4 bytes; stop before an atom
			j := i
			for j < len(cs) && cs[j].k != pAtom && j < i+4 {
				j++
			}
			rest = cellStr(cs[i:j])
		}
		_, n, _ := ex.decodeRune(rest, 0)
		S.list = r.advance(S.list, f, 2*(i+n), i+n == len(cs))
		i += n - 1
	}
	_ = c
	if S.matched == nil {
		return cs, nil, false
	}
	return cs, S.matched, false
}

func (ex *Exec) inSet(t *Term, set *[256]bool) *Term {
	c := ex.ctx
	r := c.tFalse
	for b := 0; b < 256; {
		if !set[b] {
			b++
			continue
		}
		e := b
		for e+1 < 256 && set[e+1] {
			e++
		}
		var k *Term
		if b == e {
			k = c.Eq(t, c.BV(uint64(b), 8))
		} else {
			k = c.And(c.Ule(c.BV(uint64(b), 8), t), c.Ule(t, c.BV(uint64(e), 8)))
		}
		r = c.Or(r, k)
		b = e + 1
	}
	return r
}

var digitSet = func() *[256]bool {
	var s [256]bool
	for b := '0'; b <= '9'; b++ {
		s[b] = true
	}
	return &s
}()

var b64Set = func() *[256]bool {
	var s [256]bool
	for _, b := range "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=" {
		s[b] = true
	}
	return &s
}()

func atomClass(a *Atom) *[256]bool {
	switch a.kind {
	case aDec:
		if a.unsigned || a.t.slo >= 0 {
			return digitSet
		}
		return signedSet
	case aB64:
		return b64Set
	case aFloat:
		if a.fmtc == 'f' {
			return nil
		}
		return nil
	case aOpq:
		return a.cls
	}
	return nil
}

func atomLens(a *Atom) (int, int) {
	switch a.kind {
	case aDec:
		if !a.unsigned && a.t.slo < 0 {
			return 1, 20
		}
		lo, hi := len(fmt.Sprint(a.t.ulo)), len(fmt.Sprint(a.t.uhi))
		return lo, hi
	case aB64:
		n := b64Len(len(a.data))
		return n, n
	case aOpq:
		return a.minLen, a.maxLen
	}
	return 1, 1 << 20
}

func (ex *Exec) rxOf(v Value) *Regex {
	switch x := v.(type) {
	case *Native:
		return x.v.(*Regex)
	case *Value:
		if x == nil {
			ex.rtPanic("invalid memory address or nil pointer dereference")
		}
		if n, ok := (*x).(*Native); ok {
			return n.v.(*Regex)
		}
	}
	panic(unsupported(fmt.Sprintf("regexp value %T", v)))
}

// rxBool decides a match.
func (ex *Exec) rxBool(r *Regex, s *Str) bool {
	if s.lit {
		return r.re.MatchString(s.s)
	}
	_, m := ex.rxMatch(r, s)
	return m != nil
}

func (ex *Exec) rxSub(r *Regex, s *Str) []*Str {
	if s.lit {
		m := r.re.FindStringSubmatch(s.s)
		if m == nil {
			return nil
		}
		out := make([]*Str, len(m))
		for i, x := range m {
			out[i] = litStr(x)
		}
		return out
	}
	cs, m := ex.rxMatch(r, s)
	if m == nil {
		return nil
	}
	var out []*Str
	for i := 0; i+1 < len(m); i += 2 {
		if m[i] < 0 || m[i+1] < 0 {
			out = append(out, emptyStr)
			continue
		}
		out = append(out, cellStr(cs[m[i]/2:m[i+1]/2]))
	}
	return out
}

func init() {
	I := intrinsics
	I["regexp.MustCompile"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		s := st(a[0])
		if !s.lit {
			panic(unsupported("symbolic regexp"))
		}
		r, err := ex.w.regex(s.s)
		if err != nil {
			panic(&targetPanic{msg: "regexp: " + err.Error(), stack: ex.where()})
		}
		return &Native{kind: "regexp", v: r}
	}
	I["regexp.Compile"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		s := st(a[0])
		if !s.lit {
			panic(unsupported("symbolic regexp"))
		}
		r, err := ex.w.regex(s.s)
		if err != nil {
			return Tuple{(*Value)(nil), ex.newErr(litStr(err.Error()))}
		}
		return Tuple{&Native{kind: "regexp", v: r}, nilErr}
	}
	P := "(*regexp.Regexp)."
	I[P+"MatchString"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.ctx.Bool(ex.rxBool(ex.rxOf(a[0]), st(a[1]))) }
	I[P+"FindStringSubmatch"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		m := ex.rxSub(ex.rxOf(a[0]), st(a[1]))
		if m == nil {
			return []Value(nil)
		}
		return strSlice2(m)
	}
	I[P+"FindString"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		m := ex.rxSub(ex.rxOf(a[0]), st(a[1]))
		if m == nil {
			return emptyStr
		}
		return m[0]
	}
	I[P+"MatchString"] = func(ex *Exec, a []Value, ci *cInstr) Value { return ex.ctx.Bool(ex.rxBool(ex.rxOf(a[0]), st(a[1]))) }
	I[P+"Match"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		return ex.ctx.Bool(ex.rxBool(ex.rxOf(a[0]), ex.bytesToStr(a[1])))
	}
	I[P+"String"] = func(ex *Exec, a []Value, ci *cInstr) Value { return litStr(ex.rxOf(a[0]).src) }
	I[P+"ReplaceAllString"] = func(ex *Exec, a []Value, ci *cInstr) Value {
		r, s, rep := ex.rxOf(a[0]), st(a[1]), st(a[2])
		if s.lit && rep.lit {
			return litStr(r.re.ReplaceAllString(s.s, rep.s))
		}
		if !rep.lit || strings.Contains(rep.s, "$") {
			panic(unsupported("regexp replacement"))
		}
		var out []*Str
		rest := s
		for {
			cs, m := ex.rxMatch(r, rest)
			if m == nil {
				break
			}
			if m[0] == m[1] {
				panic(unsupported("empty regexp match in ReplaceAllString"))
			}
			out = append(out, cellStr(cs[:m[0]/2]), rep)
			rest = cellStr(cs[m[1]/2:])
		}
		return concatStr(append(out, rest)...)
	}
}

// the characters of a signed decimal number
var signedSet = func() *[256]bool {
	s := *digitSet
	s['-'] = true
	return &s
}()
