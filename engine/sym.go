package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The symbolic meaning of package zzsym.

func (ex *Exec) nameArg(v Value) string {
	s := st(v)
	if !s.lit {
		panic(unsupported("symbolic name of an input"))
	}
	return s.s
}

func init() {
	I := intrinsics
	Z := func(name string, f func(ex *Exec, a []Value) Value) {
		I[symPath+"."+name] = func(ex *Exec, a []Value, ci *cInstr) Value {
			if ex.spec > 0 {
				panic(specAbort{"zzsym." + name})
			}
			return f(ex, a)
		}
	}
	num := func(name string, srt uint8, sgn bool) {
		Z(name, func(ex *Exec, a []Value) Value {
			nm := ex.nameArg(a[0])
			lo, hi := a[1].(*Term), a[2].(*Term)
			if !lo.isConst() || !hi.isConst() {
				// symbolic bounds: constrain explicitly
				t := ex.newVar(nm, "v", srt, sgn, 0, 0, false)
				c := ex.ctx
				if sgn {
					ex.assume(c.And(c.Sle(lo, t), c.Sle(t, hi)))
				} else {
					ex.assume(c.And(c.Ule(lo, t), c.Ule(t, hi)))
				}
				return t
			}
			l, h := lo.c, hi.c
			if sgn {
				l, h = uint64(sext(l, srt)), uint64(sext(h, srt))
				if int64(l) > int64(h) {
					panic(unsupported("empty range for " + nm))
				}
			} else if l > h {
				panic(unsupported("empty range for " + nm))
			}
			if l == h {
				ex.occName(nm)
				ex.inputs = append(ex.inputs, inputRec{Name: fmt.Sprintf("%s#%d", nm, ex.nameCnt[nm]-1), Kind: "const", term: lo})
				return lo
			}
			return ex.newVar(nm, "v", srt, sgn, l, h, true)
		})
	}
	num("Int", 64, true)
	num("Int64", 64, true)
	num("Int32", 32, true)
	num("Uint32", 32, false)
	num("Uint64", 64, false)
	num("Byte", 8, false)
	Z("Bool", func(ex *Exec, a []Value) Value { return ex.newVar(ex.nameArg(a[0]), "v", SBool, false, 0, 0, false) })
	Z("Float32", func(ex *Exec, a []Value) Value { return ex.newFloat(ex.nameArg(a[0]), SF32) })
	Z("Float64", func(ex *Exec, a []Value) Value { return ex.newFloat(ex.nameArg(a[0]), SF64) })
	mkBytes := func(ex *Exec, name string, n int, lo, hi byte) []Value {
		nm := ex.occName(name)
		r := make([]Value, n)
		c := ex.ctx
		for i := range r {
			key := fmt.Sprintf("%s[%d]/b", nm, i)
			if lo > 0 || hi < 255 {
				key += fmt.Sprintf("[%d,%d]", lo, hi)
			}
			t := c.Var(key, 8)
			if lo > 0 || hi < 255 {
				if !t.varsOK {
					t.Vars()
					t.ulo, t.uhi = uint64(lo), uint64(hi)
					t.recon()
				}
			}
			if v, ok := ex.byName[key]; ok {
				ex.model[t.id] = v
				ex.ev = nil
			}
			ex.inputs = append(ex.inputs, inputRec{Name: fmt.Sprintf("%s[%d]", nm, i), Kind: "byte", term: t})
			r[i] = t
		}
		return r
	}
	Z("Bytes", func(ex *Exec, a []Value) Value {
		return mkBytes(ex, ex.nameArg(a[0]), int(ex.concInt(a[1].(*Term))), 0, 255)
	})
	Z("String", func(ex *Exec, a []Value) Value {
		return ex.bytesToStr(mkBytes(ex, ex.nameArg(a[0]), int(ex.concInt(a[1].(*Term))), 0, 255))
	})
	Z("StringIn", func(ex *Exec, a []Value) Value {
		lo, _ := constOf(a[2])
		hi, _ := constOf(a[3])
		return ex.bytesToStr(mkBytes(ex, ex.nameArg(a[0]), int(ex.concInt(a[1].(*Term))), byte(lo), byte(hi)))
	})
	Z("Choice", func(ex *Exec, a []Value) Value {
		nm := ex.occName(ex.nameArg(a[0]))
		n := int(ex.concInt(a[1].(*Term)))
		k := ex.choose(n, "choice "+nm)
		t := ex.ctx.Int(int64(k))
		ex.inputs = append(ex.inputs, inputRec{Name: nm, Kind: "choice", term: t})
		return t
	})
	Z("Concrete", func(ex *Exec, a []Value) Value { return ex.ctx.Int(ex.concInt(a[0].(*Term))) })
	Z("Assume", func(ex *Exec, a []Value) Value { ex.assume(a[0].(*Term)); return nil })
	Z("Assert", func(ex *Exec, a []Value) Value {
		ex.assertTrue(a[0].(*Term), ex.nameArgLoose(a[1]))
		return nil
	})
	Z("Reach", func(ex *Exec, a []Value) Value {
		l := ex.nameArg(a[0])
		ex.reach[l]++
		ex.reachL = append(ex.reachL, l)
		return nil
	})
	Z("Observe", func(ex *Exec, a []Value) Value {
		i, _ := a[1].(*Iface)
		if i == nil {
			return nil
		}
		v := i.v
		if s, ok := v.([]Value); ok {
			v = append([]Value(nil), s...)
		}
		ex.obs = append(ex.obs, obsRec{name: ex.nameArg(a[0]), typ: i.t, val: v})
		return nil
	})
	Z("Thorough", func(ex *Exec, a []Value) Value { return ex.ctx.Bool(ex.tier > 0) })
	Z("Symbolic", func(ex *Exec, a []Value) Value { return ex.ctx.tTrue })
	Z("MapOrder", func(ex *Exec, a []Value) Value { ex.mapPerm = int(ex.concInt(a[0].(*Term))); return nil })
	Z("RandLimit", func(ex *Exec, a []Value) Value { ex.randLeft = int(ex.concInt(a[0].(*Term))) + 1; return nil })
	Z("Sched", func(ex *Exec, a []Value) Value {
		s := ex.sc()
		s.preempt = int(ex.concInt(a[0].(*Term)))
		s.choice = int(ex.concInt(a[1].(*Term)))
		return nil
	})
	Z("Yield", func(ex *Exec, a []Value) Value { ex.gosched(); return nil })
	Z("Preempt", func(ex *Exec, a []Value) Value { ex.yield("preempt"); return nil })
	Z("Now", func(ex *Exec, a []Value) Value { return ex.ctx.Int(ex.sc().now) })
	Z("Block", func(ex *Exec, a []Value) Value {
		why := ex.nameArgLoose(a[0])
		f := a[1].(*FuncV)
		until := ex.concInt(a[2].(*Term))
		ok := ex.block(why, func() bool {
			ex.inReady++
			t := ex.callFuncV(f, nil, nil, nil).(*Term)
			ex.inReady--
			if !t.isConst() {
				panic(unsupported("symbolic wake-up condition"))
			}
			return t.isTrue()
		}, until)
		return ex.ctx.Bool(ok)
	})
	Z("MapField", func(ex *Exec, a []Value) Value {
		i, _ := a[0].(*Iface)
		if i == nil {
			return (*MapV)(nil)
		}
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			return (*MapV)(nil)
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		agg, ok2 := (*i.v.(*Value)).(*Agg)
		u32 := types.Typ[types.Uint32]
		if ok && ok2 {
			for k := 0; k < st.NumFields(); k++ {
				if types.Identical(st.Field(k).Type(), types.NewMap(u32, u32)) {
					return agg.f[k]
				}
			}
		}
		return (*MapV)(nil)
	})
	Z("Goroutines", func(ex *Exec, a []Value) Value {
		n := 0
		for _, g := range ex.sc().gs {
			if !g.done && g != ex.sch.cur {
				n++
			}
		}
		return ex.ctx.Int(int64(n))
	})
	Z("Races", func(ex *Exec, a []Value) Value {
		if ex.race == nil {
			ex.race = &raceSt{cells: map[interface{}]*shadow{}, locks: map[interface{}]*vclock{}}
		}
		return nil
	})
	Z("Share", func(ex *Exec, a []Value) Value { ex.release(ex.race); return nil })
	Z("Notice", func(ex *Exec, a []Value) Value { ex.acquire(ex.race); return nil })
	Z("MaxAlloc", func(ex *Exec, a []Value) Value { ex.maxAlloc = ex.concInt(a[0].(*Term)); return nil })
	Z("Pure", func(ex *Exec, a []Value) Value {
		from := len(ex.journal)
		mf := len(ex.mapWrites)
		ex.callFuncV(a[0].(*FuncV), nil, nil, nil)
		if from == len(ex.journal) && mf == len(ex.mapWrites) {
			return nil
		}
		slots, maps := ex.w.repoGlobals()
		for _, j := range ex.journal[from:] {
			if n, ok := slots[j.slot]; ok && j.slot != nil {
				ex.viol = append(ex.viol, violation{msg: "writes memory reachable from package variable " + n, kind: "globwrite", model: ex.model, where: ex.where()})
				return nil
			}
		}
		for _, m := range ex.mapWrites[mf:] {
			if n, ok := maps[m]; ok {
				ex.viol = append(ex.viol, violation{msg: "writes the map in package variable " + n, kind: "globwrite", model: ex.model, where: ex.where()})
				return nil
			}
		}
		return nil
	})
}

func (ex *Exec) nameArgLoose(v Value) string {
	s := st(v)
	if s.lit {
		return s.s
	}
	return s.String()
}

func (ex *Exec) newFloat(name string, srt uint8) *Term {
	t := ex.newVar(name, "v", srt, false, 0, 0, false)
	m := math.MaxFloat64
	if srt == SF32 {
		m = math.MaxFloat32
	}
	ex.assume(ex.ctx.FCmp(OpFLe, ex.ctx.FUn(OpFAbs, 0, t), ex.ctx.FC(m, srt)))
	return t
}

// repoGlobals lists every slot and map reachable from the package variables of the library.
func (w *Worker) repoGlobals() (map[*Value]string, map[*MapV]string) {
	slots := map[*Value]string{}
	maps := map[*MapV]string{}
	var walk func(v Value, n string)
	var walkSlot func(p *Value, n string)
	seen := map[interface{}]bool{}
	walkSlot = func(p *Value, n string) {
		if p == nil {
			return
		}
		if _, ok := slots[p]; ok {
			return
		}
		slots[p] = n
		walk(*p, n)
	}
	walk = func(v Value, n string) {
		switch x := v.(type) {
		case *Agg:
			for i := range x.f {
				walkSlot(&x.f[i], n)
			}
		case *Value:
			walkSlot(x, n)
		case []Value:
			x = x[:cap(x)]
			for i := range x {
				walkSlot(&x[i], n)
			}
		case *Iface:
			if x != nil {
				walk(x.v, n)
			}
		case *MapV:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			maps[x] = n
			for _, e := range x.entries {
				walk(e.k, n)
				walk(e.v, n)
			}
		case *FuncV:
			if x == nil || seen[x] {
				return
			}
			seen[x] = true
			for _, e := range x.env {
				walk(e, n)
			}
		}
	}
	for g, p := range w.globals {
		if g.Pkg == nil {
			continue
		}
		path := g.Pkg.Pkg.Path()
		if !strings.HasPrefix(path, modPath) || strings.Contains(path, "/zzverif/") {
			continue
		}
		if strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		walkSlot(p, g.RelString(nil))
	}
	return slots, maps
}

// render shows an observed value under a model, as zzsym.render does natively.
func (ex *Exec) render(o obsRec, ev *Evaluator) string {
	q := func(v Value) string { return strconv.Quote(ex.concreteStr(st(v), ev)) }
	switch v := o.val.(type) {
	case *Str:
		return q(v)
	case *ByteRope:
		return q(ex.bytesToStr(v))
	case []Value:
		if isByteSlice(o.typ) {
			return q(ex.bytesToStr(v))
		}
		var ss []string
		for _, e := range v {
			if s, ok := e.(*Str); ok {
				ss = append(ss, q(s))
			}
		}
		return "[" + strings.Join(ss, ",") + "]"
	case *Term:
		srt, sgn, _ := scalarSort(o.typ)
		u := ev.Eval(v)
		if srt == SBool {
			return strconv.FormatBool(u == 1)
		}
		if sgn {
			return strconv.FormatInt(sext(u, srt), 10)
		}
		return strconv.FormatUint(u, 10)
	}
	return fmt.Sprintf("?%T", o.val)
}

var _ = types.Typ
var _ *ssa.Function
