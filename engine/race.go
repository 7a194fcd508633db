package main

import "fmt"

// Data race detection by happens-before (vector clocks), for the code of the repository: memory cells and maps accessed
// by two goroutines, at least one of them writing, without synchronisation between. Synchronisation that the race
// detector of the Go runtime would see between the goroutines is also seen here; where the exact edges are not known,
// more are taken, so that what is reported here is a race there too.

type vclock []uint32

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) copy() vclock { return append(vclock(nil), v...) }

type accessRec struct {
	g     int
	clock uint32
	where string
}

type shadow struct {
	w     accessRec
	reads []accessRec
}

type raceSt struct {
	cells map[interface{}]*shadow
	locks map[interface{}]*vclock
	world vclock // the network and the harness
	found bool
}

func (ex *Exec) clk() *vclock {
	g := ex.sc().cur
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return &g.vc
}

func (ex *Exec) syncOff() bool { return ex.race == nil || ex.inReady > 0 || ex.spec > 0 }

func (r *raceSt) lock(k interface{}) *vclock {
	l := r.locks[k]
	if l == nil {
		l = &vclock{}
		r.locks[k] = l
	}
	return l
}

// release makes what the current goroutine did visible to those that acquire k later.
func (ex *Exec) release(k interface{}) {
	if ex.syncOff() {
		return
	}
	v := ex.clk()
	ex.race.lock(k).join(*v)
	(*v)[ex.sch.cur.id]++
}

func (ex *Exec) acquire(k interface{}) {
	if ex.syncOff() {
		return
	}
	ex.clk().join(*ex.race.lock(k))
}

// snapshot is the current goroutine's clock, to pass along with a value.
func (ex *Exec) snapshot() vclock {
	if ex.syncOff() {
		return nil
	}
	v := ex.clk()
	c := v.copy()
	(*v)[ex.sch.cur.id]++
	return c
}

func (ex *Exec) receive(c vclock) {
	if c != nil && !ex.syncOff() {
		ex.clk().join(c)
	}
}

func (ex *Exec) access(key interface{}, write bool, what string) {
	r := ex.race
	if r.found || ex.inReady > 0 || ex.spec > 0 || len(ex.sc().gs) < 2 {
		return
	}
	if !ex.stack[len(ex.stack)-1].cf.inRepo {
		return
	}
	me := ex.sch.cur
	vc := *ex.clk()
	s := r.cells[key]
	if s == nil {
		s = &shadow{w: accessRec{g: -1}}
		r.cells[key] = s
	}
	ordered := func(a accessRec) bool {
		return a.g < 0 || a.g == me.id || a.g < len(vc) && vc[a.g] >= a.clock
	}
	rec := accessRec{me.id, vc[me.id], ""}
	report := func(o accessRec, ow bool) {
		kind := func(w bool) string {
			if w {
				return "write"
			}
			return "read"
		}
		r.found = true
		ex.viol = append(ex.viol, violation{
			msg:   fmt.Sprintf("data race on %s: %s at %s and %s at %s", what, kind(ow), o.where, kind(write), ex.pos1()),
			kind:  "race",
			model: ex.model,
			where: ex.where(),
		})
	}
	if !ordered(s.w) {
		report(s.w, true)
		return
	}
	rec.where = ex.pos1()
	if write {
		for _, a := range s.reads {
			if !ordered(a) {
				report(a, false)
				return
			}
		}
		s.w, s.reads = rec, nil
		return
	}
	for i, a := range s.reads {
		if a.g == me.id {
			s.reads[i] = rec
			return
		}
	}
	s.reads = append(s.reads, rec)
}

func (ex *Exec) accessPtr(p Value, write bool) {
	q, _ := p.(*Value)
	if q == nil {
		return
	}
	if a, ok := (*q).(*Agg); ok {
		if len(a.f) > 64 {
			return
		}
		for i := range a.f {
			ex.accessPtr(&a.f[i], write)
		}
		return
	}
	ex.access(q, write, "memory")
}

func (ex *Exec) accessMap(v Value, write bool) {
	if m, _ := v.(*MapV); m != nil {
		ex.access(m, write, "a map")
	}
}
