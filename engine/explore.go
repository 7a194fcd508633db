package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- exploration of one harness function ----------

type pathInfo struct {
	Check   string
	Inputs  map[string]string
	Reached []string
	Obs     []string
	End     string
}

type candidate struct {
	Check  string
	Kind   string
	Msg    string
	Where  string
	Inputs map[string]string
}

func (c *candidate) key() string {
	w := c.Where
	// the innermost function of the library
	for _, l := range strings.Split(w, "\n") {
		if strings.Contains(l, modPath) && !strings.Contains(l, "/zzverif/") {
			w = l
			break
		}
	}
	return c.Check + "|" + c.Kind + "|" + c.Msg + "|" + w
}

type checkStats struct {
	Name        string         `json:"name"`
	Paths       int64          `json:"paths"`
	Ends        map[string]int `json:"path_ends"`
	Decisions   int64          `json:"decisions"`
	Asserts     int64          `json:"assertions_decided"`
	Steps       int64          `json:"ssa_instructions"`
	Complete    bool           `json:"complete"`
	Pending     int            `json:"pending,omitempty"`
	WallS       float64        `json:"wall_s"`
	Reached     map[string]int `json:"reached"`
	Unreached   []string       `json:"unreached,omitempty"`
	Unsupported map[string]int `json:"unsupported,omitempty"`
	Undecided   map[string]int `json:"undecided,omitempty"`
	Candidates  int            `json:"candidates"`
}

type Explorer struct {
	p       *Program
	tier    int
	seed    int64
	workers []*Worker
	nw      int

	// totals over discarded workers
	mu       sync.Mutex
	queries  int
	cacheHit int
	unk      int
	solverT  time.Duration
	maxQ     time.Duration
	encoded  map[string]int

	onCand  func(*candidate) // called once per new key
	onPath  func(*pathInfo)
	stopAll int32
}

func NewExplorer(p *Program, tier int, seed int64, nw int) *Explorer {
	e := &Explorer{p: p, tier: tier, seed: seed, nw: nw, encoded: map[string]int{}}
	for i := 0; i < nw; i++ {
		e.workers = append(e.workers, nil)
	}
	return e
}

func (e *Explorer) retire(w *Worker) {
	if w == nil {
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	s := w.solver
	e.queries += s.Queries
	e.cacheHit += s.CacheHits
	e.unk += s.UnknownN
	e.solverT += s.SolverTime
	if s.MaxQuery > e.maxQ {
		e.maxQ = s.MaxQuery
	}
	for k, v := range w.encoded {
		e.encoded[k] += v
	}
	s.Close()
}

func (e *Explorer) Close() {
	for i, w := range e.workers {
		e.retire(w)
		e.workers[i] = nil
	}
}

var pathDebug = os.Getenv("VENGINE_PATHS") != ""

func (e *Explorer) Run(fn *ssa.Function, until time.Time, stepBudget int64) *checkStats {
	st := &checkStats{Name: fn.Name(), Ends: map[string]int{}, Reached: map[string]int{}, Unsupported: map[string]int{}, Undecided: map[string]int{}}
	t0 := time.Now()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []workItem{{}}
	active := 0
	stop := false
	seen := map[string]int{}
	expired := func() bool { return time.Now().After(until) || atomic.LoadInt32(&e.stopAll) != 0 }
	var wg sync.WaitGroup
	for wi := 0; wi < e.nw; wi++ {
		wg.Add(1)
		go func(wi int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(e.seed*100 + int64(wi)))
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				k := len(queue) - 1
				if wi%4 == 1 { // some diversity when the space is not exhausted
					k = rng.Intn(len(queue))
				}
				it := queue[k]
				queue[k] = queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()

				if e.workers[wi] == nil {
					e.workers[wi] = NewWorker(e.p)
				}
				w := e.workers[wi]
				w.solver.Deadline = until
				if e.tier == 0 {
					w.solver.SlowTimeout = 20000
				}
				var alts []workItem
				ex, end := runPath(w, fn, it, e.tier, stepBudget, expired, func(x workItem) {
					mu.Lock()
					queue = append(queue, x)
					mu.Unlock()
					cond.Signal()
				})
				_ = alts
				info := &pathInfo{Check: fn.Name()}
				info.Inputs = inputVals(ex, ex.model)
				var cands []*candidate
				for _, v := range ex.viol {
					cands = append(cands, &candidate{Check: fn.Name(), Kind: v.kind, Msg: v.msg, Where: v.where, Inputs: inputVals(ex, v.model)})
				}
				if end.kind == endOK {
					info.Reached = ex.reachL
					ev := NewEval(ex.model)
					for _, o := range ex.obs {
						info.Obs = append(info.Obs, o.name+"="+ex.render(o, ev))
					}
				}
				if w.ctx.next > 6_000_000 {
					e.retire(w)
					e.workers[wi] = nil
				}

				mu.Lock()
				active--
				kn := endName(end.kind)
				st.Ends[kn]++
				st.Paths++
				st.Decisions += int64(ex.branches)
				st.Asserts += int64(ex.asserts)
				st.Steps += ex.steps
				for k, v := range ex.reach {
					st.Reached[k] += v
				}
				for _, u := range ex.undec {
					st.Undecided[u]++
				}
				switch end.kind {
				case endUnsupported:
					st.Unsupported[firstLine(end.msg)]++
				case endBudget:
					st.Undecided[firstLine(end.msg)]++
				case endDiverged:
					st.Unsupported[end.msg]++
				}
				if end.kind == endKilled {
					stop = true
				}
				var fire []*candidate
				for _, c := range cands {
					k := c.key()
					seen[k]++
					if n := seen[k]; (n <= 3 || n&(n-1) == 0) && st.Candidates < 60 { // some early ones and, in case they cannot be reproduced, some others
						st.Candidates++
						fire = append(fire, c)
					}
				}
				if len(queue) == 0 && active == 0 {
					cond.Broadcast()
				}
				if expired() {
					stop = true
					cond.Broadcast()
				}
				mu.Unlock()
				if pathDebug {
					fmt.Printf("path %s end=%s %s steps=%d dec=%d reach=%v\n", fn.Name(), kn, firstLine(end.msg), ex.steps, len(ex.log), ex.reachL)
				}
				for _, c := range fire {
					e.onCand(c)
				}
				if end.kind == endOK && len(ex.viol) == 0 && len(ex.undec) == 0 {
					e.onPath(info)
				}
			}
		}(wi)
	}
	wg.Wait()
	st.Pending = len(queue)
	st.Complete = !stop && len(queue) == 0 && len(st.Unsupported) == 0 && len(st.Undecided) == 0 && st.Ends["killed"] == 0
	st.WallS = time.Since(t0).Seconds()
	for _, l := range reachLabels(fn) {
		if st.Reached[l] == 0 {
			st.Unreached = append(st.Unreached, l)
		}
	}
	sort.Strings(st.Unreached)
	return st
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func endName(k endKind) string {
	return [...]string{"ok", "infeasible", "unsupported", "budget", "diverged", "killed", "undecided", "violated"}[k]
}

// runPath executes one path to its end.
func runPath(w *Worker, fn *ssa.Function, it workItem, tier int, stepBudget int64, expired func() bool, push func(workItem)) (ex *Exec, end pathEnd) {
	ex = newExec(w)
	ex.log = it.log
	ex.byName = it.model
	ex.push = push
	ex.budget = stepBudget
	ex.tier = tier
	ex.journalOn = true
	ex.deadline = func() bool {
		return expired()
	}
	defer func() {
		r := recover()
		var stackTxt string
		if r != nil {
			stackTxt = string(debug.Stack())
		}
		if ex.sch != nil {
			if len(ex.sch.gs) > 0 && ex.sch.cur != ex.sch.gs[0] {
				ex.sch.cur = ex.sch.gs[0]
			}
			ex.sch.killAll()
		}
		switch x := r.(type) {
		case nil:
			end = pathEnd{endOK, ""}
		case pathEnd:
			end = x
			if x.kind == endBudget {
				kind := "hang"
				ex.viol = append(ex.viol, violation{msg: firstLine(x.msg), kind: kind, model: ex.model, where: x.msg})
			}
		case *targetPanic:
			end = pathEnd{endViolated, x.msg}
			ex.viol = append(ex.viol, violation{msg: "panic: " + x.msg, kind: "panic", model: ex.model, where: x.stack})
		case specAbort:
			end = pathEnd{endUnsupported, "stray speculation abort: " + x.why}
		default:
			end = pathEnd{endUnsupported, fmt.Sprintf("engine error: %v", r)}
			if os.Getenv("VENGINE_DEBUG") != "" {
				fmt.Println("ENGINE ERROR", r, "\n", stackTxt, "\n", ex.where())
			}
		}
		if end.kind == endUnsupported && os.Getenv("VENGINE_DEBUG") != "" {
			fmt.Println("UNSUPPORTED", end.msg, "\n", ex.where())
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					end = pathEnd{endUnsupported, fmt.Sprint("undo failed: ", r)}
				}
			}()
			ex.spec = 0
			ex.undoTo(0)
		}()
	}()
	ex.callFn(fn, nil, nil)
	if ex.sch != nil && ex.sch.fatal != nil {
		panic(ex.sch.fatal)
	}
	return
}

// inputVals evaluates the inputs of the path under a model.
func inputVals(ex *Exec, m Model) map[string]string {
	r := map[string]string{}
	ev := NewEval(m)
	for _, in := range ex.inputs {
		if in.term != nil {
			r[in.Name] = fmt.Sprint(ev.Eval(in.term))
		}
	}
	return r
}

// reachLabels lists the labels a harness function declares.
func reachLabels(fn *ssa.Function) []string {
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if cf := c.Common().StaticCallee(); cf != nil {
					if cf.String() == symPath+".Reach" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							m[strings.Trim(k.Value.ExactString(), `"`)] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}
