package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	ctx      *TermCtx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	gen      int
	emitted  map[uint32]bool
	vars     map[uint32]*Term
	rng      map[uint32]string // range assertion per variable, repeated in every query that has it
	nEmitted int

	TimeoutMS   int
	Deadline    time.Time
	SlowTimeout int // second-chance one-shot timeout in ms

	cache map[string]cacheEnt

	// stats
	Queries, CacheHits, SatN, UnsatN, UnknownN, Restarts int
	SolverTime                                           time.Duration
	MaxQuery                                             time.Duration
	logf                                                 io.Writer
}

type cacheEnt struct {
	r SatResult
	m Model
}

func NewSolver(ctx *TermCtx) *Solver {
	s := &Solver{ctx: ctx, TimeoutMS: 10000, SlowTimeout: 60000, vars: map[uint32]*Term{}, rng: map[uint32]string{}, cache: map[string]cacheEnt{}}
	if p := os.Getenv("VENGINE_SMTLOG"); p != "" {
		f, _ := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.logf = f
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in")
	s.inPipe, _ = s.cmd.StdinPipe()
	op, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3-new: %v", err))
	}
	s.in = bufio.NewWriterSize(s.inPipe, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.emitted = map[uint32]bool{}
	s.nEmitted = 0
	s.w("(set-option :print-success false)\n(set-option :model.completion true)\n")
	s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.TimeoutMS))
}

func (s *Solver) w(x string) {
	s.in.WriteString(x)
	if s.logf != nil {
		io.WriteString(s.logf, x)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(s uint8) string {
	switch s {
	case SBool:
		return "Bool"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func fpParams(s uint8) string {
	if s == SF32 {
		return "8 24"
	}
	return "11 53"
}

func constStr(t *Term) string {
	switch {
	case t.srt == SBool:
		if t.c == 1 {
			return "true"
		}
		return "false"
	case t.srt == SF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", uint32(t.c))
	case t.srt == SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
	case t.srt%4 == 0:
		return fmt.Sprintf("#x%0*x", t.srt/4, t.c)
	}
	return fmt.Sprintf("#b%0*b", t.srt, t.c)
}

func ref(t *Term) string {
	if t.op == OpConst {
		return constStr(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
	OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq", OpFNeg: "fp.neg", OpFAbs: "fp.abs", OpFIsNaN: "fp.isNaN"}

var rms = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}

func body(t *Term) string {
	var sb strings.Builder
	bin := func(n string) {
		sb.WriteString("(" + n)
		for _, a := range t.args {
			sb.WriteString(" " + ref(a))
		}
		sb.WriteString(")")
	}
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.aux)+int(t.srt)-1, t.aux, ref(t.args[0]))
	case OpZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.srt-t.args[0].srt, ref(t.args[0]))
	case OpSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.srt-t.args[0].srt, ref(t.args[0]))
	case OpFAdd:
		bin("fp.add RNE")
	case OpFSub:
		bin("fp.sub RNE")
	case OpFMul:
		bin("fp.mul RNE")
	case OpFDiv:
		bin("fp.div RNE")
	case OpFSqrt:
		bin("fp.sqrt RNE")
	case OpFRound:
		bin("fp.roundToIntegral " + rms[t.aux])
	case OpFFromS:
		fmt.Fprintf(&sb, "((_ to_fp %s) RNE %s)", fpParams(t.srt), ref(t.args[0]))
	case OpFFromU:
		fmt.Fprintf(&sb, "((_ to_fp_unsigned %s) RNE %s)", fpParams(t.srt), ref(t.args[0]))
	case OpFCvt:
		fmt.Fprintf(&sb, "((_ to_fp %s) RNE %s)", fpParams(t.srt), ref(t.args[0]))
	case OpFToS:
		a := ref(t.args[0])
		p := fpParams(t.args[0].srt)
		lim := "9223372036854775808.0"
		fmt.Fprintf(&sb, "(ite (and (fp.lt %s ((_ to_fp %s) RNE %s)) (fp.geq %s ((_ to_fp %s) RNE (- %s)))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", a, p, lim, a, p, lim, a)
	case OpFToU:
		fmt.Fprintf(&sb, "((_ fp.to_ubv %d) RTZ %s)", t.srt, ref(t.args[0]))
	case OpUF:
		bin("|" + t.name + "|")
	default:
		bin(opNames[t.op])
	}
	return sb.String()
}

// emit declares/defines t and everything below it.
func (s *Solver) emit(t *Term) {
	if t.op == OpConst || s.emitted[t.id] {
		return
	}
	// iterative for deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OpConst && !s.emitted[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.emitted[x.id] {
			continue
		}
		s.emitted[x.id] = true
		s.nEmitted++
		switch x.op {
		case OpVar:
			s.vars[x.id] = x
			switch {
			case isFloat(x.srt):
				w := 64
				if x.srt == SF32 {
					w = 32
				}
				s.w(fmt.Sprintf("(declare-const v%d (_ BitVec %d))\n(define-fun t%d () %s ((_ to_fp %s) v%d))\n", x.id, w, x.id, sortName(x.srt), fpParams(x.srt), x.id))
			case isNarrow(x):
				k := nWidth(x)
				s.w(fmt.Sprintf("(declare-const v%d (_ BitVec %d))\n(define-fun n%d () (_ BitVec %d) v%d)\n(define-fun t%d () %s ((_ sign_extend %d) v%d))\n", x.id, k, x.id, k, x.id, x.id, sortName(x.srt), int(x.srt)-k, x.id))
				s.rng[x.id] = fmt.Sprintf("(assert (and (bvsle %s v%d) (bvsle v%d %s)))\n", bvConst(uint64(x.slo), k), x.id, x.id, bvConst(uint64(x.shi), k))
			default:
				s.w(fmt.Sprintf("(declare-const v%d %s)\n(define-fun t%d () %s v%d)\n", x.id, sortName(x.srt), x.id, sortName(x.srt), x.id))
				if isBV(x.srt) {
					m := maskW(x.srt)
					full := &Term{srt: x.srt}
					full.setFull()
					if x.ulo > 0 || x.uhi < m {
						s.rng[x.id] = (fmt.Sprintf("(assert (and (bvule %s v%d) (bvule v%d %s)))\n", constStr(&Term{srt: x.srt, c: x.ulo}), x.id, x.id, constStr(&Term{srt: x.srt, c: x.uhi})))
					} else if x.slo > full.slo || x.shi < full.shi {
						s.rng[x.id] = (fmt.Sprintf("(assert (and (bvsle %s v%d) (bvsle v%d %s)))\n", constStr(&Term{srt: x.srt, c: uint64(x.slo) & m}), x.id, x.id, constStr(&Term{srt: x.srt, c: uint64(x.shi) & m})))
					}
				}
			}
		case OpUF:
			key := "uf:" + x.name
			if !s.ufDone(key) {
				s.w("(declare-fun |" + x.name + "| (")
				for i, a := range x.args {
					if i > 0 {
						s.w(" ")
					}
					s.w(sortName(a.srt))
				}
				s.w(") " + sortName(x.srt) + ")\n")
			}
			s.w(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortName(x.srt), body(x)))
			if isNarrow(x) {
				s.w(fmt.Sprintf("(define-fun n%d () (_ BitVec %d) ((_ extract %d 0) t%d))\n", x.id, nWidth(x), nWidth(x)-1, x.id))
			}
		default:
			if isNarrow(x) {
				k := nWidth(x)
				s.w(fmt.Sprintf("(define-fun n%d () (_ BitVec %d) %s)\n(define-fun t%d () %s ((_ sign_extend %d) n%d))\n", x.id, k, nbody(x, k), x.id, sortName(x.srt), int(x.srt)-k, x.id))
				continue
			}
			b := cmpBody(x)
			if b == "" {
				b = body(x)
			}
			s.w(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortName(x.srt), b))
		}
	}
}

func (s *Solver) ufDone(k string) bool {
	id := uint32(0xF0000000)
	for i := 0; i < len(k); i++ {
		id = id*31 + uint32(k[i])
	}
	id |= 0xF0000000
	if s.emitted[id] {
		return true
	}
	s.emitted[id] = true
	return false
}

// Check decides the conjunction of cs. With a Sat answer it returns a model of the
// variables occurring in cs.
func (s *Solver) Check(cs []*Term) (SatResult, Model) {
	ids := make([]uint32, 0, len(cs))
	var ts []*Term
	for _, c := range cs {
		if c.isTrue() {
			continue
		}
		if c.isFalse() {
			return Unsat, nil
		}
		ts = append(ts, c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var kb strings.Builder
	for i, t := range ts {
		if i > 0 && ts[i-1] == t {
			continue
		}
		ids = append(ids, t.id)
		kb.WriteString(strconv.FormatUint(uint64(t.id), 36))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.CacheHits++
		return e.r, e.m
	}
	r, m := s.check1(ts)
	if r != Unknown {
		if len(s.cache) > 200000 {
			s.cache = map[string]cacheEnt{}
		}
		s.cache[key] = cacheEnt{r, m}
	}
	return r, m
}

func (s *Solver) check1(ts []*Term) (SatResult, Model) {
	if s.cmd == nil || s.nEmitted > 15000 {
		if s.cmd != nil {
			s.Restarts++
		}
		s.Close()
		s.start()
	}
	t0 := time.Now()
	s.Queries++
	// z3 does not always honour its own timeout: a query which hangs ends the solver and goes to oneShot.
	proc := s.cmd.Process
	watchdog := time.AfterFunc(time.Duration(s.TimeoutMS+s.TimeoutMS/2+2000)*time.Millisecond, func() { proc.Kill() })
	defer watchdog.Stop()
	var vids []uint32
	for _, t := range ts {
		s.emit(t)
		vids = mergeSorted(vids, t.Vars())
	}
	if len(vids) > 0 && vids[0] == 0 {
		vids = vids[1:]
	}
	s.w("(push)\n")
	s.ranges(vids)
	for _, t := range ts {
		s.w("(assert " + ref(t) + ")\n")
	}
	s.w("(check-sat)\n")
	s.in.Flush()
	ans := s.readLine()
	watchdog.Stop()
	var res SatResult
	var m Model
	switch ans {
	case "sat":
		res = Sat
		s.SatN++
		m = s.getModel(vids)
	case "unsat":
		res = Unsat
		s.UnsatN++
	default:
		res = Unknown
	}
	if s.cmd != nil {
		s.w("(pop)\n")
	}
	if ans != "sat" && ans != "unsat" {
		s.Close()
		res, m = s.oneShot(ts, vids)
		switch res {
		case Sat:
			s.SatN++
		case Unsat:
			s.UnsatN++
		default:
			s.UnknownN++
		}
	}
	d := time.Since(t0)
	s.SolverTime += d
	if d > s.MaxQuery {
		s.MaxQuery = d
	}
	return res, m
}

// oneShot retries a query non-incrementally (full tactic pipeline), first z3 then cvc5.
func (s *Solver) oneShot(ts []*Term, vids []uint32) (SatResult, Model) {
	slow := s.SlowTimeout
	if !s.Deadline.IsZero() {
		left := int(time.Until(s.Deadline)/time.Millisecond) + 5000
		if left < slow {
			slow = left
		}
		if slow < 1000 {
			return Unknown, nil
		}
	}
	sub := &Solver{ctx: s.ctx, TimeoutMS: slow, vars: map[uint32]*Term{}, rng: map[uint32]string{}}
	var sb strings.Builder
	sub.in = bufio.NewWriter(&sbWriter{&sb})
	sub.emitted = map[uint32]bool{}
	for _, t := range ts {
		sub.emit(t)
	}
	sub.ranges(vids)
	for _, t := range ts {
		sub.w("(assert " + ref(t) + ")\n")
	}
	sub.in.Flush()
	base := sb.String()
	gv := ""
	if len(vids) > 0 {
		gv = "(get-value ("
		for _, v := range vids {
			gv += fmt.Sprintf(" v%d", v)
		}
		gv += "))\n"
	}
	type res struct {
		r SatResult
		m Model
	}
	ch := make(chan res, 2)
	var procs []*exec.Cmd
	run := func(name string, args []string, text string) *exec.Cmd {
		c := exec.Command(name, args...)
		c.Stdin = strings.NewReader(text)
		procs = append(procs, c)
		go func() {
			out, _ := c.Output()
			o := string(out)
			switch {
			case strings.HasPrefix(o, "unsat"):
				ch <- res{Unsat, nil}
			case strings.HasPrefix(o, "sat"):
				ch <- res{Sat, sub.widenModel(parseModel(o[3:]))}
			default:
				ch <- res{Unknown, nil}
			}
		}()
		return c
	}
	run("z3-new", []string{"-in", fmt.Sprintf("-T:%d", slow/1000)}, "(set-option :model.completion true)\n"+base+"(check-sat)\n"+gv)
	run("cvc5", []string{"--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", slow)}, "(set-logic ALL)\n"+base+"(check-sat)\n"+gv)
	var r res
	for i := 0; i < 2; i++ {
		r = <-ch
		if r.r != Unknown {
			break
		}
	}
	for _, c := range procs {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return r.r, r.m
}

type sbWriter struct{ sb *strings.Builder }

func (w *sbWriter) Write(p []byte) (int, error) { return w.sb.Write(p) }

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return "dead"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "z3:", l)
			s.Close()
			return "error"
		}
		return l
	}
}

func (s *Solver) getModel(vids []uint32) Model {
	m := Model{}
	if len(vids) == 0 {
		return m
	}
	s.w("(get-value (")
	for _, v := range vids {
		s.w(fmt.Sprintf(" v%d", v))
	}
	s.w("))\n")
	s.in.Flush()
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return m
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(l) != "" {
			break
		}
	}
	return s.widenModel(parseModel(sb.String()))
}

func parseModel(o string) Model {
	m := Model{}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(o))
	for i := 0; i+1 < len(toks); i++ {
		if toks[i][0] == 'v' {
			id, err := strconv.ParseUint(toks[i][1:], 10, 32)
			if err != nil {
				continue
			}
			v := toks[i+1]
			switch {
			case v == "true":
				m[uint32(id)] = 1
			case v == "false":
				m[uint32(id)] = 0
			case strings.HasPrefix(v, "#x"):
				x, _ := strconv.ParseUint(v[2:], 16, 64)
				m[uint32(id)] = x
			case strings.HasPrefix(v, "#b"):
				x, _ := strconv.ParseUint(v[2:], 2, 64)
				m[uint32(id)] = x
			}
		}
	}
	return m
}

func (s *Solver) ranges(vids []uint32) {
	for _, v := range vids {
		if r := s.rng[v]; r != "" {
			s.w(r)
		}
	}
}
