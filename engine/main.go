package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if p := os.Getenv("VENGINE_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		time.AfterFunc(40*time.Second, func() { pprof.StopCPUProfile(); f.Close() })
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: vengine check|replay ...")
		os.Exit(2)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; os.Exit(2) }()
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Check    string            `json:"check"`
	Kind     string            `json:"kind"`
	Message  string            `json:"message"`
	Where    string            `json:"where"`
	Thorough bool              `json:"thorough"`
	Inputs   map[string]string `json:"inputs"`
	Native   *nativeResult     `json:"native,omitempty"`
}

func fail(err error) int {
	fmt.Println("ENGINE-FAILURE:", err)
	return 2
}

type knownFinding struct {
	prop, check string
	re          *regexp.Regexp
	text        string
}

// known-findings.txt: "known: property=C05 check=CheckX msg=/regexp/ what fails" per line.
func loadKnown(prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []knownFinding
	re := regexp.MustCompile(`^known: property=(\S+) check=(\S+) msg=/(.*?)/ (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil || m[1] != prop {
			continue
		}
		x, err := regexp.Compile(m[3])
		if err != nil {
			continue
		}
		r = append(r, knownFinding{m[1], m[2], x, m[4]})
	}
	return r
}

type harnessMeta struct {
	Timeout      int            `json:"native_timeout_s"`
	Bounds       []string       `json:"bounds"`
	Outside      []string       `json:"outside"`
	Assume       []string       `json:"assumptions"`
	Steps        int64          `json:"step_budget"`
	Race         bool           `json:"race"`
	HangKey      []string       `json:"hang_checks"`
	Witness      int            `json:"witnesses"`
	ThoroughOnly []string       `json:"thorough_only"`
	Weights      map[string]int `json:"weights"`
	PathsNative  int            `json:"native_parallel"`
	Tries        int            `json:"native_tries"`
	Rand         bool           `json:"rand"`
	Timing       bool           `json:"timing"` // the native run depends on the clock: believe only repeated failures
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	only := fs.String("only", "", "regexp of harness functions")
	budget := fs.Int("budget", 0, "seconds")
	nw := fs.Int("workers", runtime.NumCPU(), "workers")
	verbose := fs.Bool("v", false, "verbose")
	keep := fs.Bool("keep", false, "go on after a violation")
	fs.Parse(args)
	t0 := time.Now()
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	deep := 0
	if *tier == "thorough" {
		deep = 1
	}
	if *budget == 0 {
		*budget = 170
		if deep == 1 {
			*budget = 800
		}
	}
	end := t0.Add(time.Duration(*budget) * time.Second)
	hdir := strings.ToLower(*prop)
	meta := harnessMeta{Timeout: 10, Steps: 40_000_000, Witness: 40}
	if b, err := os.ReadFile(filepath.Join(verifDir(), "harness", hdir, "meta.json")); err == nil {
		if err := json.Unmarshal(b, &meta); err != nil {
			return fail(err)
		}
	}
	if deep == 1 {
		meta.Witness *= 5
	}
	p, err := Load(hdir)
	if err != nil {
		return fail(err)
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	var fns []*ssa.Function
	var names []string
	for _, m := range p.harness.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(f.Name(), "Check") || f.Signature.Params().Len() != 0 {
			continue
		}
		names = append(names, f.Name())
		if re != nil && !re.MatchString(f.Name()) {
			continue
		}
		if deep == 0 && contains(meta.ThoroughOnly, f.Name()) {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	sort.Strings(names)
	if len(fns) == 0 {
		return fail(fmt.Errorf("no checks in harness %s", hdir))
	}
	rp, err := NewReplayer(hdir, names)
	if err != nil {
		return fail(err)
	}
	rp.rand = meta.Rand
	defer rp.Close()
	buildErr := make(chan error, 1)
	go func() { _, e := rp.Build(false); buildErr <- e }()

	ex := NewExplorer(p, deep, seed, *nw)
	known := loadKnown(*prop)
	var mu sync.Mutex
	var violations []string
	var spurious []string
	knownHit := map[string]int{}
	var knownOrder []string
	var candWG sync.WaitGroup
	sem := make(chan struct{}, 4)
	isKnown := func(check, msg string) *knownFinding {
		for i := range known {
			if (known[i].check == check || known[i].check == "*") && known[i].re.MatchString(msg) {
				return &known[i]
			}
		}
		return nil
	}
	confirmed := func(c *candidate, nr *nativeResult) {
		msg := c.Msg
		if w := nr.what(); w != "" && c.Kind != "globwrite" && c.Kind != "race" {
			msg = w
		}
		mu.Lock()
		defer mu.Unlock()
		k := isKnown(c.Check, c.Msg)
		if k == nil {
			k = isKnown(c.Check, msg)
		}
		// a run that fails in several ways is known only if all of them are
		if k != nil {
			for _, f := range nr.Failed {
				if isKnown(c.Check, f) == nil {
					k = nil
					break
				}
			}
		}
		if k != nil {
			if knownHit[k.text] == 0 {
				knownOrder = append(knownOrder, k.text)
			}
			knownHit[k.text]++
			return
		}
		dir := filepath.Join(verifDir(), "evidence", "replays", *prop)
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Check, len(violations)))
		b, _ := json.MarshalIndent(&replayFile{*prop, hdir, c.Check, c.Kind, c.Msg, c.Where, deep == 1, c.Inputs, nr}, "", " ")
		os.WriteFile(path, b, 0o644)
		violations = append(violations, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		fmt.Printf("  check %s: %s\n", c.Check, msg)
		if c.Kind == "panic" {
			fmt.Printf("  at %s\n", strings.ReplaceAll(c.Where, "\n", "\n     "))
		}
		if *verbose {
			fmt.Printf("  inputs %v\n", c.Inputs)
		}
	}
	ex.onCand = func(c *candidate) {
		candWG.Add(1)
		go func() {
			defer candWG.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			par := 1
			if c.Kind == "globwrite" {
				par = 8
			}
			if meta.PathsNative > par {
				par = meta.PathsNative
			}
			rs, err := rp.Run([]nativeReq{{c.Check, c.Inputs, deep == 1, meta.Timeout, par, true}}, meta.Race || c.Kind == "globwrite" || c.Kind == "race")
			if err != nil {
				mu.Lock()
				spurious = append(spurious, "replay failed: "+err.Error())
				mu.Unlock()
				return
			}
			nr := rs[0]
			if !nr.bad() && c.Kind != "globwrite" && nr.Err == "" && len(nr.Missing) == 0 {
				// the outcome may depend on a map's iteration order or on the schedule: try again a few times
				n := 24
				if meta.Tries > 0 {
					n = meta.Tries
				}
				reqs := make([]nativeReq, n)
				for i := range reqs {
					reqs[i] = nativeReq{c.Check, c.Inputs, deep == 1, meta.Timeout, par, true}
				}
				if rs, err := rp.Run(reqs, meta.Race || c.Kind == "race"); err == nil {
					for _, r := range rs {
						if r.bad() {
							nr = r
							break
						}
					}
				}
			}
			if nr.bad() {
				confirmed(c, nr)
				if len(violations) >= 1 && !*keep {
					atomic.StoreInt32(&ex.stopAll, 1)
				}
				return
			}
			mu.Lock()
			b, _ := json.Marshal(nr)
			spurious = append(spurious, fmt.Sprintf("%s: %s (%s) not reproduced natively: %s", c.Check, c.Msg, c.Kind, b))
			if *verbose {
				fmt.Printf("  spurious %s %s\n    inputs %v\n    where %s\n    native %s\n", c.Check, c.Msg, c.Inputs, c.Where, b)
			}
			mu.Unlock()
		}()
	}
	perCheck := map[string]int{}
	var wits []*pathInfo
	ex.onPath = func(pi *pathInfo) {
		mu.Lock()
		defer mu.Unlock()
		perCheck[pi.Check]++
		n := perCheck[pi.Check]
		// the first paths and then ever sparser ones
		if n <= meta.Witness/4 || n&(n-1) == 0 || n%97 == 0 && n < 97*meta.Witness {
			wits = append(wits, pi)
		}
	}
	var stats []*checkStats
	wsum := 0
	wt := func(f *ssa.Function) int {
		if w := meta.Weights[f.Name()]; w > 0 {
			return w
		}
		return 1
	}
	for _, f := range fns {
		wsum += wt(f)
	}
	for _, f := range fns {
		// every check gets its share of what is left; unused time goes to the later ones
		left := time.Until(end) - time.Duration(*budget/8)*time.Second
		share := left * time.Duration(wt(f)) / time.Duration(wsum)
		if share < time.Second {
			share = time.Second
		}
		wsum -= wt(f)
		st := ex.Run(f, time.Now().Add(share), meta.Steps)
		stats = append(stats, st)
		if *verbose {
			fmt.Printf("%-34s paths=%d ok=%d complete=%v pending=%d %.1fs reached=%v unreached=%v unsup=%v undec=%v ends=%v\n", st.Name, st.Paths, st.Ends["ok"], st.Complete, st.Pending, st.WallS, st.Reached, st.Unreached, st.Unsupported, st.Undecided, st.Ends)
		}
		if atomic.LoadInt32(&ex.stopAll) != 0 {
			break
		}
	}
	if forkDebug {
		dumpForks()
	}
	candWG.Wait()
	if err := <-buildErr; err != nil {
		return fail(err)
	}
	// conformance of the encoding: replay path witnesses on the real code
	validated, mismatch := 0, []string{}
	if (len(violations) == 0 || *keep) && len(wits) > 0 {
		lim := meta.Witness * len(fns)
		if lim > 400*(1+4*deep) {
			lim = 400 * (1 + 4*deep)
		}
		if len(wits) > lim {
			step := float64(len(wits)) / float64(lim)
			var k []*pathInfo
			for i := 0; i < lim; i++ {
				k = append(k, wits[int(float64(i)*step)])
			}
			wits = k
		}
		var reqs []nativeReq
		for _, w := range wits {
			reqs = append(reqs, nativeReq{w.Check, w.Inputs, deep == 1, meta.Timeout, 1, false})
		}
		chunks := 8
		if meta.PathsNative > 0 {
			chunks = meta.PathsNative
		}
		var wg sync.WaitGroup
		for ci := 0; ci < chunks; ci++ {
			lo, hi := len(reqs)*ci/chunks, len(reqs)*(ci+1)/chunks
			if lo == hi {
				continue
			}
			wg.Add(1)
			go func(lo, hi int) {
				defer wg.Done()
				rs, err := rp.Run(reqs[lo:hi], false)
				if err != nil {
					mu.Lock()
					mismatch = append(mismatch, err.Error())
					mu.Unlock()
					return
				}
				for i, nr := range rs {
					w := wits[lo+i]
					off := func(nr *nativeResult) bool {
						return nr.bad() || nr.Err != "" || nr.Assume || !same(nr.Reached, w.Reached) || !same(nr.Obs, w.Obs)
					}
					for try := 0; meta.Timing && try < 3 && off(nr); try++ {
						again, err := rp.Run(reqs[lo+i:lo+i+1], false)
						if err != nil || len(again) != 1 {
							break
						}
						if nr = again[0]; !nr.bad() && !off(nr) {
							break
						}
					}
					if nr.bad() {
						confirmed(&candidate{Check: w.Check, Kind: "witness", Msg: "the native run of an explored path fails", Inputs: w.Inputs}, nr)
						continue
					}
					if nr.Err != "" || nr.Assume || !same(nr.Reached, w.Reached) || !same(nr.Obs, w.Obs) {
						mu.Lock()
						if len(mismatch) < 20 {
							b, _ := json.Marshal(nr)
							mismatch = append(mismatch, fmt.Sprintf("%s inputs=%v engine=%v %v native=%s", w.Check, w.Inputs, w.Reached, w.Obs, b))
						} else {
							mismatch = append(mismatch, w.Check)
						}
						mu.Unlock()
						continue
					}
					mu.Lock()
					validated++
					mu.Unlock()
				}
			}(lo, hi)
		}
		wg.Wait()
	}
	ex.Close()
	for _, k := range knownOrder {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	writeEvidence(*prop, *tier, seed, t0, ex, stats, meta, wits, validated, mismatch, spurious, violations, knownOrder, *only != "")
	var paths int64
	complete := true
	for _, s := range stats {
		paths += s.Paths
		complete = complete && s.Complete
		if len(s.Unreached) > 0 {
			fmt.Printf("note: %s never reached %v\n", s.Name, s.Unreached)
		}
	}
	fmt.Printf("%s %s: %d checks, %d paths, complete=%v, %d solver queries (%.1fs), %d/%d witnesses validated natively, %d spurious, %.1fs\n",
		*prop, *tier, len(stats), paths, complete, ex.queries, ex.solverT.Seconds(), validated, len(wits), len(spurious), time.Since(t0).Seconds())
	for i, m := range mismatch {
		if i < 5 {
			fmt.Println("note: witness mismatch:", m)
		}
	}
	for i, m := range spurious {
		if i < 5 {
			fmt.Println("note: spurious:", m)
		}
	}
	if len(violations) > 0 {
		return 1
	}
	return 0
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func writeEvidence(prop, tier string, seed int64, t0 time.Time, ex *Explorer, stats []*checkStats, meta harnessMeta, wits []*pathInfo, validated int, mismatch, spurious, violations, known []string, partial bool) {
	var paths, decs, asserts, steps int64
	complete := true
	for _, s := range stats {
		paths += s.Paths
		decs += s.Decisions
		asserts += s.Asserts
		steps += s.Steps
		complete = complete && s.Complete
	}
	var enc []string
	for k := range ex.encoded {
		if strings.Contains(k, modPath) && !strings.Contains(k, "/zzverif/") {
			enc = append(enc, strings.ReplaceAll(k, modPath, "rawpanel-lib"))
		}
	}
	sort.Strings(enc)
	var samples []interface{}
	for i, w := range wits {
		if i >= 6 {
			break
		}
		in := w.Inputs
		if len(in) > 40 {
			k := map[string]string{}
			n := 0
			for _, a := range sortedStr(in) {
				if n++; n > 40 {
					break
				}
				k[a] = in[a]
			}
			in = k
		}
		samples = append(samples, map[string]interface{}{"check": w.Check, "inputs": in, "reached": w.Reached, "observed": trunc(w.Obs, 10)})
	}
	if samples == nil {
		samples = []interface{}{"none"}
	}
	cov := map[string]interface{}{
		"states":                        paths,
		"transitions":                   decs,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    complete,
		"explanation":                   "states = symbolic paths executed to their end (each stands for all inputs satisfying its path condition); transitions = branch decisions put to the solver; traces_validated = path witnesses replayed on the natively compiled code with identical observations",
		"functions_encoded":             enc,
		"functions_encoded_n":           len(enc),
		"bounds":                        meta.Bounds,
		"outside_bounds":                meta.Outside,
		"queries":                       ex.queries,
		"query_cache_hits":              ex.cacheHit,
		"queries_unknown":               ex.unk,
		"solver_time_s":                 ex.solverT.Seconds(),
		"max_query_s":                   ex.maxQ.Seconds(),
		"assertions_decided":            asserts,
		"ssa_instructions_executed":     steps,
		"per_check":                     stats,
		"witness_mismatches":            mismatch,
		"candidates_not_reproduced":     spurious,
		"known_findings_seen":           known,
		"violation_files":               violations,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{"gc semantics of go/ssa as implemented by the engine in /verif/engine", "library models: regexp, encoding/json, protobuf wire codec, fmt, strconv, base64, sync, time, net (see DESIGN.md)"}, meta.Assume...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	name := prop + ".json"
	if partial {
		name = prop + ".partial.json"
	}
	os.WriteFile(filepath.Join(dir, name), b, 0o644)
}

func trunc(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func sortedStr(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func cmdReplay(args []string) int {
	if len(args) != 1 {
		fmt.Println("usage: vengine replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		return fail(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return fail(err)
	}
	rp, err := NewReplayer(rf.Harness, []string{rf.Check})
	if err != nil {
		return fail(err)
	}
	var meta harnessMeta
	if b, err := os.ReadFile(filepath.Join(verifDir(), "harness", rf.Harness, "meta.json")); err == nil {
		json.Unmarshal(b, &meta)
	}
	rp.rand = meta.Rand
	defer rp.Close()
	rs, err := rp.Run([]nativeReq{{rf.Check, rf.Inputs, rf.Thorough, 60, 1, true}}, rf.Kind == "globwrite" || rf.Kind == "race")
	if err != nil {
		return fail(err)
	}
	o, _ := json.MarshalIndent(rs[0], "", " ")
	fmt.Println(string(o))
	if rs[0].bad() {
		return 1
	}
	return 0
}
