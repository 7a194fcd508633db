package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// ---------- native replay of recorded paths and counterexamples ----------

type nativeResult struct {
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Stack   string   `json:"stack"`
	Reached []string `json:"reached"`
	Obs     []string `json:"obs"`
	Assume  bool     `json:"assume_failed"`
	Missing []string `json:"missing"`
	Hang    bool     `json:"hang"`
	Crash   string   `json:"crash"`
	Err     string   `json:"err"`
}

func (r *nativeResult) bad() bool {
	return len(r.Failed) > 0 || r.Panic != "" || r.Hang || r.Crash != ""
}

func (r *nativeResult) what() string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case len(r.Failed) > 0:
		return r.Failed[0]
	case r.Hang:
		return "does not return"
	case r.Crash != "":
		return "crash: " + firstLine(r.Crash)
	}
	return ""
}

type nativeReq struct {
	Check    string            `json:"check"`
	Inputs   map[string]string `json:"inputs"`
	Thorough bool              `json:"thorough"`
	TimeoutS int               `json:"timeout_s"`
	Parallel int               `json:"parallel"`
	Strict   bool              `json:"strict"` // a counterexample, as opposed to a witness
}

type Replayer struct {
	hdir string
	tmp  string
	fns  []string
	rand bool
	once map[bool]*buildOnce
	mu   sync.Mutex
}

type buildOnce struct {
	once sync.Once
	bin  string
	err  error
}

// randOverlay makes math/rand draw its numbers from a hook.
func randOverlay(tmp string, ov map[string]string) error {
	c := exec.Command("go", "env", "GOROOT")
	c.Dir = repoDir()
	c.Env = goEnv()
	out, err := c.Output()
	if err != nil {
		return err
	}
	f := filepath.Join(strings.TrimSpace(string(out)), "src", "math", "rand", "rand.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	src := string(b)
	for _, h := range [][2]string{
		{"Intn(n int) int", "if n <= 0 {\npanic(\"invalid argument to Intn\")\n}\nreturn int(Hook() % uint64(n))"}, {"Int63n(n int64) int64", "if n <= 0 {\npanic(\"invalid argument to Int63n\")\n}\nreturn int64(Hook() % uint64(n))"},
		{"Int31n(n int32) int32", "if n <= 0 {\npanic(\"invalid argument to Int31n\")\n}\nreturn int32(Hook() % uint64(n))"},
		{"Int() int", "return int(Hook() & (1<<63 - 1))"}, {"Int63() int64", "return int64(Hook() & (1<<63 - 1))"}, {"Int31() int32", "return int32(Hook() & (1<<31 - 1))"}, {"Uint32() uint32", "return uint32(Hook())"},
		{"Perm(n int) []int", "p := make([]int, n)\nfor i := range p {\np[i] = i\n}\nfor i := n - 1; i > 0; i-- {\nj := int(Hook() % uint64(i+1))\np[i], p[j] = p[j], p[i]\n}\nreturn p"},
		{"Shuffle(n int, swap func(i, j int))", "for i := n - 1; i > 0; i-- {\nswap(i, int(Hook() % uint64(i+1)))\n}\nreturn"},
	} {
		head := "func (r *Rand) " + h[0] + " {"
		if strings.Count(src, head) != 1 {
			return fmt.Errorf("math/rand: no method %s", h[0])
		}
		src = strings.Replace(src, head, head+"\nif Hook != nil {\n"+h[1]+"\n}\n", 1)
	}
	src += "\n// Hook draws the numbers of a replay.\nvar Hook func() uint64\n"
	g := filepath.Join(tmp, "mathrand.go")
	ov[f] = g
	return os.WriteFile(g, []byte(src), 0o644)
}

func NewReplayer(hdir string, fns []string) (*Replayer, error) {
	tmp, err := os.MkdirTemp("", "vengine-")
	if err != nil {
		return nil, err
	}
	return &Replayer{hdir: hdir, tmp: tmp, fns: fns, once: map[bool]*buildOnce{false: {}, true: {}}}, nil
}

func (r *Replayer) Close() { os.RemoveAll(r.tmp) }

const runnerSrc = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"time"

	h "%s"
	"%s"
)

type req struct {
	Check    string            ` + "`json:\"check\"`" + `
	Inputs   map[string]string ` + "`json:\"inputs\"`" + `
	Thorough bool              ` + "`json:\"thorough\"`" + `
	TimeoutS int               ` + "`json:\"timeout_s\"`" + `
	Parallel int               ` + "`json:\"parallel\"`" + `
	Strict   bool              ` + "`json:\"strict\"`" + `
}

var fns = map[string]func(){
%s}

func main() {
	out := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if null != nil {
		os.Stdout = null
		os.Stderr = null
	}
	_ = h.Harness
	f, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(out, err)
		os.Exit(4)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	w := bufio.NewWriter(out)
	for sc.Scan() {
		var r req
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(out, err)
			os.Exit(4)
		}
		fn := fns[r.Check]
		if fn == nil {
			fmt.Fprintln(out, "no check", r.Check)
			os.Exit(4)
		}
		done := make(chan *zzsym.Result, 1)
		zzsym.Parallel, zzsym.Strict = r.Parallel, r.Strict
		go func() { done <- zzsym.Replay(fn, r.Inputs, r.Thorough) }()
		select {
		case res := <-done:
			b, _ := json.Marshal(res)
			fmt.Fprintf(w, "@@%%s\n", b)
			w.Flush()
		case <-time.After(time.Duration(r.TimeoutS) * time.Second):
			fmt.Fprintf(w, "@@{\"hang\":true}\n")
			w.Flush()
			os.Exit(3)
		}
	}
}
`

// Build compiles the runner against the current source of the library.
func (r *Replayer) Build(race bool) (string, error) {
	b := r.once[race]
	b.once.Do(func() {
		ov, err := overlayFiles(harnessDirs(r.hdir)...)
		if err != nil {
			b.err = err
			return
		}
		var tab strings.Builder
		for _, f := range r.fns {
			fmt.Fprintf(&tab, "\t%q: h.%s,\n", f, f)
		}
		src := fmt.Sprintf(runnerSrc, modPath+"/zzverif/"+r.hdir, symPath, tab.String())
		if r.rand {
			if b.err = randOverlay(r.tmp, ov); b.err != nil {
				return
			}
			src = strings.Replace(src, "\t\"time\"\n", "\t\"time\"\n\tmrand \"math/rand\"\n", 1)
			src = strings.Replace(src, "\tdone := make(", "\tmrand.Hook = zzsym.Draw\n\t\tdone := make(", 1)
		}
		main := filepath.Join(r.tmp, "main.go")
		if b.err = os.WriteFile(main, []byte(src), 0o644); b.err != nil {
			return
		}
		ov[filepath.Join(repoDir(), "zzverif", "run", "main.go")] = main
		j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		ovf := filepath.Join(r.tmp, "overlay.json")
		if b.err = os.WriteFile(ovf, j, 0o644); b.err != nil {
			return
		}
		b.bin = filepath.Join(r.tmp, fmt.Sprintf("runner-%v", race))
		args := []string{"build", "-overlay", ovf, "-o", b.bin}
		env := goEnv()
		if race {
			args = append(args, "-race")
			env = append(env, "CGO_ENABLED=1")
		}
		args = append(args, "./zzverif/run")
		c := exec.Command("go", args...)
		c.Dir = repoDir()
		c.Env = env
		out, err := c.CombinedOutput()
		if err != nil {
			b.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	})
	return b.bin, b.err
}

// Run replays the requests in order, restarting the process after a hang or crash.
func (r *Replayer) Run(reqs []nativeReq, race bool) ([]*nativeResult, error) {
	bin, err := r.Build(race)
	if err != nil {
		return nil, err
	}
	var out []*nativeResult
	for len(out) < len(reqs) {
		rest := reqs[len(out):]
		f, err := os.CreateTemp(r.tmp, "req-")
		if err != nil {
			return nil, err
		}
		total := 20
		bw := bufio.NewWriter(f)
		for _, q := range rest {
			b, _ := json.Marshal(q)
			bw.Write(b)
			bw.WriteByte('\n')
			total += q.TimeoutS
		}
		bw.Flush()
		f.Close()
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(total)*time.Second)
		c := exec.CommandContext(ctx, bin, f.Name())
		var so, se bytes.Buffer
		c.Stdout, c.Stderr = &so, &se
		c.Env = append(os.Environ(), "GOMAXPROCS=4", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
		c.Dir = r.tmp
		rerr := c.Run()
		cancel()
		os.Remove(f.Name())
		n0 := len(out)
		for _, l := range strings.Split(so.String(), "\n") {
			if strings.HasPrefix(l, "@@") && len(out) < len(reqs) {
				nr := &nativeResult{}
				if json.Unmarshal([]byte(l[2:]), nr) == nil {
					out = append(out, nr)
				}
			}
		}
		if race && len(out)-n0 == len(rest) && strings.Contains(se.String(), "DATA RACE") {
			out[len(out)-1].Crash = "data race\n" + crashText(se.String())
			break
		}
		if rerr == nil && len(out)-n0 == len(rest) {
			break
		}
		hang := len(out) > n0 && out[len(out)-1].Hang
		if !hang && len(out) < len(reqs) {
			txt := se.String()
			nr := &nativeResult{}
			switch {
			case strings.Contains(txt, "DATA RACE"):
				nr.Crash = "data race\n" + txt
			case strings.Contains(txt, "fatal error:") || strings.Contains(txt, "panic:"):
				nr.Crash = crashText(txt)
			default:
				nr.Err = fmt.Sprintf("runner: %v %s %s", rerr, firstLine(so.String()), firstLine(txt))
			}
			out = append(out, nr)
		}
	}
	return out, nil
}

func crashText(s string) string {
	for _, k := range []string{"panic:", "fatal error:"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}
