// Package zzsym is the interface between a harness and the symbolic engine. The engine replaces
// every exported function below by its symbolic meaning; the bodies here are the native meaning
// used when a recorded path or counterexample is replayed against the real code.
package zzsym

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Result is what a native replay produced.
type Result struct {
	Failed  []string `json:"failed,omitempty"`
	Panic   string   `json:"panic,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Reached []string `json:"reached,omitempty"`
	Obs     []string `json:"obs,omitempty"`
	Assume  bool     `json:"assume_failed,omitempty"`
	Missing []string `json:"missing,omitempty"`
}

var mu sync.Mutex
var inputs map[string]string
var cnt map[string]int
var res *Result
var thorough bool
var started time.Time

type stop struct{}

// Replay runs f natively on the given inputs.
func Replay(f func(), in map[string]string, deep bool) (r *Result) {
	mu.Lock()
	inputs, cnt, res, thorough, started = in, map[string]int{}, &Result{}, deep, time.Now()
	r = res
	mu.Unlock()
	allocated = 0
	defer checkAlloc()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				return
			}
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, false)
			mu.Lock()
			res.Panic = fmt.Sprint(e)
			res.Stack = string(buf[:n])
			mu.Unlock()
		}
	}()
	f()
	return
}

func occ(name string) string {
	n := cnt[name]
	cnt[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func get(name string, def uint64) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := occ(name)
	v, ok := inputs[k]
	if !ok {
		res.Missing = append(res.Missing, k)
		return def
	}
	u, err := strconv.ParseUint(v, 10, 64)
	if err != nil {
		panic("bad replay input " + k)
	}
	return u
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(get(name, uint64(lo))) }

func Int64(name string, lo, hi int64) int64 { return int64(get(name, uint64(lo))) }

func Int32(name string, lo, hi int32) int32 { return int32(get(name, uint64(uint32(lo)))) }

func Uint32(name string, lo, hi uint32) uint32 { return uint32(get(name, uint64(lo))) }

func Uint64(name string, lo, hi uint64) uint64 { return get(name, lo) }

func Byte(name string, lo, hi byte) byte { return byte(get(name, uint64(lo))) }

func Bool(name string) bool { return get(name, 0) == 1 }

// Float32 is an arbitrary finite number.
func Float32(name string) float32 { return math.Float32frombits(uint32(get(name, 0))) }

// Float64 is an arbitrary finite number.
func Float64(name string) float64 { return math.Float64frombits(get(name, 0)) }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte { return bytesIn(name, n, 0) }

// String is n arbitrary bytes as a string.
func String(name string, n int) string { return string(bytesIn(name, n, 0)) }

// StringIn is n arbitrary bytes of [lo,hi] as a string.
func StringIn(name string, n int, lo, hi byte) string { return string(bytesIn(name, n, lo)) }

func bytesIn(name string, n int, def byte) []byte {
	mu.Lock()
	defer mu.Unlock()
	k := occ(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = def
		ik := fmt.Sprintf("%s[%d]", k, i)
		if v, ok := inputs[ik]; ok {
			u, _ := strconv.ParseUint(v, 10, 64)
			b[i] = byte(u)
		} else {
			res.Missing = append(res.Missing, ik)
		}
	}
	return b
}

// Choice splits into n separately explored cases.
func Choice(name string, n int) int { return int(get(name, 0)) }

// Concrete splits into the feasible values of x.
func Concrete(x int) int { return x }

func Assume(c bool) {
	if !c {
		mu.Lock()
		res.Assume = true
		mu.Unlock()
		panic(stop{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		res.Failed = append(res.Failed, msg)
		mu.Unlock()
	}
}

// Reach marks a point that some path has to reach (against vacuous success).
func Reach(label string) {
	mu.Lock()
	res.Reached = append(res.Reached, label)
	mu.Unlock()
}

// Observe records a value that the native run has to reproduce.
func Observe(name string, v interface{}) {
	mu.Lock()
	res.Obs = append(res.Obs, name+"="+render(v))
	mu.Unlock()
}

func render(v interface{}) string {
	switch x := v.(type) {
	case string:
		return strconv.Quote(x)
	case []byte:
		return strconv.Quote(string(x))
	case []string:
		q := make([]string, len(x))
		for i := range x {
			q[i] = strconv.Quote(x[i])
		}
		return "[" + strings.Join(q, ",") + "]"
	case bool:
		return strconv.FormatBool(x)
	}
	return fmt.Sprintf("%d", v)
}

// Thorough tells whether the deep tier runs.
func Thorough() bool { return thorough }

// Pick returns the quick or the thorough bound.
func Pick(quick, deep int) int {
	if Thorough() {
		return deep
	}
	return quick
}

// Symbolic tells whether the engine runs the harness.
func Symbolic() bool { return false }

// MapOrder makes the iteration order of maps with at most n entries arbitrary.
func MapOrder(n int) {}

// RandLimit drops paths that draw more than n random numbers.
func RandLimit(n int) {}

// Draw is the next recorded random number.
func Draw() uint64 {
	u := get("rand", 0)
	if len(res.Missing) > 0 {
		randExtra += 7919
		return randExtra
	}
	return u
}

var randExtra uint64

// Sched sets how many preemptions and how many free scheduling choices a path may use.
func Sched(preempt, choice int) {}

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// Preempt is a point at which another goroutine may go on.
func Preempt() { runtime.Gosched() }

// Now is the time since the start of the path (virtual in the engine).
func Now() time.Duration { return time.Since(started) }

// Pure runs f, which must not write memory reachable from package variables of the library.
func Pure(f func()) {
	if Parallel < 2 {
		f()
		return
	}
	// a suspected write to shared memory: several goroutines at once, for the race detector
	var wg sync.WaitGroup
	gate := make(chan bool)
	for i := 0; i < Parallel; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for k := 0; k < 4; k++ {
				f()
			}
		}()
	}
	close(gate)
	wg.Wait()
}

// Parallel is how many goroutines run the argument of Pure.
var Parallel int

// Strict tells that a counterexample is replayed, as opposed to a path on which all is well.
var Strict bool

// MaxAlloc bounds the size in bytes of any single allocation from now on (0: no bound).
// Natively more than 32 MiB altogether until the end of the run tell that it is exceeded.
func MaxAlloc(n int) {
	if n == 0 {
		allocated = 0
		return
	}
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	allocated = s.TotalAlloc
}

var allocated uint64

func checkAlloc() {
	if allocated == 0 {
		return
	}
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	if s.TotalAlloc-allocated > 1<<25 {
		Assert(false, "allocation above the stated bound")
	}
	allocated = 0
}

// Block waits until ready holds or the clock reaches until (ns; negative: forever).
func Block(why string, ready func() bool, until int64) bool {
	for !ready() {
		if until >= 0 && int64(Now()) >= until {
			return ready()
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

// MapField is the first field of type map[uint32]uint32 of the structure x points to, exported or not; nil if there is
// none.
func MapField(x interface{}) map[uint32]uint32 {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf(map[uint32]uint32(nil)) {
			return *(*map[uint32]uint32)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return nil
}

// Races turns on the search for data races in the code of the repository (natively: the race detector, with which what
// is found is replayed).
func Races() {}

// Share makes what this goroutine did visible to those that call Notice later, as the network does.
func Share() {}

// Notice is the other end of Share.
func Notice() {}

// Goroutines is the number of live goroutines besides the caller's.
func Goroutines() int { return 0 }
