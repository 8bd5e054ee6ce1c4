// Package sym is the harness API. Under the symbolic executor these functions
// are intercepted; natively they replay a model read from standard input.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

type input struct {
	Harness string            `json:"harness"`
	Vars    map[string]uint64 `json:"vars"`
	Tier    string            `json:"tier"`
}

var (
	in    input
	mu    sync.Mutex
	names = map[string]int{}
)

// Main runs one harness natively. Exit codes: 0 ok, 3 assertion failed,
// 4 assumption failed (model does not apply), 5 panic.
func Main(h map[string]func()) {
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Println("bad input:", err)
		os.Exit(2)
	}
	f := h[in.Harness]
	if f == nil {
		fmt.Println("no such harness")
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("PANIC:", r)
			buf := make([]byte, 8192)
			fmt.Println(string(buf[:runtime.Stack(buf, false)]))
			os.Exit(5)
		}
	}()
	f()
	fmt.Println("DONE")
}

func next(name string) string {
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

func v(name string) uint64 { return in.Vars[next(name)] }

func Bool(name string) bool   { return v(name) != 0 }
func U8(name string) uint8    { return uint8(v(name)) }
func U16(name string) uint16  { return uint16(v(name)) }
func U32(name string) uint32  { return uint32(v(name)) }
func U64(name string) uint64  { return v(name) }
func I8(name string) int8     { return int8(v(name)) }
func I16(name string) int16   { return int16(v(name)) }
func I32(name string) int32   { return int32(v(name)) }
func I64(name string) int64   { return int64(v(name)) }
func Int(name string) int     { return int(v(name)) }
func F64(name string) float64 { return math.Float64frombits(v(name)) }

// Range is a symbolic value in [lo,hi].
func Range(name string, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	x := v(name) & (1<<uint(bits.Len64(uint64(hi-lo))) - 1)
	return lo + int(x)
}

// Choose is a symbolic choice in [0,n), explored case by case.
func Choose(name string, n int) int { return Range(name, 0, n-1) }

// Concrete explores the feasible values of x one by one.
func Concrete(x int) int { return x }

// Split explores both values of a condition on separate paths.
func Split(b bool) bool { return b }

func Bytes(name string, n int) []byte {
	name = next(name)
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(in.Vars[fmt.Sprintf("%s[%d]", name, i)])
	}
	return out
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

func I16s[T ~int16](name string, n int) []T {
	name = next(name)
	out := make([]T, n)
	for i := range out {
		out[i] = T(in.Vars[fmt.Sprintf("%s[%d]", name, i)])
	}
	return out
}

func Assume(c bool) {
	if !c {
		fmt.Println("ASSUME-FAILED")
		os.Exit(4)
	}
}

func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Fail(msg string) {
	fmt.Println("ASSERT-FAILED:", msg)
	os.Exit(3)
}

func Reach(label string) {}

func Observe(name string, vals ...any) {
	s := "OBS " + name
	for _, x := range vals {
		switch q := x.(type) {
		case nil:
			s += fmt.Sprintf(" %q", "<nil>")
		case string:
			s += fmt.Sprintf(" %q", q)
		case float64:
			s += fmt.Sprintf(" %x", math.Float64bits(q))
		case float32:
			s += fmt.Sprintf(" %x", math.Float32bits(q))
		default:
			s += fmt.Sprintf(" %v", q)
		}
	}
	mu.Lock()
	fmt.Println(s)
	mu.Unlock()
}

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if in.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Preempt allows n preemptive context switches per run; mem makes shared
// memory accesses scheduling points too.
func Preempt(n int, mem bool) {}

// Races reports unsynchronised accesses to the same memory as violations.
func Races() {}

// NoMerge disables state merging.
func NoMerge(b bool) {}

// Engine reports whether the code runs under the symbolic executor.
func Engine() bool { return false }

func Yield() { runtime.Gosched() }

// WaitIdle waits until no other goroutine can make progress: every other one
// is blocked in three consecutive snapshots of the goroutine states.
func WaitIdle() {
	buf := make([]byte, 1<<18)
	quiet := 0
	for k := 0; k < 20000 && quiet < 3; k++ {
		runtime.Gosched()
		n := runtime.Stack(buf, true)
		busy := false
		for i, g := range strings.Split(string(buf[:n]), "\n\n") {
			l := strings.IndexByte(g, '[')
			if i == 0 || l < 0 {
				continue // the first one is this goroutine
			}
			st := g[l+1:]
			for _, p := range []string{"running", "runnable", "syscall", "sleep", "preempted", "waiting"} {
				if strings.HasPrefix(st, p) {
					busy = true
				}
			}
		}
		if busy {
			quiet = 0
			time.Sleep(20 * time.Microsecond)
		} else {
			quiet++
		}
	}
}

// Alive is the number of other goroutines that have not ended.
func Alive() int {
	buf := make([]byte, 1<<18)
	n := 0
	for i, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if i > 0 && strings.Contains(g, "media-sdk") {
			n++
		}
	}
	return n
}
