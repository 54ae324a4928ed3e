// Package v is the harness API. Under the symbolic executor every function of
// this package is intercepted; compiled natively it replays recorded values.
package v

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	Data []byte `json:"data"`
}

type file struct {
	Harness string  `json:"harness"`
	Tier    string  `json:"tier"`
	Inputs  []input `json:"inputs"`
	VTime   bool    `json:"vtime"`
}

var (
	mu     sync.Mutex
	queues = map[string][]input{}
	covers = map[string]bool{}
	tier   string
)

// Main runs one harness natively on recorded inputs: argv = harness file.
func Main(hs map[string]func()) {
	if len(os.Args) < 3 {
		fmt.Println("usage: <bin> HARNESS INPUTS.json")
		exit(4)
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Println(err)
		exit(4)
	}
	var f file
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		exit(4)
	}
	tier = f.Tier
	for _, i := range f.Inputs {
		queues[i.Name] = append(queues[i.Name], i)
	}
	h := hs[os.Args[1]]
	if h == nil {
		fmt.Println("no such harness")
		exit(4)
	}
	if j, _ := strconv.Atoi(os.Getenv("VERIF_JITTER")); j > 0 {
		runtime.GOMAXPROCS(1 + j%4)
		go func() {
			for k := 0; ; k++ {
				for i := 0; i < (j*7+k)%11; i++ {
					runtime.Gosched()
				}
				time.Sleep(time.Duration((j*13+k)%5) * time.Microsecond)
			}
		}()
	}
	if f.VTime {
		virtualTime(func() {
			h()
			fmt.Println("OK")
			exit(0)
		})
	}
	h()
	fmt.Println("OK")
	exit(0)
}

func next(name string) input {
	mu.Lock()
	defer mu.Unlock()
	q := queues[name]
	if len(q) == 0 {
		fmt.Println("ASSUME failed: no recorded value for", name)
		exit(11)
	}
	queues[name] = q[1:]
	return q[0]
}

// Bool is an arbitrary bool.
func Bool(name string) bool { return next(name).Val != 0 }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name).Val) }

// Uint64 is an arbitrary uint64.
func Uint64(name string) uint64 { return next(name).Val }

// Int64 is an arbitrary int64.
func Int64(name string) int64 { return int64(next(name).Val) }

// Uint32 is an arbitrary uint32.
func Uint32(name string) uint32 { return uint32(next(name).Val) }

// Int32 is an arbitrary int32.
func Int32(name string) int32 { return int32(next(name).Val) }

// Float64 is an arbitrary float64 (any bit pattern).
func Float64(name string) float64 { return math.Float64frombits(next(name).Val) }

// Float32 is an arbitrary float32 (any bit pattern).
func Float32(name string) float32 { return math.Float32frombits(uint32(next(name).Val)) }

// Int is an arbitrary int in [lo,hi] (kept symbolic).
func Int(name string, lo, hi int) int {
	x := int(next(name).Val)
	Assume(lo <= x && x <= hi)
	return x
}

// Choice is an arbitrary value in [0,n) (one path per value).
func Choice(name string, n int) int { return int(next(name).Val) }

// String is an arbitrary string of min..max arbitrary bytes.
func String(name string, min, max int) string { return string(next(name).Data) }

// StringOf is String with bytes from a set such as "a-z0-9_".
func StringOf(name string, min, max int, set string) string { return string(next(name).Data) }

// Bytes is an arbitrary byte slice of min..max bytes.
func Bytes(name string, min, max int) []byte { return append([]byte{}, next(name).Data...) }

// In reports whether b is in the set (does not fork).
func In(b byte, set string) bool {
	for i := 0; i < len(set); {
		c := set[i]
		if c == '\\' && i+1 < len(set) {
			if b == set[i+1] {
				return true
			}
			i += 2
			continue
		}
		if i+2 < len(set) && set[i+1] == '-' {
			if c <= b && b <= set[i+2] {
				return true
			}
			i += 3
			continue
		}
		if b == c {
			return true
		}
		i++
	}
	return false
}

// AllIn reports whether all bytes of s are in the set (does not fork).
func AllIn(s string, set string) bool {
	for i := 0; i < len(s); i++ {
		if !In(s[i], set) {
			return false
		}
	}
	return true
}

// Assume restricts the explored inputs.
func Assume(b bool) {
	if !b {
		fmt.Println("ASSUME failed")
		exit(11)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		Fail(msg)
	}
}

// Fail is an unconditional violation.
func Fail(msg string) {
	fmt.Println("VIOLATED " + msg)
	exit(10)
}

// Cover marks a reachability witness.
func Cover(label string) {
	mu.Lock()
	defer mu.Unlock()
	if !covers[label] {
		covers[label] = true
		fmt.Println("COVER " + label)
	}
}

// And, Or and Implies do not fork.
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

// Or is a non-forking disjunction.
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

// Implies is a non-forking implication.
func Implies(a, b bool) bool { return !a || b }

// IteInt is a non-forking conditional.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// EqBytes is a non-forking comparison.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Concrete enumerates the values of x.
func Concrete(x int) int { return x }

// Quiesce waits until every other goroutine is blocked or finished.
func Quiesce() { time.Sleep(40 * time.Millisecond) }

var atomic sync.Mutex

// Atomic runs f, which must not block, without interleaving with other Atomic
// calls. (The engine only switches goroutines at synchronisation operations.)
func Atomic(f func()) {
	if Symbolic() {
		f()
		return
	}
	atomic.Lock()
	defer atomic.Unlock()
	f()
}

// Symbolic reports whether the symbolic executor is running.
func Symbolic() bool { return false }

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return tier == "thorough" }

// Bound gives a tier dependent bound.
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Obs records an observation that the encoding must predict exactly.
func Obs(label string, x any) {
	switch y := x.(type) {
	case bool:
		fmt.Println("OBS " + label + "=" + fmt.Sprint(y))
	case string:
		fmt.Println("OBS " + label + "=" + fmt.Sprintf("%q", y))
	case float64:
		fmt.Println("OBS " + label + "=" + fmt.Sprint(int64(math.Float64bits(y))))
	case float32:
		fmt.Println("OBS " + label + "=" + fmt.Sprint(int32(math.Float32bits(y))))
	case uint64:
		fmt.Println("OBS " + label + "=" + fmt.Sprint(int64(y)))
	case uint32:
		fmt.Println("OBS " + label + "=" + fmt.Sprint(int32(y)))
	case byte:
		fmt.Println("OBS " + label + "=" + fmt.Sprint(int8(y)))
	default:
		fmt.Println("OBS " + label + "=" + fmt.Sprint(y))
	}
}

// Capture returns what f writes on the standard output.
func Capture(f func()) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		fmt.Println(err)
		exit(4)
	}
	os.Stdout = w
	out := make(chan string)
	go func() {
		var b strings.Builder
		buf := make([]byte, 4096)
		for {
			n, err := r.Read(buf)
			b.Write(buf[:n])
			if err != nil {
				out <- b.String()
				return
			}
		}
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	return <-out
}

// dir is the scratch directory.
var dir string

// Dir is a scratch directory, removed at the end.
func Dir() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "verifh")
		if err != nil {
			fmt.Println(err)
			exit(4)
		}
		dir = d
	}
	return dir
}

func exit(code int) {
	if dir != "" {
		os.RemoveAll(dir)
	}
	os.Exit(code)
}

// MapOrder makes the engine choose, from then on, an order of iteration for the
// maps of the code under check, at one place of this code at most. Natively
// they iterate as usual, that is in any order.
func MapOrder(bool) {}

// Memo returns f(), which only depends on the key: the engine keeps the result
// from a path to the next if f took no decision and its result is concrete.
func Memo(key string, f func() string) string { return f() }
