// Package nd holds the inputs and assertions of the checks' harnesses. The symbolic engine
// intercepts every function of this file; compiled natively, the package replays one
// concrete assignment read from the file named by VERIF_REPLAY.
package nd

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	in     map[string]string
	names  = map[string]int{}
	out    *os.File
	gos    sync.WaitGroup
	inited bool
)

func load() {
	if inited {
		return
	}
	inited = true
	in = map[string]string{}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, &in)
		}
		if err != nil {
			Emit("ERROR", "", err.Error())
			os.Exit(9)
		}
	}
}

// Emit writes one result line of the native run.
func Emit(kind, name, val string) {
	if out == nil {
		out = os.Stdout
		if f := os.Getenv("VERIF_OUT"); f != "" {
			o, err := os.Create(f)
			if err == nil {
				out = o
			}
		}
	}
	b, _ := json.Marshal([]string{kind, name, val})
	out.Write(append(b, '\n'))
}

func fresh(name string) string {
	k := names[name]
	names[name]++
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

func get(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	load()
	v, ok := in[fresh(name)]
	return v, ok
}

func getInt(name string, def int64) int64 {
	v, ok := get(name)
	if !ok {
		return def
	}
	i, _ := strconv.ParseInt(strings.TrimPrefix(v, "i:"), 10, 64)
	return i
}

// Int64 is an arbitrary integer of the closed interval.
func Int64(name string, lo, hi int64) int64 {
	d := int64(0)
	if d < lo || d > hi {
		d = lo
	}
	return getInt(name, d)
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return getInt(name, 0) != 0 }

// Float64 is an arbitrary float64, NaN and infinities included.
func Float64(name string) float64 {
	v, ok := get(name)
	if !ok {
		return 0
	}
	u, _ := strconv.ParseUint(strings.TrimPrefix(v, "f:"), 16, 64)
	return math.Float64frombits(u)
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(getInt(name, 0)) }

// Bytes is an arbitrary string of n bytes.
func Bytes(name string, n int) string {
	mu.Lock()
	name = fresh(name)
	mu.Unlock()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(getInt(fmt.Sprintf("%s.%d", name, i), 0))
	}
	return string(b)
}

// Choose forks the path: any number in 0..n-1.
func Choose(name string, n int) int { return int(getInt(name, 0)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		Emit("ASSUME", "", "")
		os.Exit(5)
	}
}

// Assert states an obligation.
func Assert(c bool, label string) {
	if !c {
		Emit("ASSERT", label, "")
		os.Exit(3)
	}
}

// AssertKnown states an obligation for which the recorded finding known excuses the inputs
// with except.
func AssertKnown(c bool, label, known string, except bool) {
	if !c {
		if except {
			Emit("KNOWN", label, known)
			os.Exit(4)
		}
		Emit("ASSERT", label, "")
		os.Exit(3)
	}
}

// Unsupported ends the path: what follows is not modelled.
func Unsupported(why string) {
	Emit("ERROR", "", "unsupported: "+why)
	os.Exit(9)
}

// Cover marks a point that some path has to reach.
func Cover(label string) {}

func ObserveInt(name string, v int64)  { Emit("OBS", name, fmt.Sprintf("i:%d", v)) }
func ObserveStr(name string, v string) { Emit("OBS", name, fmt.Sprintf("s:%q", v)) }
func ObserveBool(name string, v bool)  { Emit("OBS", name, fmt.Sprintf("b:%v", v)) }
func ObserveFloat(name string, v float64) {
	u := math.Float64bits(v)
	if v != v {
		u = 0x7ff8000000000001
	}
	Emit("OBS", name, fmt.Sprintf("f:%016x", u))
}

// And, Or, Implies and the others build conditions without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IteFloat(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// Same says two floats are equal or both not a number (and so with the same sign of zero).
func Same(a, b float64) bool {
	return a != a && b != b || a == b && math.Signbit(a) == math.Signbit(b)
}
func StrEq(a, b string) bool { return a == b }
func B2I(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// MapOrder says whether map iteration order is explored.
func MapOrder(on bool) {}

// Threads starts exploring interleavings with at most k preemptions.
func Threads(k int) {}
func NoThreads()    {}

// Go starts a goroutine of the harness.
func Go(f func()) {
	gos.Add(1)
	go func() {
		defer gos.Done()
		f()
	}()
}

var jitter = os.Getenv("VERIF_JITTER") != ""

// Jitter pauses a native run that looks for a particular interleaving for a while.
func Jitter() {
	if jitter && rand.Intn(2) == 0 {
		time.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)
	}
}

// Quiesce lets every other goroutine run until it ends or blocks.
func Quiesce() {
	ch := make(chan struct{})
	go func() { gos.Wait(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(500 * time.Millisecond):
	}
	time.Sleep(20 * time.Millisecond)
}
func Yield()       { runtime.Gosched() }
func Timers(n int) {}

// Single runs the goroutines of a native run on one processor.
func Single() { runtime.GOMAXPROCS(1) }

// Elapse lets d pass: the caller and every timer due then are ready at the same time.
func Elapse(d time.Duration) {
	runtime.Gosched()
	t := time.Now()
	for time.Since(t) < d+d/4 {
	}
	time.Sleep(1)
}

// Skip lets the clock go on by d, which may be symbolic, without a timer being due;
// it returns how much passed.
func Skip(d time.Duration) time.Duration {
	t := time.Now()
	time.Sleep(d)
	return time.Since(t)
}

// Fields is the number of fields of the struct p points to, or -1 if it points to something else.
func Fields(p any) int {
	v := reflect.ValueOf(p)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return -1
	}
	return v.Elem().NumField()
}

// FieldName and FieldTag describe field i of the struct p points to.
func FieldName(p any, i int) string { return reflect.TypeOf(p).Elem().Field(i).Name }
func FieldTag(p any, i int) string  { return string(reflect.TypeOf(p).Elem().Field(i).Tag) }

// FieldPtr points to field i of the struct p points to.
func FieldPtr(p any, i int) any {
	f := reflect.ValueOf(p).Elem().Field(i)
	return reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Interface()
}

// MapValue is the value under a key in the map with text keys that p points to; nil if there is none.
func MapValue(p any, key string) any {
	v := reflect.ValueOf(p).Elem().MapIndex(reflect.ValueOf(key))
	if !v.IsValid() {
		return nil
	}
	return v.Interface()
}

// JSONString, JSONInt, JSONFloat and JSONTime read a field of a JSON object; false if there is no such field.
func JSONString(text, key string) (v string, ok bool)  { ok = jsonField(text, key, &v); return }
func JSONInt(text, key string) (v int64, ok bool)      { ok = jsonField(text, key, &v); return }
func JSONFloat(text, key string) (v float64, ok bool)  { ok = jsonField(text, key, &v); return }
func JSONTime(text, key string) (v time.Time, ok bool) { ok = jsonField(text, key, &v); return }

func jsonField(text, key string, p any) bool {
	m := map[string]json.RawMessage{}
	if json.Unmarshal([]byte(text), &m) != nil {
		return false
	}
	raw, ok := m[key]
	return ok && json.Unmarshal(raw, p) == nil
}

// Thorough is true in the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Symbolic is true in the engine only.
func Symbolic() bool { return false }

// Time is the instant s seconds and ms milliseconds after the epoch (ms in 0..999).
func Time(s, ms int64) time.Time { return time.Unix(s, ms*1000000) }

// Run executes one harness natively.
func Run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			Emit("PANIC", "", fmt.Sprint(r))
			os.Exit(6)
		}
	}()
	f()
	Emit("DONE", "", "")
	os.Exit(0)
}
