// Package vrt is the harness runtime. Under the symbolic engine the functions below
// are intercepted (their bodies are not executed, except for the shims in shims.go);
// compiled natively they replay one concrete assignment of the inputs.
package vrt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
	"sync"
)

// RuntimeError is the dynamic type of run-time panics inside the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// Input is one recorded nondeterministic input.
type Input struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	V    []uint64 `json:"v"`
}

// Obs is one observed value.
type Obs struct {
	Name string   `json:"name"`
	V    []uint64 `json:"v"`
}

// Case is one replay request.
type Case struct {
	Harness string  `json:"harness"`
	Tier    int     `json:"tier"`
	Inputs  []Input `json:"inputs"`
}

// Result is the outcome of one native replay.
type Result struct {
	Status string `json:"status"` // done, fail, panic, assume, exit, missing
	Msg    string `json:"msg"`
	Obs    []Obs  `json:"obs"`
}

var (
	mu     sync.Mutex
	cur    map[string]Input
	cnt    map[string]int
	obs    []Obs
	tier   int
	failed []string
	assume bool
)

type stopT struct{ kind, msg string }

func get(name string) Input {
	mu.Lock()
	defer mu.Unlock()
	k := cnt[name]
	cnt[name]++
	in, ok := cur[fmt.Sprintf("%s#%d", name, k)]
	if !ok {
		panic(stopT{"missing", fmt.Sprintf("%s#%d", name, k)})
	}
	return in
}

// Symbolic reports whether the code runs under the symbolic engine.
func Symbolic() bool { return false }

// Bound selects a bound by tier.
func Bound(quick, thorough int) int {
	if tier == 0 {
		return quick
	}
	return thorough
}

func Byte(name string) byte     { return byte(get(name).V[0]) }
func Uint16(name string) uint16 { return uint16(get(name).V[0]) }
func Uint32(name string) uint32 { return uint32(get(name).V[0]) }
func Uint64(name string) uint64 { return get(name).V[0] }
func Int64(name string) int64   { return int64(get(name).V[0]) }
func Bool(name string) bool     { return get(name).V[0] == 1 }

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(int64(get(name).V[0])) }

// Choose is an integer in [lo,hi] the engine forks over.
func Choose(name string, lo, hi int) int { return int(int64(get(name).V[0])) }

func Bytes(name string, n int) []byte {
	in := get(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in.V[i])
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

// FreshBytes are unconstrained bytes that are not replayed (engine only).
func FreshBytes(name string, n int) []byte { panic("FreshBytes outside the engine") }

// Concrete forks until x is concrete.
func Concrete(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(stopT{"assume", ""})
	}
}

// Prefer asks for counterexamples in which c holds, where there are any. It restricts
// nothing.
func Prefer(c bool) {}

func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		if len(failed) == 0 && os.Getenv("VERIF_RESULT") != "" {
			// kept on disk, too, for the case that the process does not survive
			ioutil.WriteFile(os.Getenv("VERIF_RESULT")+".failed", []byte(msg), 0644)
		}
		failed = append(failed, msg)
		mu.Unlock()
	}
}

func Fail(msg string) {
	Assert(false, msg)
	panic(stopT{"done", ""})
}

// Stop ends the path.
func Stop() { panic(stopT{"done", ""}) }

// Reach marks a label that some path must reach (vacuity check).
func Reach(label string) {}

// Observe records a value for comparison between engine and native runs.
func Observe(name string, v interface{}) {
	var o []uint64
	switch x := v.(type) {
	case nil:
	case bool:
		if x {
			o = []uint64{1}
		} else {
			o = []uint64{0}
		}
	case string:
		for i := 0; i < len(x); i++ {
			o = append(o, uint64(x[i]))
		}
	case []byte:
		for i := 0; i < len(x); i++ {
			o = append(o, uint64(x[i]))
		}
	default:
		r := reflect.ValueOf(v)
		switch r.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			o = []uint64{uint64(r.Int())}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			o = []uint64{r.Uint()}
		}
	}
	mu.Lock()
	obs = append(obs, Obs{name, o})
	mu.Unlock()
}

// Override replaces the named function by fn under the engine; natively it does nothing.
func Override(name string, fn interface{}) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Mask returns p xor a fixed byte stream selected by seed.
func Mask(p []byte, seed byte) []byte {
	o := make([]byte, len(p))
	for i := range p {
		o[i] = p[i] ^ (byte(i)*29 + seed*113 + 77)
	}
	return o
}

func EqBytes(a, b []byte) bool            { return bytes.Equal(a, b) }
func EqString(a, b string) bool           { return a == b }
func DeepEqual(a, b interface{}) bool     { return reflect.DeepEqual(a, b) }
func Comparable(v interface{}) bool       { return v == nil || reflect.TypeOf(v).Comparable() }

// NumField is the number of fields of the struct v points to (0 if it is no such pointer).
func NumField(v interface{}) int {
	t := reflect.TypeOf(v)
	if t == nil || t.Kind() != reflect.Ptr || t.Elem().Kind() != reflect.Struct {
		return 0
	}
	return t.Elem().NumField()
}
func FieldName(v interface{}, i int) string          { return reflect.TypeOf(v).Elem().Field(i).Name }
func FieldTag(v interface{}, i int, key string) string { return reflect.TypeOf(v).Elem().Field(i).Tag.Get(key) }
func FieldPtr(v interface{}, i int) interface{}      { return reflect.ValueOf(v).Elem().Field(i).Addr().Interface() }

// Elapse lets the clock go on (in the engine).
func Elapse(ns int64) {}

// Pause is a time that may pass between two requests, from nothing to years.
func Pause(name string) int64 {
	s := int64(1000000000)
	return []int64{0, 1, s / 2, 2 * s, 10 * s, 25 * s, 61 * s, 301 * s, 601 * s, 3601 * s, 90000 * s, 800000 * s, 40000000 * s, 1000000000 * s}[Choose(name, 0, 13)]
}

// Remembered reports whether the bytes of key are found in the memory reachable from the
// package variables of the repository, from pools or from root (outside the engine: no).
func Remembered(key []byte, root interface{}) bool { return false }

func TypeName(v interface{}) string       { return fmt.Sprintf("%T", v) }
func FmtAny(v interface{}, verb byte) string { return fmt.Sprintf("%"+string(rune(verb)), v) }
func sliceLen(x interface{}) int          { return reflect.ValueOf(x).Len() }
func sliceSwap(x interface{}, i, j int)   { reflect.Swapper(x)(i, j) }

// Sched hands the state over to the schedule explorer: from here on every
// interleaving of the goroutines' visible operations is covered, with at most
// timers timer expiries and preempt preemptive context switches (-1: no limit).
func Sched(timers, preempt int) {}

// Yield is a scheduling point.
func Yield() {}

// WaitIdle lets every other goroutine run until it blocks.
func WaitIdle() {}

// NoTimers lets no further timer expire as long as a goroutine can run.
func NoTimers() {}

// FireTimers expires every pending timer.
func FireTimers() {}

// Quiet reports whether no other goroutine can run.
func Quiet() bool { return true }

// Exit ends the path as a process exit.
func Exit() { panic(stopT{"exit", ""}) }

// RunCase replays one case against the harness functions in hs.
func RunCase(c Case, hs map[string]func()) (res Result) {
	cur = map[string]Input{}
	for _, in := range c.Inputs {
		cur[in.Name] = in
	}
	cnt = map[string]int{}
	obs = nil
	failed = nil
	tier = c.Tier
	defer func() {
		mu.Lock()
		defer mu.Unlock()
		res.Obs = obs
		if r := recover(); r != nil {
			if s, ok := r.(stopT); ok {
				res.Status, res.Msg = s.kind, s.msg
			} else {
				res.Status, res.Msg = "panic", fmt.Sprint(r)
			}
		} else {
			res.Status = "done"
		}
		if len(failed) > 0 {
			m := failed[0]
			if res.Status == "panic" {
				m += "; then: panic " + res.Msg
			}
			res.Status, res.Msg = "fail", m
		}
	}()
	f := hs[c.Harness]
	if f == nil {
		panic("no harness " + c.Harness)
	}
	f()
	return
}

// Main replays the cases in $VERIF_REPLAY and writes the results to $VERIF_RESULT.
func Main(hs map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Println("VERIF_REPLAY not set")
		return
	}
	var cs []Case
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	out := os.Getenv("VERIF_RESULT")
	var rs []Result
	for i, c := range cs {
		// record progress so that a crash of the process is attributed to its case
		ioutil.WriteFile(out+".at", []byte(fmt.Sprint(i)), 0644)
		os.Remove(out + ".failed")
		rs = append(rs, RunCase(c, hs))
		j, _ := json.Marshal(rs)
		ioutil.WriteFile(out, j, 0644)
	}
	os.Remove(out + ".at")
}
