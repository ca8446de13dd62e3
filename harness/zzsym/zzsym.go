// Package zzsym is the vocabulary of the verification harnesses. Compiled
// natively (for replay) the functions below read recorded inputs; the
// symbolic engine replaces them by their symbolic meaning.
package zzsym

import (
	"fmt"
	"sort"
	"sync"
)

// RuntimeError stands for the run-time panics of the language.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type stop struct{ kind, id, msg string }

var (
	inputs map[string]any
	names  map[string]int
	params map[string]int
	obs    []string
	frozen func(roots []any)
)

func uniq(name string) string {
	n := names[name]
	names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func getInt(name string, def int) int {
	switch v := inputs[uniq(name)].(type) {
	case int64:
		return int(v)
	case int:
		return v
	}
	return def
}

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int { return getInt(name, lo) }

// AnyInt is a symbolic integer.
func AnyInt(name string) int { return getInt(name, 0) }

// Bool is a symbolic boolean.
func Bool(name string) bool {
	v, _ := inputs[uniq(name)].(bool)
	return v
}

// String is a symbolic printable ASCII string of length 0..max.
func String(name string, max int) string { return StringIn(name, max, 0x20, 0x7e) }

// StringIn is a symbolic string of length 0..max over the bytes lo..hi.
func StringIn(name string, max int, lo, hi byte) string {
	v, _ := inputs[uniq(name)].(string)
	return v
}

// Choose is a symbolic choice among n alternatives, split into n cases.
func Choose(name string, n int) int {
	u := uniq(name)
	if n <= 1 {
		return 0
	}
	switch v := inputs[u].(type) {
	case int64:
		return int(v)
	case int:
		return v
	}
	return 0
}

// Assume restricts attention to executions where c holds.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", "", ""})
	}
}

// Assert is a proof obligation.
func Assert(c bool, id string) {
	if !c {
		panic(stop{"assert", id, "assertion " + id + " fails"})
	}
}

// The connectives below build formulas without splitting cases.

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteB(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}

func B2i(c bool) int {
	if c {
		return 1
	}
	return 0
}

// Param is a bound of the current tier.
func Param(name string) int {
	v, ok := params[name]
	if !ok {
		panic("zzsym: no parameter " + name)
	}
	return v
}

// Observe records a value that the compiled program must agree on.
func Observe(name string, v any) {
	switch x := v.(type) {
	case string:
		obs = append(obs, fmt.Sprintf("%s=%q", name, x))
	default:
		obs = append(obs, fmt.Sprintf("%s=%v", name, x))
	}
}

// Cover marks a point that the exploration has to reach.
func Cover(id string) {}

// Freeze: until Unfreeze, nothing reachable from the roots may be written.
func Freeze(roots ...any) {}
func Unfreeze()           {}

// Readers runs f while nothing reachable from the roots, nor any package
// variable of the code under test, may be written. Natively two goroutines
// run f at the same time.
func Readers(f func(), roots ...any) {
	var wg sync.WaitGroup
	var failed any
	var mu sync.Mutex
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					failed = e
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
}

// Panics reports whether f panics.
func Panics(f func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(stop); ok {
				panic(s)
			}
			r = true
		}
	}()
	f()
	return false
}

// ---- native replay ----

type Result struct {
	Status string   `json:"status"`
	ID     string   `json:"id,omitempty"`
	Msg    string   `json:"msg,omitempty"`
	Obs    []string `json:"obs,omitempty"`
}

// Run executes a harness natively on recorded inputs.
func Run(h func(), in map[string]any, par map[string]int) (res Result) {
	inputs, names, params, obs = in, map[string]int{}, par, nil
	defer func() {
		res.Obs = obs
		if e := recover(); e != nil {
			if s, ok := e.(stop); ok {
				res.Status, res.ID, res.Msg = s.kind, s.id, s.msg
				return
			}
			res.Status, res.ID, res.Msg = "panic", "panic", fmt.Sprint(e)
		}
	}()
	h()
	res.Status = "ok"
	return
}

// SortedInts returns a sorted copy (concrete helper).
func SortedInts(x []int) []int {
	r := append([]int{}, x...)
	sort.Ints(r)
	return r
}
