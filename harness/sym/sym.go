// Package sym is the interface between harnesses and the symbolic engine.
// The engine intercepts every function here; the bodies below are the native
// implementation, which replays the values of a counterexample.
package sym

import (
	"fmt"
	"os"
	"reflect"
	"sync"
)

// Values and Shards hold the counterexample being replayed.
var (
	Values = map[string]uint64{}
	Shards = map[string]int{}
	Failed []string
	names  = map[string]int{}
	frozen []frozenObj
	stdout *os.File
)

type frozenObj struct {
	name string
	v    any
	snap string
}

// AssumeFailed is the panic value used to leave a run whose assumptions fail.
type AssumeFailed struct{}

func uniq(n string) string {
	c := names[n]
	names[n] = c + 1
	if c == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, c)
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(Values[uniq(name)]) }

// Bool is an arbitrary truth value.
func Bool(name string) bool { return Values[uniq(name)] != 0 }

// Uint64 is an arbitrary 64-bit word.
func Uint64(name string) uint64 { return Values[uniq(name)] }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	if hi-lo < 256 {
		return lo + int(byte(Values[uniq(name)]))
	}
	return int(Values[uniq(name)])
}

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = Byte(fmt.Sprintf("%s[%d]", name, i))
	}
	return r
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Shard is a concrete number below n; every value is explored as a separate job.
func Shard(name string, n int) int { return Shards[name] }

// OneOf is any one of the given values, the choice left to the solver.
func OneOf[T any](name string, opts ...T) T {
	i := int(Values[uniq(name)])
	if i >= len(opts) {
		panic(AssumeFailed{})
	}
	return opts[i]
}

// Assume restricts the rest of the run to c.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Failed = append(Failed, msg)
	}
}

// Reach marks a point that some run must reach (vacuity witness).
func Reach(label string) {}

// Catch runs f and tells whether it panicked.
func Catch(f func()) (panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(AssumeFailed); ok {
				panic(r)
			}
			panicked, msg = true, fmt.Sprint(r)
		}
	}()
	f()
	return
}

// LastPanic is where the last caught panic came from (symbolic runs only).
func LastPanic() string { return "" }

// Merge runs f; the engine joins all its paths into one.
func Merge(f func()) { f() }

// Concrete makes the engine explore each value of v separately.
func Concrete(v int) int { return v }

// Decide makes the engine explore both outcomes separately.
func Decide(c bool) bool { return c }

// Note records text for a replayed run.
func Note(s string) { fmt.Println("note:", s) }

// Freeze forbids any later write to what is reachable from the values.
func Freeze(name string, vs ...any) {
	for _, v := range vs {
		f := frozenObj{name: name, v: v, snap: deep(v)}
		frozen = append(frozen, f)
		if raceEnabled {
			// an unsynchronised reader: any later write is a reported race
			done := make(chan bool)
			go func() { defer close(done); touch(f.v) }()
		}
	}
}

// CheckFrozen reports frozen values that changed (native runs).
func CheckFrozen() {
	for _, f := range frozen {
		if deep(f.v) != f.snap {
			Failed = append(Failed, "frozen value modified: "+f.name)
		}
	}
}

// Parallel states that f may run at the same time as itself: it must not
// write anything that existed before it started.
func Parallel(f func()) {
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					Failed = append(Failed, fmt.Sprint("panic in parallel run: ", r))
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
}

var mu sync.Mutex

// CaptureStdout redirects standard output so that Prints can count.
func CaptureStdout() {
	f, err := os.CreateTemp("", "replay")
	if err != nil {
		return
	}
	os.Remove(f.Name())
	stdout = f
	os.Stdout = f
}

// Prints is the number of times something was printed (natively: bytes).
func Prints() int {
	if stdout == nil {
		return 0
	}
	st, err := stdout.Stat()
	if err != nil {
		return 0
	}
	return int(st.Size())
}

func deep(v any) string {
	s := &printer{seen: map[uintptr]bool{}}
	s.val(reflect.ValueOf(v), 0)
	return s.out
}

func touch(v any) { deep(v) }

type printer struct {
	out  string
	seen map[uintptr]bool
}

func (p *printer) val(v reflect.Value, d int) {
	if d > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		p.out += "nil;"
	case reflect.Ptr:
		if v.IsNil() {
			p.out += "nil;"
			return
		}
		if p.seen[v.Pointer()] {
			p.out += "^;"
			return
		}
		p.seen[v.Pointer()] = true
		p.val(v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			p.out += "nil;"
			return
		}
		p.out += v.Elem().Type().String() + ":"
		p.val(v.Elem(), d+1)
	case reflect.Struct:
		p.out += "{"
		for i := 0; i < v.NumField(); i++ {
			p.val(v.Field(i), d+1)
		}
		p.out += "}"
	case reflect.Slice:
		p.out += fmt.Sprintf("[%d,%d,%v ", v.Len(), v.Cap(), v.IsNil())
		if !v.IsNil() {
			// everything up to the capacity belongs to the value
			v = v.Slice3(0, v.Cap(), v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			p.val(v.Index(i), d+1)
		}
		p.out += "]"
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			p.val(v.Index(i), d+1)
		}
	case reflect.Map:
		p.out += fmt.Sprintf("map%v{", v.IsNil())
		var items []string
		it := v.MapRange()
		for it.Next() {
			q := &printer{seen: p.seen}
			q.val(it.Key(), d+1)
			q.out += "=>"
			q.val(it.Value(), d+1)
			items = append(items, q.out)
		}
		sortStrings(items)
		for _, s := range items {
			p.out += s + ","
		}
		p.out += "}"
	case reflect.String:
		p.out += fmt.Sprintf("%q;", v.String())
	case reflect.Bool:
		p.out += fmt.Sprint(v.Bool(), ";")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		p.out += fmt.Sprint(v.Int(), ";")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		p.out += fmt.Sprint(v.Uint(), ";")
	default:
		p.out += v.Kind().String() + ";"
	}
}

func sortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// Observe records a value; sampled paths are run natively and must agree.
func Observe(label string, v any) {
	if !Observing {
		return
	}
	switch x := v.(type) {
	case nil:
		fmt.Fprintf(Out, "obs %s nil\n", label)
	case string:
		fmt.Fprintf(Out, "obs %s %q\n", label, x)
	default:
		fmt.Fprintf(Out, "obs %s %v\n", label, x)
	}
}

// Observing and Out control Observe; Out is the real standard output.
var (
	Observing bool
	Out       = os.Stdout
)

// Reset prepares for another run.
func Reset(shards map[string]int, values map[string]uint64) {
	Values, Shards = values, shards
	Failed = nil
	names = map[string]int{}
	frozen = nil
}
