//go:build verif && go1.21

// Package verifspec is the specification vocabulary of the contracts in /verif/contracts.
// The verifier (govc) gives these functions their logical meaning; when a contract is executed
// (the bounded replay runs) they have the meaning written here.
package verifspec

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- assumptions and obligations ----

// Requires restricts the states the contract speaks about.
func Requires(c bool) {
	if !c {
		panic(skip{})
	}
}

// Assume is Requires for facts about the environment.
func Assume(c bool) { Requires(c) }

// Ensures is a postcondition.
func Ensures(name string, c bool) {
	if !c {
		fail(name)
	}
	cur.note(name)
}

// Assert is an obligation in the middle of a contract.
func Assert(name string, c bool) { Ensures(name, c) }

// Lemma is an auxiliary obligation whose truth helps later ones.
func Lemma(name string, c bool) { Ensures(name, c) }

// Cover marks a point that has to be reachable.
func Cover(name string) { cur.cover(name) }

// ---- logic ----

func Implies(a, b bool) bool { return !a || b }
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Iff(a, b bool) bool     { return a == b }

// Forall holds when f holds for every i with lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	if hi > lo+20000 {
		imprecise()
		hi = lo + 20000
	}
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists holds when f holds for some i with lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	if hi > lo+20000 {
		imprecise()
		hi = lo + 20000
	}
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallOf quantifies over all values of a type; it is sampled when executed.
func ForallOf[T any](f func(T) bool) bool {
	imprecise()
	for i := 0; i < 30; i++ {
		if !f(Any[T]()) {
			return false
		}
	}
	return true
}

// ExistsOf quantifies over all values of a type.
func ExistsOf[T any](f func(T) bool) bool {
	imprecise()
	return true
}

// Snap copies a value (slice elements, map entries, pointed-to struct), one level deep.
func Snap[T any](x T) T {
	v := reflect.ValueOf(&x).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return x
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(n, v)
		return n.Interface().(T)
	case reflect.Map:
		if v.IsNil() {
			return x
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, v.MapIndex(k))
		}
		return n.Interface().(T)
	case reflect.Ptr:
		if v.IsNil() {
			return x
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(v.Elem())
		return n.Interface().(T)
	}
	return x
}

// Inv proposes a loop invariant; the verifier instantiates it at every loop by the types of the arguments.
func Inv(f interface{}) {}

// InitPackage gives the package variables their initial values, as at the start of the program: those of the package
// with the given path, or of the contract's own if it is empty. When executed they have had them from the start.
func InitPackage(path string) {}

// DropInvs forgets the proposed invariants.
func DropInvs() {}

// Rec is the function r with r(0)=init and r(k+1)=step(k,r(k)).
func Rec[T any](init T, step func(k int, prev T) T) func(k int) T {
	memo := []T{init}
	return func(k int) T {
		if k < 0 {
			k = 0
		}
		for len(memo) <= k {
			memo = append(memo, step(len(memo)-1, memo[len(memo)-1]))
		}
		return memo[k]
	}
}

// ---- environment ----

// Impl states that every I the code meets is a *T.
func Impl[I, T any]() {}

// OnLock runs f whenever mu is acquired: the effect of other goroutines.
func OnLock(mu interface{}, f func()) {}

// Guarded obliges every access to the variable p points to, to be made with mu held.
func Guarded(name string, mu interface{}, p interface{}) {}

// External gives the assumed contract of a function outside the repository, as a stand-in body.
func External(name string, f interface{}) { panic(skip{}) }

// Volatile states that other goroutines may change the variable p points to whenever no lock is held.
func Volatile(p interface{}) {}

// Havoc gives the variable p points to an arbitrary value.
func Havoc[T any](p *T) { *p = Any[T]() }

// HavocSlice gives all elements arbitrary values.
func HavocSlice[T any](s []T) {
	for i := range s {
		s[i] = Any[T]()
	}
}

// Held tells whether mu is held by this goroutine.
func Held(mu interface{}) bool { imprecise(); return true }

// DeferGo collects started goroutines instead of running them at once.
func DeferGo() { panic(skip{}) }

// Spawned is the number of goroutines collected.
func Spawned() int { return 0 }

// RunSpawned runs the goroutines collected.
func RunSpawned() { Settle() }

// Settle waits until the goroutines started by the code have done their work.
func Settle() {
	for t0 := time.Now(); time.Since(t0) < 500*time.Millisecond; {
		runtime.Gosched()
		if runtime.NumGoroutine() <= cur.base {
			return
		}
		time.Sleep(50 * time.Microsecond)
	}
	imprecise()
}

// Visited tells whether key k was visited by the current map iteration (only in invariants).
func Visited[K comparable](k K) bool { return true }

// ---- channels ----

type chanLog struct {
	mu    sync.Mutex
	sent  []reflect.Value
	src   bool
	close bool
}

// NewSink makes a channel on which sends never block and whose history is recorded.
func NewSink[T any]() chan T {
	ch := make(chan T, 1<<15)
	cur.logs[reflect.ValueOf(ch).Pointer()] = &chanLog{}
	return ch
}

// NewSource makes a channel holding an endless supply of arbitrary values.
func NewSource[T any]() chan T {
	const n = 3000
	ch := make(chan T, n)
	l := &chanLog{src: true}
	for i := 0; i < n; i++ {
		x := Any[T]()
		ch <- x
		l.sent = append(l.sent, reflect.ValueOf(&x).Elem())
	}
	cur.logs[reflect.ValueOf(ch).Pointer()] = l
	return ch
}

func drain[T any](ch chan T) *chanLog {
	l := cur.logs[reflect.ValueOf(ch).Pointer()]
	if l == nil {
		l = &chanLog{}
		cur.logs[reflect.ValueOf(ch).Pointer()] = l
	}
	if l.src {
		return l
	}
	for {
		select {
		case x, ok := <-ch:
			if !ok {
				l.close = true
				return l
			}
			l.sent = append(l.sent, reflect.ValueOf(&x).Elem())
		default:
			return l
		}
	}
}

// Sent is the number of values sent on ch so far.
func Sent[T any](ch chan T) int {
	l := drain(ch)
	if l.src {
		return 1 << 40
	}
	return len(l.sent)
}

// Received is the number of values received from ch so far.
func Received[T any](ch chan T) int {
	l := drain(ch)
	if l.src {
		return len(l.sent) - len(ch)
	}
	return 0
}

// Closed tells whether ch has been closed.
func Closed[T any](ch chan T) bool { return drain(ch).close }

// ChanAt is the i-th value ever sent on ch.
func ChanAt[T any](ch chan T, i int) T {
	l := drain(ch)
	if i < 0 || i >= len(l.sent) {
		var z T
		imprecise()
		return z
	}
	return l.sent[i].Interface().(T)
}

// SameFloat is equality of values, with NaN equal to itself.
func SameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (math.IsNaN(a) && math.IsNaN(b)) || a == b
}

// ---- arbitrary values ----

// Any is an arbitrary value of T.
func Any[T any]() T {
	var x T
	fill(reflect.ValueOf(&x).Elem(), 0)
	return x
}

// AnyInt is an arbitrary integer between lo and hi, both included.
func AnyInt(lo, hi int) int {
	if hi < lo {
		panic(skip{})
	}
	n := uint64(hi-lo) + 1
	if n == 0 || n > 12 {
		switch cur.rnd.Intn(6) {
		case 0:
			return lo
		case 1:
			return hi
		case 2:
			return lo + cur.rnd.Intn(3)
		case 3, 4:
			m := uint64(12)
			if n != 0 && n < m {
				m = n
			}
			return lo + int(cur.rnd.Int63n(int64(m)))
		}
		if n == 0 || n > 1<<62 {
			return int(cur.rnd.Uint64())
		}
	}
	return lo + int(cur.rnd.Int63n(int64(n)))
}

// Bound is proved in proofs and executed in executions.
func Bound(proved, executed int) int { return executed }

// AnyBool is an arbitrary truth value.
func AnyBool() bool { return cur.rnd.Intn(2) == 0 }

var strPool = []string{"", "a", "b", "ab", "abc", "song.mp3", "x", "7", "-3", "0.5", "a b", "é", "\\", "\\ ", "a/b", "audio", "meta", "12345678901234567890", "NaN", " ", "clear", "exit", "help"}

func fill(v reflect.Value, depth int) {
	r := cur.rnd
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var x int64
		switch r.Intn(12) {
		case 0:
			x = math.MaxInt64
		case 1:
			x = math.MinInt64
		case 2:
			x = int64(r.Uint64())
		case 3:
			x = int64(r.Intn(100000)) - 50000
		case 4, 5:
			if len(dictInts) > 0 {
				x = dictInts[r.Intn(len(dictInts))] + int64(r.Intn(3)) - 1
			}
		default:
			x = int64(r.Intn(12)) - 3
		}
		bits := v.Type().Bits()
		if bits < 64 {
			x = x << (64 - uint(bits)) >> (64 - uint(bits))
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		var x uint64
		switch r.Intn(12) {
		case 0:
			x = math.MaxUint64
		case 1:
			x = 1 << 63
		case 2:
			x = r.Uint64()
		case 3:
			x = uint64(r.Intn(100000))
		case 4, 5:
			if len(dictInts) > 0 {
				x = uint64(dictInts[r.Intn(len(dictInts))] + int64(r.Intn(3)) - 1)
			}
		default:
			x = uint64(r.Intn(10))
		}
		bits := v.Type().Bits()
		if bits < 64 {
			x = x << (64 - uint(bits)) >> (64 - uint(bits))
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		pool := []float64{0, 1, -1, 0.5, -0.5, 2, -2, 1e-3, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 32767.0 / 32768, 1e9}
		if len(dictFloats) > 0 && r.Intn(5) == 0 {
			v.SetFloat(dictFloats[r.Intn(len(dictFloats))])
		} else if r.Intn(2) == 0 {
			v.SetFloat(pool[r.Intn(len(pool))])
		} else {
			v.SetFloat(r.NormFloat64())
		}
	case reflect.String:
		switch r.Intn(5) {
		case 0:
			n := r.Intn(6)
			al := []rune("ab \\é/.1-")
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteRune(al[r.Intn(len(al))])
			}
			v.SetString(b.String())
		case 1:
			if len(dictStrs) > 0 {
				v.SetString(dictStrs[r.Intn(len(dictStrs))])
			}
		default:
			v.SetString(strPool[r.Intn(len(strPool))])
		}
	case reflect.Slice:
		if r.Intn(8) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := r.Intn(6)
		if r.Intn(6) == 0 {
			n = r.Intn(40)
		}
		if len(dictInts) > 0 && r.Intn(8) == 0 && depth == 0 {
			if k := dictInts[r.Intn(len(dictInts))] + int64(r.Intn(3)) - 1; k >= 0 && k < 3000 {
				n = int(k)
			}
		}
		s := reflect.MakeSlice(v.Type(), n, n+r.Intn(3))
		for i := 0; i < n; i++ {
			fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i), depth+1)
			}
		}
	case reflect.Ptr:
		if depth > 3 || r.Intn(8) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for i := r.Intn(5); i > 0; i-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(k, depth+1)
			fill(e, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Interface:
		if v.Type().Name() == "error" && r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(fmt.Errorf("error %d", r.Intn(1000))))
		}
	}
}

// ---- execution ----

type skip struct{}
type failed struct{ name string }

type run struct {
	rnd    *rand.Rand
	base   int
	logs   map[uintptr]*chanLog
	imp    bool
	checks int
	covers map[string]bool
}

func (r *run) note(string)       { r.checks++ }
func (r *run) cover(name string) { r.covers[name] = true }

var cur = &run{rnd: rand.New(rand.NewSource(1)), logs: map[uintptr]*chanLog{}, covers: map[string]bool{}}

func imprecise() { cur.imp = true }

func fail(name string) {
	if cur.imp {
		panic(skip{})
	}
	panic(failed{name})
}

// CatchPanic tells whether f panics.
func CatchPanic(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case skip, failed:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Result describes the executions of one contract.
type Result struct {
	Runs, Checked, Skipped, Blocked int
	Covers                          map[string]bool
	Failure                         string
	Seed                            int64
	Args                            string
}

// Exec executes a contract on generated inputs until the time is used up or it fails.
func Exec(f interface{}, seed int64, runs int, limit time.Duration) *Result {
	res := &Result{Covers: map[string]bool{}}
	fv := reflect.ValueOf(f)
	t0 := time.Now()
	for i := 0; i < runs && time.Since(t0) < limit; i++ {
		s := seed + int64(i)
		out, args, r := Once(fv, s)
		res.Runs++
		for k := range r.covers {
			res.Covers[k] = true
		}
		switch {
		case out == "skip":
			res.Skipped++
		case out == "blocked":
			res.Blocked++
			if res.Blocked >= 3 {
				return res
			}
		case out == "":
			if r.checks > 0 {
				res.Checked++
			}
		default:
			res.Failure, res.Seed, res.Args = out, s, args
			return res
		}
	}
	return res
}

// idle is the number of goroutines while no contract is executed.
var idle int

// Once executes a contract on the inputs generated from one seed.
func Once(fv reflect.Value, seed int64) (out, args string, r *run) {
	r = &run{rnd: rand.New(rand.NewSource(seed)), logs: map[uintptr]*chanLog{}, covers: map[string]bool{}}
	cur = r
	var in []reflect.Value
	for i := 0; i < fv.Type().NumIn(); i++ {
		a := reflect.New(fv.Type().In(i)).Elem()
		fill(a, 0)
		in = append(in, a)
		s := fmt.Sprintf("%#v", a.Interface())
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		args += fmt.Sprintf("arg%d=%s ", i, s)
	}
	done := make(chan string, 1)
	for t0 := time.Now(); runtime.NumGoroutine() > idle && time.Since(t0) < 2*time.Millisecond; {
		time.Sleep(20 * time.Microsecond) // goroutines of the run before are ending
	}
	idle = runtime.NumGoroutine()
	r.base = idle + 1
	go func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case skip:
					done <- "skip"
				case failed:
					done <- x.name
				default:
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					if r.imp && strings.Contains(fmt.Sprint(e), "verif") {
						done <- "skip"
						return
					}
					done <- fmt.Sprintf("panic: %v\n%s", e, buf)
				}
				return
			}
			done <- ""
		}()
		fv.Call(in)
	}()
	select {
	case out = <-done:
	case <-time.After(3 * time.Second):
		out = "blocked"
	}
	return out, args, r
}

// Entry is one contract of a generated test file.
type Entry struct {
	Name string
	F    interface{}
}

// Main executes the contracts as the environment asks and writes a report.
func Main(pkg string, es []Entry) {
	num := func(k string, d int64) int64 {
		if n, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
			return n
		}
		return d
	}
	if f := os.Getenv("VERIF_DICT"); f != "" {
		if b, err := ioutil.ReadFile(f); err == nil {
			var d struct {
				Ints   []int64
				Strs   []string
				Floats []float64
			}
			if json.Unmarshal(b, &d) == nil {
				dictInts, dictFloats = d.Ints, d.Floats
				dictStrs = d.Strs
			}
		}
	}
	only := os.Getenv("VERIF_ONLY")
	out := map[string]*Result{}
	for _, e := range es {
		if only != "" && !strings.Contains(","+only+",", ","+e.Name+",") {
			continue
		}
		if one := os.Getenv("VERIF_REPLAY"); one != "" {
			r := &Result{Runs: 1, Seed: num("VERIF_REPLAY", 0), Covers: map[string]bool{}}
			o, args, _ := Once(reflect.ValueOf(e.F), r.Seed)
			r.Failure, r.Args = o, args
			out[e.Name] = r
			continue
		}
		fmt.Fprintf(os.Stderr, "VERIF-RUN %s\n", e.Name)
		out[e.Name] = Exec(e.F, num("VERIF_SEED", 1)*1000003, int(num("VERIF_RUNS", 400)), time.Duration(num("VERIF_LIMIT_MS", 500))*time.Millisecond)
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if f := os.Getenv("VERIF_OUT"); f != "" {
		ioutil.WriteFile(f+"."+strings.ReplaceAll(pkg, "/", "_")+".json", b, 0644)
	} else {
		fmt.Println(string(b))
	}
}

var (
	dictInts   []int64
	dictStrs   []string
	dictFloats []float64
)
