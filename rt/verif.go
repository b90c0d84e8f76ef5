//go:build go1.27

// Package verif is the interface between harnesses and the checking engine.
// The bodies below are the native replay; the engine replaces them.
package verif

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	inputs map[string]string
	counts = map[string]int{}
	mu     sync.Mutex
	try    int
	tier   int
)

func name(label string) string {
	mu.Lock()
	defer mu.Unlock()
	k := counts[label]
	counts[label] = k + 1
	return label + "#" + strconv.Itoa(k)
}

func value(n string) (uint64, bool) {
	s, ok := inputs[n]
	if !ok {
		return 0, false
	}
	switch s {
	case "true":
		return 1, true
	case "false":
		return 0, true
	}
	if strings.HasPrefix(s, "-") {
		i, _ := strconv.ParseInt(s, 10, 64)
		return uint64(i), true
	}
	u, _ := strconv.ParseUint(s, 10, 64)
	return u, true
}

func out(format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintf(os.Stderr, "VERIF "+format+"\n", args...)
}

type stop struct{}

// Main runs one harness on the recorded inputs.
func Main(hs map[string]func()) {
	h := hs[os.Getenv("VERIF_HARNESS")]
	if h == nil {
		return
	}
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		out("error %v", err)
		os.Exit(4)
	}
	var r struct {
		Inputs map[string]string
		Tier   string
	}
	if err := json.Unmarshal(b, &r); err != nil {
		out("error %v", err)
		os.Exit(4)
	}
	inputs = r.Inputs
	if r.Tier == "thorough" {
		tier = 1
	}
	try, _ = strconv.Atoi(os.Getenv("VERIF_TRY"))
	guard(h)
	out("done")
	os.Exit(0)
}

func guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				os.Exit(3)
			}
			out("panic %s", strings.ReplaceAll(fmt.Sprint(r), "\n", " "))
			debug.PrintStack()
			os.Exit(1)
		}
	}()
	f()
}

func Bool(label string) bool     { v, _ := value(name(label)); return v == 1 }
func Byte(label string) byte     { v, _ := value(name(label)); return byte(v) }
func Uint32(label string) uint32 { v, _ := value(name(label)); return uint32(v) }
func Int(label string, lo, hi int) int {
	v, ok := value(name(label))
	if !ok {
		return lo
	}
	return int(v)
}
func Int64(label string, lo, hi int64) int64 {
	v, ok := value(name(label))
	if !ok {
		return lo
	}
	return int64(v)
}

// Choose returns a number below n; the engine follows each separately.
func Choose(label string, n int) int { return Int(label, 0, n-1) }

// Str returns n bytes, each one of the alphabet.
func Str(label string, n int, alphabet string) string {
	nm := name(label)
	b := make([]byte, n)
	for i := range b {
		v, ok := value(fmt.Sprintf("%s[%d]", nm, i))
		if !ok {
			v = uint64(alphabet[0])
		}
		b[i] = byte(v)
	}
	return string(b)
}

func Bytes(label string, n int) []byte {
	nm := name(label)
	b := make([]byte, n)
	for i := range b {
		v, _ := value(fmt.Sprintf("%s[%d]", nm, i))
		b[i] = byte(v)
	}
	return b
}

func Assume(c bool) {
	if !c {
		out("assume-fail")
		os.Exit(3)
	}
}

func Assert(c bool, msg string) {
	if !c {
		out("assert-fail %s", msg)
		debug.PrintStack()
		os.Exit(1)
	}
}

func Reach(label string) {}

// Unsupported ends the path: the code went outside of what is modelled.
func Unsupported(msg string) {
	out("unsupported %s", msg)
	os.Exit(3)
}

func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint8:
		return fmt.Sprint(int8(v.Uint()))
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(int64(v.Uint()))
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, show(v.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	}
	return "?"
}

// Observe records a value (bool, integer, string or slice of these) that the
// native run of a sampled path has to reproduce.
func Observe(label string, v any) { out("obs %s=%s", label, show(reflect.ValueOf(v))) }

// Parallel runs the functions concurrently and waits for all of them.
func Parallel(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if try%3 == 1 && i == 0 || try%3 == 2 && i == 1 {
				time.Sleep(time.Duration(try) * 10 * time.Microsecond)
			}
			guard(f)
		}()
	}
	close(start)
	wg.Wait()
}

func NoMerge()             {}
func Symbolic() bool       { return false }
func Tier() int            { return tier }
func Concretize(n int) int { return n }

// Yield lets another goroutine run; models call it where the system would block.
func Yield() {
	if try > 0 {
		runtime.Gosched()
		if try%2 == 0 {
			time.Sleep(time.Duration(try%7) * 20 * time.Microsecond)
		}
	}
}

// Methods returns the names of the exported methods of v.
func Methods(v any) []string {
	t := reflect.TypeOf(v)
	var l []string
	for i := 0; i < t.NumMethod(); i++ {
		l = append(l, t.Method(i).Name)
	}
	sort.Strings(l)
	return l
}
