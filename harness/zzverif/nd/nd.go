// Package nd is the harness interface to the symbolic engine. Under the engine
// every function here is an intrinsic; compiled natively it replays a witness.
package nd

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"sync"
	"time"
)

// Witness is a concrete assignment found by the solver.
type Witness struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Vars    map[string]uint64 `json:"vars"`
	Choices map[string]int    `json:"choices"`
	Hashes  [][3]string       `json:"hashes"`
}

var (
	w       *Witness
	names   map[string]int
	hashes  map[string][]byte
	covers  map[string]bool
	now     int64
	allocAt uint64
	allocN  int64
	mu      sync.Mutex
)

// Failure is the panic value of a failed assertion.
type Failure struct{ Msg string }

// Stop is the panic value of a path that ends early.
type Stop struct{ Why string }

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	base := uniq("rand")
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", base, i)))
	}
	return len(b), nil
}

// Load installs a witness.
func Load(x *Witness) {
	w = x
	names = map[string]int{}
	hashes = map[string][]byte{}
	covers = map[string]bool{}
	now = 0
	allocN = 0
	for _, h := range x.Hashes {
		out, _ := hex.DecodeString(h[2])
		hashes[fmt.Sprintf("%s/%d:%s", h[0], len(out), h[1])] = out
	}
	rand.Reader = reader{}
}

// Covers lists the cover points reached.
func Covers() map[string]bool { return covers }

func uniq(name string) string {
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func val(name string) uint64 { return w.Vars[uniq(name)] }

func Bool(name string) bool  { return val(name) == 1 }
func U8(name string) uint8   { return uint8(val(name)) }
func U16(name string) uint16 { return uint16(val(name)) }
func U32(name string) uint32 { return uint32(val(name)) }
func U64(name string) uint64 { return val(name) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	out := make([]byte, n)
	base := uniq(name)
	for i := range out {
		out[i] = byte(val(fmt.Sprintf("%s[%d]", base, i)))
	}
	return out
}

// Choose returns any of 0..n-1; every value is explored.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return w.Choices[uniq("choose:"+name)]
}

// Param is a bound configured for the harness and tier.
func Param(name string) int { return w.Params[name] }

func Assume(ok bool) {
	if !ok {
		panic(Stop{"assume"})
	}
}

func Assert(ok bool, msg string) {
	if !ok {
		panic(Failure{msg})
	}
}

// AssertKnown is Assert where known describes the inputs of the known finding
// called name.
func AssertKnown(ok bool, msg, name string, known bool) {
	if !ok {
		if known {
			panic(Failure{"known:" + name + ": " + msg})
		}
		panic(Failure{msg})
	}
}

func Cover(name string) {
	mu.Lock()
	defer mu.Unlock()
	covers[name] = true
}

func Concretize(x uint64) uint64 { return x }
func Symbolic() bool             { return false }
func Skip()                      { panic(Stop{"skip"}) }
func StepLimit(n int)            {}
func MapOrders(n int)            {}
func Sched(n int)                {}
func Gosched()                   { runtime.Gosched() }
func SetNow(ms int64)            { now = ms }
func Now() time.Time             { return time.UnixMilli(now) }

func totalAlloc() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// AllocLimit makes any single later allocation above n bytes a failure.
func AllocLimit(n int) {
	allocN = int64(n)
	allocAt = totalAlloc()
}

// AllocExceeded reports whether more than the limit was allocated.
func AllocExceeded() bool { return allocN > 0 && totalAlloc()-allocAt > uint64(allocN) }

func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func Not(a bool) bool          { return !a }
func Implies(a, b bool) bool   { return !a || b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func Log(f string, a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "nd.Log: "+f+"\n", a...)
	}
}

// Hash is an ideal hash: equal outputs exactly for equal (tag, input).
func Hash(tag string, in []byte, size int) []byte { return hash(tag, in, size, false) }

// SymHash is Hash with an unconstrained output even for concrete input.
func SymHash(tag string, in []byte, size int) []byte { return hash(tag, in, size, true) }

func hash(tag string, in []byte, size int, sym bool) []byte {
	if h, ok := hashes[fmt.Sprintf("%s/%d:%x", tag, size, in)]; ok {
		return append([]byte(nil), h...)
	}
	h := sha256.New()
	h.Write([]byte("nd|" + tag + "|"))
	var b [8]byte
	binary.BigEndian.PutUint32(b[:4], uint32(size))
	h.Write(b[:])
	h.Write(in)
	seed := h.Sum(nil)
	out := append([]byte(nil), seed...)
	for i := byte(1); len(out) < size; i++ {
		x := sha256.Sum256(append(append([]byte(nil), seed...), i))
		out = append(out, x[:]...)
	}
	out = out[:size]
	zero := true
	for _, x := range out {
		if x != 0 {
			zero = false
		}
	}
	if zero && size > 0 {
		out[0] = 1
	}
	return out
}
