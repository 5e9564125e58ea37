// Package rec holds what the recording drivers share: a seeded generator of
// inputs, the JSON form of the recorded values, and guarded calls.
package rec

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/sencha-dev/powkit/internal/dag"
)

// M is one recorded call.
type M map[string]interface{}

var (
	out  = bufio.NewWriterSize(os.Stdout, 1<<20)
	enc  = json.NewEncoder(out)
	seed = envSeed()
)

func envSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough tells whether the thorough tier was asked for.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick chooses between the quick and the thorough amount.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

func Emit(m M) {
	atomic.AddInt64(&steps, 1)
	if err := enc.Encode(m); err != nil {
		panic(err)
	}
}

func Flush() { out.Flush() }

var steps int64

// Watch ends the process when nothing is recorded for a long time: the code
// under test does not come back.
func Watch() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		if n := atomic.LoadInt64(&steps); n != last {
			last, since = n, time.Now()
		}
		if time.Since(since) > time.Duration(Pick(150, 600))*time.Second {
			b := make([]byte, 1<<20)
			b = b[:runtime.Stack(b, true)]
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "github.com/sencha-dev/powkit/") && !strings.Contains(l, "zzverif") {
					os.Stderr.Write(append([]byte("no progress\n"), b...))
					os.Exit(3)
				}
			}
			since = time.Now()
		}
	}
}

// Buf collects calls.
type Buf struct{ calls []M }

func (b *Buf) Emit(m M) { atomic.AddInt64(&steps, 1); b.calls = append(b.calls, m) }

// Parallel runs independent jobs side by side and emits their calls in order.
func Parallel(jobs []func(*Buf)) {
	bufs := make([]Buf, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			jobs[i](&bufs[i])
			<-sem
		}(i)
	}
	wg.Wait()
	for i := range bufs {
		for _, m := range bufs[i].calls {
			Emit(m)
		}
	}
}

// values

func Bytes(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func W64(x uint64) []int {
	return []int{int(x & 0xffff), int(x >> 16 & 0xffff), int(x >> 32 & 0xffff), int(x >> 48)}
}

func W32(x uint32) []int { return []int{int(x & 0xffff), int(x >> 16)} }

func W32s(a []uint32) [][]int {
	r := make([][]int, len(a))
	for i, x := range a {
		r[i] = W32(x)
	}
	return r
}

func W64s(a []uint64) [][]int {
	r := make([][]int, len(a))
	for i, x := range a {
		r[i] = W64(x)
	}
	return r
}

// Rng is splitmix64.
type Rng struct{ s uint64 }

// NewRng returns the generator of a named stream of the run's seed.
func NewRng(stream string) *Rng {
	h := uint64(1469598103934665603)
	for _, c := range []byte(stream) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	r := &Rng{h ^ seed*0x9e3779b97f4a7c15}
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *Rng) U32() uint32    { return uint32(r.U64() >> 32) }
func (r *Rng) Intn(n int) int { return int(r.U64() % uint64(n)) }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 24)
	}
	return b
}

// Odd64 is a 64-bit value, often at a boundary.
func (r *Rng) Odd64() uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(70))
	case 1:
		return ^uint64(r.Intn(3))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(2))
	case 3:
		return r.U64() >> uint(r.Intn(63))
	}
	return r.U64()
}

func (r *Rng) Odd32() uint32 {
	switch r.Intn(5) {
	case 0:
		return uint32(r.Intn(70))
	case 1:
		return ^uint32(r.Intn(3))
	case 2:
		return uint32(1)<<uint(r.Intn(32)) - uint32(r.Intn(2))
	}
	return r.U32()
}

// Hash is a 32-byte input, sometimes a special one.
func (r *Rng) Hash() []byte {
	b := r.Bytes(32)
	switch r.Intn(8) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // one bit set
		for i := range b {
			b[i] = 0
		}
		b[r.Intn(32)] = 1 << uint(r.Intn(8))
	}
	return b
}

// Call runs f; a panic or a call that does not return is recorded as such.
// After a few of the latter no more calls are made.
func Call(limit time.Duration, f func() M) (res M) {
	if atomic.LoadInt32(&hangs) > 2 {
		return M{"kind": "hang"}
	}
	type reply struct{ m M }
	ch := make(chan reply, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- reply{M{"kind": "panic", "what": fmt.Sprint(p)}}
			}
		}()
		debug.SetPanicOnFault(true)
		ch <- reply{f()}
	}()
	defer atomic.AddInt64(&steps, 1)
	select {
	case r := <-ch:
		return r.m
	case <-time.After(limit):
		atomic.AddInt32(&hangs, 1)
		return M{"kind": "hang"}
	}
}

var hangs int32

// Head is the beginning of a text.
func Head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Result is the record of a call that returns byte strings and an error.
func Result(err error, outs ...[]byte) M {
	if err != nil {
		some := false
		for _, o := range outs {
			some = some || len(o) > 0
		}
		if some {
			return M{"kind": "errout"}
		}
		return M{"kind": "err"}
	}
	r := make([][]int, len(outs))
	for i, o := range outs {
		r[i] = Bytes(o)
	}
	return M{"kind": "ok", "val": r}
}

// Verdict is the record of a verification call.
func Verdict(ok bool, err error) M {
	if ok && err == nil {
		return M{"kind": "valid"}
	}
	if ok {
		return M{"kind": "both"}
	}
	return M{"kind": "invalid"}
}

// DagOf finds the DAG manager inside a client, wherever it keeps it.
func DagOf(client interface{}) *dag.DAG {
	return find(reflect.ValueOf(client), 0)
}

func find(v reflect.Value, depth int) *dag.DAG {
	if depth > 6 {
		return nil
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if v.Type() == reflect.TypeOf((*dag.DAG)(nil)) {
			return (*dag.DAG)(unsafe.Pointer(v.Pointer()))
		}
		return find(v.Elem(), depth+1)
	case reflect.Interface:
		return find(v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(dag.DAG{}) && v.CanAddr() {
			return (*dag.DAG)(unsafe.Pointer(v.UnsafeAddr()))
		}
		for i := 0; i < v.NumField(); i++ {
			if d := find(v.Field(i), depth+1); d != nil {
				return d
			}
		}
	}
	return nil
}
