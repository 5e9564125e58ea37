package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

// run is one history of managers and what was seen of it.
type run struct {
	Op      string          `json:"op"`
	Cfg     []rec.M         `json:"cfg"`
	Files   [][]interface{} `json:"files"`
	Threads int             `json:"threads"`
	Litter  int             `json:"litter"`
	Unseen  bool            `json:"unseen"`
	Events  []rec.M         `json:"events"`
	Note    rec.M           `json:"note"`

	unseen bool
	ids    map[[3]uintptr]int
	actors map[int]int // goroutine -> thread of the run, or a number above those
	keep   []interface{}
	nact   int
	noids  bool
	mute   bool // storage is not recorded
	first  int  // identities, actors and mappings are numbered from here
	dead   bool
	sink   int // descriptor to write events to at once, or 0
	mgrs   []*dag.DAG
	base   int
	dir    string
}

func (r *run) addLocked(e rec.M) {
	r.Events = append(r.Events, e)
	if r.sink > 0 {
		b, _ := json.Marshal(e)
		b = append(b, '\n')
		syscall.Syscall(syscall.SYS_WRITE, uintptr(r.sink), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
	}
}

// actor tells who a goroutine is; the lock is held.
func (r *run) actor(g int) int {
	if r.actors[g] == 0 {
		r.nact++
		r.actors[g] = r.Threads + r.first + r.nact
	}
	return r.actors[g]
}

func (r *run) add(e rec.M) {
	tr.mu.Lock()
	r.addLocked(e)
	tr.mu.Unlock()
}

// params of a manager in a run
type params struct {
	chain int
	n     int
	disk  bool
	l1    bool
	lock  bool
}

const (
	epochLength = 10
	l1Items     = 64
)

// chainNames are the chains of a run: number -> name and revision
var chains = []struct {
	name     string
	revision int
	seedLen  uint64
	growth   uint64
}{{"AAA", 1, epochLength, 128}, {"AAA", 2, epochLength, 128}, {"BBB", 1, epochLength, 128}, {"AA", 1, epochLength / 2, 128}, {"AAA", 12, epochLength, 128}, {"AAAR", 1, epochLength, 128},
	{"aaa", 1, epochLength, 128}, {"AAA1", 2, epochLength, 128}, {"AAA-R1", 1, epochLength, 128},
	{"FAR", 1, epochLength, 0}}

// the last chain has small data in its far epochs, too; scenarios of several
// chains do without it
var nchains, farChain = len(chains) - 1, len(chains) - 1

func config(p params, dir string) dag.Config {
	c := dag.Config{
		Name: chains[p.chain].name, Revision: chains[p.chain].revision, StorageDir: "",
		DatasetInitBytes: 1 << 13, DatasetGrowthBytes: 1 << 8, CacheInitBytes: 1024, CacheGrowthBytes: chains[p.chain].growth,
		MixBytes: 128, DatasetParents: 4, EpochLength: epochLength, SeedEpochLength: chains[p.chain].seedLen,
		CacheRounds: 2, CachesCount: p.n, CachesLockMmap: p.lock,
		L1Enabled: p.l1, L1CacheSize: l1Items * 4, L1CacheNumItems: l1Items,
	}
	if p.disk {
		c.StorageDir = spell(dir)
	}
	return c
}

// stores are the last parts of the names of storage directories.
var stores = []string{"store", "st ore", "store*[a-z]?", ".store", "störe", "store.tmp", "store.1234567", "AAA", "%d%s"}

// spell is one of the ways to name a storage directory, always the same one
// for the same directory: plainly, with a slash at the end or too many in
// between, with a detour, relative to the working directory, by a link.
func spell(dir string) string {
	parent, base := filepath.Split(dir)
	parent = strings.TrimSuffix(parent, "/")
	n := 0
	fmt.Sscanf(filepath.Base(parent), "d%d", &n)
	switch n % 8 {
	case 3:
		return dir + "/"
	case 4:
		return parent + "//" + base
	case 5:
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, dir); err == nil {
				return rel
			}
		}
	case 6:
		return parent + "/../" + filepath.Base(parent) + "/./" + base
	case 7:
		os.Mkdir(parent, 0755)
		os.Symlink(filepath.Base(parent), parent+"-link")
		return parent + "-link/" + base
	}
	return dir
}

func words(b []uint32) []byte {
	o := make([]byte, 4*len(b))
	for i, x := range b {
		binary.LittleEndian.PutUint32(o[4*i:], x)
	}
	return o
}

type truth struct{ cache, l1 []byte }

var (
	truths   = map[[2]int]truth{} // chain, epoch
	topEpoch = 13
	scratch  string
	dirs     int
)

// learn finds out what the data of every epoch is and how it is stored: a
// manager that keeps nothing tells the data, a directory used for that epoch
// alone tells the names.
func learn(nchains, top int) (err error) {
	topEpoch = top
	var chs, eps []int
	for ch := 0; ch < nchains; ch++ {
		chs = append(chs, ch)
	}
	for e := 0; e <= top; e += 2 {
		eps = append(eps, e)
	}
	return learnThe(chs, eps, eps)
}

// learnThe learns the data of the epochs eps and those that follow them, and
// the names of stored ones.
func learnThe(chs, eps, stored []int) (err error) {
	res := rec.Call(120*time.Second, func() rec.M {
		err = learnAll(chs, eps, stored)
		return rec.M{"done": true}
	})
	if k, bad := res["kind"]; bad {
		return fmt.Errorf("%v while learning: %v", k, res["what"])
	}
	return err
}

func learnAll(chs, eps, stored []int) error {
	tr.names, tr.good = map[string]name{}, map[string][]byte{}
	base := working()
	for _, ch := range chs {
		for _, x := range eps {
			for e := x; e < x+2; e++ {
				if _, known := truths[[2]int{ch, e}]; !known {
					c := dag.New(config(params{chain: ch, n: 3, l1: true}, "")).GetCache(uint64(e))
					truths[[2]int{ch, e}] = truth{words(c.Cache()), words(c.L1())}
				}
			}
		}
		for _, e := range stored {
			dir := newDir()
			settle(base)
			dag.New(config(params{chain: ch, n: 100000, disk: true, l1: true}, dir)).GetCache(uint64(e))
			settle(base)
			ents, _ := os.ReadDir(dir)
			found := 0
			for _, ent := range ents {
				b, _ := os.ReadFile(filepath.Join(dir, ent.Name()))
				for d := 0; d < 2; d++ {
					t := truths[[2]int{ch, e + d}]
					for _, k := range []string{"c", "l"} {
						want := t.cache
						if k == "l" {
							want = t.l1
						}
						if bytes.HasSuffix(b, want) && len(b) < len(want)+64 {
							found++
							n := name{ch + 1, k, e + d}
							if old, clash := tr.names[ent.Name()]; clash && old != n {
								clashes = append(clashes, ent.Name())
							}
							tr.names[ent.Name()] = n
							tr.good[ent.Name()] = b
							fileOf[n] = ent.Name()
						}
					}
				}
			}
			os.RemoveAll(dir)
			if found != 4 {
				return fmt.Errorf("preparing epoch %d of chain %d stored %d of 4 files (%d files in the directory)", e, ch, found, len(ents))
			}
		}
	}
	return nil
}

var (
	clashes []string
	fileOf  = map[name]string{}
)

func newDir() string {
	dirs++
	d := filepath.Join(scratch, fmt.Sprintf("d%d", dirs), stores[dirs%len(stores)])
	return d
}

// ownPrefix begins the names of the functions under test.
const ownPrefix = "github.com/sencha-dev/powkit/internal/dag"

// floor is the number of goroutines that are there before anything is done.
var floor int

// busy counts the goroutines that have something to do with the code under
// test, and those among them that do not just wait for work to be handed over.
func busy() (all, active int) {
	if runtime.NumGoroutine() <= floor {
		return
	}
	b := make([]byte, 1<<16)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	for _, g := range strings.Split(string(b), "\n\n") {
		if !strings.Contains(g, ownPrefix) || strings.Contains(g, "runtime.runFinalizers") || strings.Contains(g, "runtime.runfinq") || strings.Contains(g, "runtime.runCleanups") {
			continue
		}
		all++
		head := g[:strings.Index(g+"\n", "\n")]
		if !strings.Contains(head, "[chan receive") && !strings.Contains(head, "[select") && !strings.Contains(head, "[sync.Cond.Wait") {
			active++
		}
	}
	return
}

// working counts the goroutines of the code under test.
func working() int { n, _ := busy(); return n }

// settle waits until the background work is done.
func settle(base int) bool {
	idle, count := 0, int64(-1)
	for i := 0; i < 20000; i++ {
		all, active := busy()
		if all <= base {
			return true
		}
		// those that wait for work need not go away
		if n := atomic.LoadInt64(&tr.count); active > 0 || n != count {
			idle, count = 0, n
		} else if idle++; idle > 100 {
			return true
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(500 * time.Microsecond)
		}
	}
	return false
}

// start begins a run.  prepare may fill the storage directory.
func start(op string, ps []params, threads int, prepare func(dir string)) *run {
	return startIn(newDir(), op, ps, threads, prepare)
}

func startIn(dir, op string, ps []params, threads int, prepare func(dir string)) *run {
	r := &run{Op: op, Threads: threads, ids: map[[3]uintptr]int{}, actors: map[int]int{}, Note: rec.M{}}
	r.dir = dir
	if prepare != nil {
		if err := os.MkdirAll(dir, 0755); err != nil {
			panic(err)
		}
		prepare(dir)
	}
	disk := false
	for _, p := range ps {
		kinds := []string{"c"}
		if p.l1 {
			kinds = append(kinds, "l")
		}
		r.Cfg = append(r.Cfg, rec.M{"chain": p.chain + 1, "n": p.n, "disk": p.disk, "kinds": kinds})
		r.mgrs = append(r.mgrs, dag.New(config(p, dir)))
		disk = disk || p.disk
	}
	r.base = working()
	d := dir
	if !disk {
		d = ""
	}
	tr.reset(nil, d)
	return r
}

// arm starts watching; call it after setting what is to happen.
func (r *run) arm() {
	tr.mu.Lock()
	files, temps, foreign := tr.look()
	if r.Files == nil {
		r.Files = files
		r.Litter = temps
	}
	tr.last = key(files, temps, foreign)
	r.Unseen = r.unseen
	tr.maps = map[uintptr]*mapping{}
	tr.run = r
	tr.mu.Unlock()
}

type cacheData interface {
	Cache() []uint32
	L1() []uint32
}

func ptr(a []uint32) uintptr {
	if len(a) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&a[0]))
}

// right compares data with what it has to be.
func right(c cacheData, p params, e int) bool {
	t := truths[[2]int{p.chain, e}]
	if !bytes.Equal(words(c.Cache()), t.cache) {
		return false
	}
	if p.l1 {
		return bytes.Equal(words(c.L1()), t.l1)
	}
	return len(c.L1()) == 0
}

// request asks manager m (from 1) for epoch e on behalf of thread t (from 1).
func (r *run) request(t, m, e int, p params) cacheData { return r.requestHold(t, m, e, p, 0) }

// requestHold: when h is not 0, the data is kept by the user under that number.
func (r *run) requestHold(t, m, e int, p params, h int) cacheData {
	r.add(rec.M{"ev": "call", "t": t, "m": m, "e": e})
	var c cacheData
	res := rec.Call(30*time.Second, func() rec.M {
		g := goid()
		tr.mu.Lock()
		r.actors[g] = t
		tr.mu.Unlock()
		x := r.mgrs[m-1].GetCache(uint64(e))
		c = x
		id := [3]uintptr{uintptr(unsafe.Pointer(x)), ptr(x.Cache()), ptr(x.L1())}
		ok := right(x, p, e)
		n := 0
		tr.mu.Lock()
		if !r.noids {
			n = r.ids[id]
			if n == 0 {
				n = len(r.ids) + 1 + r.first
				r.ids[id] = n
			}
			r.keep = append(r.keep, x)
		}
		if h != 0 {
			r.addLocked(rec.M{"ev": "hold", "t": t, "h": h})
		}
		tr.mu.Unlock()
		return rec.M{"ev": "ret", "t": t, "obj": n, "ok": ok}
	})
	if k, bad := res["kind"]; bad {
		what, _ := res["what"].(string)
		res = rec.M{"ev": k, "t": t, "what": what}
		r.dead = r.dead || k == "hang"
		c = nil
	} else if h == 0 {
		c = nil
	}
	r.add(res)
	return c
}

// quiet waits for background work and records the state of rest.
func (r *run) quiet(collected bool) {
	if r.dead {
		return
	}
	if !settle(r.base) {
		r.add(rec.M{"ev": "hang", "what": "background work does not end"})
		r.dead = true
		return
	}
	if collected {
		last := -1
		for i := 0; i < 50; i++ {
			runtime.GC()
			time.Sleep(2 * time.Millisecond)
			tr.mu.Lock()
			_, n := tr.resources()
			tr.mu.Unlock()
			if n == last && i > 4 {
				break
			}
			last = n
		}
	}
	// a mapping that goes away now may have its descriptor closed next
	for i := 0; i < 300; i++ {
		tr.mu.Lock()
		fds, maps := tr.resources()
		tr.mu.Unlock()
		if fds <= maps {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	tr.mu.Lock()
	defer tr.mu.Unlock()
	tr.sure = map[string][4]int64{}
	files, temps, foreign := tr.look()
	fds, maps := tr.resources()
	r.addLocked(rec.M{"ev": "quiet", "files": files, "temps": temps, "foreign": foreign, "fds": fds, "maps": maps, "collected": collected})
}

// finish ends a run, removes its directory and writes it out.
func (r *run) finish() {
	tr.mu.Lock()
	tr.run = nil
	r.Note["points"] = tr.count
	tr.mu.Unlock()
	os.RemoveAll(filepath.Dir(r.dir))
	os.Remove(filepath.Dir(r.dir) + "-link")
	emit(r)
	if r.dead {
		// the state of this process cannot be trusted any more
		rec.Flush()
		os.Exit(0)
	}
}

func emit(r *run) {
	if r.Files == nil {
		r.Files = [][]interface{}{}
	}
	if r.Events == nil {
		r.Events = []rec.M{}
	}
	kept := []rec.M{}
	open := map[interface{}]rec.M{}
	for _, e := range r.Events {
		switch e["ev"] {
		case "call":
			e["obj"] = 0
			open[e["t"]] = e
		case "ret":
			// the request's event tells beforehand what will be returned
			open[e["t"]]["obj"] = e["obj"]
		}
	}
	for _, e := range r.Events {
		if e["ev"] != "skip" {
			kept = append(kept, e)
		}
	}
	r.Events = kept
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	var m rec.M
	json.Unmarshal(b, &m)
	rec.Emit(m)
	rec.Flush() // this process may die in the next run
	atomic.AddInt64(&emitted, 1)
}

// emitted counts the runs written out.
var emitted int64

// watchdog ends the process when no run comes to an end for a long time.
func watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		if n := atomic.LoadInt64(&emitted); n != last {
			last, since = n, time.Now()
		}
		if time.Since(since) > 240*time.Second {
			b := make([]byte, 1<<20)
			os.Stderr.Write(append([]byte("no progress\n"), b[:runtime.Stack(b, true)]...))
			os.Exit(3)
		}
	}
}
