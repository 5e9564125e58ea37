package main

import (
	"bytes"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sencha-dev/powkit/internal/zzverif/rec"
	"github.com/sencha-dev/powkit/internal/zzverif/yield"
)

// name of a stored file: chain, kind and epoch
type name struct {
	chain int
	kind  string
	epoch int
}

type mapping struct {
	addr   uintptr
	length int64
	path   string
	id     int // number of the map event, 0 when none was recorded
}

// tracker watches the file operations below its root directory.
type tracker struct {
	mu    sync.Mutex
	root  string // everything of interest is below
	alias string // another path of root, not watched
	dir   string // storage directory of the current run
	fds   sync.Map
	maps  map[uintptr]*mapping

	names   map[string]name   // file name -> what it is for
	good    map[string][]byte // file name -> complete content
	foreign map[string][]byte // files of the run that are nobody's

	run    *run
	last   string              // last directory state recorded
	sure   map[string][4]int64 // files known to be good
	nmaps  int
	made   map[string]rec.M // temporary file -> the event of its creation
	opened map[int]rec.M    // descriptor -> the event of its opening

	// what to do at the points between statements and system calls
	count   int64
	killAt  int64
	pauseAt int64
	paused  chan bool
	resume  chan bool
	freeze  func() // stops the whole process and waits
	noise   uint64
	collect bool // force collections
	poison  bool // turn released mappings into inaccessible memory
	visits  [1 << 14]int32

	// failing operations: index counted from 1 among the interesting ones
	ops     int
	opNames []string
	failAt  map[int]bool
	failAll string
	nfailed int
}

var tr *tracker

func install(root string) *tracker {
	fd, err := syscall.Open(root, syscall.O_RDONLY|syscall.O_DIRECTORY|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	tr = &tracker{sure: map[string][4]int64{}, root: root, alias: "/proc/self/fd/" + itoa(fd), maps: map[uintptr]*mapping{}}
	syscall.VerifHook = tr.hook
	yield.Hook = tr.point
	return tr
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func (t *tracker) below(path string) bool {
	return strings.HasPrefix(path, t.root+"/") || path == t.root
}

// aliased is a path to the same file that is not watched.
func (t *tracker) aliased(path string) string { return t.alias + strings.TrimPrefix(path, t.root) }

func (t *tracker) reset(r *run, dir string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.run, t.dir, t.last, t.nmaps = r, dir, "", 0
	t.count, t.killAt, t.pauseAt, t.noise, t.collect, t.poison = 0, 0, 0, 0, false, false
	t.ops, t.opNames, t.failAt, t.failAll, t.nfailed = 0, nil, nil, "", 0
	t.paused, t.resume, t.freeze = make(chan bool), make(chan bool), nil
	t.foreign, t.made = nil, map[string]rec.M{}
	t.sure = map[string][4]int64{}
	t.opened = map[int]rec.M{}
	for i := range t.visits {
		t.visits[i] = 0
	}
}

// point is a place between two statements.
func (t *tracker) point(id int) {
	r := t.run
	if r == nil {
		return
	}
	n := atomic.AddInt64(&t.count, 1)
	t.stop(n)
	v := atomic.AddInt32(&t.visits[id%len(t.visits)], 1)
	if v <= 3 || v%64 == 0 {
		if t.dir != "" && !t.poison {
			t.mu.Lock()
			if t.run == r {
				t.snap(r, false)
			}
			t.mu.Unlock()
		}
		if t.collect {
			runtime.GC()
			time.Sleep(300 * time.Microsecond)
		}
	}
	if t.noise != 0 {
		x := (uint64(n)*0x9e3779b97f4a7c15 ^ t.noise) * 0xbf58476d1ce4e5b9
		switch x >> 60 {
		case 0, 1, 2, 3:
			runtime.Gosched()
		case 4:
			if v < 200 {
				time.Sleep(time.Duration(x>>40&0xff) * time.Microsecond)
			}
		}
	}
}

func (t *tracker) stop(n int64) {
	if n == atomic.LoadInt64(&t.killAt) {
		// nothing is under way that has not been recorded
		t.mu.Lock()
		if t.run != nil {
			t.snap(t.run, false)
		}
		syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
		select {}
	}
	if n == atomic.LoadInt64(&t.pauseAt) {
		if t.freeze != nil {
			t.mu.Lock()
			if t.run != nil {
				t.snap(t.run, false)
			}
			t.freeze()
			// what others did meanwhile is not this process's doing
			t.last = key(t.look())
			t.mu.Unlock()
			return
		}
		close(t.paused)
		<-t.resume
	}
}

// fresh lets points count from the beginning.
func (t *tracker) fresh() {
	for i := range t.visits {
		atomic.StoreInt32(&t.visits[i], 0)
	}
}

func mutating(op *syscall.VerifOp) bool {
	switch op.Op {
	case "open":
		return op.Flags&(syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY|syscall.O_RDWR) != 0
	case "remove", "rename", "mkdir", "truncate", "write", "link":
		return true
	}
	return false
}

var failing = map[string]syscall.Errno{"open": syscall.EMFILE, "remove": syscall.EIO, "rename": syscall.EIO, "mkdir": syscall.EACCES,
	"truncate": syscall.ENOSPC, "mmap": syscall.ENOMEM, "munmap": syscall.EINVAL, "mlock": syscall.ENOMEM, "close": syscall.EIO,
	"stat": syscall.EIO, "write": syscall.ENOSPC, "read": syscall.EIO, "fsync": syscall.EIO, "link": syscall.EIO, "msync": syscall.EIO}

func (t *tracker) hook(op *syscall.VerifOp, do func()) {
	abs := func(p string) string {
		if p != "" && !filepath.IsAbs(p) {
			if wd, err := syscall.Getwd(); err == nil {
				p = filepath.Join(wd, p)
			}
		}
		if p != "" {
			p = filepath.Clean(p)
		}
		if t.below(p) { // see spell
			p = strings.Replace(p+"/", "-link/", "/", 1)
			p = strings.TrimSuffix(p, "/")
		}
		return p
	}
	path, path2 := abs(op.Path), abs(op.Path2)
	var m *mapping
	began := t.run
	if path == "" && op.Fd >= 0 {
		if p, ok := t.fds.Load(op.Fd); ok {
			path = p.(string)
		}
	}
	if (op.Op == "munmap" || op.Op == "mlock") && t.run != nil {
		t.mu.Lock()
		m = t.maps[op.Addr]
		t.mu.Unlock()
		if m != nil {
			path = m.path
		}
	}
	if !t.below(path) && !t.below(path2) {
		r := t.run
		if r != nil && op.Path != "" && mutating(op) && path != os.DevNull && !strings.HasPrefix(path, "/proc/") {
			r.add(rec.M{"ev": "outside", "op": op.Op, "path": path})
			op.Err = syscall.EACCES // and do not let it happen
			return
		}
		do()
		return
	}
	if op.Op == "close" {
		t.fds.Delete(op.Fd)
	}
	if t.run == nil {
		do()
		if op.Op == "open" && op.Err == nil {
			t.fds.Store(int(op.Ret), path)
		}
		return
	}
	n := atomic.AddInt64(&t.count, 1)
	t.stop(n)
	g := goid()
	t.mu.Lock()
	defer t.mu.Unlock()
	r := t.run
	if r == nil || r != began {
		do() // something left over from the run before
		return
	}
	t.ops++
	t.opNames = append(t.opNames, op.Op)
	inject := t.failAt[t.ops] || t.failAll == op.Op && t.failAll != ""
	if inject {
		e := rec.M{"ev": "fault", "op": op.Op, "by": r.actor(g), "about": []interface{}{0, "", 0}}
		if nm, known := t.names[filepath.Base(path)]; known && filepath.Dir(path) == t.dir {
			e["about"] = []interface{}{nm.chain, nm.kind, nm.epoch}
		}
		r.addLocked(e)
		t.nfailed++
		if op.Op == "close" || op.Op == "munmap" {
			do() // they take effect even when they report an error
		}
		op.Err = failing[op.Op]
		if op.Err == nil {
			op.Err = syscall.EIO
		}
	}
	if op.Op == "open" && op.Flags&(syscall.O_NONBLOCK|syscall.O_RDWR) == 0 {
		if st, err := os.Stat(t.aliased(path)); err == nil && st.Mode()&os.ModeNamedPipe != 0 {
			// nobody will ever come to the other end
			r.addLocked(rec.M{"ev": "blocks", "path": path})
			op.Err = syscall.EIO
			return
		}
	}
	if !inject {
		if op.Op == "munmap" && m != nil && t.poison && (m.id > 0 || r.mute) {
			// never give the addresses away, so that a late read is noticed
			syscall.Syscall6(syscall.SYS_MMAP, op.Addr, uintptr(op.Len), 0, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_FIXED, ^uintptr(0), 0)
		} else {
			do()
		}
	}
	ok := op.Err == nil
	switch op.Op {
	case "open":
		if ok && t.inDir(path) {
			t.fds.Store(int(op.Ret), path)
			delete(t.opened, int(op.Ret))
			f := filepath.Base(path)
			if nm, known := t.names[f]; known && op.Flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 && !r.unseen && !r.mute && filepath.Dir(path) == t.dir && t.status(f) == "good" {
				// becomes a map event when the file is mapped
				e := rec.M{"ev": "skip", "chain": nm.chain, "k": nm.kind, "e": nm.epoch, "by": r.actor(g)}
				t.opened[int(op.Ret)] = e
				r.addLocked(e)
			}
		}
	case "mmap":
		if ok {
			x := &mapping{addr: uintptr(op.Ret), length: op.Len, path: path}
			if e := t.opened[op.Fd]; e != nil && op.Prot&syscall.PROT_WRITE == 0 {
				delete(t.opened, op.Fd)
				t.nmaps++
				x.id = t.nmaps + r.first
				e["ev"], e["id"] = "map", x.id
			}
			t.maps[x.addr] = x
		}
	case "munmap":
		if m != nil && (ok || inject) {
			delete(t.maps, op.Addr)
			if m.id > 0 {
				r.addLocked(rec.M{"ev": "unmap", "id": m.id})
			}
		}
	}
	if mutating(op) {
		out := ""
		if op.Op != "mkdir" && !t.inDir(path) && path != "" {
			out = path
		}
		if (op.Op == "rename" || op.Op == "link") && !t.inDir(path2) {
			out = path2
		}
		if out != "" && !r.mute {
			r.addLocked(rec.M{"ev": "outside", "op": op.Op, "path": out})
		}
		if e := t.snap(r, false); e != nil && ok {
			e["by"] = r.actor(g)
			t.subject(op.Op, path, path2, e)
		}
	}
}

// subject finds out which file a change is about: a temporary file is told by
// the name it gets in the end.
func (t *tracker) subject(op, path, path2 string, e rec.M) {
	set := func(e rec.M, f string) bool {
		nm, ok := t.names[f]
		if ok {
			e["about"] = []interface{}{nm.chain, nm.kind, nm.epoch}
		}
		return ok
	}
	f := filepath.Base(path)
	if op == "rename" || op == "link" {
		if set(e, filepath.Base(path2)) && t.made[f] != nil {
			set(t.made[f], filepath.Base(path2))
		}
		return
	}
	if !set(e, f) && op == "open" {
		t.made[f] = e
	}
}

func (t *tracker) inDir(path string) bool { return t.dir != "" && strings.HasPrefix(path, t.dir+"/") }

// status of a known file name in the storage directory
func (t *tracker) status(f string) string {
	p := t.aliased(filepath.Join(t.dir, f))
	st, err := os.Lstat(p)
	if err != nil {
		return "none"
	}
	if st.IsDir() {
		if ents, err := os.ReadDir(p); err == nil && len(ents) == 0 {
			return "stuck"
		}
		return "full"
	}
	if !st.Mode().IsRegular() {
		return "junk"
	}
	// a good file is not read again as long as it looks the same
	id := [4]int64{st.Size(), st.ModTime().UnixNano()}
	if x, ok := st.Sys().(*syscall.Stat_t); ok {
		id[2], id[3] = int64(x.Ino), x.Ctim.Nano()
	}
	if t.sure[p] == id {
		return "good"
	}
	b, err := os.ReadFile(p)
	if err == nil && bytes.Equal(b, t.good[f]) {
		t.sure[p] = id
		return "good"
	}
	return "junk"
}

// look describes the storage directory.
func (t *tracker) look() (files [][]interface{}, temps int, foreign bool) {
	files, foreign = [][]interface{}{}, true
	if t.dir == "" {
		return
	}
	ents, _ := os.ReadDir(t.aliased(t.dir))
	seen := 0
	for _, e := range ents {
		f := e.Name()
		if nm, ok := t.names[f]; ok {
			if s := t.status(f); s != "none" {
				files = append(files, []interface{}{nm.chain, nm.kind, nm.epoch, s})
			}
			continue
		}
		if want, ok := t.foreign[f]; ok {
			seen++
			got, err := os.ReadFile(t.aliased(filepath.Join(t.dir, f)))
			if want != nil && (err != nil || !bytes.Equal(got, want)) {
				foreign = false
			}
			continue
		}
		if e.IsDir() {
			foreign = false
		} else {
			temps++
		}
	}
	if seen != len(t.foreign) {
		foreign = false
	}
	return
}

// snap records the directory when it has changed.
func (t *tracker) snap(r *run, always bool) rec.M {
	if r.mute {
		return nil
	}
	files, temps, foreign := t.look()
	s := key(files, temps, foreign)
	if s == t.last && !always {
		return nil
	}
	t.last = s
	e := rec.M{"ev": "dir", "files": files, "temps": temps, "foreign": foreign, "about": []interface{}{0, "", 0}, "by": 0}
	r.addLocked(e)
	return e
}

func key(files [][]interface{}, temps int, foreign bool) string {
	var b strings.Builder
	for _, f := range files {
		b.WriteString(itoa(f[0].(int)) + f[1].(string) + itoa(f[2].(int)) + f[3].(string) + " ")
	}
	b.WriteString(itoa(temps))
	if !foreign {
		b.WriteString("!")
	}
	return b.String()
}

// open descriptors and mappings of files in the storage directory
func (t *tracker) resources() (fds, maps int) {
	t.fds.Range(func(k, v interface{}) bool {
		if t.inDir(v.(string)) {
			fds++
		}
		return true
	})
	return fds, len(t.maps)
}

// goid is the number of the running goroutine.
func goid() int {
	var b [64]byte
	n := 0
	for _, c := range b[:runtime.Stack(b[:], false)][len("goroutine "):] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return n
}
