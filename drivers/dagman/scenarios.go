package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

func ready(nchains, top int) bool {
	if err := learn(nchains, top); err != nil {
		broken(err)
		return false
	}
	return true
}

// put stores the file of chain (from 0), kind and epoch.
func put(dir string, n name) {
	f := fileOf[n]
	if err := os.WriteFile(filepath.Join(dir, f), tr.good[f], 0644); err != nil {
		panic(err)
	}
}

func kindsOf(p params) []string {
	if p.l1 {
		return []string{"c", "l"}
	}
	return []string{"c"}
}

// truth12 tells the data of epochs in the form of spec/check/C12.tla.
func truth12() {
	for ch := 0; ch < nchains; ch++ {
		for e := 0; e <= rec.Pick(13, 40); e++ {
			for _, disk := range []bool{false, true} {
				dir := newDir()
				cfg := config(params{chain: ch, n: 3, l1: true, disk: disk}, dir)
				c := dag.New(cfg).GetCache(uint64(e))
				j := rec.M{"elf": []int{epochLength}, "q": epochLength / int(cfg.SeedEpochLength), "ci": 16, "cg": 2, "di": 64, "dg": 2, "rounds": 2, "parents": 4, "l1": l1Items}
				rec.Emit(rec.M{"op": "cache", "cfg": j, "epoch": e, "res": rec.M{"kind": "ok", "val": rec.W32s(c.Cache())}})
				rec.Emit(rec.M{"op": "l1", "cfg": j, "epoch": e, "res": rec.M{"kind": "ok", "val": rec.W32s(c.L1())}})
				time.Sleep(time.Millisecond)
				os.RemoveAll(filepath.Dir(dir))
			}
		}
	}
}

// restarts lets several managers use one directory one after the other.
func restarts() {
	if !ready(1, 13) {
		return
	}
	g := rec.NewRng("restarts")
	for i := 0; i < rec.Pick(120, 2000); i++ {
		var ps []params
		for m := 0; m < 1+g.Intn(4); m++ {
			ps = append(ps, params{n: 1 + g.Intn(3), disk: i%8 != 0, l1: g.Intn(2) == 0, lock: g.Intn(4) == 0})
		}
		r := start("restarts", ps, 1, func(dir string) {
			for e := 0; e <= topEpoch; e++ {
				for _, k := range []string{"c", "l"} {
					if g.Intn(5) == 0 {
						put(dir, name{1, k, e})
					}
				}
			}
		})
		r.arm()
		span := 2 + g.Intn(topEpoch-1)
		for m, p := range ps {
			for k := 0; k < 1+g.Intn(4); k++ {
				r.request(1, m+1, g.Intn(span), p)
				if g.Intn(3) > 0 {
					r.quiet(false)
				}
			}
			r.quiet(false)
		}
		r.finish()
	}
}

// far asks for epochs that are far apart, by powers of two above all.
func far() {
	var stored []int
	top := rec.Pick(530, 1100)
	for e := 0; e < top; e += 2 {
		stored = append(stored, e)
	}
	eps := append([]int{}, stored...)
	remote := []int{0, 1, 2, 254, 255, 256, 257, 258, 511, 512, 513, 65534, 65535, 65536, 65537, 65792}
	for _, e := range remote {
		eps = append(eps, e, e+1)
	}
	if err := learnThe([]int{farChain}, eps, stored); err != nil {
		broken(err)
		return
	}
	topEpoch = top - 1
	g := rec.NewRng("far")
	for i := 0; i < rec.Pick(16, 100); i++ { // in memory
		p := params{chain: farChain, n: 1 + g.Intn(3)}
		r := start("far", []params{p}, 1, nil)
		r.arm()
		for k := 0; k < 3+g.Intn(4); k++ {
			r.request(1, 1, remote[g.Intn(len(remote))], p)
			if g.Intn(3) > 0 {
				r.quiet(false)
			}
		}
		r.quiet(false)
		r.finish()
	}
	bases := []int{16, 64, 128, 256, 512}
	if rec.Thorough() {
		bases = append(bases, 1000, 1024)
	}
	for i := 0; i < rec.Pick(16, 100); i++ { // stored
		p := params{chain: farChain, n: []int{1, 2, 3, 16, 255, 256, 257}[g.Intn(7)], disk: true, l1: g.Intn(2) == 0}
		near := g.Intn(4)
		var some []int
		for _, b := range bases {
			for _, e := range []int{near, near + 1, near + b - 1, near + b, near + b + 1} {
				some = append(some, e)
			}
		}
		r := start("far", []params{p}, 1, func(dir string) {
			for k := 0; k < 6; k++ {
				put(dir, name{farChain + 1, []string{"c", "l"}[g.Intn(2)], some[g.Intn(len(some))]})
			}
		})
		r.arm()
		if i == 0 {
			r.add(rec.M{"ev": "names", "list": nameList()})
		}
		for k := 0; k < 1+g.Intn(3); k++ {
			r.request(1, 1, some[g.Intn(len(some))], p)
			r.quiet(false)
		}
		r.finish()
	}
}

// nameList tells the names that have been seen, and those of different data
// twice.
func nameList() (list [][]interface{}) {
	for n, f := range fileOf {
		list = append(list, []interface{}{f, n.chain, n.kind, n.epoch})
	}
	sort.Slice(list, func(i, j int) bool { return list[i][0].(string) < list[j][0].(string) })
	for _, c := range clashes {
		list = append(list, []interface{}{c, 0, "", 0})
	}
	return
}

// during runs f while the goroutine that reaches point k stands still; f may
// turn out to have to wait for it.
func during(r *run, k int64, first, second func()) {
	tr.pauseAt = k
	done1, done2 := make(chan bool), make(chan bool)
	go func() { first(); close(done1) }()
	select {
	case <-tr.paused:
	case <-done1:
	case <-time.After(20 * time.Second):
	}
	go func() { second(); close(done2) }()
	wait := 15 * time.Millisecond
	for {
		n := tr.count
		select {
		case <-done2:
		case <-time.After(wait):
			if tr.count != n {
				continue // still doing something
			}
		}
		break
	}
	close(tr.resume)
	<-done1
	<-done2
}

// pauses stops a request at every point and lets another one run meanwhile.
func pauses() {
	if !ready(1, 13) {
		return
	}
	type plan struct {
		p    params
		pre  []int
		a, b []int
	}
	plans := []plan{
		{params{n: 2}, nil, []int{1}, []int{1}},
		{params{n: 1}, nil, []int{1}, []int{2, 1}},
		{params{n: 2}, []int{0}, []int{1}, []int{1, 2}},
		{params{n: 1}, []int{1}, []int{0}, []int{1, 0}},
		{params{n: 2, disk: true}, nil, []int{1}, []int{1}},
		{params{n: 1, disk: true, l1: true}, nil, []int{2}, []int{2, 3}},
		{params{n: 1, disk: true}, []int{0}, []int{1}, []int{2, 1}},
		// one that is being made is not the oldest
		{params{n: 2}, []int{0}, []int{4}, []int{8, 4}},
		{params{n: 3, disk: true}, []int{0, 2}, []int{6}, []int{9, 0, 6}},
		{params{n: 2}, []int{4, 0}, []int{4}, []int{8, 4, 0}},
	}
	r := rec.NewRng("pauses")
	for _, pl := range plans {
		points := int64(1 << 30)
		step := int64(1)
		for k := int64(0); k <= points; {
			x := start("pauses", []params{pl.p}, 2, nil)
			x.Note["at"] = k
			x.arm()
			for _, e := range pl.pre {
				x.request(1, 1, e, pl.p)
				x.quiet(false)
			}
			if k == 0 {
				// how many points there are
				n := tr.count
				for _, e := range pl.a {
					x.request(1, 1, e, pl.p)
				}
				x.quiet(false)
				points = tr.count - n
				step = points/int64(rec.Pick(24, 400)) + 1
				x.finish()
				k = 1 + int64(r.Intn(int(step)))
				continue
			}
			during(x, tr.count+k, func() {
				for _, e := range pl.a {
					x.request(1, 1, e, pl.p)
				}
			}, func() {
				for _, e := range pl.b {
					x.request(2, 1, e, pl.p)
				}
			})
			x.quiet(false)
			x.finish()
			if k < 40 && step > 3 {
				k += 1 + int64(r.Intn(3)) // the locked section is at the beginning
			} else {
				k += 1 + int64(r.Intn(int(2*step)))
			}
		}
	}
}

// ------------------------------------------------------------------ processes

// childJob is what another process is to do.
type childJob struct {
	P     params
	L1    bool
	Disk  bool
	N     int
	Lock  bool
	Dir   string
	Reqs  []int
	M, T  int
	NT    int
	First int
	Kill  int64
	Pause int64
}

type learned struct {
	Names []struct {
		F    string
		C    int
		K    string
		E    int
		Good []byte
	}
	Truths []struct {
		C, E      int
		Cache, L1 []byte
	}
	Top int
}

func saveLearned() string {
	var l learned
	for f, n := range tr.names {
		l.Names = append(l.Names, struct {
			F    string
			C    int
			K    string
			E    int
			Good []byte
		}{f, n.chain, n.kind, n.epoch, tr.good[f]})
	}
	for k, t := range truths {
		l.Truths = append(l.Truths, struct {
			C, E      int
			Cache, L1 []byte
		}{k[0], k[1], t.cache, t.l1})
	}
	l.Top = topEpoch
	b, _ := json.Marshal(l)
	p := filepath.Join(scratch, "learned.json")
	var err error
	if childErr, err = os.Create(filepath.Join(scratch, "child.err")); err != nil {
		panic(err)
	}
	if err = os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	return p
}

func loadLearned(p string) {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	var l learned
	if err := json.Unmarshal(b, &l); err != nil {
		panic(err)
	}
	tr.names, tr.good = map[string]name{}, map[string][]byte{}
	for _, x := range l.Names {
		n := name{x.C, x.K, x.E}
		tr.names[x.F], tr.good[x.F], fileOf[n] = n, x.Good, x.F
	}
	for _, x := range l.Truths {
		truths[[2]int{x.C, x.E}] = truth{x.Cache, x.L1}
	}
	topEpoch = l.Top
}

// child is the other process: events go to descriptor 3, commands come from
// the standard input.
func child() {
	var j childJob
	if err := json.Unmarshal([]byte(os.Getenv("CHILD")), &j); err != nil {
		panic(err)
	}
	loadLearned(os.Getenv("LEARNED"))
	p := params{n: j.N, disk: j.Disk, l1: j.L1, lock: j.Lock}
	ps := make([]params, j.M)
	for i := range ps {
		ps[i] = p
	}
	r := startIn(j.Dir, "child", ps, j.NT, nil)
	r.first = j.First
	r.sink = 3
	tr.killAt, tr.pauseAt = j.Kill, j.Pause
	in := bufio.NewReader(os.Stdin)
	tr.freeze = func() {
		r.addLocked(rec.M{"ev": "paused"})
		in.ReadString('\n')
	}
	r.Events = []rec.M{}
	r.arm()
	for _, e := range j.Reqs {
		r.request(j.T, j.M, e, p)
	}
	if !settle(r.base) {
		r.add(rec.M{"ev": "hang", "what": "background work does not end"})
	}
	r.add(rec.M{"ev": "end", "points": tr.count})
	os.Exit(0)
}

// childErr takes what other processes write to their standard error.
var childErr *os.File

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	events *bufio.Reader
}

// own tells whether a crash report is about the code under test.
func own(report string) bool {
	i := strings.Index(report, "goroutine ")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(report[i:], "\n") {
		if strings.HasPrefix(l, "github.com/sencha-dev/powkit/") {
			return !strings.Contains(l, "zzverif")
		}
	}
	return false
}

func spawn(j childJob) *proc {
	b, _ := json.Marshal(j)
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	c := exec.Command(os.Args[0], "child")
	c.Env = append(os.Environ(), "CHILD="+string(b), "LEARNED="+filepath.Join(scratch, "learned.json"))
	c.ExtraFiles = []*os.File{pw}
	p := &proc{cmd: c}
	childErr.Truncate(0)
	childErr.Seek(0, io.SeekStart)
	c.Stderr = childErr
	in, err := c.StdinPipe()
	if err == nil {
		err = c.Start()
	}
	if err != nil {
		panic(err)
	}
	pw.Close()
	p.in, p.events = in, bufio.NewReaderSize(pr, 1<<16)
	return p
}

// follow copies the events of a process into r until it stops.  It returns
// "paused", "end" or "dead".
func (p *proc) follow(r *run) string {
	late := int32(0)
	timer := time.AfterFunc(60*time.Second, func() { atomic.StoreInt32(&late, 1); p.cmd.Process.Kill() })
	defer timer.Stop()
	for {
		l, err := p.events.ReadBytes('\n')
		if err != nil {
			p.cmd.Wait()
			if p.cmd.ProcessState.Exited() {
				b := make([]byte, 1<<16)
				n, _ := childErr.ReadAt(b, 0)
				if said := string(b[:n]); !own(said) {
					panic("the other process failed: " + said)
				} else {
					r.add(rec.M{"ev": "died", "what": rec.Head(said, 1500)})
				}
			} else if atomic.LoadInt32(&late) == 1 {
				r.add(rec.M{"ev": "hang", "what": "the other process does not come to an end"})
			}
			return "dead"
		}
		var e rec.M
		if json.Unmarshal(l, &e) != nil {
			continue
		}
		switch e["ev"] {
		case "paused":
			return "paused"
		case "end":
			r.Note["points"] = e["points"]
			p.cmd.Wait()
			return "end"
		}
		if e["ev"] == "skip" {
			continue
		}
		r.add(e)
	}
}

func (r *run) crash(m int) {
	tr.mu.Lock()
	files, temps, foreign := tr.look()
	tr.last = key(files, temps, foreign)
	r.addLocked(rec.M{"ev": "crash", "m": m, "files": files, "temps": temps, "foreign": foreign})
	tr.mu.Unlock()
}

func job(p params, r *run, m int, reqs []int) childJob {
	return childJob{L1: p.l1, Disk: p.disk, N: p.n, Lock: p.lock, Dir: r.dir, Reqs: reqs, M: m, T: m, NT: r.Threads, First: 100000 * m}
}

// open begins recording without watching this process yet.
func (r *run) open() {
	r.unseen = true
	r.arm()
	tr.mu.Lock()
	tr.run = nil
	tr.mu.Unlock()
}

// kills ends processes at points of their preparations; another process then
// works on the same directory.
func kills() {
	if !ready(1, 6) {
		return
	}
	saveLearned()
	g := rec.NewRng("kills")
	for i := 0; i < rec.Pick(8, 60); i++ {
		p := params{n: 1 + g.Intn(2), disk: true, l1: i%2 == 0, lock: g.Intn(4) == 0}
		e := 1 + g.Intn(4)
		reqs := []int{e}
		if g.Intn(3) == 0 {
			reqs = append(reqs, g.Intn(5))
		}
		seed := g.U64()
		prepare := func(dir string) {
			h := rec.NewRng(fmt.Sprint("kill", seed))
			for x := 0; x < 5; x++ {
				for _, k := range []string{"c", "l"} {
					if h.Intn(4) == 0 {
						put(dir, name{1, k, x})
					}
				}
			}
		}
		points := int64(0)
		for n := 0; n < rec.Pick(14, 60); n++ {
			deaths := 1
			if n%5 == 4 {
				deaths = 2
			}
			ps := make([]params, deaths+1)
			for m := range ps {
				ps[m] = p
			}
			r := start("kills", ps, deaths+1, prepare)
			r.open()
			for m := 1; m <= deaths; m++ {
				j := job(p, r, m, reqs)
				if n > 0 {
					// half of them in the operations and what is around them
					j.Kill = 1 + int64(g.U64()%uint64(points))
				}
				r.Note[fmt.Sprint("kill", m)] = j.Kill
				c := spawn(j)
				if c.follow(r) == "end" && n == 0 {
					points = int64(r.Note["points"].(float64))
				}
				r.crash(m)
			}
			if n == 0 && points == 0 {
				r.dead = true
				r.add(rec.M{"ev": "hang", "what": "the other process did not come to an end"})
				r.finish()
				return
			}
			r.first = 100000 * (deaths + 1)
			r.arm()
			r.request(deaths+1, deaths+1, e, p)
			r.quiet(false)
			if g.Intn(2) == 0 {
				r.request(deaths+1, deaths+1, g.Intn(6), p)
				r.quiet(false)
			}
			r.finish()
		}
	}
}

// shared lets two managers, in one process or in two, prepare the same epochs
// in one directory; one stands still at some point meanwhile.
func shared() {
	if !ready(1, 6) {
		return
	}
	saveLearned()
	g := rec.NewRng("shared")
	for i := 0; i < rec.Pick(6, 40); i++ {
		p := params{n: 1 + g.Intn(2), disk: true, l1: i%2 == 0}
		p2 := p
		p2.n = 1 + g.Intn(2)
		e := 1 + g.Intn(3)
		e2 := []int{e}
		if g.Intn(3) == 0 {
			e2 = []int{e + 1, e}
		}
		points := int64(0)
		for n := 0; n < rec.Pick(30, 150); n++ {
			r := start("shared", []params{p, p2}, 2, nil)
			if n == 0 {
				r.arm()
				r.request(1, 1, e, p)
				r.quiet(false)
				points = tr.count
				r.request(2, 2, e, p2)
				r.quiet(false)
				r.finish()
				continue
			}
			k := 1 + int64(g.U64()%uint64(points))
			r.Note["at"] = k
			if n%3 == 0 { // two processes
				r.open()
				j := job(p, r, 1, []int{e})
				j.Pause = k
				c := spawn(j)
				how := c.follow(r)
				r.Note["how"] = how
				r.first = 100000 * 3
				r.arm()
				for _, x := range e2 {
					r.request(2, 2, x, p2)
				}
				if !settle(r.base) {
					r.add(rec.M{"ev": "hang", "what": "background work does not end"})
				}
				if how == "paused" {
					tr.mu.Lock()
					tr.run = nil
					tr.mu.Unlock()
					io.WriteString(c.in, "go\n")
					c.follow(r)
				}
				r.crash(1)
				tr.mu.Lock()
				tr.run = r
				tr.mu.Unlock()
			} else if n%3 == 1 {
				r.arm()
				during(r, k, func() { r.request(1, 1, e, p) }, func() {
					for _, x := range e2 {
						r.request(2, 2, x, p2)
					}
				})
			} else {
				tr.noise = g.U64() | 1
				r.arm()
				done := make(chan bool)
				go func() { r.request(1, 1, e, p); done <- true }()
				for _, x := range e2 {
					r.request(2, 2, x, p2)
				}
				<-done
			}
			r.quiet(false)
			r.finish()
		}
	}
}

// --------------------------------------------------------------------- faults

// faults makes storage operations fail.
func faults() {
	if !ready(1, 6) {
		return
	}
	g := rec.NewRng("faults")
	type base struct {
		p   params
		e   int
		pre string
	}
	bases := []base{
		{params{n: 1, disk: true, l1: true}, 2, "old"},
		{params{n: 2, disk: true, l1: true, lock: true}, 1, ""},
		{params{n: 2, disk: true, lock: true}, 1, "good"},
		{params{n: 1, disk: true, l1: true}, 1, "goodc"},
		{params{n: 1, disk: true, l1: true}, 1, "junk"},
	}
	for _, b := range bases {
		prepare := func(dir string) {
			for e := 0; e <= b.e; e++ {
				for _, k := range kindsOf(b.p) {
					switch {
					case b.pre == "old" && e < b.e, b.pre == "good" && e == b.e, b.pre == "goodc" && e == b.e && k == "c":
						put(dir, name{1, k, e})
					case b.pre == "junk" && e == b.e:
						os.WriteFile(filepath.Join(dir, fileOf[name{1, k, e}]), []byte("junk"), 0644)
					}
				}
			}
		}
		if b.pre == "" {
			prepare = nil
		}
		once := func(at map[int]bool, all string) (ops int, names []string) {
			r := start("faults", []params{b.p, b.p}, 1, prepare)
			r.unseen = true
			tr.failAt, tr.failAll = at, all
			r.Note["all"] = all
			is := []int{}
			for i := range at {
				is = append(is, i)
			}
			sort.Ints(is)
			r.Note["at"] = is
			r.arm()
			r.request(1, 1, b.e, b.p)
			r.quiet(false)
			ops, names = tr.ops, append([]string{}, tr.opNames...)
			tr.mu.Lock()
			tr.failAt, tr.failAll = nil, ""
			tr.mu.Unlock()
			r.request(1, 1, b.e, b.p)
			r.request(1, 2, b.e, b.p)
			r.quiet(false)
			r.finish()
			return
		}
		n, names := once(nil, "")
		for i := 1; i <= n; i++ {
			once(map[int]bool{i: true}, "")
		}
		kinds := map[string]bool{}
		for _, k := range names {
			kinds[k] = true
		}
		var all []string
		for k := range kinds {
			all = append(all, k)
		}
		sort.Strings(all)
		for _, k := range all {
			once(nil, k)
		}
		for i := 0; i < rec.Pick(20, 400); i++ {
			at := map[int]bool{}
			for k := 0; k < 2+i%2; k++ {
				at[1+g.Intn(n)] = true
			}
			once(at, "")
		}
	}
}

// --------------------------------------------------------------------- damage

// damages are the ways a stored file can be wrong.
func damages(good, other []byte) map[string]func(path string) {
	w := func(b []byte) func(string) {
		return func(p string) { os.WriteFile(p, b, 0644) }
	}
	flip := func(i int, x byte) []byte {
		b := append([]byte{}, good...)
		b[i] ^= x
		return b
	}
	d := map[string]func(string){
		"empty":   w(nil),
		"header":  w(good[:8]),
		"longer":  w(append(append([]byte{}, good...), 0)),
		"longer4": w(append(append([]byte{}, good...), 1, 2, 3, 4)),
		"page":    w(append(append([]byte{}, good...), make([]byte, 4096)...)),
		"zeros":   w(make([]byte, len(good))),
		"double":  w(append(append([]byte{}, good...), good...)),
		"nohead":  w(good[8:]),
		"swapped": w(append(append(append([]byte{}, good[4:8]...), good[:4]...), good[8:]...)),
		"text":    w([]byte(strings.Repeat("not a dump ", 200))),
		"other":   w(other),
		"dir":     func(p string) { os.Mkdir(p, 0755) },
		"fulldir": func(p string) { os.Mkdir(p, 0755); os.WriteFile(filepath.Join(p, "x"), good, 0644) },
		"dangle":  func(p string) { os.Symlink(filepath.Join(filepath.Dir(p), "nowhere"), p) },
		"loop":    func(p string) { os.Symlink(p, p) },
		"link":    func(p string) { os.Symlink("README", p) },
		"dirlink": func(p string) { os.Symlink(".", p) },
		"null":    func(p string) { os.Symlink("/dev/null", p) },
		"fifo":    func(p string) { syscall.Mkfifo(p, 0644) },
		"socket": func(p string) {
			fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			if err != nil {
				return
			}
			syscall.Bind(fd, &syscall.SockaddrUnix{Name: tr.aliased(p)}) // a short path is needed
			syscall.Close(fd)
		},
	}
	for _, n := range []int{1, 3, 4, 7, 9, 12} {
		d["short"+itoa(n)] = w(good[:n])
	}
	d["half"], d["less4"], d["less1"] = w(good[:len(good)/2]), w(good[:len(good)-4]), w(good[:len(good)-1])
	for i := 0; i < 8; i++ {
		d["magic"+itoa(i)] = w(flip(i, 1<<uint(i)))
	}
	return d
}

// damage puts wrong files where stored data is expected.
func damage() {
	if !ready(1, 6) {
		return
	}
	g := rec.NewRng("damage")
	readme := []byte("keep me")
	var kinds []string
	for k := range damages(make([]byte, 64), nil) {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	do := func(p params, e int, put0 func(dir string), note string) {
		ps := []params{p, p}
		r := start("damage", ps, 1, func(dir string) {
			os.WriteFile(filepath.Join(dir, "README"), readme, 0644)
			put0(dir)
		})
		tr.foreign = map[string][]byte{"README": readme}
		r.Note["damage"] = note
		r.arm()
		r.request(1, 1, e, p)
		r.quiet(false)
		r.request(1, 2, e, p)
		r.quiet(false)
		if g.Intn(2) == 0 {
			r.request(1, 2, e+1, p)
			r.quiet(false)
		}
		r.finish()
	}
	rounds := rec.Pick(1, 8)
	for round := 0; round < rounds; round++ {
		for _, kind := range kinds {
			for _, tgt := range []string{"c", "l", "both", "next", "random"} {
				p := params{n: 1 + g.Intn(3), disk: true, l1: tgt == "l" || tgt == "both" || g.Intn(2) == 0, lock: g.Intn(3) == 0}
				e := 1 + g.Intn(3)
				if tgt == "random" && g.Intn(2) == 0 {
					continue
				}
				do(p, e, func(dir string) {
					hit := func(n name, kind string) {
						f := fileOf[n]
						path := filepath.Join(dir, f)
						os.RemoveAll(path)
						o := fileOf[name{n.chain, map[string]string{"c": "l", "l": "c"}[n.kind], n.epoch}]
						if g.Intn(2) == 0 || len(tr.good[o]) == len(tr.good[f]) {
							o = fileOf[name{n.chain, n.kind, n.epoch + 2}]
						}
						other := tr.good[o]
						if len(other) == len(tr.good[f]) {
							other = other[:len(other)-8]
						}
						damages(tr.good[f], other)[kind](path)
					}
					for _, k := range []string{"c", "l"} {
						if g.Intn(2) == 0 {
							put(dir, name{1, k, e})
						}
					}
					switch tgt {
					case "c", "l":
						hit(name{1, tgt, e}, kind)
					case "both":
						hit(name{1, "c", e}, kind)
						hit(name{1, "l", e}, kinds[g.Intn(len(kinds))])
					case "next":
						for _, k := range kindsOf(p) {
							hit(name{1, k, e + 1}, kind)
						}
					default:
						for x := 0; x <= e+1; x++ {
							for _, k := range []string{"c", "l"} {
								if g.Intn(2) == 0 {
									hit(name{1, k, x}, kinds[g.Intn(len(kinds))])
								}
							}
						}
					}
				}, kind+" "+tgt)
			}
		}
	}
	// the storage directory itself
	for _, how := range []string{"file", "dangle", "looplink", "parent"} {
		p := params{n: 2, disk: true, l1: true}
		r := start("damage", []params{p}, 1, nil)
		r.Note["damage"] = "directory is a " + how
		os.MkdirAll(filepath.Dir(r.dir), 0755)
		switch how {
		case "file":
			os.WriteFile(r.dir, readme, 0644)
		case "dangle":
			os.Symlink(filepath.Join(filepath.Dir(r.dir), "gone", "far"), r.dir)
		case "looplink":
			os.Symlink(r.dir, r.dir)
		case "parent":
			os.RemoveAll(filepath.Dir(r.dir))
			os.WriteFile(filepath.Dir(r.dir), readme, 0644)
		}
		// a manager that cannot store anything
		r.Cfg[0]["disk"] = false
		r.mute = true
		tr.dir = ""
		r.arm()
		r.request(1, 1, 1, p)
		r.quiet(false)
		if how == "file" || how == "parent" {
			f := r.dir
			if how == "parent" {
				f = filepath.Dir(r.dir)
			}
			b, err := os.ReadFile(f)
			r.add(rec.M{"ev": "use", "h": 0, "ok": err == nil && bytes.Equal(b, readme)})
		}
		r.finish()
	}
}

// --------------------------------------------------------------------- chains

// manyChains lets managers of several chains share a directory that holds
// other files, too.
func manyChains() {
	if !ready(nchains, 14) {
		return
	}
	var list [][]interface{}
	for n, f := range fileOf {
		list = append(list, []interface{}{f, n.chain, n.kind, n.epoch})
	}
	g := rec.NewRng("chains")
	sort.Slice(list, func(i, j int) bool { return list[i][0].(string) < list[j][0].(string) })
	for i := 0; i < rec.Pick(90, 1500); i++ {
		var ps []params
		for m := 0; m < 2+g.Intn(3); m++ {
			ps = append(ps, params{chain: g.Intn(nchains), n: 1 + g.Intn(4), disk: true, l1: g.Intn(2) == 0})
		}
		if i%3 == 0 { // chains that are easily confused
			ps[0].chain, ps[1].chain = 0, 1+g.Intn(nchains-1)
		}
		foreign := map[string][]byte{}
		r := start("chains", ps, 1, func(dir string) {
			for n := range fileOf {
				if g.Intn(4) == 0 {
					put(dir, n)
				}
			}
			any := list[g.Intn(len(list))][0].(string)
			for _, f := range []string{"README", any + ".bak", any + ".123456", "." + any, "x" + any, any[:len(any)-1], "cache", "l1", "cache-", "l1-AAA-R1", strings.ToUpper(any)} {
				if g.Intn(2) == 0 {
					if _, known := tr.names[f]; !known {
						b := g.Bytes(g.Intn(40))
						foreign[f] = b
						os.WriteFile(filepath.Join(dir, f), b, 0644)
					}
				}
			}
			if g.Intn(3) == 0 {
				foreign["sub"] = nil
				os.Mkdir(filepath.Join(dir, "sub"), 0755)
				put(filepath.Join(dir, "sub"), name{1, "c", 0})
			}
		})
		tr.foreign = foreign
		r.arm()
		if i == 0 {
			r.add(rec.M{"ev": "names", "list": nameList()})
		}
		for k := 0; k < 1+g.Intn(4); k++ {
			m := g.Intn(len(ps))
			e := g.Intn(topEpoch + 1)
			if g.Intn(2) == 0 {
				e = topEpoch - g.Intn(3)
			}
			r.request(1, m+1, e, ps[m])
			r.quiet(false)
		}
		r.finish()
	}
}
