package main

import (
	"bytes"
	"fmt"
	"os"
	"sync"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"
)

// inv is what a call is given.
type inv struct {
	bufs          [][]byte
	edges         []uint64
	height, nonce uint64
}

func (v inv) key() string { return fmt.Sprintf("%x|%v|%d|%d", v.bufs, v.edges, v.height, v.nonce) }

func (v inv) lens() []int {
	l := []int{}
	for _, b := range v.bufs {
		l = append(l, len(b))
	}
	if v.edges != nil || len(v.bufs) == 1 {
		l = append(l, len(v.edges))
	}
	return l
}

// answer is what a call gives back.
type answer struct {
	outs [][]byte
	yes  bool
	err  error
}

func (a answer) json() rec.M {
	outs := make([][]int, len(a.outs))
	for i, o := range a.outs {
		outs[i] = rec.Bytes(o)
	}
	return rec.M{"kind": "answer", "outs": outs, "yes": a.yes, "err": a.err != nil}
}

type caller func(inv) answer

type algo struct {
	name string
	mk   func(dir string) caller
	good func(r *rec.Rng) inv
	bad  [][]int // lengths (bytes of the buffers, then edges) to be refused, among others
}

func tinyCfg(mix uint64, l1 int, dir string) dag.Config {
	return dag.Config{
		Name: "TINY", Revision: 1, StorageDir: dir, DatasetInitBytes: 66 * mix, DatasetGrowthBytes: 10 * mix,
		CacheInitBytes: 1024, CacheGrowthBytes: 128, MixBytes: mix, DatasetParents: 8, EpochLength: 10, SeedEpochLength: 10,
		CacheRounds: 1, CachesCount: 2, L1Enabled: l1 > 0, L1CacheSize: uint64(l1) * 4, L1CacheNumItems: uint(l1),
	}
}

func hashInv(r *rec.Rng) inv {
	return inv{bufs: [][]byte{r.Hash()}, height: uint64(r.Intn(60)), nonce: r.Odd64()}
}

var fixMu sync.Mutex
var fixtures = map[string][]fixture{}

func loaded(name string) []fixture {
	fixMu.Lock()
	defer fixMu.Unlock()
	if fixtures[name] == nil {
		fixtures[name] = load(name)
	}
	return fixtures[name]
}

// spoil changes a proof sometimes.
func spoil(r *rec.Rng, b []byte) []byte {
	b = append([]byte{}, b...)
	if r.Intn(3) == 0 && len(b) > 0 {
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	}
	return b
}

func equiAlgo(name string, mk func() *equihash.Client) algo {
	fs := loaded(name)
	return algo{name, func(string) caller {
		cl := mk()
		return func(v inv) answer { ok, err := cl.Verify(v.bufs[0], v.bufs[1]); return answer{yes: ok, err: err} }
	}, func(r *rec.Rng) inv {
		f := fs[r.Intn(len(fs))]
		return inv{bufs: [][]byte{spoil(r, f.header()), spoil(r, packBE(f.Indices, f.Width))}}
	}, [][]int{{140, 0}, {140, 1}, {0, 0}, {140, 2000}}}
}

func cuckooAlgo(name string, mk func() *cuckoo.Client) algo {
	var fs []fixture
	for _, f := range loaded("cuckoo") {
		if f.Set == name {
			fs = append(fs, f)
		}
	}
	return algo{name, func(string) caller {
		cl := mk()
		return func(v inv) answer { ok, err := cl.Verify(v.bufs[0], v.edges); return answer{yes: ok, err: err} }
	}, func(r *rec.Rng) inv {
		f := fs[r.Intn(len(fs))]
		e := append([]uint64{}, f.Edges...)
		if r.Intn(3) == 0 {
			e[r.Intn(len(e))] ^= 1 << uint(r.Intn(29))
		}
		return inv{bufs: [][]byte{spoil(r, f.header())}, edges: e}
	}, [][]int{{80, 0}, {80, 41}, {80, 43}, {0, 0}, {0, 1}, {80, 84}}}
}

func algos() []algo {
	badHash := [][]int{{0}, {1}, {31}, {33}, {64}, {8}}
	return []algo{
		{"ethash", func(dir string) caller {
			cl := ethash.New(tinyCfg(128, 0, dir))
			return func(v inv) answer {
				a, b, err := cl.Compute(v.bufs[0], v.height, v.nonce)
				return answer{outs: [][]byte{a, b}, err: err}
			}
		}, hashInv, badHash},
		{"kawpow", func(dir string) caller {
			cl := kawpow.New(tinyCfg(128, 4096, dir))
			return func(v inv) answer {
				a, b, err := cl.Compute(v.bufs[0], v.height, v.nonce)
				return answer{outs: [][]byte{a, b}, err: err}
			}
		}, hashInv, badHash},
		{"firopow", func(dir string) caller {
			cl := firopow.New(tinyCfg(128, 4096, dir))
			return func(v inv) answer {
				a, b, err := cl.Compute(v.bufs[0], v.height, v.nonce)
				return answer{outs: [][]byte{a, b}, err: err}
			}
		}, hashInv, badHash},
		{"octopus", func(dir string) caller {
			cl := octopus.New(tinyCfg(256, 0, dir))
			return func(v inv) answer {
				a, err := cl.Compute(v.bufs[0], v.height, v.nonce)
				return answer{outs: [][]byte{a}, err: err}
			}
		}, hashInv, badHash},
		{"heavyhash", func(string) caller {
			cl := heavyhash.NewKaspa()
			return func(v inv) answer {
				a, err := cl.Compute(v.bufs[0], int64(v.height), v.nonce)
				return answer{outs: [][]byte{a}, err: err}
			}
		}, func(r *rec.Rng) inv { return inv{bufs: [][]byte{r.Hash()}, height: r.Odd64(), nonce: r.Odd64()} }, badHash},
		{"autolykos2", func(string) caller {
			cl := autolykos2.NewErgo()
			return func(v inv) answer {
				a, err := cl.Compute(v.bufs[0], v.height, v.nonce)
				return answer{outs: [][]byte{a}, err: err}
			}
		}, func(r *rec.Rng) inv { return inv{bufs: [][]byte{r.Hash()}, height: r.Odd64(), nonce: r.Odd64()} }, badHash},
		{"eaglesong", func(string) caller {
			cl := eaglesong.NewNervos()
			return func(v inv) answer { return answer{outs: [][]byte{cl.Compute(v.bufs[0])}} }
		}, func(r *rec.Rng) inv { return inv{bufs: [][]byte{r.Bytes(r.Intn(80))}} }, [][]int{{0}, {1}, {200}}},
		{"beamhashiii", func(string) caller {
			cl := beamhashiii.NewBeam()
			return func(v inv) answer { ok, err := cl.Verify(v.bufs[0], v.bufs[1]); return answer{yes: ok, err: err} }
		}, func(r *rec.Rng) inv {
			fs := loaded("beam")
			f := fs[r.Intn(len(fs))]
			return inv{bufs: [][]byte{spoil(r, f.header()[:40]), spoil(r, packLE(f.Indices, f.header()[40:]))}}
		}, [][]int{{40, 0}, {40, 103}, {40, 105}, {0, 104}, {39, 104}, {41, 104}, {0, 0}, {40, 100}, {80, 104}}},
		cuckooAlgo("aeternity", cuckoo.NewAeternity),
		cuckooAlgo("cortex", cuckoo.NewCortex),
		equiAlgo("zcash", equihash.NewZCash),
		equiAlgo("bitcoingold", equihash.NewBitcoinGold),
		equiAlgo("aion", equihash.NewAion),
		equiAlgo("flux", equihash.NewFlux),
		equiAlgo("zclassic", equihash.NewZClassic),
	}
}

func scratchDir() string {
	d, err := os.MkdirTemp(os.Getenv("SCRATCH"), "dag")
	if err != nil {
		panic(err)
	}
	return d
}

func guarded(c caller, v inv) (answer, rec.M) {
	var a answer
	res := rec.Call(limit, func() rec.M {
		a = c(v)
		return a.json()
	})
	return a, res
}

// c02 lets several goroutines use one client; the answers are compared with
// those of a client used by one.
func c02() {
	r := rec.NewRng("C02")
	for _, a := range algos() {
		for round := 0; round < rec.Pick(4, 12); round++ {
			dir := ""
			if round%2 == 0 {
				dir = scratchDir()
			}
			shared, lone := a.mk(dir), a.mk("")
			var vs []inv
			var want []rec.M
			for i := 0; i < 10; i++ {
				v := a.good(r)
				_, w := guarded(lone, v)
				vs, want = append(vs, v), append(want, w)
			}
			const threads, each = 6, 8
			got := make([][]rec.M, threads)
			which := make([][]int, threads)
			for t := range which {
				for k := 0; k < each; k++ {
					which[t] = append(which[t], r.Intn(len(vs)))
				}
			}
			var wg sync.WaitGroup
			gate := make(chan bool)
			for t := range got {
				t := t
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					for _, i := range which[t] {
						_, res := guarded(shared, vs[i])
						got[t] = append(got[t], res)
					}
				}()
			}
			close(gate)
			wg.Wait()
			for t := range got {
				for k, i := range which[t] {
					rec.Emit(rec.M{"op": "conc", "alg": a.name, "thread": t, "call": i, "ans": got[t][k], "alone": want[i]})
				}
			}
		}
	}
}

// c22 makes sequences of calls with well-formed and malformed arguments; the
// caller changes its arguments and the results in between.
func c22() {
	r := rec.NewRng("C22")
	for _, a := range algos() {
		for round := 0; round < rec.Pick(10, 25); round++ {
			var events []rec.M
			dir := ""
			if round%2 == 1 {
				dir = scratchDir()
			}
			clients := []caller{a.mk(dir), a.mk("")}
			var pool []inv
			for i := 0; i < 5; i++ {
				pool = append(pool, a.good(r))
			}
			sized := func(l []int) inv {
				var v inv
				n := len(pool[0].bufs)
				for i := 0; i < n; i++ {
					var b []byte
					if k := l[i]; k > 0 || r.Intn(2) == 0 {
						b = make([]byte, k)
						copy(b, pool[0].bufs[i])
					}
					v.bufs = append(v.bufs, b)
				}
				if len(l) > n {
					v.edges = make([]uint64, l[n])
					copy(v.edges, pool[0].edges)
					if l[n] == 0 && r.Intn(2) == 0 {
						v.edges = nil
					}
				}
				g := a.good(r)
				v.height, v.nonce = g.height, g.nonce
				return v
			}
			for _, l := range a.bad {
				if round == 0 || r.Intn(2) == 0 {
					pool = append(pool, sized(l))
				}
			}
			l := pool[0].lens()
			if len(pool[0].edges) == 0 {
				l = l[:len(pool[0].bufs)]
			}
			l[r.Intn(len(l))] += 1 + r.Intn(3)
			pool = append(pool, sized(l))
			ids := map[string]int{}
			type kept struct {
				id         int
				outs, copy [][]byte
			}
			var old []kept
			for k := 0; k < rec.Pick(30, 60); k++ {
				v := pool[r.Intn(len(pool))]
				id := ids[v.key()]
				if id == 0 {
					id = len(ids) + 1
					ids[v.key()] = id
				}
				c := r.Intn(len(clients))
				if r.Intn(12) == 0 {
					clients[c] = a.mk("")
				}
				// arguments with something behind them
				var w inv
				var whole, before [][]byte
				for _, b := range v.bufs {
					if b == nil {
						w.bufs = append(w.bufs, nil)
						continue
					}
					x := append(append([]byte{}, b...), r.Bytes(1+r.Intn(150))...)
					whole, before = append(whole, x), append(before, append([]byte{}, x...))
					w.bufs = append(w.bufs, x[:len(b)])
				}
				var tail, tail0 []uint64
				if v.edges != nil {
					tail = append(append([]uint64{}, v.edges...), r.U64(), r.U64(), r.U64())
					tail0 = append([]uint64{}, tail...)
					w.edges = tail[:len(v.edges)]
				}
				w.height, w.nonce = v.height, v.nonce
				ans, res := guarded(clients[c], w)
				changed := false
				for i := range whole {
					changed = changed || !bytes.Equal(whole[i], before[i])
				}
				for i := range tail {
					changed = changed || tail[i] != tail0[i]
				}
				events = append(events, rec.M{"ev": "use", "call": id, "client": c, "lens": v.lens(), "zero": len(v.bufs) > 0 && bytes.Equal(v.bufs[0], make([]byte, 32)),
					"ans": res, "changed": changed})
				// the arguments are the caller's again
				for i := range whole {
					copy(whole[i], r.Bytes(len(whole[i])))
				}
				for i := range tail {
					tail[i] = r.U64()
				}
				if res["kind"] == "answer" {
					x := kept{id: id, outs: ans.outs}
					for _, o := range ans.outs {
						x.copy = append(x.copy, append([]byte{}, o...))
					}
					same := rec.M{"ev": "again", "call": id, "ans": answer{outs: ans.outs, yes: ans.yes, err: ans.err}.json()}
					if r.Intn(2) == 0 {
						events = append(events, same)
					}
					if r.Intn(2) == 0 {
						old = append(old, x)
					} else { // and so are the results
						for _, o := range ans.outs {
							copy(o, r.Bytes(len(o)))
							if cap(o) > len(o) {
								copy(o[:cap(o)], r.Bytes(cap(o)))
							}
						}
					}
				}
			}
			for _, x := range old {
				ok := true
				for i := range x.outs {
					ok = ok && bytes.Equal(x.outs[i], x.copy[i])
				}
				events = append(events, rec.M{"ev": "kept", "call": x.id, "ok": ok})
			}
			rec.Emit(rec.M{"op": "calls", "alg": a.name, "events": events})
		}
	}
}
