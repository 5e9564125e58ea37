package main

import (
	"bytes"
	"runtime"
	"time"

	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"
)

// use reads data that is held.
func (r *run) use(h int, f func() bool) {
	res := rec.Call(20*time.Second, func() rec.M { return rec.M{"ok": f()} })
	ok, _ := res["ok"].(bool)
	r.add(rec.M{"ev": "use", "h": h, "ok": ok})
}

// holds lets users keep the data of epochs while others are requested, and
// collects garbage all the time.
func holds() {
	if !ready(1, 13) {
		return
	}
	g := rec.NewRng("holds")
	for i := 0; i < rec.Pick(60, 600); i++ {
		p := params{n: 1 + g.Intn(2), disk: i%10 != 0, l1: g.Intn(2) == 0, lock: g.Intn(4) == 0}
		r := start("holds", []params{p}, 1, nil)
		r.noids = true
		tr.poison = true
		tr.collect = i%2 == 0
		r.arm()
		type kept struct {
			h, e int
			c    cacheData
		}
		var have []kept
		n := 0
		span := 2 + g.Intn(4)
		for k := 0; k < 4+g.Intn(6); k++ {
			switch g.Intn(4) {
			case 0, 1:
				e := g.Intn(span)
				if g.Intn(2) == 0 {
					n++
					if c := r.requestHold(1, 1, e, p, n); c != nil {
						have = append(have, kept{n, e, c})
					}
				} else {
					r.request(1, 1, e, p)
				}
			case 2:
				if len(have) > 0 {
					x := have[g.Intn(len(have))]
					r.use(x.h, func() bool { return right(x.c, p, x.e) })
				}
			case 3:
				if len(have) > 0 {
					j := g.Intn(len(have))
					x := have[j]
					r.use(x.h, func() bool { return right(x.c, p, x.e) })
					r.add(rec.M{"ev": "drop", "h": x.h})
					have[j] = kept{}
					have = append(have[:j:j], have[j+1:]...)
				}
			}
			if g.Intn(3) == 0 {
				r.quiet(true)
			}
		}
		r.quiet(true)
		for j := range have {
			x := have[j]
			r.use(x.h, func() bool { return right(x.c, p, x.e) })
			r.add(rec.M{"ev": "drop", "h": x.h})
			have[j] = kept{}
		}
		have = nil
		r.quiet(true)
		r.finish()
	}
}

type looker struct {
	d    *dag.DAG
	e    int
	w    int
	look dag.LookupFunc
}

func newLooker(d *dag.DAG, e, w int) *looker {
	c := d.GetCache(uint64(e))
	l := &looker{d: d, e: e, w: w}
	switch w {
	case 1:
		l.look = d.NewLookupFunc512(c, uint64(e))
	case 2:
		l.look = d.NewLookupFunc1024(c, uint64(e))
	default:
		l.look = d.NewLookupFunc2048(c, uint64(e))
	}
	return l
}

func same(a, b []uint32) bool { return bytes.Equal(words(a), words(b)) }

// lookups uses lookup functions of epochs that have been evicted, up to and
// including their last call.
func lookups() {
	if !ready(1, 13) {
		return
	}
	g := rec.NewRng("lookups")
	for i := 0; i < rec.Pick(36, 400); i++ {
		p := params{n: 1, disk: true, l1: g.Intn(3) == 0}
		w := []int{1, 2, 4}[i%3]
		e := g.Intn(5)
		index := g.Odd32()
		cfg := config(p, "")
		want := newLooker(dag.New(cfg), e, w).look(index)
		r := start("lookups", []params{p}, 1, nil)
		r.noids = true
		tr.poison = true
		r.arm()
		var l *looker
		r.add(rec.M{"ev": "call", "t": 1, "m": 1, "e": e})
		l = newLooker(r.mgrs[0], e, w)
		r.add(rec.M{"ev": "hold", "t": 1, "h": 1})
		r.add(rec.M{"ev": "ret", "t": 1, "obj": 0, "ok": true})
		r.request(1, 1, e+3, p)
		r.request(1, 1, e+7, p)
		r.quiet(true)
		for k := 0; k < g.Intn(3); k++ {
			r.use(1, func() bool { return same(l.look(index), want) })
		}
		// from here on nobody but the call keeps the data
		r.add(rec.M{"ev": "drop", "h": 1})
		tr.fresh()
		tr.collect = true
		f := l.look
		l = nil
		r.use(1, func() bool { x := f; f = nil; return last(&x, index, want) })
		tr.collect = false
		r.quiet(true)
		r.finish()
	}
}

//go:noinline
func last(f *dag.LookupFunc, index uint32, want []uint32) bool {
	g := *f
	*f = nil
	return same(g(index), want)
}

// computes evicts an epoch and collects garbage in the middle of a digest.
func computes() {
	if !ready(1, 13) {
		return
	}
	type client struct {
		name string
		mk   func(dag.Config) (*dag.DAG, func(h []byte, height, nonce uint64) []byte)
		mix  uint64
		l1   bool
	}
	clients := []client{
		{"ethash", func(c dag.Config) (*dag.DAG, func([]byte, uint64, uint64) []byte) {
			x := ethash.New(c)
			return rec.DagOf(x), func(h []byte, height, n uint64) []byte { a, b, err := x.Compute(h, height, n); return cat(err, a, b) }
		}, 128, false},
		{"kawpow", func(c dag.Config) (*dag.DAG, func([]byte, uint64, uint64) []byte) {
			x := kawpow.New(c)
			return rec.DagOf(x), func(h []byte, height, n uint64) []byte { a, b, err := x.Compute(h, height, n); return cat(err, a, b) }
		}, 128, true},
		{"firopow", func(c dag.Config) (*dag.DAG, func([]byte, uint64, uint64) []byte) {
			x := firopow.New(c)
			return rec.DagOf(x), func(h []byte, height, n uint64) []byte { a, b, err := x.Compute(h, height, n); return cat(err, a, b) }
		}, 128, true},
		{"octopus", func(c dag.Config) (*dag.DAG, func([]byte, uint64, uint64) []byte) {
			x := octopus.New(c)
			return rec.DagOf(x), func(h []byte, height, n uint64) []byte { a, err := x.Compute(h, height, n); return cat(err, a) }
		}, 256, false},
	}
	g := rec.NewRng("computes")
	for _, cl := range clients {
		points := int64(0)
		for n := 0; n < rec.Pick(9, 80); n++ {
			e := g.Intn(4)
			hash, nonce, height := g.Hash(), g.Odd64(), uint64(e*epochLength+g.Intn(epochLength))
			conf := func(dir string) dag.Config {
				c := config(params{n: 1, disk: true, l1: cl.l1}, dir)
				c.MixBytes, c.DatasetInitBytes = cl.mix, 64*cl.mix
				c.L1CacheSize, c.L1CacheNumItems = 4096*4, 4096
				return c
			}
			_, plain := cl.mk(conf(""))
			want := plain(hash, height, nonce)
			dir := newDir()
			tr.reset(nil, dir)
			base := working()
			first, _ := cl.mk(conf(dir))
			first.GetCache(uint64(e)) // stored now
			settle(base)
			r := startIn(dir, "computes", []params{{n: 1}}, 2, nil)
			tr.dir = dir
			d, compute := cl.mk(conf(dir))
			r.Note["client"] = cl.name
			r.mute = true
			tr.poison = true
			r.arm()
			run := func() {
				r.add(rec.M{"ev": "call", "t": 1, "m": 1, "e": e})
				res := rec.Call(30*time.Second, func() rec.M { return rec.M{"ok": bytes.Equal(compute(hash, height, nonce), want)} })
				ok, _ := res["ok"].(bool)
				r.add(rec.M{"ev": "ret", "t": 1, "obj": 0, "ok": ok})
			}
			if n == 0 {
				run()
				points = tr.count
			} else {
				k := 1 + int64(g.U64()%uint64(points))
				r.Note["at"] = k
				during(r, k, run, func() {
					for _, x := range []int{e + 3, e + 6} {
						r.add(rec.M{"ev": "call", "t": 2, "m": 1, "e": x})
						d.GetCache(uint64(x))
						r.add(rec.M{"ev": "ret", "t": 2, "obj": 0, "ok": true})
					}
					for i := 0; i < 4; i++ {
						runtime.GC()
						time.Sleep(time.Millisecond)
					}
				})
			}
			settle(r.base)
			r.finish()
			runtime.KeepAlive(first)
			runtime.KeepAlive(d)
		}
	}
}

func cat(err error, a ...[]byte) []byte {
	if err != nil {
		return []byte(err.Error())
	}
	return bytes.Join(a, []byte{'/'})
}
