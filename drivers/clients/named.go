package main

import (
	"bytes"
	"os"
	"path/filepath"
	"sort"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

func listing(dir string) map[string]bool {
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	m := map[string]bool{}
	for _, e := range es {
		m[e.Name()] = true
	}
	return m
}

// namedDag uses a chain's client at heights of a few epochs.
func namedDag(c chainClient, r *rec.Rng, epochs []uint64, emit func(rec.M)) {
	one := func(height uint64) {
		hash, nonce := r.Hash(), r.Odd64()
		res := rec.Call(limit, func() rec.M {
			o, err := c.hash(append([]byte{}, hash...), height, nonce)
			return rec.Result(err, o...)
		})
		emit(rec.M{"op": "dag", "name": c.name, "hash": rec.Bytes(hash), "height": rec.W64(height), "nonce": rec.W64(nonce), "res": res})
	}
	for _, e := range epochs {
		one(e * c.el)
		one(e*c.el + c.el - 1)
		one(e*c.el + r.U64()%c.el)
	}
	one(epochs[0]*c.el + r.U64()%c.el)
}

func c25() {
	r := rec.NewRng("C25")
	dir := scratchDir()
	// every chain on its own in an empty directory: which files it makes
	files := rec.M{}
	var jobs []func(*rec.Buf)
	type named struct {
		name  string
		files []string
	}
	got := make([]named, 5)
	for i := range got {
		i := i
		jobs = append(jobs, func(b *rec.Buf) {
			own := scratchDir()
			c := chains(own)[i]
			namedDag(c, rec.NewRng("C25"+c.name), []uint64{1}, b.Emit)
			var names []string
			for f := range listing(own) {
				names = append(names, f)
			}
			sort.Strings(names)
			got[i] = named{c.name, names}
			namedDag(chains(own)[i], rec.NewRng("C25 again"+c.name), []uint64{1}, b.Emit) // from its files
		})
	}
	// all of them in one directory, one after the other and side by side
	for i := range got {
		i := i
		jobs = append(jobs, func(b *rec.Buf) {
			c := chains(dir)[i]
			r := rec.NewRng("C25 shared " + c.name)
			es := []uint64{0, 1}
			for k := 0; k < rec.Pick(1, 6); k++ {
				es = append(es, 2+r.U64()%uint64(rec.Pick(30, 400)))
			}
			if c.name == "ETC" {
				es = []uint64{0, 1, 2} // the seeds of every other epoch of Ethereum
			}
			namedDag(c, r, es, b.Emit)
		})
	}
	// nothing can be stored, or nothing is to be stored
	for i := range got {
		i := i
		jobs = append(jobs, func(b *rec.Buf) {
			blocked := filepath.Join(scratchDir(), "file")
			if err := os.WriteFile(blocked, nil, 0644); err != nil {
				panic(err)
			}
			c := chains(filepath.Join(blocked, "dir"))[i]
			namedDag(c, rec.NewRng("C25 blocked"+c.name), []uint64{0}, b.Emit)
		})
		jobs = append(jobs, func(b *rec.Buf) {
			c := chains("")[i]
			namedDag(c, rec.NewRng("C25 memory"+c.name), []uint64{1}, b.Emit)
		})
	}
	// the others, in any order, between each other
	jobs = append(jobs, func(b *rec.Buf) { namedOthers(b.Emit) })
	rec.Parallel(jobs)
	for _, g := range got {
		files[g.name] = g.files
	}
	rec.Emit(rec.M{"op": "files", "files": files, "res": rec.M{"kind": "ok"}})
	for _, c := range chains("") {
		c := c
		sel := c.el
		if c.name == "ETC" {
			sel = 30000
		}
		sizes := func(e uint64) {
			rec.Emit(rec.M{"op": "sizes", "name": c.name, "epoch": e, "res": rec.Call(limit, func() rec.M { return words64(c.d.CacheSize(e), c.d.DatasetSize(e)) })})
		}
		for _, e := range []uint64{0, 1, 2, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 4096, 10000} {
			sizes(e)
		}
		for i := 0; i < rec.Pick(60, 600); i++ {
			sizes(r.U64() % 2048)
			sizes(r.U64() % 12000)
		}
		height := func(h uint64) {
			rec.Emit(rec.M{"op": "epoch", "name": c.name, "height": rec.W64(h), "res": rec.Call(limit, func() rec.M { return rec.M{"kind": "ok", "val": rec.W64(c.d.CalcEpoch(h))} })})
			if h%c.el == 0 && h/sel < 3000 {
				rec.Emit(rec.M{"op": "seed", "name": c.name, "height": rec.W64(h), "res": rec.Call(limit, func() rec.M { return rec.M{"kind": "ok", "val": rec.Bytes(c.d.SeedHash(h))} })})
			}
		}
		for _, e := range []uint64{0, 1, 2, 3, 10, 1000} {
			height(e * c.el)
			height(e*c.el + c.el/2)
			height((e+1)*c.el - 1)
		}
		for i := 0; i < rec.Pick(20, 200); i++ {
			height(r.U64() % (2000 * c.el))
			height(r.Odd64())
		}
	}
}

func namedOthers(emit func(rec.M)) {
	r := rec.NewRng("C25 others")
	var steps []func()
	equi := func(name string, h, s []byte) {
		steps = append(steps, func() {
			cl := equiClient(name)
			res := rec.Call(limit, func() rec.M {
				ok, err := cl.Verify(append([]byte{}, h...), append([]byte{}, s...))
				return rec.Verdict(ok, err)
			})
			emit(rec.M{"op": "verify", "name": name, "header": rec.Bytes(h), "soln": rec.Bytes(s), "res": res})
		})
	}
	beam := beamhashiii.NewBeam()
	beamed := func(h, s []byte) {
		steps = append(steps, func() {
			res := rec.Call(limit, func() rec.M {
				ok, err := beam.Verify(append([]byte{}, h...), append([]byte{}, s...))
				return rec.Verdict(ok, err)
			})
			emit(rec.M{"op": "verify", "name": "beam", "header": rec.Bytes(h), "soln": rec.Bytes(s), "res": res})
		})
	}
	for _, name := range equiNames {
		for _, f := range load(name) {
			h, s := f.header(), packBE(f.Indices, f.Width)
			equi(name, h, s)
			equi(name, h, spoil(r, s))
			equi(name, spoil(r, h), s)
			for _, other := range equiNames { // a solution of one chain shown to another
				if other != name && r.Intn(2) == 0 {
					equi(other, h, s)
				}
			}
			beamed(h, s)
		}
	}
	for _, f := range load("beam") {
		h, s := f.header()[:40], packLE(f.Indices, f.header()[40:])
		beamed(h, s)
		beamed(h, spoil(r, s))
		equi("flux", h, s)
	}
	ae, cx := cuckoo.NewAeternity(), cuckoo.NewCortex()
	cycle := func(name string, h []byte, e []uint64) {
		steps = append(steps, func() {
			cl := ae
			if name == "cortex" {
				cl = cx
			}
			res := rec.Call(limit, func() rec.M {
				ok, err := cl.Verify(append([]byte{}, h...), append([]uint64{}, e...))
				return rec.Verdict(ok, err)
			})
			emit(rec.M{"op": "cycle", "name": name, "header": rec.Bytes(h), "edges": rec.W64s(e), "res": res})
		})
	}
	for _, f := range load("cuckoo") {
		e := append([]uint64{}, f.Edges...)
		cycle("aeternity", f.header(), e)
		cycle("cortex", f.header(), e)
		cycle(f.Set, f.header(), e[:41])
		top := append([]uint64{}, e...)
		top[41] |= 1 << 30
		cycle(f.Set, f.header(), top)
	}
	kaspa, ergo, nervos := heavyhash.NewKaspa(), autolykos2.NewErgo(), eaglesong.NewNervos()
	hashed := func(name string, in []byte, a, b uint64, f func([]byte) ([]byte, error)) {
		steps = append(steps, func() {
			res := rec.Call(limit, func() rec.M {
				o, err := f(append([]byte{}, in...))
				return rec.Result(err, o)
			})
			emit(rec.M{"op": "hash", "name": name, "in": rec.Bytes(in), "a": rec.W64(a), "b": rec.W64(b), "res": res})
		})
	}
	for i := 0; i < rec.Pick(30, 300); i++ {
		a, b := r.Odd64(), r.Odd64()
		hashed("kaspa", r.Hash(), a, b, func(in []byte) ([]byte, error) { return kaspa.Compute(in, int64(a), b) })
		h := r.U64() % 5000000
		hashed("ergo", r.Hash(), h, b, func(in []byte) ([]byte, error) { return ergo.Compute(in, h, b) })
		hashed("nervos", bytes.Repeat(r.Bytes(4), r.Intn(30)), 0, 0, func(in []byte) ([]byte, error) { return nervos.Compute(in), nil })
	}
	for i := len(steps) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		steps[i], steps[j] = steps[j], steps[i]
	}
	for _, s := range steps {
		s()
	}
}
