package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"os"

	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/internal/common/convutil"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hooks"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"
)

type chainClient struct {
	name string
	d    *dag.DAG
	hash hasher
	el   uint64
	v    string
}

// chains creates the shipped clients; nothing is stored outside dir.
func chains(dir string) []chainClient {
	eth, etc, rvn, firo, cfx := ethash.NewEthereum(), ethash.NewEthereumClassic(), kawpow.NewRavencoin(), firopow.NewFiro(), octopus.NewConflux()
	out := []chainClient{
		{"ETH", rec.DagOf(eth), func(h []byte, height, n uint64) ([][]byte, error) { return two(eth.Compute(h, height, n)) }, 30000, "ethash"},
		{"ETC", rec.DagOf(etc), func(h []byte, height, n uint64) ([][]byte, error) { return two(etc.Compute(h, height, n)) }, 60000, "ethash"},
		{"RVN", rec.DagOf(rvn), func(h []byte, height, n uint64) ([][]byte, error) { return two(rvn.Compute(h, height, n)) }, 7500, "kawpow"},
		{"FIRO", rec.DagOf(firo), func(h []byte, height, n uint64) ([][]byte, error) { return two(firo.Compute(h, height, n)) }, 1300, "firopow"},
		{"CFX", rec.DagOf(cfx), func(h []byte, height, n uint64) ([][]byte, error) {
			o, err := cfx.Compute(h, height, n)
			return [][]byte{o}, err
		}, 1 << 19, "octopus"},
	}
	for _, c := range out {
		if c.d == nil {
			panic("no DAG manager found in the client of " + c.name)
		}
		c.d.StorageDir = dir
	}
	return out
}

func words64(a ...uint64) rec.M { return rec.M{"kind": "ok", "val": rec.W64s(a)} }

func c10() {
	r := rec.NewRng("C10")
	for _, c := range chains("") {
		c := c
		one := func(e uint64) {
			res := rec.Call(limit, func() rec.M { return words64(c.d.CacheSize(e), c.d.DatasetSize(e)) })
			rec.Emit(rec.M{"op": "sizes", "chain": c.name, "epoch": e, "res": res})
		}
		for e := uint64(0); e < 2048; e++ {
			one(e)
		}
		for e := uint64(2048); e < 2060; e++ {
			one(e)
		}
		for i := 0; i < rec.Pick(100, 1500); i++ {
			one(2048 + r.U64()%20000)
		}
	}
	// other parameters, with and without tables
	for i := 0; i < rec.Pick(60, 600); i++ {
		c := randCfg(r, 0)
		mix := uint64(128)
		if r.Intn(3) == 0 {
			mix = 256
		}
		cfg := c.cfg(mix, "S", "")
		table := uint64(0)
		if r.Intn(2) == 0 {
			d := dag.New(cfg)
			var ct, dt []uint64
			table = 1 + uint64(r.Intn(20))
			for e := uint64(0); e < table; e++ {
				ct, dt = append(ct, d.CacheSize(e)), append(dt, d.DatasetSize(e))
			}
			cfg.CacheSizes, cfg.DatasetSizes = dag.NewLookupTable(ct, table), dag.NewLookupTable(dt, table)
		}
		d := dag.New(cfg)
		for k := 0; k < 12; k++ {
			e := r.U64() % 40
			if r.Intn(3) == 0 {
				e = r.U64() % 3000
			}
			if r.Intn(3) == 0 {
				e = table
			}
			res := rec.Call(limit, func() rec.M { return words64(d.CacheSize(e), d.DatasetSize(e)) })
			j := c.json()
			j["mix"] = mix
			rec.Emit(rec.M{"op": "sizes", "cfg": j, "epoch": e, "res": res})
		}
	}
	// numbers of rows to start from that are hard to tell from primes
	hs := hard(r)
	for i, n := range hs {
		c, mix, e := randCfg(r, 0), uint64(128), uint64(i%3)
		if i%5 == 0 {
			mix = 256
		}
		m := hs[r.Intn(len(hs))]
		c.cg, c.dg = 2*r.Intn(1+n/4), 2*r.Intn(1+m/4)
		c.ci, c.di = n+1-c.cg*int(e), m+1-c.dg*int(e)
		d := dag.New(c.cfg(mix, "S", ""))
		res := rec.Call(limit, func() rec.M { return words64(d.CacheSize(e), d.DatasetSize(e)) })
		j := c.json()
		j["mix"] = mix
		rec.Emit(rec.M{"op": "sizes", "cfg": j, "epoch": e, "res": res})
	}
	// epochs and numbers of rows that need more than 31 bits; no size exceeds 64
	for _, c := range chains("") {
		es := []uint64{}
		for b := uint(15); b < 40; b++ {
			es = append(es, 1<<b-1, 1<<b, 1<<b+r.U64()>>(65-b))
		}
		for i := 0; i < rec.Pick(20, 400); i++ {
			es = append(es, r.U64()>>uint(25+r.Intn(24)))
		}
		for _, e := range es {
			e := e % (1<<40 - 1<<30)
			if c.name == "CFX" {
				e >>= 1
			}
			res := rec.Call(limit, func() rec.M { return words64(c.d.CacheSize(e), c.d.DatasetSize(e)) })
			rec.Emit(rec.M{"op": "wide", "chain": c.name, "epoch": rec.W64(e), "res": res})
		}
	}
	for _, n := range hard64(r) {
		w := wide{ci: n + 1, di: n + 1, mix: []uint64{64, 128, 256, 32}[r.Intn(4)]}
		e := r.U64() >> uint(8+r.Intn(56))
		if g := w.ci / 2 / (e + 1) &^ 1; g > 0 {
			w.cg, w.dg = 2*(r.U64()%g), 2*(r.U64()%g)
			if w.cg*e < w.ci {
				w.ci -= w.cg * e
			} else {
				w.cg = 0
			}
			if w.dg*e < w.di {
				w.di -= w.dg * e
			} else {
				w.dg = 0
			}
		}
		for w.di+w.dg*e >= 1<<63/w.mix*2 { // its size does not fit
			w.mix /= 2
		}
		d := dag.New(w.cfg())
		res := rec.Call(limit, func() rec.M { return words64(d.CacheSize(e), d.DatasetSize(e)) })
		rec.Emit(rec.M{"op": "wide", "wide": w.json(), "epoch": rec.W64(e), "res": res})
	}
}

// wide are sizes of a chain in rows, of up to 58 bits.
type wide struct{ ci, cg, di, dg, mix uint64 }

func (w wide) cfg() dag.Config {
	return dag.Config{CacheInitBytes: w.ci * 64, CacheGrowthBytes: w.cg * 64, DatasetInitBytes: w.di * w.mix, DatasetGrowthBytes: w.dg * w.mix, MixBytes: w.mix}
}

func (w wide) json() rec.M {
	return rec.M{"ci": rec.W64(w.ci), "cg": rec.W64(w.cg), "di": rec.W64(w.di), "dg": rec.W64(w.dg), "mix": w.mix}
}

// hard64 are odd numbers of 32 to 58 bits: around powers of two, strong
// pseudoprimes to several bases, squares of primes, products of two primes.
func hard64(r *rec.Rng) []uint64 {
	out := []uint64{3215031751, 2152302898747, 3474749660383, 341550071728321, 4759123141, 1122004669633, 4759123141 + 2, 25326001 * 3, 118670087467, 307768373641, 315962312077, 354864744877, 457453568161, 528929554561,
		118901521 * 199}
	prime := func(n uint64) bool { return new(big.Int).SetUint64(n).ProbablyPrime(0) }
	down := func(n uint64) uint64 {
		for n |= 1; !prime(n); n -= 2 {
		}
		return n
	}
	for b := uint(31); b <= 57; b++ {
		out = append(out, 1<<b-1, 1<<b+1, 1<<b+3, 1<<b|r.U64()>>(64-b)|1)
	}
	for i := 0; i < rec.Pick(60, 600); i++ {
		p := down(1<<15 + r.U64()>>uint(36+r.Intn(13)))
		out = append(out, p*p, p*down(p-1))
		// products of p and 2p-1 are often pseudoprimes to base 2
		for k := 0; k < 4000; k++ {
			p = down(p - 1)
			if prime(2*p - 1) {
				break
			}
		}
		out = append(out, p*(2*p-1), down(r.U64()>>uint(7+r.Intn(26))|1<<31))
	}
	ok := out[:0]
	for _, n := range out {
		if n < 1<<58-1<<50 && n%2 == 1 {
			ok = append(ok, n)
		}
	}
	return ok
}

// hard are odd numbers on which an imprecise test for primes may err: small
// ones, pseudoprimes to some base and of Lucas type, squares of primes,
// products of close or of many primes, and primes themselves.
func hard(r *rec.Rng) []int {
	var out []int
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 3 && n < 1<<31-1 && n%2 == 1 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	pow := func(b, e, n int) int {
		x, y := uint64(1), uint64(b%n)
		for ; e > 0; e >>= 1 {
			if e&1 == 1 {
				x = x * y % uint64(n)
			}
			y = y * y % uint64(n)
		}
		return int(x)
	}
	prime := func(n int) bool {
		for k := 3; k*k <= n; k += 2 {
			if n%k == 0 {
				return false
			}
		}
		return n%2 == 1
	}
	for n := 3; n < rec.Pick(1500, 12000); n += 2 {
		add(n)
	}
	for n := 3; n < rec.Pick(120000, 2000000); n += 2 {
		if prime(n) {
			continue
		}
		for i, b := range []int{2, 3, 5, 7, 11, 13} {
			if n%b != 0 && pow(b, n-1, n) == 1 && (i == 0 || n%3 == r.Intn(3)) {
				add(n)
			}
		}
	}
	// pseudoprimes of Lucas type, strong pseudoprimes to the bases 2 and 2, 3, 5
	for _, n := range []int{323, 377, 1159, 1829, 3827, 5459, 5777, 9071, 9179, 10877, 11419, 11663, 13919, 14839, 16109, 16211, 18407, 18971, 19043, 22499, 24569, 25199, 40309, 58519, 75077, 97439, 100127, 113573, 115639, 130139,
		1194649, 12327121, 1373653, 1530787, 1987021, 2284453, 3116107, 5173601, 6787327, 11541307, 13694761, 15978007, 16070429, 16879501, 25326001, 27509653, 27664033, 28527049, 54029741, 61832377, 66096253, 74927161, 80375707, 161304001, 960946321, 1157839381,
		2147117569, 2146319929, 2147302921, 46337 * 46309, 172947529, 188462041, 321197185, 1745224381} {
		add(n)
	}
	for i := 0; i < rec.Pick(40, 300); i++ { // squares, and products of neighbours
		p := 3 + 2*r.Intn(23000)
		for !prime(p) {
			p -= 2
		}
		q := p - 2
		for q > 2 && !prime(q) {
			q -= 2
		}
		add(p * p)
		add(p * q)
		add(p*p + 2)
	}
	return out
}

func c11() {
	r := rec.NewRng("C11")
	run := func(name string, d *dag.DAG, cfg rec.M, el, sel, maxSeed uint64, heights []uint64) {
		for _, h := range heights {
			h := h
			m := rec.M{"op": "epoch", "height": rec.W64(h)}
			s := rec.M{"op": "seed", "height": rec.W64(h)}
			if cfg != nil {
				m["cfg"], s["cfg"] = cfg, cfg
			} else {
				m["chain"], s["chain"] = name, name
			}
			m["res"] = rec.Call(limit, func() rec.M { return rec.M{"kind": "ok", "val": rec.W64(d.CalcEpoch(h))} })
			rec.Emit(m)
			if h/sel <= maxSeed {
				s["res"] = rec.Call(limit, func() rec.M { return rec.M{"kind": "ok", "val": rec.Bytes(d.SeedHash(h))} })
				rec.Emit(s)
			}
		}
	}
	around := func(el uint64, e uint64) []uint64 {
		b := e * el
		out := []uint64{b, b + 1, b + el - 1, b + el/2, b + el/2 - 1}
		if b > 0 {
			out = append(out, b-1)
		}
		return out
	}
	for _, c := range chains("") {
		var hs []uint64
		for e := uint64(0); e < 2050; e++ {
			if rec.Thorough() || e < 20 || e > 2040 || r.Intn(16) == 0 {
				hs = append(hs, around(c.el, e)...)
			} else if r.Intn(4) == 0 {
				hs = append(hs, e*c.el, e*c.el+c.el-1)
			}
		}
		for i := 0; i < rec.Pick(150, 300); i++ {
			hs = append(hs, r.Odd64())
		}
		sel := c.el
		if c.name == "ETC" {
			sel = 30000
		}
		run(c.name, c.d, nil, c.el, sel, 4099, hs)
	}
	for i := 0; i < rec.Pick(120, 400); i++ {
		c := randCfg(r, 0)
		var hs []uint64
		el := c.el()
		for k := 0; k < 20; k++ {
			if el < 1<<40 {
				hs = append(hs, around(el, uint64(r.Intn(60)))...)
			}
			hs = append(hs, r.Odd64()>>1)
		}
		run("", dag.New(c.cfg(128, "S", "")), c.json(), el, el/uint64(c.q), 500, hs)
	}
}

func c12() {
	r := rec.NewRng("C12")
	if hooks.DatasetItem != nil {
		for i := 0; i < rec.Pick(150, 600); i++ {
			rows := make([][]uint32, 1+r.Intn(20))
			var flat []uint32
			for k := range rows {
				for j := 0; j < 16; j++ {
					x := r.U32()
					if i%3 == 0 {
						x = r.Odd32()
					} else if i%7 == 0 {
						x = 0
					}
					rows[k] = append(rows[k], x)
				}
				flat = append(flat, rows[k]...)
			}
			parents := 1 + r.Intn(40)
			if i%8 == 1 {
				parents = 255 + r.Intn(4)
			}
			var js [][][]int
			for _, x := range rows {
				js = append(js, rec.W32s(x))
			}
			for _, index := range []uint32{r.Odd32(), uint32(len(rows)) * uint32(r.Intn(3)), ^uint32(0) - uint32(r.Intn(300))} {
				index := index
				res := rec.Call(limit, func() rec.M {
					return rec.M{"kind": "ok", "val": rec.W32s(convutil.BytesToUint32Array(hooks.DatasetItem(flat, index, parents), binary.LittleEndian))}
				})
				rec.Emit(rec.M{"op": "rows", "rows": js, "index": rec.W32(index), "parents": parents, "res": res})
			}
		}
	}
	for i := 0; i < rec.Pick(120, 500); i++ {
		l1 := 0
		if r.Intn(2) == 0 {
			l1 = 16 * (1 + r.Intn(24))
		}
		c := randCfg(r, l1)
		if i%16 == 5 {
			c.ci, c.cg, c.rounds = 1000+2*r.Intn(1000), 100, 1+r.Intn(4)
		}
		if i%16 == 9 {
			c.parents = 513 + r.Intn(rec.Pick(3000, 70000))
		}
		var far []uint64
		if i%16 == 13 {
			far = farEpochs(r, &c)
		}
		dir := ""
		if i%4 != 0 {
			var err error
			if dir, err = os.MkdirTemp(os.Getenv("SCRATCH"), "dag"); err != nil {
				panic(err)
			}
		}
		cfg := c.cfg([]uint64{64, 128, 256}[r.Intn(3)], fmt.Sprintf("T%d", i), dir)
		far = tidy(far, dir)
		cfg.CachesCount = 1 + r.Intn(3)
		if i%8 == 3 { // sizes taken from tables
			d := dag.New(cfg)
			var ct, dt []uint64
			for e := uint64(0); e < 5; e++ {
				ct, dt = append(ct, d.CacheSize(e)), append(dt, d.DatasetSize(e))
			}
			cfg.CacheSizes, cfg.DatasetSizes = dag.NewLookupTable(ct, 5), dag.NewLookupTable(dt, 5)
		}
		max := uint64(7)
		if q := ^uint64(0) / c.el(); q < max {
			max = q
		}
		for round := 0; round < 2; round++ { // the second manager finds the files of the first
			d := dag.New(cfg)
			for k := 0; k < 2; k++ {
				e := r.U64() % max
				if far != nil {
					e = far[r.Intn(len(far))]
				}
				ca := d.GetCache(e)
				emit := func(op string, index, width uint32, f func() []uint32) {
					res := rec.Call(limit, func() rec.M { return rec.M{"kind": "ok", "val": rec.W32s(f())} })
					rec.Emit(rec.M{"op": op, "cfg": c.json(), "epoch": e, "index": rec.W32(index), "width": width, "res": res})
				}
				emit("cache", 0, 0, func() []uint32 { return ca.Cache() })
				if l1 > 0 {
					emit("l1", 0, 0, func() []uint32 { return ca.L1() })
				}
				rows := uint32(len(ca.Cache()) / 16)
				looks := map[uint32]dag.LookupFunc{1: d.NewLookupFunc512(ca, e), 2: d.NewLookupFunc1024(ca, e), 4: d.NewLookupFunc2048(ca, e)}
				for _, w := range []uint32{1, 2, 4} {
					idx := []uint32{0, rows - 1, rows, rows/w + 1, ^uint32(0), ^uint32(0) / w, ^uint32(0)/w + 1, r.U32(), r.Odd32(), r.Odd32()}
					for _, x := range idx {
						if r.Intn(2) == 0 || rec.Thorough() {
							x := x
							emit("item", x, w, func() []uint32 { return looks[w](x) })
						}
					}
				}
			}
		}
	}
}
