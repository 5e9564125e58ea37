package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"time"

	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/progpow"
	"github.com/sencha-dev/powkit/internal/zzverif/hooks"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"
)

const limit = 60 * time.Second

// smallCfg is a scaled down chain: everything is small except the dataset,
// whose size costs nothing.
type smallCfg struct {
	elf     []int // factors of the epoch length
	q       int   // seed epochs per epoch
	ci, cg  int   // cache rows
	di, dg  int   // dataset rows of mix bytes
	rounds  int
	parents int
	l1      int // L1 words, 0: none
}

func (c smallCfg) el() uint64 {
	n := uint64(1)
	for _, f := range c.elf {
		n *= uint64(f)
	}
	return n
}

func (c smallCfg) cfg(mix uint64, name, dir string) dag.Config {
	return dag.Config{
		Name: name, Revision: 1, StorageDir: dir,
		DatasetInitBytes: uint64(c.di) * mix, DatasetGrowthBytes: uint64(c.dg) * mix,
		CacheInitBytes: uint64(c.ci) * 64, CacheGrowthBytes: uint64(c.cg) * 64,
		MixBytes: mix, DatasetParents: uint32(c.parents),
		EpochLength: c.el(), SeedEpochLength: c.el() / uint64(c.q),
		CacheRounds: c.rounds, CachesCount: 3,
		L1Enabled: c.l1 > 0, L1CacheSize: uint64(c.l1) * 4, L1CacheNumItems: uint(c.l1),
	}
}

func (c smallCfg) json() rec.M {
	return rec.M{"elf": c.elf, "q": c.q, "ci": c.ci, "cg": c.cg, "di": c.di, "dg": c.dg, "rounds": c.rounds,
		"parents": c.parents, "l1": c.l1}
}

var elfs = [][]int{{30}, {7, 11}, {100}, {1300}, {250, 240}, {1024, 512}, {32}, {32768, 32768, 32768, 16384}}

func randCfg(r *rec.Rng, l1 int) smallCfg {
	c := smallCfg{
		elf: elfs[r.Intn(len(elfs))], q: 1,
		ci: 4 + r.Intn(60), cg: 1 + r.Intn(8),
		di: 64 + r.Intn(200), dg: 1 + r.Intn(50),
		rounds: 1 + r.Intn(3), parents: 1 + r.Intn(40), l1: l1,
	}
	if r.Intn(3) == 0 {
		c.di = 1<<uint(22+r.Intn(5)) + r.Intn(1<<22) // up to 8 GiB and more
		c.dg = 1 << 16
	}
	if r.Intn(4) == 0 {
		c.parents = 256 + 256*r.Intn(2)
	}
	if c.el()%2 == 0 && r.Intn(3) == 0 {
		c.q = 2
	}
	// an even number of rows short of the bound would never become odd
	c.ci &^= 1
	c.cg &^= 1
	c.di &^= 1
	c.dg &^= 1
	if c.cg == 0 {
		c.cg = 2
	}
	if c.dg == 0 {
		c.dg = 2
	}
	return c
}

func randHeight(r *rec.Rng, c smallCfg) uint64 {
	el := c.el()
	max := uint64(12)
	if q := ^uint64(0) / el; q < max {
		max = q
	}
	e := r.U64() % max
	switch r.Intn(4) {
	case 0:
		return e * el
	case 1:
		return e*el + el - 1
	case 2:
		return e*el + r.U64()%el
	}
	return (e+1)*el - 1 - uint64(r.Intn(3))%el
}

// farEpochs makes c a chain whose far epochs are small, too, and draws epochs
// a power of two apart, the earlier ones first.
func farEpochs(r *rec.Rng, c *smallCfg) []uint64 {
	for c.el() > 1<<30 {
		c.elf = elfs[r.Intn(len(elfs))]
	}
	c.q, c.cg, c.rounds = 1, 2, 1
	if c.parents > 100 {
		c.parents = 5
	}
	e := r.U64() % 40
	out := []uint64{e}
	top := uint(11)
	if rec.Thorough() {
		top = 15
	}
	for k := uint(1); k <= top; k++ {
		if k > 4 || r.Intn(2) == 0 {
			out = append(out, e+1<<k)
		}
	}
	return out
}

// tidy leaves out the epochs before which a stored preparation would look for
// files of too many others.
func tidy(far []uint64, dir string) []uint64 {
	var out []uint64
	for _, e := range far {
		if dir == "" || e < 4200 {
			out = append(out, e)
		}
	}
	return out
}

type hasher func(hash []byte, height, nonce uint64) ([][]byte, error)

func two(a, b []byte, err error) ([][]byte, error) { return [][]byte{a, b}, err }

func runHashers(prop string, mix uint64, l1 int, nCfg, perCfg int, variants []string, mk func(variant string, cfg dag.Config) hasher) {
	r := rec.NewRng(prop)
	for i := 0; i < nCfg; i++ {
		c := randCfg(r, l1)
		v := variants[i%len(variants)]
		var far []uint64
		if i%4 == 1 {
			far = farEpochs(r, &c)
		} else if i%8 == 3 {
			c.parents = 513 + r.Intn(3000)
		}
		dir := ""
		if r.Intn(2) == 0 {
			var err error
			if dir, err = os.MkdirTemp(os.Getenv("SCRATCH"), "dag"); err != nil {
				panic(err)
			}
		}
		far = tidy(far, dir)
		h := mk(v, c.cfg(mix, fmt.Sprintf("T%d", i), dir))
		for k := 0; k < perCfg; k++ {
			hash, height, nonce := r.Hash(), randHeight(r, c), r.Odd64()
			if far != nil {
				height = far[k%len(far)]*c.el() + height%c.el()
			}
			res := rec.Call(limit, func() rec.M {
				o, err := h(append([]byte{}, hash...), height, nonce)
				return rec.Result(err, o...)
			})
			rec.Emit(rec.M{"op": "compute", "v": v, "cfg": c.json(), "hash": rec.Bytes(hash), "height": rec.W64(height),
				"nonce": rec.W64(nonce), "res": res})
		}
	}
}

func c13() {
	runHashers("C13", 128, 0, rec.Pick(40, 160), rec.Pick(20, 60), []string{"ethash"}, func(_ string, cfg dag.Config) hasher {
		cl := ethash.New(cfg)
		return func(hash []byte, height, nonce uint64) ([][]byte, error) { return two(cl.Compute(hash, height, nonce)) }
	})
}

func c15() {
	mk := func(_ string, cfg dag.Config) hasher {
		cl := octopus.New(cfg)
		return func(hash []byte, height, nonce uint64) ([][]byte, error) {
			d, err := cl.Compute(hash, height, nonce)
			return [][]byte{d}, err
		}
	}
	runHashers("C15", 256, 0, rec.Pick(30, 120), rec.Pick(22, 60), []string{"octopus"}, mk)
	octopusSpecial(mk)
}

// octopusSpecial draws header hashes for which the polynomial of the hash has
// discriminant zero, so that its last parameter is drawn again (several times,
// too), words at the boundaries of the reductions, and all positions of warps.
func octopusSpecial(mk func(string, dag.Config) hasher) {
	const mod = 1032193
	mul := func(a, b uint64) uint64 { return a * b % mod }
	pow := func(a, n uint64) uint64 {
		x := uint64(1)
		for ; n > 0; n >>= 1 {
			if n&1 == 1 {
				x = mul(x, a)
			}
			a = mul(a, a)
		}
		return x
	}
	powers := make([]uint64, mod) // powers of 11
	powers[0] = 1
	for i := 1; i < mod; i++ {
		powers[i] = mul(powers[i-1], 11)
	}
	remap := func(v uint64) uint64 {
		e := v%(mod-2) + 1
		for {
			a, b := e, uint64(mod-1)
			for b != 0 {
				a, b = b, a%b
			}
			if a == 1 {
				return powers[e]
			}
			e /= a
		}
	}
	from := map[uint64]uint64{}
	for h := uint64(0); h < mod-2; h++ {
		from[remap(h)] = h
	}
	r := rec.NewRng("C15special")
	c := randCfg(r, 0)
	c.ci, c.cg, c.rounds, c.parents = 20, 2, 1, 5
	h := mk("octopus", c.cfg(256, "S", ""))
	emit := func(v [4]uint64, nonce uint64) {
		hash := make([]byte, 32)
		for i := range v {
			binary.LittleEndian.PutUint64(hash[8*i:], v[i])
		}
		height := randHeight(r, c)
		res := rec.Call(limit, func() rec.M {
			o, err := h(append([]byte{}, hash...), height, nonce)
			return rec.Result(err, o...)
		})
		rec.Emit(rec.M{"op": "compute", "v": "octopus", "cfg": c.json(), "hash": rec.Bytes(hash), "height": rec.W64(height),
			"nonce": rec.W64(nonce), "res": res})
	}
	lift := func(h uint64) uint64 { return h + (mod-2)*(r.U64()%(^uint64(0)/(mod-2))) }
	for i := 0; i < rec.Pick(80, 300); i++ {
		v2 := []uint64{0, 1, 2, 3, mod - 3, mod - 2, mod - 1, ^uint64(0), ^uint64(0) - 1, lift(0), lift(1), r.U64(), r.U64(), r.U64()}[i%14]
		cc := remap(v2)
		for {
			b := remap(r.U64())
			a := mul(mul(b, b), pow(mul(4, cc), mod-2))
			if ha, ok := from[a]; ok {
				emit([4]uint64{lift(ha), lift(from[b]), v2, r.U64()}, r.Odd64())
				break
			}
		}
	}
	edge := func() uint64 {
		switch r.Intn(5) {
		case 0: // a multiple of the divisors of the group order
			return lift(uint64([]int{2, 3, 4, 7, 9, 63, 126, 16384, 8192 * 3, 516096}[r.Intn(10)]-1) % (mod - 2))
		case 1:
			return lift(mod - 3)
		case 2:
			return lift(0)
		}
		return r.Odd64()
	}
	base := r.Odd64() &^ 31
	for i := uint64(0); i < 32; i++ {
		emit([4]uint64{edge(), edge(), edge(), edge()}, base+i)
	}
	for i := 0; i < rec.Pick(60, 200); i++ {
		emit([4]uint64{edge(), edge(), edge(), edge()}, r.Odd64())
	}
}

func c14() {
	runHashers("C14", 128, 4096, rec.Pick(24, 100), rec.Pick(16, 40), []string{"kawpow", "firopow"}, func(v string, cfg dag.Config) hasher {
		if v == "kawpow" {
			cl := kawpow.New(cfg)
			return func(hash []byte, height, nonce uint64) ([][]byte, error) { return two(cl.Compute(hash, height, nonce)) }
		}
		cl := firopow.New(cfg)
		return func(hash []byte, height, nonce uint64) ([][]byte, error) { return two(cl.Compute(hash, height, nonce)) }
	})
	if hooks.Progpow094 != nil {
		runHashers("C14plain", 128, 4096, rec.Pick(8, 40), rec.Pick(12, 40), []string{"progpow094"}, func(v string, cfg dag.Config) hasher {
			d := dag.New(cfg)
			return func(hash []byte, height, nonce uint64) ([][]byte, error) {
				e := d.CalcEpoch(height)
				cache := d.GetCache(e)
				a, b := hooks.Progpow094(hash, height, nonce, d.DatasetSize(e), d.NewLookupFunc2048(cache, e), cache.L1())
				runtime.KeepAlive(cache)
				return [][]byte{a, b}, nil
			}
		})
	}
	progpowParts()
	// the mix function itself, with any period and seed
	r := rec.NewRng("C14mix")
	for i := 0; i < rec.Pick(90, 300); i++ {
		c := randCfg(r, 4096)
		c.ci, c.cg = c.ci/4*2+4, 2
		cfg := c.cfg(128, "M", "")
		d := dag.New(cfg)
		cache := d.GetCache(0)
		lookup := d.NewLookupFunc2048(cache, 0)
		period := []uint64{1, 3, 10, 50}[r.Intn(4)]
		height, seed := r.Odd64(), r.Odd64()
		res := rec.Call(limit, func() rec.M {
			mix := progpow.Hash(&progpow.Config{PeriodLength: period, DagLoads: 4, CacheBytes: 16 * 1024, LaneCount: 16, RegisterCount: 32,
				RoundCount: 64, RoundCacheAccesses: 11, RoundMathOperations: 18}, height, seed, d.DatasetSize(0), lookup, cache.L1())
			return rec.Result(nil, mix)
		})
		rec.Emit(rec.M{"op": "mix", "cfg": c.json(), "height": rec.W64(height), "period": period, "seed": rec.W64(seed), "res": res})
	}
}

// progpowParts calls the parts that unexported functions give access to.
func progpowParts() {
	r := rec.NewRng("C14parts")
	word := func() uint32 {
		switch r.Intn(3) {
		case 0:
			return []uint32{0, 1, 2, 31, 32, 33, 63, 64, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xffff, 0x10000, 0xffff0000}[r.Intn(16)]
		case 1:
			return r.Odd32()
		}
		return r.U32()
	}
	ok := func(v interface{}) rec.M { return rec.M{"kind": "ok", "val": v} }
	for _, x := range []struct {
		op string
		f  func(a, b, s uint32) uint32
	}{{"math", hooks.Math}, {"merge", hooks.Merge}} {
		if x.f == nil {
			continue
		}
		for i := 0; i < rec.Pick(400, 2500); i++ {
			a, b := word(), word()
			switch r.Intn(6) {
			case 0:
				b = a
			case 1:
				b = ^a
			}
			var sel []uint32
			for k := uint32(0); k < 44; k++ { // every operation, and every distance of a rotation over time
				s := r.U32()/44*44 + k
				if x.op == "merge" {
					s = r.U32()/4*4 + k%4
					if r.Intn(4) == 0 {
						s = uint32(r.Intn(32)+31*r.Intn(2000))<<16 | uint32(r.Intn(4))
					}
				}
				sel = append(sel, s)
			}
			sel = append(sel, 0, 10, 11, 0xffffffff, 0xfffffffe, 0x80000000, 0xffff0000, 0x1f0002, 0x1e0003)
			res := rec.Call(limit, func() rec.M {
				var out []uint32
				for _, s := range sel {
					out = append(out, x.f(a, b, s))
				}
				return ok(rec.W32s(out))
			})
			rec.Emit(rec.M{"op": x.op, "a": rec.W32(a), "b": rec.W32(b), "sel": rec.W32s(sel), "res": res})
		}
	}
	if hooks.Kiss != nil {
		for i := 0; i < rec.Pick(150, 600); i++ {
			st := []uint32{word(), word(), word(), word()}
			n := 1 + r.Intn(120)
			res := rec.Call(limit, func() rec.M { return ok(rec.W32s(hooks.Kiss(st[0], st[1], st[2], st[3], n))) })
			rec.Emit(rec.M{"op": "kiss", "state": rec.W32s(st), "n": n, "res": res})
		}
	}
	lanes := func(m [][]uint32) [][][]int {
		out := [][][]int{}
		for _, l := range m {
			out = append(out, rec.W32s(l))
		}
		return out
	}
	if hooks.InitMix != nil {
		for i := 0; i < rec.Pick(90, 300); i++ {
			seed := r.Odd64()
			res := rec.Call(limit, func() rec.M { return ok(lanes(hooks.InitMix(seed, 16, 32))) })
			rec.Emit(rec.M{"op": "init", "seed": rec.W64(seed), "res": res})
		}
	}
	if hooks.Sequences != nil {
		for i := 0; i < rec.Pick(150, 600); i++ {
			seed := r.Odd64()
			res := rec.Call(limit, func() rec.M {
				a, b := hooks.Sequences(seed, 32)
				return ok([][]uint32{a, b})
			})
			rec.Emit(rec.M{"op": "sequences", "seed": rec.W64(seed), "res": res})
		}
	}
	if hooks.Round != nil {
		for i := 0; i < rec.Pick(150, 600); i++ {
			seed, n := r.Odd64(), uint32(r.Intn(64))
			fill := func(k int) []uint32 {
				out := make([]uint32, k)
				for j := range out {
					out[j] = word()
				}
				return out
			}
			mix := make([][]uint32, 16)
			for l := range mix {
				mix[l] = fill(32)
				if r.Intn(8) == 0 {
					mix[l] = make([]uint32, 32)
				}
			}
			rows := make([][]uint32, 1+r.Intn(4))
			for k := range rows {
				rows[k] = fill(64)
			}
			l1 := fill(16 * (1 + r.Intn(16)))
			m := rec.M{"op": "round", "seed": rec.W64(seed), "r": n, "mix": lanes(mix), "rows": lanes(rows), "l1": rec.W32s(l1)}
			m["res"] = rec.Call(limit, func() rec.M {
				return ok(lanes(hooks.Round(seed, n, mix, 256*uint64(len(rows))+uint64(r.Intn(2)*128), func(i uint32) []uint32 { return append([]uint32{}, rows[i]...) }, l1)))
			})
			rec.Emit(m)
		}
	}
}
