package main

import (
	"math"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/zzverif/hooks"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

func heavyCall(cl *heavyhash.Client, hash []byte, ts int64, nonce uint64) rec.M {
	res := rec.Call(limit, func() rec.M {
		o, err := cl.Compute(append([]byte{}, hash...), ts, nonce)
		return rec.Result(err, o)
	})
	return rec.M{"op": "heavy", "hash": rec.Bytes(hash), "ts": rec.W64(uint64(ts)), "nonce": rec.W64(nonce), "res": res}
}

func c19() {
	r := rec.NewRng("C19")
	cl := heavyhash.NewKaspa()
	ts := func() int64 {
		switch r.Intn(6) {
		case 0:
			return math.MinInt64
		case 1:
			return math.MaxInt64
		case 2:
			return 0
		case 3:
			return -int64(r.Odd64() >> 2)
		}
		return int64(r.Odd64())
	}
	if hooks.Matrix != nil {
		for i := 0; i < rec.Pick(200, 600); i++ {
			st := []uint64{r.Odd64(), r.Odd64(), r.Odd64(), r.Odd64() | 1}
			if i%4 == 0 {
				st = []uint64{0, 0, 0, 0}
				st[r.Intn(4)] = uint64(1) << uint(r.Intn(64))
			}
			res := rec.Call(limit, func() rec.M { return rec.M{"kind": "ok", "val": hooks.Matrix(st[0], st[1], st[2], st[3])} })
			rec.Emit(rec.M{"op": "matrix", "state": rec.W64s(st), "res": res})
		}
	}
	candidates(r, cl, ts)
	emit := func(h []byte) { rec.Emit(heavyCall(cl, h, ts(), r.Odd64())) }
	emit(make([]byte, 32))
	// few bits set: the generator needs many steps to fill up, so that the
	// first candidates are singular
	bit := func(b ...int) []byte {
		h := make([]byte, 32)
		for _, x := range b {
			h[x/8] |= 1 << uint(x%8)
		}
		return h
	}
	for i := 0; i < 256; i++ {
		if rec.Thorough() || r.Intn(3) == 0 || i%64 == 0 || i%64 == 63 {
			emit(bit(i))
		}
	}
	for i := 0; i < rec.Pick(200, 1500); i++ {
		emit(bit(r.Intn(256), r.Intn(256)))
		emit(bit(r.Intn(256), r.Intn(256), r.Intn(256)))
	}
	for i := 0; i < rec.Pick(600, 3000); i++ {
		h := r.Hash()
		switch r.Intn(5) {
		case 0: // single words
			w := r.Intn(4)
			for k := range h {
				if k/8 != w {
					h[k] = 0
				}
			}
		case 1:
			for k := range h {
				h[k] = byte(r.Intn(2)) * 0xff
			}
		}
		emit(h)
	}
}

func c20() {
	r := rec.NewRng("C20")
	emit := func(k, n uint32, msg []byte, height, nonce uint64) {
		cl := autolykos2.New(k, n)
		if k == 32 && n == 26 {
			cl = autolykos2.NewErgo()
		}
		res := rec.Call(limit, func() rec.M {
			o, err := cl.Compute(append([]byte{}, msg...), height, nonce)
			return rec.Result(err, o)
		})
		rec.Emit(rec.M{"op": "autolykos", "k": int(k), "n": int(n), "msg": rec.Bytes(msg), "height": rec.W64(height), "nonce": rec.W64(nonce), "res": res})
	}
	if hooks.TableSize != nil {
		for i := 0; i < rec.Pick(200, 500); i++ {
			base := uint32(1 + r.Intn(1<<26))
			if i%3 == 0 {
				base = 1 << uint(7+r.Intn(20))
			}
			var hs []uint64
			for s := uint64(0); s <= 72; s++ {
				hs = append(hs, 614400+51200*s-1, 614400+51200*s, 614400+51200*s+uint64(r.Intn(51200)))
			}
			for k := 0; k < 40; k++ {
				hs = append(hs, r.Odd64(), r.U64()%5000000)
			}
			res := rec.Call(limit, func() rec.M {
				var out []uint32
				for _, h := range hs {
					out = append(out, hooks.TableSize(base, h))
				}
				return rec.M{"kind": "ok", "val": out}
			})
			rec.Emit(rec.M{"op": "size", "base": base, "heights": rec.W64s(hs), "res": res})
		}
	}
	// every growth step of the table
	for s := 0; s <= 72; s++ {
		for _, d := range []int{-1, 0, 1} {
			h := uint64(614400 + 51200*s + d)
			if d != 1 || r.Intn(4) == 0 || rec.Thorough() {
				emit(32, 26, r.Hash(), h, r.Odd64())
			}
			if rec.Thorough() {
				emit(1+uint32(r.Intn(32)), 7+uint32(r.Intn(20)), r.Hash(), h, r.Odd64())
			}
		}
	}
	for _, h := range []uint64{0, 1, 614399, 614400, 614401, 4198398, 4198399, 4198400, 4198401, 4249600, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1,
		1<<32 + 614400, 1<<32 + 4198400, 1 << 40, 1<<63 - 1, 1 << 63, ^uint64(0)} {
		emit(32, 26, r.Hash(), h, r.Odd64())
		emit(1+uint32(r.Intn(32)), 7+uint32(r.Intn(20)), r.Hash(), h, r.Odd64())
	}
	// few elements: short sums with leading zero bytes; small tables: repeated elements
	for i := 0; i < rec.Pick(2500, 8000); i++ {
		k := uint32(1)
		if r.Intn(4) == 0 {
			k = 1 + uint32(r.Intn(32))
		}
		n := 7 + uint32(r.Intn(20))
		emit(k, n, r.Hash(), uint64(r.Intn(5000000)), r.Odd64())
	}
}

var longer = []int{1<<21 - 1, 1<<22 + 1, 1 << 20}

func c21() {
	r := rec.NewRng("C21")
	cl := eaglesong.NewNervos()
	emit := func(in []byte) {
		res := rec.Call(limit, func() rec.M { return rec.Result(nil, cl.Compute(append([]byte{}, in...))) })
		rec.Emit(rec.M{"op": "eagle", "in": rec.Bytes(in), "res": res})
	}
	emit(nil)
	for n := 0; n <= rec.Pick(420, 1200); n++ {
		emit(r.Bytes(n))
		if n%32 < 6 || n%32 > 26 || rec.Thorough() {
			b := make([]byte, n)
			x := []byte{0, 0xff, 6, 0x80}[r.Intn(4)]
			for i := range b {
				b[i] = x
			}
			emit(b)
		}
	}
	for _, n := range []int{511, 512, 1000, 1024, 2047, 2048, 4095, 4096, 4097, 8159, 8160, 8191, 8192, 8193, 65535, 65536, 65568, r.Intn(20000), r.Intn(100000)} {
		emit(r.Bytes(n))
	}
	// messages so long that they are told by their period
	for _, n := range append([]int{1<<21 + r.Intn(40)}, longer...)[:rec.Pick(1, 4)] {
		unit := r.Bytes(1 + r.Intn(50))
		in := make([]byte, n)
		for i := range in {
			in[i] = unit[i%len(unit)]
		}
		res := rec.Call(limit, func() rec.M { return rec.Result(nil, cl.Compute(in)) })
		rec.Emit(rec.M{"op": "cycle", "unit": rec.Bytes(unit), "len": n, "res": res})
	}
	for i := 0; i < rec.Pick(100, 300); i++ {
		b := make([]byte, r.Intn(100)+1)
		b[r.Intn(len(b))] = 1 << uint(r.Intn(8))
		emit(b)
	}
}
