package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/sencha-dev/powkit/internal/common/bitutil"
	"github.com/sencha-dev/powkit/internal/common/convutil"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

// primRun is one sequence of uses of the primitives.
type primRun struct {
	r      *rec.Rng
	events []rec.M
	kept   [][]byte // results handed out, and what they were
	was    [][]byte
}

func (p *primRun) add(m rec.M) { p.events = append(p.events, m) }

// call records a function call; ins are the arguments' memory.
func (p *primRun) call(f string, a rec.M, ins [][]byte, fn func() interface{}) {
	before := make([][]byte, len(ins))
	for i := range ins {
		before[i] = append([]byte{}, ins[i]...)
	}
	res := rec.Call(limit, func() rec.M { return rec.M{"kind": "ok", "val": fn()} })
	changed := false
	for i := range ins {
		changed = changed || !bytes.Equal(before[i], ins[i])
	}
	p.add(rec.M{"ev": "call", "f": f, "a": a, "res": res, "changed": changed})
}

// keep remembers a result that later calls must not touch.
func (p *primRun) keep(b []byte) []int {
	p.kept = append(p.kept, b)
	p.was = append(p.was, append([]byte{}, b...))
	return rec.Bytes(b)
}

func (p *primRun) check() {
	ok := true
	for i := range p.kept {
		ok = ok && bytes.Equal(p.kept[i], p.was[i])
	}
	p.add(rec.M{"ev": "kept", "ok": ok})
}

// data of a length around the blocks of the hashes.
func (p *primRun) data() []byte {
	n := p.r.Intn(300)
	switch p.r.Intn(4) {
	case 0:
		n = []int{0, 1, 31, 32, 33, 63, 64, 65, 71, 72, 73, 96, 127, 128, 129, 135, 136, 137, 143, 144, 145, 255, 256, 257, 271, 272, 273}[p.r.Intn(27)]
	case 1:
		n = []int{32, 64, 40, 8, 84}[p.r.Intn(5)]
	}
	return p.exact(n)
}

func (p *primRun) exact(n int) []byte {
	b := p.r.Bytes(n)
	switch p.r.Intn(10) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	}
	return b
}

func (p *primRun) words(n int) []uint32 {
	w := make([]uint32, n)
	for i := range w {
		w[i] = p.r.Odd32()
	}
	return w
}

func (p *primRun) lanes() [4]uint64 {
	var k [4]uint64
	for i := range k {
		k[i] = p.r.Odd64()
	}
	return k
}

func (p *primRun) functions(n int) {
	r := p.r
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0:
			d := p.data()
			p.call("keccak256", rec.M{"data": rec.Bytes(d)}, [][]byte{d}, func() interface{} { return p.keep(crypto.Keccak256(d)) })
		case 1:
			d := p.data()
			p.call("keccak512", rec.M{"data": rec.Bytes(d)}, [][]byte{d}, func() interface{} { return p.keep(crypto.Keccak512(d)) })
		case 2:
			var s [25]uint32
			copy(s[:], p.words(25))
			if r.Intn(4) == 0 {
				s = [25]uint32{}
				s[r.Intn(25)] = 1 << uint(r.Intn(32))
			}
			p.call("f800", rec.M{"state": rec.W32s(s[:])}, nil, func() interface{} { crypto.KeccakF800(&s); return rec.W32s(s[:]) })
		case 3:
			d, s := p.data(), p.r.Bytes([]int{0, 1, 7, 8, 11, 12, 16, 31, 32, 33, 64, 127, 128, 130, 131, 132, 200, 268}[r.Intn(18)])
			size := []int{32, 32, 32, 1, 64, 135, 136, 137, 300, 0}[r.Intn(10)]
			p.call("cshake256", rec.M{"data": rec.Bytes(d), "person": rec.Bytes(s), "size": size}, [][]byte{d, s}, func() interface{} { return p.keep(crypto.CShake256(d, s, size)) })
		case 4:
			d, s := p.data(), p.r.Bytes([]int{16, 16, 16, 0, 1, 7, 8, 9, 15}[r.Intn(9)])
			size := 1 + r.Intn(64)
			p.call("blake2b", rec.M{"data": rec.Bytes(d), "person": rec.Bytes(s), "size": size}, [][]byte{d, s}, func() interface{} { return p.keep(crypto.Blake2b(d, s, size)) })
		case 5:
			d := p.data()
			p.call("blake2b256", rec.M{"data": rec.Bytes(d)}, [][]byte{d}, func() interface{} { return p.keep(crypto.Blake2b256(d)) })
		case 6:
			u, v := r.Odd32(), r.Odd32()
			a := rec.M{"u": rec.W32(u), "v": rec.W32(v)}
			p.call("fnv1", a, nil, func() interface{} { return rec.W32(crypto.Fnv1(u, v)) })
			p.call("fnv1a", a, nil, func() interface{} { return rec.W32(crypto.Fnv1a(u, v)) })
			x, y := r.Odd64(), r.Odd64()
			p.call("fnv1l", rec.M{"u": rec.W64(x), "v": rec.W64(y)}, nil, func() interface{} { return rec.W64(crypto.Fnv1Uint64(x, y)) })
		case 7:
			n := []int{16, 32, 1, 0, 64, 5}[r.Intn(6)]
			m, d := p.words(n), p.words(n+r.Intn(2)*r.Intn(4))
			same := append([]uint32{}, d...)
			a := rec.M{"mix": rec.W32s(m), "data": rec.W32s(d)}
			p.call("fnvhash", a, nil, func() interface{} {
				crypto.FnvHash(m, d)
				for i := range d {
					if d[i] != same[i] {
						return "data changed"
					}
				}
				return rec.W32s(m)
			})
		case 8:
			mask := []uint64{1<<29 - 1, 1<<24 - 1, 1<<uint(r.Intn(64)) - 1, ^uint64(0), 1}[r.Intn(5)]
			k, e, side := p.lanes(), r.Odd64(), uint64(r.Intn(2))
			a := rec.M{"mask": rec.W64(mask), "keys": rec.W64s(k[:]), "edge": rec.W64(e), "uorv": rec.W64(side)}
			p.call("sipnode", a, nil, func() interface{} { return rec.W64(crypto.SipNode24(mask, k, e, side)) })
			p.call("sipnodelegacy", a, nil, func() interface{} { return rec.W64(crypto.SipNode24Legacy(mask, k, e, side)) })
		case 9:
			k, e := p.lanes(), r.Odd64()
			if r.Intn(3) == 0 {
				e |= 63
			}
			p.call("sipblock", rec.M{"keys": rec.W64s(k[:]), "edge": rec.W64(e)}, nil, func() interface{} { return rec.W64(crypto.SipBlock48(k, e)) })
		case 10:
			d := p.exact(r.Intn(70))
			a := rec.M{"data": rec.Bytes(d)}
			p.call("wordsle", a, [][]byte{d}, func() interface{} { return rec.W32s(convutil.BytesToUint32Array(d, binary.LittleEndian)) })
			p.call("wordsbe", a, [][]byte{d}, func() interface{} { return rec.W32s(convutil.BytesToUint32Array(d, binary.BigEndian)) })
		case 11:
			w := p.words(r.Intn(20))
			a := rec.M{"words": rec.W32s(w)}
			p.call("bytesle", a, nil, func() interface{} { return p.keep(convutil.Uint32ArrayToBytes(w, binary.LittleEndian)) })
			p.call("bytesbe", a, nil, func() interface{} { return p.keep(convutil.Uint32ArrayToBytes(w, binary.BigEndian)) })
			u, x := r.Odd32(), r.Odd64()
			a1, a2 := rec.M{"words": [][]int{rec.W32(u)}}, rec.M{"words": [][]int{rec.W64(x)}}
			p.call("bytesle", a1, nil, func() interface{} { return p.keep(convutil.Uint32ToBytes(u, binary.LittleEndian)) })
			p.call("bytesbe", a1, nil, func() interface{} { return p.keep(convutil.Uint32ToBytes(u, binary.BigEndian)) })
			p.call("bytesle", a2, nil, func() interface{} { return p.keep(convutil.Uint64ToBytes(x, binary.LittleEndian)) })
			p.call("bytesbe", a2, nil, func() interface{} { return p.keep(convutil.Uint64ToBytes(x, binary.BigEndian)) })
		}
	}
	p.check()
}

// xors goes through the lengths in [from, to) at every alignment of a machine word.
func (p *primRun) xors(from, to int) {
	r := p.r
	for n := from; n < to; n++ {
		for k := 0; k < 6; k++ {
			la, lb, room := n, n, n
			switch k {
			case 1:
				la += r.Intn(20)
			case 2:
				lb += r.Intn(20)
			case 3:
				room += r.Intn(20)
			}
			mem := p.exact(3*n + 160)
			at := r.Intn(16)
			a := mem[at : at+la]
			at += la + r.Intn(9)
			b := mem[at : at+lb]
			at += lb + r.Intn(9)
			dst := mem[at : at+room]
			switch k {
			case 4:
				dst = a
			case 5:
				dst = b
			}
			arg := rec.M{"a": rec.Bytes(a), "b": rec.Bytes(b), "before": rec.Bytes(dst)}
			around := append([]byte{}, mem...)
			off := cap(mem) - cap(dst)
			p.call("xor", arg, nil, func() interface{} {
				m := bitutil.XORBytes(dst, a, b)
				for i := range mem {
					if (i < off || i >= off+len(dst)) && mem[i] != around[i] {
						return "memory beside the destination changed"
					}
				}
				return []interface{}{m, rec.Bytes(dst)}
			})
		}
	}
}

// objects uses several hashers and generators in turn.
func (p *primRun) objects(n int) {
	r := p.r
	hashers, sips, xos := map[string]crypto.Hasher{}, map[string]*crypto.SipHasher{}, map[string]*crypto.Xoshiro256PlusPlusHasher{}
	var hn, sn, xn []string
	ok := rec.M{"kind": "ok"}
	for i := 0; i < n; i++ {
		id := fmt.Sprint("o", i)
		k := r.Intn(12)
		if i < 3 {
			k = i
		}
		switch {
		case k == 0:
			size := 32 * (1 + r.Intn(2))
			if size == 32 {
				hashers[id] = crypto.NewKeccak256Hasher()
			} else {
				hashers[id] = crypto.NewKeccak512Hasher()
			}
			hn = append(hn, id)
			p.add(rec.M{"ev": "new", "obj": id, "state": size, "res": ok})
		case k == 1:
			s := p.lanes()
			sips[id] = crypto.NewSipHasher(s[0], s[1], s[2], s[3])
			sn = append(sn, id)
			p.add(rec.M{"ev": "new", "obj": id, "state": rec.W64s(s[:]), "res": ok})
		case k == 2:
			s := p.lanes()
			x := crypto.NewXoshiro256PlusPlusHasher(s[0], s[1], s[2], s[3])
			xos[id] = &x
			xn = append(xn, id)
			p.add(rec.M{"ev": "new", "obj": id, "state": rec.W64s(s[:]), "res": ok})
		case k <= 5:
			o := hn[r.Intn(len(hn))]
			data := p.data()
			dst := p.exact(64 + r.Intn(2)*r.Intn(9))
			switch r.Intn(4) {
			case 0: // in place
				data = p.exact(64 + r.Intn(2)*r.Intn(100))
				dst = data
			case 1: // the source overlaps with the destination
				mem := p.exact(200)
				data, dst = mem[r.Intn(40):64+r.Intn(100)], mem[r.Intn(20):100]
			}
			m := rec.M{"ev": "hash", "obj": o, "data": rec.Bytes(data), "before": rec.Bytes(dst)}
			m["res"] = rec.Call(limit, func() rec.M { hashers[o](dst, data); return rec.M{"kind": "ok", "val": rec.Bytes(dst)} })
			p.add(m)
		case k <= 9:
			o := sn[r.Intn(len(sn))]
			op, arg := []string{"hash24", "hash48", "round", "lanes"}[r.Intn(4)], r.Odd64()
			res := rec.Call(limit, func() rec.M {
				s := sips[o]
				switch op {
				case "hash24":
					s.Hash24(arg)
				case "hash48":
					s.Hash48(arg)
				case "round":
					s.SipRound()
				case "lanes":
					return rec.M{"kind": "ok", "val": rec.W64(s.XorLanes())}
				}
				return rec.M{"kind": "ok", "val": []int{}}
			})
			p.add(rec.M{"ev": "sip", "obj": o, "op": op, "arg": rec.W64(arg), "res": res})
		default:
			o := xn[r.Intn(len(xn))]
			for j := r.Intn(4); j >= 0; j-- {
				p.add(rec.M{"ev": "xo", "obj": o, "res": rec.Call(limit, func() rec.M { return rec.M{"kind": "ok", "val": rec.W64(xos[o].Next())} })})
			}
		}
	}
}

func c23() {
	var jobs []func(*rec.Buf)
	add := func(name string, f func(*primRun)) {
		jobs = append(jobs, func(b *rec.Buf) {
			p := &primRun{r: rec.NewRng("C23" + name)}
			f(p)
			b.Emit(rec.M{"op": name, "events": p.events})
		})
	}
	for i := 0; i < rec.Pick(80, 200); i++ {
		add(fmt.Sprint("functions", i), func(p *primRun) { p.functions(60) })
		add(fmt.Sprint("objects", i), func(p *primRun) { p.objects(80) })
	}
	max := rec.Pick(150, 300)
	for i := 0; i < max; i += 10 {
		i := i
		add(fmt.Sprint("xor", i), func(p *primRun) { p.xors(i, i+10) })
	}
	// a personalisation that fills its block exactly (known finding)
	add("cshake with a personalisation of 129 bytes", func(p *primRun) {
		d, s := make([]byte, 4), make([]byte, 129)
		for i := range s {
			s[i] = byte(i)
		}
		p.call("cshake256", rec.M{"data": rec.Bytes(d), "person": rec.Bytes(s), "size": 32}, [][]byte{d, s}, func() interface{} { return rec.Bytes(crypto.CShake256(d, s, 32)) })
	})
	// every length of a hash's input
	for i := 0; i < rec.Pick(300, 600); i += 50 {
		i := i
		add(fmt.Sprint("lengths", i), func(p *primRun) {
			for n := i; n < i+50; n++ {
				d := p.exact(n)
				p.call("keccak256", rec.M{"data": rec.Bytes(d)}, [][]byte{d}, func() interface{} { return p.keep(crypto.Keccak256(d)) })
				p.call("keccak512", rec.M{"data": rec.Bytes(d)}, [][]byte{d}, func() interface{} { return p.keep(crypto.Keccak512(d)) })
				p.call("blake2b256", rec.M{"data": rec.Bytes(d)}, [][]byte{d}, func() interface{} { return p.keep(crypto.Blake2b256(d)) })
			}
			p.check()
		})
	}
	rec.Parallel(jobs)
}
