package main

import (
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/dchest/blake2b"

	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/internal/zzverif/hooks"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

// A small Wagner solver, used only to come up with candidates that pass most
// of the verification; what they are worth is decided by the checker.
type eq struct {
	n, k, c  uint32
	twist    bool
	personal string
	header   []byte
}

func (q *eq) blake(g uint32) []byte {
	per := make([]byte, len(q.personal)+8)
	copy(per, q.personal)
	binary.LittleEndian.PutUint32(per[len(q.personal):], q.n)
	binary.LittleEndian.PutUint32(per[len(q.personal)+4:], q.k)
	h, err := blake2b.New(&blake2b.Config{Size: uint8(512 / q.n * ((q.n + 7) / 8)), Person: per})
	if err != nil {
		panic(err)
	}
	h.Write(q.header)
	var gb [4]byte
	binary.LittleEndian.PutUint32(gb[:], g)
	h.Write(gb[:])
	return h.Sum(nil)
}

// rows returns the k+1 collision groups of every index.
func (q *eq) rows() [][]uint32 {
	per := 512 / q.n
	bytesPer := int((q.n + 7) / 8)
	total := uint32(1) << (q.c + 1)
	rows := make([][]uint32, 0, total)
	var acc [16]uint32
	for g := uint32(0); uint32(len(rows)) < total; g++ {
		h := q.blake(g)
		if q.twist {
			if g%16 == 0 {
				acc = [16]uint32{}
			}
			for i := range acc {
				acc[i] += binary.LittleEndian.Uint32(h[4*i:])
			}
			for i := range acc {
				binary.LittleEndian.PutUint32(h[4*i:], acc[i])
			}
			for j := 15; j < len(h); j += 16 {
				h[j] &= 0xf8
			}
		}
		for s := 0; s < int(per) && uint32(len(rows)) < total; s++ {
			b := h[s*bytesPer : (s+1)*bytesPer]
			r := make([]uint32, q.k+1)
			for l := range r {
				for x := 0; x < int(q.c); x++ {
					bit := l*int(q.c) + x
					r[l] = r[l]<<1 | uint32(b[bit/8]>>(7-uint(bit%8))&1)
				}
			}
			rows = append(rows, r)
		}
	}
	return rows
}

type eqNode struct {
	g  []uint32 // remaining groups
	ix []uint32
}

// solve collects index lists whose subtrees collide under the given masks
// (one per group; all ones is the real condition).
func (q *eq) solve(rows [][]uint32, mask []uint32, max int, r *rec.Rng) [][]uint32 {
	list := make([]eqNode, len(rows))
	for i := range rows {
		list[i] = eqNode{rows[i], []uint32{uint32(i)}}
	}
	var sols [][]uint32
	for l := 0; l < int(q.k); l++ {
		m, last := mask[l], l == int(q.k)-1
		if m == 0 {
			for i := len(list) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				list[i], list[j] = list[j], list[i]
			}
		} else {
			sort.SliceStable(list, func(a, b int) bool { return list[a].g[0]&m < list[b].g[0]&m })
		}
		var next []eqNode
		for i := 0; i < len(list); i++ {
			for j := i + 1; j < len(list) && j < i+12 && (list[i].g[0]^list[j].g[0])&m == 0; j++ {
				if m == 0 && j > i+1 {
					break
				}
				a, b := list[i], list[j]
				if last && (a.g[1]^b.g[1])&mask[l+1] != 0 {
					continue
				}
				if !last && len(next) > 4*len(rows) {
					break
				}
				if a.ix[0] > b.ix[0] {
					a, b = b, a
				}
				dup := false
				if len(a.ix) <= 64 {
					seen := map[uint32]bool{}
					for _, x := range a.ix {
						seen[x] = true
					}
					for _, x := range b.ix {
						dup = dup || seen[x]
					}
				}
				// keep some candidates with duplicates, drop the identical pair
				if dup && (len(sols) >= max || r.Intn(4) != 0) {
					continue
				}
				g := make([]uint32, len(a.g)-1)
				for x := range g {
					g[x] = a.g[x+1] ^ b.g[x+1]
				}
				nd := eqNode{g, append(append([]uint32{}, a.ix...), b.ix...)}
				if last {
					if len(sols) < max {
						sols = append(sols, nd.ix)
					}
				} else {
					next = append(next, nd)
				}
			}
		}
		list = next
	}
	return sols
}

func packBE(ix []uint32, width int) []byte {
	bits := len(ix) * width
	out := make([]byte, (bits+7)/8)
	for i, x := range ix {
		for b := 0; b < width; b++ {
			p := i*width + b
			out[p/8] |= byte(x>>uint(width-1-b)&1) << (7 - uint(p%8))
		}
	}
	return out
}

func unpackBE(s []byte, width, n int) []uint32 {
	ix := make([]uint32, n)
	for i := range ix {
		for b := 0; b < width; b++ {
			p := i*width + b
			ix[i] = ix[i]<<1 | uint32(s[p/8]>>(7-uint(p%8))&1)
		}
	}
	return ix
}

// swapNode exchanges the two subtrees below one node of level l (1 = pairs).
func swapNode(ix []uint32, l, at int) []uint32 {
	out := append([]uint32{}, ix...)
	w := 1 << uint(l)
	o := at * w
	copy(out[o:o+w/2], ix[o+w/2:o+w])
	copy(out[o+w/2:o+w], ix[o:o+w/2])
	return out
}

// doubleNode makes the right subtree below a node equal to the left one.
func doubleNode(ix []uint32, l, at int) []uint32 {
	out := append([]uint32{}, ix...)
	w := 1 << uint(l)
	o := at * w
	copy(out[o+w/2:o+w], ix[o:o+w/2])
	return out
}

// mutants returns damaged variants of an index list of 2^k leaves.
func mutants(ix []uint32, k, width int, r *rec.Rng, full bool) [][]uint32 {
	var out [][]uint32
	for l := 1; l <= k; l++ {
		nodes := 1 << uint(k-l)
		for at := 0; at < nodes; at++ {
			if full || at == 0 || r.Intn(nodes) < 2 {
				out = append(out, swapNode(ix, l, at))
			}
			if at == 0 || r.Intn(nodes) < 1 {
				out = append(out, doubleNode(ix, l, at))
			}
		}
	}
	// every pair swapped at once, a changed index, all equal, all zero
	all := append([]uint32{}, ix...)
	for i := 0; i+1 < len(all); i += 2 {
		all[i], all[i+1] = all[i+1], all[i]
	}
	ch := append([]uint32{}, ix...)
	ch[r.Intn(len(ch))] ^= 1 << uint(r.Intn(width))
	same := make([]uint32, len(ix))
	for i := range same {
		same[i] = ix[0]
	}
	return append(out, all, ch, same, make([]uint32, len(ix)))
}

func equiCall(cl *equihash.Client, n, k uint32, personal string, twist bool, header, soln []byte) rec.M {
	res := rec.Call(limit, func() rec.M {
		ok, err := cl.Verify(header, soln)
		return rec.Verdict(ok, err)
	})
	return rec.M{"op": "equi", "n": n, "k": k, "person": rec.Bytes([]byte(personal)), "twist": twist,
		"header": rec.Bytes(header), "soln": rec.Bytes(soln), "res": res}
}

type eqParam struct {
	n, k  uint32
	twist bool
	runs  int
}

func c16() {
	params := []eqParam{
		{32, 3, false, 6}, {40, 4, false, 4}, {48, 5, false, 6}, {64, 7, false, 2}, {72, 8, false, 1},
		{40, 3, false, 4}, {48, 3, false, 3}, {72, 5, false, 2}, {72, 7, false, 1}, {56, 3, false, 2},
		{64, 3, false, 1}, {80, 4, false, 1}, {96, 5, false, 1}, {63, 6, false, 3}, {112, 7, false, 2},
		{32, 3, true, 6}, {63, 6, true, 3}, {60, 4, true, 3}, {60, 5, true, 2}, {64, 3, true, 1}, {64, 7, true, 2}, {128, 7, true, 1},
	}
	var jobs []func(*rec.Buf)
	for _, p := range params {
		c := p.n / (p.k + 1)
		runs := p.runs * rec.Pick(1, 6)
		if c >= 16 && !rec.Thorough() {
			runs = 1
		}
		for run := 0; run < runs; run++ {
			p, run := p, run
			jobs = append(jobs, func(out *rec.Buf) { c16run(p, run, rec.NewRng(fmt.Sprintf("C16/%v/%d", p, run)), out) })
		}
	}
	rec.Parallel(jobs)
	c16shipped(rec.NewRng("C16shipped"))
	if hooks.Indices == nil {
		return
	}
	r := rec.NewRng("C16indices")
	for _, p := range append(params, []eqParam{{200, 9, false, 0}, {144, 5, false, 0}, {210, 9, false, 0}, {125, 4, true, 0}, {192, 7, false, 0}, {96, 5, false, 0}}...) {
		for i := 0; i < rec.Pick(3, 20); i++ {
			soln := r.Bytes((1 << p.k) * (int(p.n/(p.k+1)) + 1) / 8)
			if i == 1 {
				for k := range soln {
					soln[k] = 0xff
				}
			}
			res := rec.Call(limit, func() rec.M {
				ix, err := hooks.Indices(p.n, p.k, append([]byte{}, soln...))
				if err != nil {
					return rec.M{"kind": "err"}
				}
				return rec.M{"kind": "ok", "val": rec.W32s(ix)}
			})
			rec.Emit(rec.M{"op": "indices", "n": p.n, "k": p.k, "soln": rec.Bytes(soln), "res": res})
		}
	}
}

func c16run(p eqParam, run int, r *rec.Rng, out *rec.Buf) {
	persons := []string{"ZcashPoW", "BgoldPoW", "AION0PoW", "ZelProof", "x", ""}
	c := p.n / (p.k + 1)
	q := &eq{n: p.n, k: p.k, c: c, twist: p.twist, personal: persons[r.Intn(len(persons))], header: r.Bytes([]int{140, 80, 144, 0, 1, 128, 127, 252}[r.Intn(8)])}
	rows := q.rows()
	cl := equihash.New(q.n, q.k, q.personal, q.twist)
	width := int(c) + 1
	call := func(header, soln []byte) {
		out.Emit(equiCall(cl, q.n, q.k, q.personal, q.twist, header, soln))
	}
	emit := func(ix []uint32) { call(q.header, packBE(ix, width)) }
	ones := func() []uint32 {
		m := make([]uint32, q.k+1)
		for i := range m {
			m[i] = ^uint32(0)
		}
		return m
	}
	sols := q.solve(rows, ones(), 8, r)
	for i, s := range sols {
		emit(s)
		if i < 2 {
			for _, m := range mutants(s, int(p.k), width, r, p.k <= 3) {
				emit(m)
			}
			ok := packBE(s, width)
			for _, n := range []int{0, 1, len(ok) - 1, len(ok) + 1, 2 * len(ok), len(ok) / 2} {
				b := append([]byte{}, ok...)
				for len(b) < n {
					b = append(b, 0)
				}
				call(q.header, b[:n])
			}
			if len(q.header) > 0 {
				h := append([]byte{}, q.header...)
				h[r.Intn(len(h))] ^= 1 << uint(r.Intn(8))
				call(h, ok)
			}
		}
	}
	// candidates that miss a single bit, or a whole group
	for l := 0; l <= int(q.k); l++ {
		if c >= 14 && !rec.Thorough() && r.Intn(3) != 0 {
			continue
		}
		m := ones()
		m[l] = ^(uint32(1) << uint(r.Intn(int(c))))
		for i, s := range q.solve(rows, m, 3, r) {
			if i < 3 {
				emit(s)
			}
		}
		if run%2 == 0 && c < 14 {
			m = ones()
			m[l] = 0
			for i, s := range q.solve(rows, m, 2, r) {
				if i < 2 {
					emit(s)
				}
			}
		}
	}
	emit(unpackBE(r.Bytes((width<<p.k)/8), width, 1<<p.k))
}
