package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"

	"github.com/dchest/blake2b"

	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

// graphClient returns a client whose graph is given: edge -> end points.
func graphClient(variant string, edgeBits, l int, ends map[uint64][2]uint64) *cuckoo.Client {
	if variant == "cuckoo" {
		return cuckoo.NewCuckoo(edgeBits, l, func(mask uint64, _ [4]uint64, e, uorv uint64) uint64 { return ends[e][uorv] & mask }, nil)
	}
	return cuckoo.NewCuckaroo(edgeBits, l, nil, func(_ [4]uint64, e uint64) uint64 { return ends[e][0] | ends[e][1]<<32 })
}

func graphCall(variant string, edgeBits, l int, edges []uint64, ends map[uint64][2]uint64) rec.M {
	cl := graphClient(variant, edgeBits, l, ends)
	res := rec.Call(limit, func() rec.M {
		ok, err := cl.Verify([]byte("graph"), append([]uint64{}, edges...))
		return rec.Verdict(ok, err)
	})
	var keys []uint64
	for k := range ends {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	tab := [][]interface{}{}
	for _, k := range keys {
		tab = append(tab, []interface{}{rec.W64(k), int(ends[k][0]), int(ends[k][1])})
	}
	return rec.M{"op": "graph", "v": variant, "bits": edgeBits, "l": l, "edges": rec.W64s(edges), "table": tab, "res": res}
}

// rgs calls f with every way of dividing n positions into classes.
func rgs(n int, f func([]int)) {
	a := make([]int, n)
	var step func(i, max int)
	step = func(i, max int) {
		if i == n {
			f(a)
			return
		}
		for x := 0; x <= max; x++ {
			a[i] = x
			m := max
			if x == max {
				m++
			}
			step(i+1, m)
		}
	}
	step(0, 0)
}

func c18() {
	r := rec.NewRng("C18")
	labels := []func(int) uint64{
		func(i int) uint64 { return uint64(i) },
		func(i int) uint64 { return uint64(i + 1) },
		func(i int) uint64 { return 1 << uint(i) },
		func(i int) uint64 { return 0x3ff - uint64(i) },
	}
	// every bipartite graph of up to maxL edges
	maxL := rec.Pick(5, 6)
	var jobs []func(*rec.Buf)
	n := 0
	for l := 1; l <= 6; l++ {
		l := l
		rgs(l, func(us []int) {
			us = append([]int{}, us...)
			rgs(l, func(vs []int) {
				n++
				if l > maxL && n%5 != int(r.U64()%5) {
					return
				}
				lab := n % len(labels)
				if len(us) <= 3 || rec.Thorough() {
					lab = -1
				}
				for k, f := range labels {
					if lab >= 0 && k != lab {
						continue
					}
					ends, edges := map[uint64][2]uint64{}, []uint64{}
					for i := range us {
						edges = append(edges, uint64(3*i+1))
						ends[uint64(3*i+1)] = [2]uint64{f(us[i]), f(vs[i])}
					}
					v := []string{"cuckoo", "cuckaroo"}[(n/4+k)%2]
					if len(us) <= 4 || rec.Thorough() {
						rec.Emit(graphCall([]string{"cuckaroo", "cuckoo"}[(n/4+k)%2], 10, l, edges, ends))
					}
					rec.Emit(graphCall(v, 10, l, edges, ends))
				}
			})
		})
	}
	// every list of a few edges of a small graph, in any order and with repetitions
	for l := 1; l <= rec.Pick(4, 5); l++ {
		ends := map[uint64][2]uint64{}
		var pool []uint64
		for i := 0; i < l; i++ { // one cycle
			e := uint64(5*i + 2)
			pool = append(pool, e)
			ends[e] = [2]uint64{labels[1](i), labels[2]((i + 1) % l)}
		}
		if l%2 == 0 { // pairs of edges with a common end at either side
			for i := 0; i < l; i++ {
				ends[pool[i]] = [2]uint64{labels[1](i / 2), labels[2](((i + 1) % l) / 2)}
			}
		}
		total := 1
		for i := 0; i < l; i++ {
			total *= l
		}
		for x := 0; x < total; x++ {
			var edges []uint64
			for i, y := 0, x; i < l; i, y = i+1, y/l {
				edges = append(edges, pool[y%l])
			}
			for _, v := range []string{"cuckoo", "cuckaroo"} {
				if l < 5 || (x+int(v[5]))%4 == 0 {
					rec.Emit(graphCall(v, 10, l, edges, ends))
				}
			}
		}
	}
	// larger graphs: one cycle, several cycles, repeated and changed ends
	for i := 0; i < rec.Pick(600, 6000); i++ {
		l := []int{7, 8, 9, 10, 12, 16, 20, 42}[r.Intn(8)]
		ends, edges := cycles(r, l)
		// damage
		switch r.Intn(6) {
		case 0:
			e := edges[r.Intn(l)]
			x := ends[e]
			x[r.Intn(2)] = ends[edges[r.Intn(l)]][r.Intn(2)]
			ends[e] = x
		case 1: // exchange the far ends of two edges
			a, b, s := edges[r.Intn(l)], edges[r.Intn(l)], r.Intn(2)
			x, y := ends[a], ends[b]
			x[s], y[s] = y[s], x[s]
			ends[a], ends[b] = x, y
		case 2: // merge two nodes
			s := r.Intn(2)
			p, q := ends[edges[r.Intn(l)]][s], ends[edges[r.Intn(l)]][s]
			for _, e := range edges {
				if x := ends[e]; x[s] == p {
					x[s] = q
					ends[e] = x
				}
			}
		}
		v := []string{"cuckoo", "cuckaroo"}[r.Intn(2)]
		rec.Emit(graphCall(v, 20, l, edges, ends))
		// order and range, with the same graph
		alt := append([]uint64{}, edges...)
		switch r.Intn(8) {
		case 0:
			x := r.Intn(l - 1)
			alt[x], alt[x+1] = alt[x+1], alt[x]
		case 1:
			alt = append(alt[1:], alt[0])
		case 2:
			alt[r.Intn(l-1)+1] = alt[0]
		case 3:
			alt = alt[:l-1]
		case 4:
			alt = append(alt, alt[l-1]+1)
		case 5:
			alt = nil
		case 6: // the largest edge of the graph, and one beyond
			alt[l-1] = 1<<20 - 1
			ends[alt[l-1]] = ends[edges[l-1]]
		case 7:
			alt[l-1] = []uint64{1 << 20, 1<<20 + edges[l-1], 1 << 32, 1<<63 + 5, ^uint64(0), ^uint64(0) - 1}[r.Intn(6)]
			ends[alt[l-1]] = ends[edges[l-1]]
		}
		if len(alt) > l {
			ends[alt[l]] = [2]uint64{1, 1}
		}
		rec.Emit(graphCall(v, 20, l, alt, ends))
	}
	// real graphs
	for i := 0; i < rec.Pick(24, 200); i++ {
		i := i
		jobs = append(jobs, func(out *rec.Buf) { realGraph(rec.NewRng(fmt.Sprintf("C18real%d", i)), i, out) })
	}
	rec.Parallel(jobs)
	cuckooVectors(r)
}

// cycles returns a graph of l edges made of one or more simple cycles.
func cycles(r *rec.Rng, l int) (map[uint64][2]uint64, []uint64) {
	var parts []int
	rest := l
	for rest > 0 {
		p := rest
		if r.Intn(2) == 0 && rest >= 4 {
			p = 2 + 2*r.Intn(rest/2-1)
		}
		parts = append(parts, p)
		rest -= p
	}
	var list [][2]uint64
	base := uint64(1 + r.Intn(500))
	for _, p := range parts {
		n := uint64((p + 1) / 2)
		for i := 0; i < p; i++ {
			u := base + uint64(i+1)/2%n
			v := base + uint64(i)/2
			list = append(list, [2]uint64{u, v})
		}
		base += n
	}
	ends, edges := map[uint64][2]uint64{}, make([]uint64, l)
	e := uint64(0)
	for i := range edges {
		e += 1 + r.U64()%1000
		edges[i] = e
		k := i + r.Intn(len(list)-i)
		list[i], list[k] = list[k], list[i]
		ends[e] = list[i]
	}
	return ends, edges
}

func keysOf(header []byte) (k [4]uint64) {
	h := blake2b.Sum256(header)
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	return
}

// own copies of the edge functions, to find cycles with
func sip(k [4]uint64, c, d int, n uint64) [4]uint64 {
	v := k
	round := func() {
		v[0] += v[1]
		v[2] += v[3]
		v[1] = bits.RotateLeft64(v[1], 13) ^ v[0]
		v[3] = bits.RotateLeft64(v[3], 16) ^ v[2]
		v[0] = bits.RotateLeft64(v[0], 32)
		v[2] += v[1]
		v[0] += v[3]
		v[1] = bits.RotateLeft64(v[1], 17) ^ v[2]
		v[3] = bits.RotateLeft64(v[3], 21) ^ v[0]
		v[2] = bits.RotateLeft64(v[2], 32)
	}
	v[3] ^= n
	for i := 0; i < c; i++ {
		round()
	}
	v[0] ^= n
	v[2] ^= 0xff
	for i := 0; i < d; i++ {
		round()
	}
	return v
}

func realGraph(r *rec.Rng, i int, out *rec.Buf) {
	variant := []string{"cuckoo", "legacy", "cuckaroo"}[i%3]
	eb := 7 + r.Intn(4)
	header := r.Bytes([]int{0, 1, 80, 128, 129, 40, 32}[r.Intn(7)])
	keys := keysOf(header)
	mask := uint64(1)<<uint(eb) - 1
	n := uint64(1) << uint(eb)
	ends := make([][2]uint64, n)
	for e := uint64(0); e < n; e++ {
		if variant == "cuckaroo" {
			if e%64 == 0 {
				s := keys
				var b [64]uint64
				for j := range b {
					s = sip(s, 4, 8, e+uint64(j))
					b[j] = s[0] ^ s[1] ^ s[2] ^ s[3]
				}
				for j := range b {
					x := b[j]
					if j < 63 {
						x ^= b[63]
					}
					ends[e+uint64(j)] = [2]uint64{x & mask, x >> 32 & mask}
				}
			}
			continue
		}
		for s := uint64(0); s < 2; s++ {
			v := sip(keys, 2, 4, 2*e+s)
			x := v[0] ^ v[1] ^ v[2] ^ v[3]
			if variant == "legacy" {
				x = bits.RotateLeft64(x, 17)
			}
			ends[e][s] = x & mask
		}
	}
	mk := func(l int) *cuckoo.Client {
		switch variant {
		case "cuckoo":
			return cuckoo.NewCuckoo(eb, l, crypto.SipNode24, nil)
		case "legacy":
			return cuckoo.NewCuckoo(eb, l, crypto.SipNode24Legacy, nil)
		}
		return cuckoo.NewCuckaroo(eb, l, nil, crypto.SipBlock48)
	}
	emit := func(l int, edges []uint64) {
		out.Emit(cuckooCall(mk(l), variant, eb, l, header, edges))
	}
	var by [2]map[uint64][]uint64
	for s := range by {
		by[s] = map[uint64][]uint64{}
		for e := uint64(0); e < n; e++ {
			by[s][ends[e][s]] = append(by[s][ends[e][s]], e)
		}
	}
	found, steps := 0, 0
	seen := map[int]int{}
	var path []uint64
	var walk func(side int)
	walk = func(side int) {
		steps++
		if found >= 8 || steps > 200000 {
			return
		}
		last := path[len(path)-1]
		for _, e := range by[side][ends[last][side]] {
			used := false
			for _, x := range path {
				used = used || x == e
			}
			if used {
				continue
			}
			path = append(path, e)
			o := 1 - side
			// closes a cycle?
			if len(path)%2 == 0 && ends[e][o] == ends[path[0]][o] && simple(path, ends) && seen[len(path)] < 3 {
				seen[len(path)]++
				found++
				p := append([]uint64{}, path...)
				sort.Slice(p, func(a, b int) bool { return p[a] < p[b] })
				l := len(p)
				emit(l, p)
				q := append([]uint64{}, p...)
				q[r.Intn(l)] ^= 1 << uint(r.Intn(eb))
				emit(l, q)
				q = append([]uint64{}, p...)
				a := r.Intn(l - 1)
				q[a], q[a+1] = q[a+1], q[a]
				emit(l, q)
				q = append([]uint64{}, p...)
				q[l-1] += n << uint(r.Intn(3)*10)
				emit(l, q)
				h2 := append([]byte{1}, header...)
				out.Emit(cuckooCall(mk(l), variant, eb, l, h2, p))
			}
			if len(path) < 12 {
				walk(o)
			}
			path = path[:len(path)-1]
		}
	}
	for e := uint64(0); e < n && found < 8; e++ {
		path = []uint64{e}
		walk(1)
	}
	for k := 0; k < 4; k++ {
		l := 2 + 2*r.Intn(4)
		q := make([]uint64, l)
		x := uint64(0)
		for i := range q {
			x += 1 + r.U64()%(n/uint64(2*l))
			q[i] = x
		}
		emit(l, q)
	}
}

func simple(path []uint64, ends [][2]uint64) bool {
	for s := 0; s < 2; s++ {
		cnt := map[uint64]int{}
		for _, e := range path {
			cnt[ends[e][s]]++
		}
		for _, c := range cnt {
			if c != 2 {
				return false
			}
		}
	}
	return true
}

func cuckooCall(cl *cuckoo.Client, variant string, eb, l int, header []byte, edges []uint64) rec.M {
	res := rec.Call(limit, func() rec.M {
		ok, err := cl.Verify(header, append([]uint64{}, edges...))
		return rec.Verdict(ok, err)
	})
	return rec.M{"op": "real", "v": variant, "bits": eb, "l": l, "header": rec.Bytes(header), "edges": rec.W64s(edges), "res": res}
}
