package main

import (
	"math"
	"reflect"

	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/zzverif/hooks"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

type nibbles [64][64]int

// clear tells whether elimination in floating point, in any usual order of
// the operations, must agree with the rank over the rationals: no pivot near
// the borderline, and nothing but tiny remainders where zero is expected.
func (m *nibbles) clear() (full, ok bool) {
	var a [64][64]float64
	for i := range m {
		for j := range m[i] {
			a[i][j] = float64(m[i][j])
		}
	}
	var used [64]bool
	rank := 0
	ok = true
	for c := 0; c < 64; c++ {
		p := -1
		for i := 0; i < 64; i++ {
			x := math.Abs(a[i][c])
			if used[i] {
				continue
			}
			if x > 1e-13 && x < 3e-7 {
				ok = false
			}
			if p < 0 && x > 1e-9 {
				p = i
			}
		}
		if p < 0 {
			continue
		}
		rank++
		used[p] = true
		for i := 0; i < 64; i++ {
			if i == p || a[i][c] == 0 {
				continue
			}
			f := a[i][c] / a[p][c]
			for k := c; k < 64; k++ {
				a[i][k] -= f * a[p][k]
			}
		}
	}
	return rank == 64, ok
}

// minor is the matrix' leading k by k determinant.
func (m *nibbles) minor(k int) float64 {
	a := make([][]float64, k)
	for i := range a {
		for j := 0; j < k; j++ {
			a[i] = append(a[i], float64(m[i][j]))
		}
	}
	det := 1.0
	for c := 0; c < k; c++ {
		p := c
		for i := c; i < k; i++ {
			if math.Abs(a[i][c]) > math.Abs(a[p][c]) {
				p = i
			}
		}
		if p != c {
			a[p], a[c] = a[c], a[p]
			det = -det
		}
		det *= a[c][c]
		if a[c][c] == 0 {
			return 0
		}
		for i := c + 1; i < k; i++ {
			f := a[i][c] / a[c][c]
			for j := c; j < k; j++ {
				a[i][j] -= f * a[c][j]
			}
		}
	}
	return det
}

func (m *nibbles) words() []uint64 {
	var out []uint64
	for i := range m {
		for j := 0; j < 64; j += 16 {
			var w uint64
			for k := 0; k < 16; k++ {
				w |= uint64(m[i][j+k]) << uint(4*k)
			}
			out = append(out, w)
		}
	}
	return out
}

func (m *nibbles) transposed() nibbles {
	var t nibbles
	for i := range m {
		for j := range m[i] {
			t[j][i] = m[i][j]
		}
	}
	return t
}

// special are candidate matrices one does not meet by chance.
func special(r *rec.Rng, kind int) nibbles {
	var m nibbles
	max := []int{16, 16, 2, 4}[r.Intn(4)]
	for i := range m {
		for j := range m[i] {
			m[i][j] = r.Intn(max)
		}
	}
	a, b, c := r.Intn(64), r.Intn(64), r.Intn(64)
	for b == a {
		b = r.Intn(64)
	}
	for c == a || c == b {
		c = r.Intn(64)
	}
	switch kind {
	case 0: // a zero row
		m[a] = [64]int{}
	case 1: // equal rows
		m[a] = m[b]
	case 2: // one row a multiple of another
		for j := range m[a] {
			m[b][j] %= 5
			m[a][j] = 3 * m[b][j]
		}
	case 3: // one the sum of two
		for j := range m[a] {
			m[b][j] %= 8
			m[c][j] %= 8
			m[a][j] = m[b][j] + m[c][j]
		}
	case 4: // equal rows at the ends
		m[63] = m[0]
	case 5: // low rank
		for i := range m {
			m[i] = m[i%(1+a)]
		}
	case 6: // triangular, with and without a gap on the diagonal
		for i := range m {
			for j := range m[i] {
				if j < i {
					m[i][j] = 0
				}
			}
			m[i][i] = 1 + r.Intn(15)
		}
		if a%2 == 0 {
			m[b][b] = 0
		}
	case 7: // a permutation, or nearly
		for i := range m {
			m[i] = [64]int{}
			m[i][(i*(2*(a%32)+1)+b)%64] = 1 + r.Intn(15)
		}
		if a%2 == 0 {
			m[c] = m[b]
		}
	case 8: // a small pivot: leading determinants that fall sharply
		k := 5 + r.Intn(2)
		for best, n := 0.0, 0; n < 60000; n++ {
			t := m
			for i := 0; i < k; i++ {
				for j := 0; j < k; j++ {
					t[i][j] = r.Intn(16)
				}
			}
			x, y := math.Abs(t.minor(k-1)), math.Abs(t.minor(k))
			if y > 0.5 && x/y > best && x/y < 1e6 {
				best = x / y
				m = t
			}
		}
		for i := k; i < 64; i++ { // apart from the others
			for j := 0; j < k; j++ {
				m[i][j] = 0
			}
		}
	case 9: // a single entry away from a copy
		m[a] = m[b]
		m[a][c] = (m[a][c] + 1) % 16
	default: // all equal but for the diagonal
		for i := range m {
			for j := range m[i] {
				m[i][j] = 1 + a%7
			}
			m[i][i] = 9
		}
	}
	if r.Intn(2) == 0 && kind < 6 {
		m = m.transposed()
	}
	return m
}

// candidates makes the client draw matrices chosen here: a special one and
// then one of full rank.
func candidates(r *rec.Rng, cl *heavyhash.Client, ts func() int64) {
	if !hooks.Script {
		return
	}
	scripted := func(h []byte, t int64, nonce uint64, words []uint64) (rec.M, int) {
		n := 0
		x := rec.NewRng("after")
		hooks.Next = func() uint64 {
			n++
			if n <= len(words) {
				return words[n-1]
			}
			return x.U64()
		}
		m := heavyCall(cl, h, t, nonce)
		hooks.Next = nil
		return m, n
	}
	full := func() nibbles {
		for {
			m := special(r, 100)
			for i := range m {
				for j := range m[i] {
					m[i][j] = r.Intn(16)
				}
			}
			if f, ok := m.clear(); f && ok {
				return m
			}
		}
	}
	// the words given here must be what the client goes by
	f1, f2 := full(), full()
	h := r.Hash()
	same := func(a, b rec.M) bool { return reflect.DeepEqual(a["res"], b["res"]) }
	a, n := scripted(h, 1, 2, f1.words())
	b, _ := scripted(h, 1, 2, f2.words())
	c, _ := scripted(h, 1, 2, f1.words())
	if n < 256 || same(a, b) || !same(a, c) || same(a, heavyCall(cl, h, 1, 2)) {
		return
	}
	for i := 0; i < rec.Pick(44, 400); i++ {
		m := special(r, i%11)
		if _, ok := m.clear(); !ok {
			continue
		}
		f := full()
		words := append(m.words(), f.words()...)
		h := r.Hash()
		h[r.Intn(32)] |= 4
		out, _ := scripted(h, ts(), r.Odd64(), words)
		out["op"] = "drawn"
		out["words"] = rec.W64s(words)
		rec.Emit(out)
	}
}
