package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"os"
	"path/filepath"

	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

type fixture struct {
	Set     string
	N, K    uint32
	Twist   bool
	Person  string
	Header  string
	Width   int
	Near    int
	Indices []uint32
	Edges   []uint64
}

func (f fixture) header() []byte {
	b, err := hex.DecodeString(f.Header)
	if err != nil {
		panic(err)
	}
	return b
}

// load reads one file of recorded solutions and near-solutions.
func load(name string) (out []fixture) {
	f, err := os.Open(filepath.Join(os.Getenv("FIXTURES"), name+".ndjson"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		var x fixture
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			panic(err)
		}
		out = append(out, x)
	}
	return
}

func cuckooVectors(r *rec.Rng) {
	for _, f := range load("cuckoo") {
		variant, eb, cl := "legacy", 29, cuckoo.NewAeternity()
		if f.Set == "cortex" {
			variant, eb, cl = "cuckaroo", 30, cuckoo.NewCortex()
		}
		h, e := f.header(), f.Edges
		emit := func(h []byte, e []uint64) { rec.Emit(cuckooCall(cl, variant, eb, 42, h, e)) }
		emit(h, e)
		for i := 0; i < rec.Pick(20, 40); i++ {
			q, g := append([]uint64{}, e...), append([]byte{}, h...)
			switch i % 6 {
			case 0:
				q[r.Intn(42)] ^= 1 << uint(r.Intn(eb))
			case 1:
				x := r.Intn(41)
				q[x], q[x+1] = q[x+1], q[x]
			case 2:
				q[41] += 1 << uint(eb+r.Intn(60-eb))
			case 3:
				q = q[:41-r.Intn(41)]
			case 4:
				q = append(q, q[41]+1)
			case 5:
				g[r.Intn(len(g))] ^= 1
			}
			emit(g, q)
		}
	}
}

var equiNames = []string{"zcash", "zclassic", "bitcoingold", "aion", "flux"}

func equiClient(name string) *equihash.Client {
	switch name {
	case "zcash":
		return equihash.NewZCash()
	case "zclassic":
		return equihash.NewZClassic()
	case "bitcoingold":
		return equihash.NewBitcoinGold()
	case "aion":
		return equihash.NewAion()
	}
	return equihash.NewFlux()
}

// c16shipped: solutions, near-solutions and mutants for the shipped chains.
func c16shipped(r *rec.Rng) {
	for _, name := range equiNames {
		for _, f := range load(name) {
			cl, k := equiClient(name), int(f.K)
			emit := func(h, s []byte) { rec.Emit(equiCall(cl, f.N, f.K, f.Person, f.Twist, h, s)) }
			ok := packBE(f.Indices, f.Width)
			emit(f.header(), ok)
			if f.Near != 0 {
				continue
			}
			ms := mutants(f.Indices, k, f.Width, r, false)
			for i, m := range ms {
				if rec.Thorough() || i >= len(ms)-4 || r.Intn(len(ms)) < 12 {
					emit(f.header(), packBE(m, f.Width))
				}
			}
			for _, n := range []int{0, 1, len(ok) - 1, len(ok) + 1, 2 * len(ok)} {
				b := append(append([]byte{}, ok...), ok...)
				b = append(b, 0)
				emit(f.header(), b[:n])
			}
			for i := 0; i < rec.Pick(14, 30); i++ {
				h, s := f.header(), append([]byte{}, ok...)
				if i%2 == 0 {
					h[r.Intn(len(h))] ^= 1 << uint(r.Intn(8))
				} else {
					s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
				}
				emit(h, s)
			}
			emit(f.header()[1:], ok)
			emit(append(f.header(), 0), ok)
		}
	}
}

// packLE packs Beam's indices.
func packLE(ix []uint32, extra []byte) []byte {
	out := make([]byte, 100, 104)
	for i, x := range ix {
		for b := 0; b < 25; b++ {
			p := 25*i + b
			out[p/8] |= byte(x>>uint(b)&1) << uint(p%8)
		}
	}
	return append(out, extra...)
}

func beamCall(header, soln []byte) rec.M {
	cl := beamhashiii.NewBeam()
	res := rec.Call(limit, func() rec.M {
		ok, err := cl.Verify(append([]byte{}, header...), append([]byte{}, soln...))
		return rec.Verdict(ok, err)
	})
	return rec.M{"op": "beam", "person": rec.Bytes([]byte("Beam-PoW")), "header": rec.Bytes(header), "soln": rec.Bytes(soln), "res": res}
}

func c17() {
	r := rec.NewRng("C17")
	emit := func(h, s []byte) { rec.Emit(beamCall(h, s)) }
	for _, f := range load("beam") {
		h, x := f.header()[:40], f.header()[40:]
		ok := packLE(f.Indices, x)
		emit(h, ok)
		ms := mutants(f.Indices, 5, 25, r, f.Near == 0)
		for _, m := range ms {
			if f.Near == 0 || r.Intn(len(ms)) < 3 {
				emit(h, packLE(m, x))
			}
		}
		for i := 0; i < rec.Pick(30, 60); i++ {
			g, s := append([]byte{}, h...), append([]byte{}, ok...)
			switch i % 3 {
			case 0:
				g[r.Intn(40)] ^= 1 << uint(r.Intn(8))
			case 1:
				s[r.Intn(100)] ^= 1 << uint(r.Intn(8))
			case 2:
				s[100+r.Intn(4)] ^= 1 << uint(r.Intn(8))
			}
			emit(g, s)
		}
		if f.Near == 0 {
			for _, n := range []int{0, 1, 39, 41, 80} {
				emit(append(append([]byte{}, h...), h...)[:n], ok)
			}
			for _, n := range []int{0, 1, 99, 100, 103, 105, 208} {
				emit(h, append(append([]byte{}, ok...), ok...)[:n])
			}
			// another client's personalisation
			for _, per := range []string{"Beam-PoX", "Beam-Po", "", "ZcashPoW"} {
				cl := beamhashiii.New(150, 5, per)
				v, err := cl.Verify(h, ok)
				rec.Emit(rec.M{"op": "beam", "person": rec.Bytes([]byte(per)), "header": rec.Bytes(h), "soln": rec.Bytes(ok), "res": rec.Verdict(v, err)})
			}
		}
	}
	for i := 0; i < rec.Pick(80, 200); i++ {
		emit(r.Bytes(40), r.Bytes(104))
	}
}
