package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

// readTables reads the two tables of a generated file the way the compiler does.
func readTables(file string) rec.M {
	src, err := os.ReadFile(file)
	if err != nil {
		return rec.M{"kind": "nofile"}
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		return rec.M{"kind": "syntax", "what": err.Error()}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	if _, err := (&types.Config{}).Check("p", fset, []*ast.File{f}, info); err != nil {
		return rec.M{"kind": "types", "what": err.Error()}
	}
	tables := map[string][][]int{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, name := range v.Names {
				if i >= len(v.Values) {
					continue
				}
				lit, ok := v.Values[i].(*ast.CompositeLit)
				if !ok || info.Types[lit].Type.String() != "[]uint64" {
					continue
				}
				t := [][]int{}
				for _, e := range lit.Elts {
					val := info.Types[e].Value
					if val == nil {
						return rec.M{"kind": "element"}
					}
					x, exact := constant.Uint64Val(constant.ToInt(val))
					if !exact {
						return rec.M{"kind": "element"}
					}
					t = append(t, rec.W64(x))
				}
				tables[name.Name] = t
			}
		}
	}
	if len(tables) != 2 || tables["cacheSizes"] == nil || tables["datasetSizes"] == nil {
		return rec.M{"kind": "tables"}
	}
	return rec.M{"kind": "ok", "pkg": f.Name.Name, "cache": tables["cacheSizes"], "dataset": tables["datasetSizes"]}
}

// generate runs the generator in an empty directory.
func generate(pkg string, args []string) rec.M {
	dir, err := os.MkdirTemp(os.Getenv("SCRATCH"), "gen")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	return rec.Call(100*time.Second, func() rec.M {
		cmd := exec.Command(os.Getenv("GENERATOR"), args...)
		cmd.Dir = dir
		if out, err := cmd.CombinedOutput(); err != nil {
			return rec.M{"kind": "failed", "what": rec.Head(string(out), 600)}
		}
		if got, _ := os.ReadDir(dir); len(got) != 1 {
			return rec.M{"kind": "files"}
		}
		return readTables(filepath.Join(dir, pkg+"_lookup.go"))
	})
}

func c24() {
	r := rec.NewRng("C24")
	var jobs []func(*rec.Buf)
	chains := map[string]string{"ethash": "ETH", "kawpow": "RVN", "firopow": "FIRO", "octopus": "CFX"}
	var pkgs []string
	for p := range chains {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	recorded := regexp.MustCompile(`(?m)^//go:generate \S*gen-lookup (.*)$`)
	for _, p := range pkgs {
		p := p
		dir := filepath.Join(os.Getenv("REPO"), p)
		jobs = append(jobs, func(b *rec.Buf) {
			b.Emit(rec.M{"op": "committed", "chain": chains[p], "pkg": p, "epochs": 2048, "res": readTables(filepath.Join(dir, p+"_lookup.go"))})
		})
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			src, _ := os.ReadFile(f)
			for _, m := range recorded.FindAllStringSubmatch(string(src), -1) {
				args := strings.Fields(m[1])
				jobs = append(jobs, func(b *rec.Buf) {
					b.Emit(rec.M{"op": "regenerated", "chain": chains[p], "pkg": p, "epochs": 2048, "args": m[1], "res": generate(p, args)})
				})
			}
		}
	}
	counts := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 99, 100, 101, 104, 105, 106}
	for i := 0; i < rec.Pick(48, 100); i++ {
		counts = append(counts, r.Intn(400))
	}
	for i := 0; i < rec.Pick(6, 12); i++ {
		counts = append(counts, 2046+r.Intn(rec.Pick(900, 7000)))
	}
	for i, n := range counts {
		n, c := n, randCfg(r, 0)
		if i%3 == 0 { // the size of real chains
			c.ci, c.cg, c.di, c.dg = 1<<uint(14+r.Intn(5)), 1<<uint(6+r.Intn(6)), 1<<uint(20+r.Intn(4)), 1<<uint(8+r.Intn(8))
		}
		if i%4 == 1 {
			c.cg, c.dg = 2*r.Intn(2), 2*r.Intn(2)
		}
		mix := []uint64{128, 256, 64, 512}[r.Intn(4)]
		pkg := []string{"ethash", "x", "some_chain", "pkg2"}[r.Intn(4)]
		u := func(x uint64) string { return strconv.FormatUint(x, 10) }
		args := []string{"-package", pkg, "-epochs", strconv.Itoa(n), "-mixBytes", u(mix), "-cacheInit", u(uint64(c.ci) * 64), "-cacheGrowth", u(uint64(c.cg) * 64),
			"-datasetInit", u(uint64(c.di) * mix), "-datasetGrowth", u(uint64(c.dg) * mix)}
		if mix == 128 && r.Intn(2) == 0 { // its default
			args = append(args[:4], args[6:]...)
		}
		j := c.json()
		j["mix"] = mix
		jobs = append(jobs, func(b *rec.Buf) {
			b.Emit(rec.M{"op": "table", "cfg": j, "pkg": pkg, "epochs": n, "args": fmt.Sprint(args), "res": generate(pkg, args)})
		})
	}
	// sizes of more than 31 bits of rows
	hs := hard64(r)
	for i := 0; i < rec.Pick(24, 120); i++ {
		n := uint64(r.Intn(24))
		w := wide{ci: hs[r.Intn(len(hs))] + 1, di: hs[r.Intn(len(hs))] + 1, mix: []uint64{128, 256, 64, 32}[r.Intn(4)]}
		w.cg, w.dg = 2*(r.U64()%(w.ci/64)), 2*(r.U64()%(w.di/64))
		if i%3 == 0 {
			w.cg, w.dg = 1<<uint(r.Intn(30))&^1, 1<<uint(r.Intn(30))&^1
		}
		for w.di+w.dg*n >= 1<<63/w.mix*2 {
			w.mix /= 2
		}
		if w.ci+w.cg*n >= 1<<58 {
			w.cg = 2
		}
		pkg := "wide"
		u := func(x uint64) string { return strconv.FormatUint(x, 10) }
		args := []string{"-package", pkg, "-epochs", u(n), "-mixBytes", u(w.mix), "-cacheInit", u(w.ci * 64), "-cacheGrowth", u(w.cg * 64),
			"-datasetInit", u(w.di * w.mix), "-datasetGrowth", u(w.dg * w.mix)}
		jobs = append(jobs, func(b *rec.Buf) {
			b.Emit(rec.M{"op": "widetable", "wide": w.json(), "pkg": pkg, "epochs": n, "args": fmt.Sprint(args), "res": generate(pkg, args)})
		})
	}
	rec.Parallel(jobs)
}
