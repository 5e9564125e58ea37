package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

// histories replays sequences of requests, waiting for the background work
// after each.
func histories() {
	if err := learn(1, 13); err != nil {
		broken(err)
		return
	}
	var jobs []struct {
		N    int   `json:"n"`
		Disk bool  `json:"disk"`
		L1   bool  `json:"l1"`
		H    []int `json:"h"`
	}
	b, err := os.ReadFile(os.Getenv("JOBS"))
	if err == nil {
		err = json.Unmarshal(b, &jobs)
	}
	if err != nil {
		panic(err)
	}
	for _, j := range jobs {
		p := params{n: j.N, disk: j.Disk, l1: j.L1}
		r := start("history", []params{p}, 1, nil)
		r.Note["history"] = j.H
		r.arm()
		for _, e := range j.H {
			r.request(1, 1, e, p)
			r.quiet(false)
		}
		r.finish()
	}
}

// concurrent lets several threads ask one manager at once.
func concurrent() {
	if err := learn(1, 13); err != nil {
		broken(err)
		return
	}
	g := rec.NewRng("concurrent")
	for i := 0; i < rec.Pick(150, 2000); i++ {
		p := params{n: 1 + g.Intn(3), disk: g.Intn(3) > 0, l1: g.Intn(2) == 0, lock: g.Intn(4) == 0}
		threads := 2 + g.Intn(3)
		r := start("concurrent", []params{p}, threads, nil)
		tr.noise = g.U64() | 1
		var plan [][]int
		span := 1 + g.Intn(4)
		for t := 0; t < threads; t++ {
			var h []int
			for k := 0; k < 1+g.Intn(3); k++ {
				h = append(h, g.Intn(span))
			}
			plan = append(plan, h)
		}
		r.Note["plan"] = fmt.Sprint(plan)
		r.arm()
		var wg sync.WaitGroup
		gate := make(chan bool)
		for t := range plan {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for _, e := range plan[t] {
					r.request(t+1, 1, e, p)
				}
			}()
		}
		close(gate)
		wg.Wait()
		r.quiet(false)
		r.finish()
	}
}
