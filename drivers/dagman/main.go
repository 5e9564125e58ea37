// Command dagman drives the manager of epoch data and records what it does.
package main

import (
	"os"
	"runtime"

	"github.com/sencha-dev/powkit/internal/zzverif/rec"
)

func main() {
	defer rec.Flush()
	scratch = os.Getenv("SCRATCH")
	install(scratch)
	what := os.Args[1]
	f := map[string]func(){"histories": histories, "concurrent": concurrent, "restarts": restarts, "truth": truth12, "pauses": pauses,
		"kills": kills, "child": child, "shared": shared, "faults": faults, "damage": damage, "chains": manyChains, "holds": holds,
		"lookups": lookups, "computes": computes, "far": far}[what]
	if f == nil {
		panic("unknown scenario " + what)
	}
	go watchdog()
	floor = runtime.NumGoroutine()
	f()
}

// broken records that the managers do not even do the simplest thing.
func broken(err error) {
	emit(&run{Op: "learn", Cfg: []rec.M{{"chain": 1, "n": 1, "disk": true, "kinds": []string{"c"}}}, Threads: 1, Note: rec.M{},
		Events: []rec.M{{"ev": "unusable", "what": err.Error()}}})
}
