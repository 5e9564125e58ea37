package progpow

import (
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hooks"
)

func init() {
	hooks.Round = func(seed uint64, r uint32, mix [][]uint32, datasetSize uint64, lookup func(uint32) []uint32, l1 []uint32) [][]uint32 {
		cfg := &Config{PeriodLength: 10, DagLoads: 4, CacheBytes: uint32(4 * len(l1)), LaneCount: 16, RegisterCount: 32, RoundCount: 64,
			RoundCacheAccesses: 11, RoundMathOperations: 18}
		return round(cfg, seed, r, mix, datasetSize, dag.LookupFunc(lookup), l1)
	}
}
