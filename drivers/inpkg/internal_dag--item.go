package dag

import (
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/hooks"
)

func init() {
	hooks.DatasetItem = func(cache []uint32, index uint32, parents int) []byte {
		d := New(Config{Name: "X", DatasetParents: uint32(parents), EpochLength: 10, SeedEpochLength: 10, CachesCount: 1})
		return d.generateDatasetItem(cache, index, crypto.NewKeccak512Hasher())
	}
}
