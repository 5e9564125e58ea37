package equihash

import "github.com/sencha-dev/powkit/internal/zzverif/hooks"

func init() {
	hooks.Indices = func(n, k uint32, soln []byte) ([]uint32, error) { return indicesFromMinimal(n, k, soln) }
}
