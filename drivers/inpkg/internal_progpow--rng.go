package progpow

import "github.com/sencha-dev/powkit/internal/zzverif/hooks"

func init() {
	hooks.Sequences = func(seed uint64, size uint32) (src, dst []uint32) {
		s := initMixRngState(seed, size)
		return s.srcSequence, s.dstSequence
	}
}
