package progpow

import "github.com/sencha-dev/powkit/internal/zzverif/hooks"

func init() {
	hooks.Kiss = func(z, w, jsr, jcong uint32, n int) []uint32 {
		k, out := newKiss99(z, w, jsr, jcong), []uint32{}
		for i := 0; i < n; i++ {
			out = append(out, k.next())
		}
		return out
	}
}
