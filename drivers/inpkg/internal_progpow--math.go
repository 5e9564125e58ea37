package progpow

import "github.com/sencha-dev/powkit/internal/zzverif/hooks"

func init() { hooks.Math = randomMath }
