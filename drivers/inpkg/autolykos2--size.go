package autolykos2

import "github.com/sencha-dev/powkit/internal/zzverif/hooks"

func init() { hooks.TableSize = func(base uint32, height uint64) uint32 { return calcN(base, height) } }
