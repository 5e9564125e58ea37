package heavyhash

import "github.com/sencha-dev/powkit/internal/zzverif/hooks"

func init() {
	hooks.Matrix = func(s0, s1, s2, s3 uint64) [][]int {
		mat := newMatrix(s0, s1, s2, s3)
		out := make([][]int, 64)
		for i := range out {
			for j := 0; j < 64; j++ {
				out[i] = append(out[i], int(mat[i][j]))
			}
		}
		return out
	}
}
