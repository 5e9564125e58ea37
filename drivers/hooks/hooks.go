// Package hooks holds unexported functions of the packages under test, put
// here by the files of drivers/inpkg; nil where that was not possible.  They
// are functions that the repository's own tests call.
package hooks

var (
	// Progpow094 is the plain ProgPow 0.9.4.
	Progpow094 func(hash []byte, height, nonce, datasetSize uint64, lookup func(index uint32) []uint32, l1 []uint32) ([]byte, []byte)
	Math       func(a, b, selector uint32) uint32
	Merge      func(a, b, selector uint32) uint32
	// Kiss is the first n numbers of a KISS99 generator.
	Kiss    func(z, w, jsr, jcong uint32, n int) []uint32
	InitMix func(seed uint64, lanes, registers int) [][]uint32
	// Sequences are the shuffled register sequences of a period.
	Sequences func(seed uint64, size uint32) (src, dst []uint32)
	// Round is one round with the parameters of ProgPow 0.9.4.
	Round func(seed uint64, r uint32, mix [][]uint32, datasetSize uint64, lookup func(uint32) []uint32, l1 []uint32) [][]uint32

	Matrix      func(s0, s1, s2, s3 uint64) [][]int
	TableSize   func(base uint32, height uint64) uint32
	Indices     func(n, k uint32, soln []byte) ([]uint32, error)
	DatasetItem func(cache []uint32, index uint32, parents int) []byte
)

// Script tells that the 64-bit generator of the Kaspa client asks Next, when
// that is set, for its numbers.
var (
	Script bool
	Next   func() uint64
)

// Scripted is the next number from the script, if there is one.
func Scripted() (uint64, bool) {
	if Next == nil {
		return 0, false
	}
	return Next(), true
}
