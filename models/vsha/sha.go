// Package sha256 stands in for github.com/minio/sha256-simd. Concrete inputs
// are hashed with the real SHA-256; symbolic ones with an ideal hash (equal
// outputs exactly for equal inputs).
package sha256

import (
	"hash"

	"github.com/smartbch/moeingads/zzv/vsym"
)

const Size = 32
const BlockSize = 64

// Arb makes the hash an arbitrary function with arbitrary collisions: the
// output for each new input is a fresh symbolic value (used for the short-key
// properties).
var Arb bool
var arbIn [][]byte
var arbOut [][32]byte

// ArbFree says which bytes of a fresh output are symbolic (nil: all).
var ArbFree []int

// ArbDepth, if positive, makes outputs for inputs that are outputs of depth
// ArbDepth-1 or more concrete and unique (32 bytes are taken for an output).
var ArbDepth int
var arbLevel []int

func ArbReset() { Arb, arbIn, arbOut, arbLevel = true, nil, nil, nil }

func Sum256(b []byte) [32]byte {
	if !Arb {
		return vsym.Sha256(b)
	}
	for i, x := range arbIn {
		if vsym.BytesEq(x, b) {
			return arbOut[i]
		}
	}
	var o [32]byte
	level := 0
	if len(b) == 32 {
		for i := range arbOut {
			if vsym.BytesEq(arbOut[i][:], b) {
				level = arbLevel[i] + 1
			}
		}
	}
	if ArbDepth > 0 && level >= ArbDepth {
		o[31], o[7] = byte(len(arbIn)), byte(len(arbIn))
	} else if ArbFree == nil {
		copy(o[:], vsym.Bytes("hash", 32))
	} else {
		o[31] = byte(len(arbIn))
		for _, i := range ArbFree {
			o[i] = vsym.U8("hash")
		}
	}
	arbIn = append(arbIn, append([]byte{}, b...))
	arbOut = append(arbOut, o)
	arbLevel = append(arbLevel, level)
	return o
}

type digest struct{ buf []byte }

func (d *digest) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *digest) Reset()                      { d.buf = d.buf[:0] }
func (d *digest) Size() int                   { return 32 }
func (d *digest) BlockSize() int              { return 64 }
func (d *digest) Sum(b []byte) []byte {
	s := Sum256(d.buf)
	return append(b, s[:]...)
}

func New() hash.Hash { return &digest{} }
