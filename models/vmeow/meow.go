// Package meow stands in for github.com/mmcloughlin/meow: an arbitrary but
// fixed, collision-free checksum function with the same interface. In this repository the
// checksum only guards stored data; its value is never shown to a user.
package meow

import (
	"hash"

	"github.com/smartbch/moeingads/zzv/vsym"
)

type digest struct {
	buf  []byte
	size int
}

func (d *digest) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *digest) Reset()                      { d.buf = d.buf[:0] }
func (d *digest) Size() int                   { return d.size }
func (d *digest) BlockSize() int              { return 256 }
func (d *digest) Sum(b []byte) []byte {
	s := vsym.OpaqueHash("meow", d.buf)
	return append(b, s[:d.size]...)
}
func (d *digest) Sum32() uint32 {
	b := d.Sum(nil)
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func (d *digest) Sum64() uint64 {
	s := d.Sum(nil)
	r := uint64(0)
	for i := 7; i >= 0; i-- {
		r = r<<8 | uint64(s[i])
	}
	return r
}

func New32(seed uint64) hash.Hash32 { return &digest{size: 4} }
func New64(seed uint64) hash.Hash64 { return &digest{size: 8} }
func New(seed uint64) hash.Hash     { return &digest{size: 16} }
func Checksum32(seed uint64, b []byte) uint32 {
	d := &digest{buf: b, size: 4}
	return d.Sum32()
}
func Checksum64(seed uint64, b []byte) uint64 {
	d := &digest{buf: b, size: 8}
	return d.Sum64()
}
