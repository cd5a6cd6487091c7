// Package sha512 is an ideal hash with the interface of crypto/sha512.
package sha512

import (
	"hash"

	"github.com/Bren2010/katie/zzverif/ideal/group"
)

const (
	Size      = 64
	BlockSize = 128
)

// At are the positions of the bytes of a hash that can be other than zero.
var At = []int{0, 1, 15, 16, 31, 32, 40, 63}

func Sum512(in []byte) (out [Size]byte) {
	copy(out[:], group.Spread("sha512", in, Size, At))
	return
}

type digest struct{ in []byte }

func New() hash.Hash { return &digest{} }

func (d *digest) Write(b []byte) (int, error) { d.in = append(d.in, b...); return len(b), nil }
func (d *digest) Sum(b []byte) []byte {
	s := Sum512(d.in)
	return append(b, s[:]...)
}
func (d *digest) Reset()         { d.in = nil }
func (d *digest) Size() int      { return Size }
func (d *digest) BlockSize() int { return BlockSize }
