// Package sha256 is an ideal hash with the interface of crypto/sha256.
package sha256

import (
	"hash"

	"github.com/Bren2010/katie/zzverif/ideal/group"
)

const (
	Size      = 32
	BlockSize = 64
)

// At are the positions of the bytes of a hash that can be other than zero.
var At = []int{0, 1, 15, 16, 30, 31}

func Sum256(in []byte) (out [Size]byte) {
	copy(out[:], group.Spread("sha256", in, Size, At))
	return
}

type digest struct{ in []byte }

func New() hash.Hash { return &digest{} }

func (d *digest) Write(b []byte) (int, error) { d.in = append(d.in, b...); return len(b), nil }
func (d *digest) Sum(b []byte) []byte {
	s := Sum256(d.in)
	return append(b, s[:]...)
}
func (d *digest) Reset()         { d.in = nil }
func (d *digest) Size() int      { return Size }
func (d *digest) BlockSize() int { return BlockSize }
