// Package hmac is an ideal keyed hash with the interface of crypto/hmac.
package hmac

import (
	"hash"

	"github.com/Bren2010/katie/zzverif/ideal/group"
	"github.com/Bren2010/katie/zzverif/ideal/sha256"
	"github.com/Bren2010/katie/zzverif/ideal/sha512"
	"github.com/Bren2010/katie/zzverif/nd"
)

type digest struct {
	key, in []byte
	size    int
}

func New(h func() hash.Hash, key []byte) hash.Hash {
	return &digest{key: append([]byte{}, key...), size: h().Size()}
}

func Sum(key, in []byte, size int) []byte {
	k := append([]byte{byte(len(key))}, key...)
	at := sha256.At
	if size == sha512.Size {
		at = sha512.At
	}
	return group.Spread("hmac", append(k, in...), size, at)
}

func (d *digest) Write(b []byte) (int, error) { d.in = append(d.in, b...); return len(b), nil }
func (d *digest) Sum(b []byte) []byte         { return append(b, Sum(d.key, d.in, d.size)...) }
func (d *digest) Reset()                      { d.in = nil }
func (d *digest) Size() int                   { return d.size }
func (d *digest) BlockSize() int              { return 2 * d.size }

func Equal(a, b []byte) bool { return nd.EqBytes(a, b) }
