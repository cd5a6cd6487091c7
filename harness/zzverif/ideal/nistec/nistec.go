// Package nistec is a model of filippo.io/nistec with a group of order 5 in
// place of P-256. The points a and -a have the same coordinate x, which is a
// for a <= group.Q/2, and differ in the first byte of their encoding.
package nistec

import (
	"errors"

	"github.com/Bren2010/katie/zzverif/ideal/group"
	"github.com/Bren2010/katie/zzverif/nd"
)

type P256Point struct{ a uint8 }

func NewP256Point() *P256Point { return &P256Point{} }

// A is the discrete logarithm of the point.
func (p *P256Point) A() uint8 { return p.a }

func (p *P256Point) SetGenerator() *P256Point       { p.a = 1; return p }
func (p *P256Point) Set(q *P256Point) *P256Point    { p.a = q.a; return p }
func (p *P256Point) Add(x, y *P256Point) *P256Point { p.a = group.Add(x.a, y.a); return p }
func (p *P256Point) Double(x *P256Point) *P256Point { p.a = group.Add(x.a, x.a); return p }
func (p *P256Point) Negate(x *P256Point) *P256Point { p.a = group.Neg(x.a); return p }
func (p *P256Point) Select(x, y *P256Point, c int) *P256Point {
	p.a = group.Sel(c == 1, x.a, y.a)
	return p
}

// Decode returns the point with the given first byte and coordinate.
func Decode(first byte, x []byte) (a uint8, ok bool) {
	v := x[31]
	ok = nd.And(group.Zero(x[:31]), nd.And(v >= 1, v <= group.Q/2))
	return group.Sel(first == 2, v, group.Q-v), nd.And(ok, nd.Or(first == 2, first == 3))
}

// Encode is the compressed encoding of a point other than infinity.
func Encode(a uint8) []byte {
	out := make([]byte, 33)
	out[0] = group.Sel(a <= group.Q/2, 2, 3)
	out[32] = group.Sel(a <= group.Q/2, a, group.Q-a)
	return out
}

func (p *P256Point) SetBytes(b []byte) (*P256Point, error) {
	switch {
	case len(b) == 1 && b[0] == 0:
		p.a = 0
		return p, nil
	case len(b) == 65 && b[0] == 4:
		// the second coordinate is 2 or 3, and zeros
		if a, ok := Decode(b[64], b[1:33]); ok && group.Zero(b[33:64]) {
			p.a = a
			return p, nil
		}
		return nil, errors.New("P256 point not on curve")
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		if a, ok := Decode(b[0], b[1:]); ok {
			p.a = a
			return p, nil
		}
		group.Refused()
		return nil, errors.New("invalid P256 compressed point encoding")
	}
	return nil, errors.New("invalid P256 point encoding")
}

func (p *P256Point) Bytes() []byte {
	if p.a == 0 {
		return []byte{0}
	}
	e := Encode(p.a)
	out := make([]byte, 65)
	out[0], out[64] = 4, e[0]
	copy(out[1:33], e[1:])
	return out
}

func (p *P256Point) BytesX() ([]byte, error) {
	if p.a == 0 {
		return nil, errors.New("P256 point is the point at infinity")
	}
	return Encode(p.a)[1:], nil
}

func (p *P256Point) BytesCompressed() []byte {
	if p.a == 0 {
		return []byte{0}
	}
	return Encode(p.a)
}

func scalar(b []byte) (uint8, error) {
	if len(b) != 32 {
		return 0, errors.New("invalid scalar length")
	}
	return group.BE(b), nil
}

func (p *P256Point) ScalarBaseMult(s []byte) (*P256Point, error) {
	r, err := scalar(s)
	if err != nil {
		return nil, err
	}
	p.a = r
	return p, nil
}

func (p *P256Point) ScalarMult(q *P256Point, s []byte) (*P256Point, error) {
	r, err := scalar(s)
	if err != nil {
		return nil, err
	}
	p.a = group.Mul(r, q.a)
	return p, nil
}
