// Package edwards25519 is a model of filippo.io/edwards25519 with a group of
// order 8*5 in place of the curve. A point is a multiple of the base point plus
// one of the eight points of small order. Its encoding is those two numbers;
// there is a second, non-canonical encoding of every point.
package edwards25519

import (
	"errors"

	"github.com/Bren2010/katie/zzverif/ideal/group"
	"github.com/Bren2010/katie/zzverif/nd"
)

// Scalar is a number modulo the order of the base point. low is its low bits,
// which matter for points with a part of small order.
type Scalar struct {
	r, low uint8
	enc    [32]byte
}

func reduced(r uint8) Scalar {
	s := Scalar{r: r, low: r & 7}
	s.enc[0] = r
	return s
}

func NewScalar() *Scalar { return &Scalar{} }

// R is the scalar's value.
func (s *Scalar) R() uint8 { return s.r }

func (s *Scalar) Set(x *Scalar) *Scalar    { *s = *x; return s }
func (s *Scalar) Add(x, y *Scalar) *Scalar { *s = reduced(group.Add(x.r, y.r)); return s }
func (s *Scalar) Subtract(x, y *Scalar) *Scalar {
	*s = reduced(group.Add(x.r, group.Neg(y.r)))
	return s
}
func (s *Scalar) Negate(x *Scalar) *Scalar      { *s = reduced(group.Neg(x.r)); return s }
func (s *Scalar) Multiply(x, y *Scalar) *Scalar { *s = reduced(group.Mul(x.r, y.r)); return s }
func (s *Scalar) MultiplyAdd(x, y, z *Scalar) *Scalar {
	*s = reduced(group.Add(group.Mul(x.r, y.r), z.r))
	return s
}

func (s *Scalar) SetUniformBytes(x []byte) (*Scalar, error) {
	if len(x) != 64 {
		return nil, errors.New("edwards25519: invalid SetUniformBytes input length")
	}
	*s = reduced(group.LE(x))
	return s, nil
}

func (s *Scalar) SetCanonicalBytes(x []byte) (*Scalar, error) {
	if len(x) != 32 {
		return nil, errors.New("invalid scalar length")
	}
	if x[31] >= 0x10 {
		return nil, errors.New("invalid scalar encoding")
	}
	s.r, s.low = group.LE(x), x[0]&7
	copy(s.enc[:], x)
	return s, nil
}

func (s *Scalar) SetBytesWithClamping(x []byte) (*Scalar, error) {
	if len(x) != 32 {
		return nil, errors.New("edwards25519: invalid SetBytesWithClamping input length")
	}
	var b [32]byte
	copy(b[:], x)
	b[0] &= 248
	b[31] &= 63
	b[31] |= 64
	*s = reduced(group.LE(b[:]))
	return s, nil
}

func (s *Scalar) Bytes() []byte { return append([]byte{}, s.enc[:]...) }

func (s *Scalar) Equal(t *Scalar) int { return int(group.Sel(s.r == t.r, 1, 0)) }

type Point struct {
	init bool
	a, t uint8
}

func (p *Point) check() {
	if !p.init {
		panic("edwards25519: use of uninitialized Point")
	}
}

func At(a, t uint8) *Point { return &Point{init: true, a: a, t: t} }

func NewIdentityPoint() *Point  { return At(0, 0) }
func NewGeneratorPoint() *Point { return At(1, 0) }

// Parts returns the multiple of the base point and the part of small order.
func (p *Point) Parts() (a, t uint8) { return p.a, p.t }

func (p *Point) Set(q *Point) *Point { *p = *q; return p }
func (p *Point) Bytes() []byte {
	p.check()
	out := make([]byte, 32)
	out[0], out[1] = p.a, p.t
	return out
}

// Valid reports whether b, of 32 bytes, is the encoding of a point.
func Valid(b []byte) bool {
	ok := nd.And(b[0] < group.Q, b[1] < 8)
	return nd.And(ok, nd.And(b[15] <= 1, nd.And(group.Zero(b[2:15]), group.Zero(b[16:]))))
}

func (p *Point) SetBytes(b []byte) (*Point, error) {
	if len(b) != 32 {
		return nil, errors.New("edwards25519: invalid point encoding length")
	}
	if !Valid(b) {
		group.Refused()
		return nil, errors.New("edwards25519: invalid point encoding")
	}
	*p = Point{true, b[0], b[1]}
	return p, nil
}

func (p *Point) Add(x, y *Point) *Point {
	x.check()
	y.check()
	*p = Point{true, group.Add(x.a, y.a), (x.t + y.t) & 7}
	return p
}

func (p *Point) Negate(x *Point) *Point {
	x.check()
	*p = Point{true, group.Neg(x.a), (8 - x.t) & 7}
	return p
}

func (p *Point) Subtract(x, y *Point) *Point {
	var n Point
	n.Negate(y)
	return p.Add(x, &n)
}

func (p *Point) Equal(q *Point) int {
	p.check()
	q.check()
	return int(group.Sel(nd.And(p.a == q.a, p.t == q.t), 1, 0))
}

func (p *Point) MultByCofactor(x *Point) *Point {
	x.check()
	*p = Point{true, group.Mul(8%group.Q, x.a), 0}
	return p
}

func (p *Point) ScalarBaseMult(s *Scalar) *Point { *p = Point{true, s.r, 0}; return p }

func (p *Point) ScalarMult(s *Scalar, x *Point) *Point {
	x.check()
	*p = Point{true, group.Mul(s.r, x.a), s.low * x.t & 7}
	return p
}

func (p *Point) VarTimeDoubleScalarBaseMult(a *Scalar, A *Point, b *Scalar) *Point {
	var x, y Point
	x.ScalarMult(a, A)
	y.ScalarBaseMult(b)
	return p.Add(&x, &y)
}

func (p *Point) MultiScalarMult(s []*Scalar, q []*Point) *Point {
	if len(s) != len(q) {
		panic("edwards25519: called MultiScalarMult with different size inputs")
	}
	sum := NewIdentityPoint()
	for i := range s {
		var x Point
		sum.Add(sum, x.ScalarMult(s[i], q[i]))
	}
	*p = *sum
	return p
}

func (p *Point) VarTimeMultiScalarMult(s []*Scalar, q []*Point) *Point {
	return p.MultiScalarMult(s, q)
}
