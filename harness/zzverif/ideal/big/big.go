// Package big is a model of math/big for numbers that stand for scalars of the
// model of P-256: 32-byte numbers are exact, and sums and products are known by
// their value modulo 5. The order N that the model of crypto/elliptic states is
// 5*2^248, so that reducing by N does not change that value.
package big

import (
	"github.com/Bren2010/katie/zzverif/ideal/group"
	"github.com/Bren2010/katie/zzverif/nd"
)

type Int struct {
	wide bool // only r is known
	b    [32]byte
	r    uint8
}

// Order is N.
func Order() *Int {
	x := new(Int)
	x.b[0] = group.Q
	return x
}

func NewInt(v int64) *Int {
	x := new(Int)
	for i := 0; i < 8; i++ {
		x.b[31-i] = byte(v >> (8 * i))
	}
	x.r = group.BE(x.b[:])
	return x
}

func (x *Int) SetBytes(b []byte) *Int {
	*x = Int{}
	if len(b) > 32 {
		for _, y := range b[:len(b)-32] {
			if y != 0 {
				nd.Skip()
			}
		}
		b = b[len(b)-32:]
	}
	copy(x.b[32-len(b):], b)
	x.r = group.BE(x.b[:])
	return x
}

func (x *Int) Set(y *Int) *Int { *x = *y; return x }

func (x *Int) exact() {
	if x.wide {
		nd.Skip()
	}
}

func (x *Int) Sign() int {
	x.exact()
	if group.Zero(x.b[:]) {
		group.Refused()
		return 0
	}
	return 1
}

func (x *Int) Cmp(y *Int) int {
	c := x.cmp(y)
	if c >= 0 {
		group.Refused()
	}
	return c
}

func (x *Int) cmp(y *Int) int {
	x.exact()
	y.exact()
	lt, gt := false, false
	for i := 31; i >= 0; i-- {
		eq := x.b[i] == y.b[i]
		lt = nd.Or(x.b[i] < y.b[i], nd.And(eq, lt))
		gt = nd.Or(x.b[i] > y.b[i], nd.And(eq, gt))
	}
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	return 0
}

func (x *Int) CmpAbs(y *Int) int { return x.Cmp(y) }

func (x *Int) SetInt64(v int64) *Int   { return x.Set(NewInt(v)) }
func (x *Int) SetUint64(v uint64) *Int { return x.Set(NewInt(int64(v))) }

func (x *Int) IsUint64() bool {
	x.exact()
	return group.Zero(x.b[:24])
}

func (x *Int) Uint64() uint64 {
	x.exact()
	v := uint64(0)
	for _, y := range x.b[24:] {
		v = v<<8 | uint64(y)
	}
	return v
}

func (x *Int) BitLen() int {
	x.exact()
	n := uint64(0)
	for i := 0; i < 256; i++ {
		n = nd.IteU64(x.b[31-i/8]>>(i%8)&1 == 1, uint64(i+1), n)
	}
	if n == 0 {
		group.Refused()
	}
	return int(n)
}

func (x *Int) Bit(i int) uint {
	x.exact()
	if i > 255 {
		return 0
	}
	return uint(x.b[31-i/8] >> (i % 8) & 1)
}

// Rem and Mod agree: there are no negative numbers (a difference is known
// modulo N only).
func (x *Int) Rem(a, n *Int) *Int { return x.Mod(a, n) }

func (x *Int) Mul(a, b *Int) *Int { *x = Int{wide: true, r: group.Mul(a.r, b.r)}; return x }
func (x *Int) Add(a, b *Int) *Int { *x = Int{wide: true, r: group.Add(a.r, b.r)}; return x }
func (x *Int) Sub(a, b *Int) *Int { *x = Int{wide: true, r: group.Add(a.r, group.Neg(b.r))}; return x }
func (x *Int) Neg(a *Int) *Int    { *x = Int{wide: true, r: group.Neg(a.r)}; return x }

// Mod reduces a by N.
func (x *Int) Mod(a, n *Int) *Int {
	if n.wide || n.cmp(Order()) != 0 {
		nd.Skip()
	}
	if !a.wide && a.cmp(n) == -1 {
		*x = *a
		return x
	}
	r := a.r
	*x = Int{r: r}
	x.b[31] = r
	return x
}

func (x *Int) Bytes() []byte {
	x.exact()
	i := 0
	for i < 32 && x.b[i] == 0 {
		i++
	}
	return append([]byte{}, x.b[i:]...)
}

func (x *Int) FillBytes(out []byte) []byte {
	x.exact()
	for i := range out {
		out[i] = 0
	}
	if len(out) >= 32 {
		copy(out[len(out)-32:], x.b[:])
		return out
	}
	if !group.Zero(x.b[:32-len(out)]) {
		panic("math/big: buffer too small to fit value")
	}
	copy(out, x.b[32-len(out):])
	return out
}
