// Package group has what the models of the elliptic-curve libraries share: a
// group of prime order Q in place of the curve's, so that its elements are
// small numbers (discrete logarithms) that a solver can reason about.
package group

import "github.com/Bren2010/katie/zzverif/nd"

// Q is the order of the group.
const Q = 5

// Budget is the number of encodings that may yet be refused before a path is
// given up (the code under test retries until one is accepted).
var Budget = 1 << 30

// Refused counts refused encodings.
func Refused() {
	if Budget == 0 {
		nd.Skip()
	}
	Budget--
}

func Add(a, b uint8) uint8 { return Sel(a+b >= Q, a+b-Q, a+b) }
func Neg(a uint8) uint8    { return Sel(a == 0, 0, Q-a) }
func Mul(a, b uint8) uint8 {
	r := Sel(a&1 == 1, b, 0)
	b = Add(b, b)
	r = Sel(a&2 == 2, Add(r, b), r)
	b = Add(b, b)
	return Sel(a&4 == 4, Add(r, b), r)
}

// Sel is a if c, and b if not.
func Sel(c bool, a, b uint8) uint8 { return uint8(nd.IteU64(c, uint64(a), uint64(b))) }

// LE is the scalar that stands for the little-endian number b. It is linear in
// the bytes and agrees with b modulo Q if b < 256, but the weights of the further
// bytes are not 256^i (which is 1 modulo 5).
func LE(b []byte) uint8 {
	w := [4]uint16{1, 2, 4, 3}
	s := uint16(0)
	for i, x := range b {
		s += w[i%4] * uint16(x)
	}
	return uint8(s % Q)
}

// BE is the big-endian number b modulo Q.
func BE(b []byte) uint8 {
	r := make([]byte, len(b))
	for i, x := range b {
		r[len(b)-1-i] = x
	}
	return LE(r)
}

// Zero reports whether all bytes are 0.
func Zero(b []byte) bool {
	x := byte(0)
	for _, y := range b {
		x |= y
	}
	return x == 0
}

// Spread is the ideal hash of in, n bytes of which those at some positions are
// from 0 to 15 and the others zero.
func Spread(tag string, in []byte, n int, at []int) []byte {
	h := nd.SymHash(tag, in, len(at))
	out := make([]byte, n)
	for i, p := range at {
		out[p] = h[i] & 15
	}
	return out
}
