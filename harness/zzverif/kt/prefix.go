package kt

import "github.com/Bren2010/katie/zzverif/nd"

// Entry is a VRF output and its commitment.
type Entry struct{ Vrf, Com []byte }

// PrefixRoot is the root of the prefix tree holding exactly set, whose VRF
// outputs are distinct: an empty tree hashes to zeros, a single entry is a
// leaf, and anything else is a parent of the two halves split by the next bit.
func PrefixRoot(s Suite, set []Entry, depth int) []byte {
	switch len(set) {
	case 0:
		return make([]byte, s.H)
	case 1:
		return nd.Hash("h", Cat([]byte{2}, set[0].Vrf, set[0].Com), s.H)
	}
	var l, r []Entry
	for _, e := range set {
		if Bit(e.Vrf, depth) {
			r = append(r, e)
		} else {
			l = append(l, e)
		}
	}
	return nd.Hash("h", Cat([]byte{3}, PrefixRoot(s, l, depth+1), PrefixRoot(s, r, depth+1)), s.H)
}

// Bit is bit i of b, most significant first.
func Bit(b []byte, i int) bool { return b[i/8]>>(7-i%8)&1 == 1 }

// Cat concatenates.
func Cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// SymVrf is a VRF output whose first `bits` bits are arbitrary and whose other
// bits are zero.
func SymVrf(name string, s Suite, bits int) []byte {
	out := make([]byte, s.H)
	for i := 0; bits > 0; i++ {
		b := nd.U8(name)
		if bits < 8 {
			b = b >> (8 - bits) << (8 - bits)
			bits = 0
		} else {
			bits -= 8
		}
		out[i] = b
	}
	return out
}

// Fill is n bytes of value b.
func Fill(b byte, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = b
	}
	return out
}

// FindEntry is the position of vrf in set, or -1.
func FindEntry(set []Entry, vrf []byte) int {
	for i, e := range set {
		if nd.EqBytes(e.Vrf, vrf) {
			return i
		}
	}
	return -1
}

// SymSet is a set of n entries with arbitrary distinct VRF outputs.
func SymSet(s Suite, n, bits int) []Entry {
	var set []Entry
	for i := 0; i < n; i++ {
		e := Entry{Vrf: SymVrf("vrf", s, bits), Com: Fill(byte(0xc0+i), s.H)}
		nd.Assume(FindEntry(set, e.Vrf) < 0)
		set = append(set, e)
	}
	return set
}
