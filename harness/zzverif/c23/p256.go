package c23

import (
	"github.com/Bren2010/katie/crypto/vrf"
	real "github.com/Bren2010/katie/crypto/vrf/p256"
	"github.com/Bren2010/katie/zzverif/ideal/group"
	"github.com/Bren2010/katie/zzverif/ideal/hmac"
	"github.com/Bren2010/katie/zzverif/ideal/nistec"
	"github.com/Bren2010/katie/zzverif/ideal/sha256"
	"github.com/Bren2010/katie/zzverif/nd"
)

var p2 = &curve{
	seed: real.GeneratePrivateKey,
	newPriv: func(b []byte) (vrf.PrivateKey, error) {
		k, err := real.NewPrivateKey(b)
		return k, err
	},
	newPub: func(b []byte) (vrf.PublicKey, error) {
		k, err := real.NewPublicKey(b)
		return k, err
	},
	privOK:   inOrder,
	public:   func(raw []byte) []byte { return p2Enc(group.BE(raw)) },
	prove:    p2Prove,
	pubOK:    p2PubOK,
	verify:   p2Verify,
	proofLen: 81,
	pkLens:   []int{33, 0, 1, 32, 34},
	usable: func(raw, m []byte) bool {
		// numbers below N that are multiples of 5 exist only in the model
		x, h, k := p2Nonce(raw, m)
		_, p := p2Prove(raw, m)
		return x != 0 && h != 0 && k != 0 && !group.Zero(p[49:])
	},
}

func P256Keys()      { keys(p2) }
func P256Honest()    { honest(p2) }
func P256Arbitrary() { arbitrary(p2) }

// inOrder: 0 < b < N
func inOrder(b []byte) bool { return nd.And(!group.Zero(b), b[0] < group.Q) }

func p2Enc(a uint8) []byte {
	if a == 0 {
		return []byte{0}
	}
	return nistec.Encode(a)
}

func p2H(pk, m []byte) uint8 {
	for ctr := 0; ; ctr++ {
		h := sha256.Sum256(cat([]byte{1, 1}, pk, m, []byte{byte(ctr), 0}))
		if a, ok := nistec.Decode(2, h[:]); ok {
			return a
		}
		group.Refused()
	}
}

func p2Challenge(p ...[]byte) []byte {
	c := sha256.Sum256(cat([]byte{1, 2}, cat(p...), []byte{0}))
	return c[:16]
}

func p2Output(g []byte) []byte {
	o := sha256.Sum256(cat([]byte{1, 3}, g, []byte{0}))
	return o[:]
}

// p2Nonce is the nonce of RFC 6979, and the private key and the message's point.
func p2Nonce(x, m []byte) (xr, h, k uint8) {
	xr = group.BE(x)
	h = p2H(p2Enc(xr), m)
	h1 := sha256.Sum256(p2Enc(h))
	if h1[0] >= group.Q { // bits2octets
		r := group.BE(h1[:])
		h1 = [32]byte{}
		h1[31] = r
		nd.Cover("digest above the order")
	}
	mac := func(k []byte, in ...[]byte) []byte { return hmac.Sum(k, cat(in...), 32) }
	v := make([]byte, 32)
	for i := range v {
		v[i] = 1
	}
	key := make([]byte, 32)
	key = mac(key, v, []byte{0}, x, h1[:])
	v = mac(key, v)
	key = mac(key, v, []byte{1}, x, h1[:])
	v = mac(key, v)
	for {
		v = mac(key, v)
		if inOrder(v) {
			return xr, h, group.BE(v)
		}
		nd.Cover("second nonce")
		group.Refused()
		key = mac(key, v, []byte{0})
		v = mac(key, v)
	}
}

func p2Prove(raw, m []byte) (output, proof []byte) {
	x, h, k := p2Nonce(raw, m)
	g := group.Mul(x, h)
	c := p2Challenge(p2Enc(x), p2Enc(h), p2Enc(g), p2Enc(k), p2Enc(group.Mul(k, h)))
	s := make([]byte, 32)
	s[31] = group.Add(group.Mul(group.BE(c), x), k)
	ge := make([]byte, 33)
	copy(ge, p2Enc(g))
	return p2Output(ge), cat(ge, c, s)
}

func p2PubOK(b []byte) bool {
	if len(b) != 33 {
		return false
	}
	_, ok := nistec.Decode(b[0], b[1:])
	return ok
}

func p2Verify(pk, m, proof []byte) (bool, []byte) {
	if len(proof) != 81 {
		return false, nil
	}
	g, ok := nistec.Decode(proof[0], proof[1:33])
	if !ok || proof[49] >= group.Q {
		return false, nil
	}
	nd.Assume(!group.Zero(proof[49:])) // refused here, allowed by the RFC; of no consequence
	y, _ := nistec.Decode(pk[0], pk[1:])
	cb := proof[33:49]
	c, s := group.BE(cb), group.BE(proof[49:])
	h := p2H(pk, m)
	u := group.Add(s, group.Neg(group.Mul(c, y)))
	v := group.Add(group.Mul(s, h), group.Neg(group.Mul(c, g)))
	if !nd.EqBytes(cb, p2Challenge(pk, p2Enc(h), p2Enc(g), p2Enc(u), p2Enc(v))) {
		return false, nil
	}
	return true, p2Output(proof[:33])
}
