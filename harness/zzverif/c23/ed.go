package c23

import (
	"github.com/Bren2010/katie/crypto/vrf"
	real "github.com/Bren2010/katie/crypto/vrf/edwards25519"
	"github.com/Bren2010/katie/zzverif/ideal/edwards25519"
	"github.com/Bren2010/katie/zzverif/ideal/group"
	"github.com/Bren2010/katie/zzverif/ideal/sha512"
	"github.com/Bren2010/katie/zzverif/nd"
)

var ed = &curve{
	seed: real.GeneratePrivateKey,
	newPriv: func(b []byte) (vrf.PrivateKey, error) {
		k, err := real.NewPrivateKey(b)
		return k, err
	},
	newPub: func(b []byte) (vrf.PublicKey, error) {
		k, err := real.NewPublicKey(b)
		return k, err
	},
	privOK:   func([]byte) bool { return true },
	public:   func(raw []byte) []byte { x, _ := edKey(raw); return edEnc(x, 0) },
	prove:    edProve,
	pubOK:    edPubOK,
	verify:   edVerify,
	proofLen: 80,
	pkLens:   []int{32, 0, 31, 33},
	usable:   func(raw, m []byte) bool { x, _ := edKey(raw); return x != 0 },
}

func EdKeys()      { keys(ed) }
func EdHonest()    { honest(ed) }
func EdArbitrary() { arbitrary(ed) }

func edKey(raw []byte) (x uint8, prefix []byte) {
	h := sha512.Sum512(raw)
	var b [32]byte
	copy(b[:], h[:32])
	b[0] &= 0xf8
	b[31] = b[31]&0x7f | 0x40
	b[31] &= 0x7f
	return group.LE(b[:]), h[32:]
}

func edEnc(a, t uint8) []byte {
	out := make([]byte, 32)
	out[0], out[1] = a, t
	return out
}

// edH is the point of a message.
func edH(pk, m []byte) uint8 {
	for ctr := 0; ; ctr++ {
		h := sha512.Sum512(cat([]byte{3, 1}, pk, m, []byte{byte(ctr), 0}))
		if edwards25519.Valid(h[:32]) {
			return group.Mul(8%group.Q, h[0])
		}
		group.Refused()
	}
}

func edChallenge(p ...[]byte) []byte {
	c := sha512.Sum512(cat([]byte{3, 2}, cat(p...), []byte{0}))
	return c[:16]
}

func edOutput(g uint8) []byte {
	o := sha512.Sum512(cat([]byte{3, 3}, edEnc(group.Mul(8%group.Q, g), 0), []byte{0}))
	return o[:32]
}

func edProve(raw, m []byte) (output, proof []byte) {
	x, prefix := edKey(raw)
	y := edEnc(x, 0)
	h := edH(y, m)
	g := group.Mul(x, h)
	n := sha512.Sum512(cat(prefix, edEnc(h, 0)))
	k := group.LE(n[:])
	c := edChallenge(y, edEnc(h, 0), edEnc(g, 0), edEnc(k, 0), edEnc(group.Mul(k, h), 0))
	s := group.Add(group.Mul(group.LE(c), x), k)
	return edOutput(g), cat(edEnc(g, 0), c, edEnc(s, 0))
}

func edPubOK(b []byte) bool {
	return len(b) == 32 && edwards25519.Valid(b) && b[0] != 0
}

func edVerify(pk, m, proof []byte) (bool, []byte) {
	if len(proof) != 80 || !edwards25519.Valid(proof[:32]) || proof[79] >= 0x10 {
		return false, nil
	}
	ya, yt, ga, gt := pk[0], pk[1], proof[0], proof[1]
	cb := proof[32:48]
	c, s := group.LE(cb), group.LE(proof[48:])
	h := edH(pk, m)
	low := cb[0] & 7
	u := edEnc(group.Add(s, group.Neg(group.Mul(c, ya))), -(low*yt)&7)
	v := edEnc(group.Add(group.Mul(s, h), group.Neg(group.Mul(c, ga))), -(low*gt)&7)
	if gt != 0 {
		nd.Cover("part of small order")
	}
	if !nd.EqBytes(cb, edChallenge(pk, edEnc(h, 0), edEnc(ga, gt), u, v)) {
		return false, nil
	}
	return true, edOutput(ga)
}
