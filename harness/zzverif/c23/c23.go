// Package c23 checks the VRFs against RFC 9381, over a model of their groups.
package c23

import (
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/zzverif/ideal/group"
	"github.com/Bren2010/katie/zzverif/nd"
)

// curve is one of the two cipher suites, and a reference for it.
type curve struct {
	seed     func() []byte // a freshly generated private key
	newPriv  func([]byte) (vrf.PrivateKey, error)
	newPub   func([]byte) (vrf.PublicKey, error)
	privOK   func([]byte) bool
	public   func(raw []byte) []byte
	prove    func(raw, m []byte) (output, proof []byte)
	pubOK    func([]byte) bool
	verify   func(pk, m, proof []byte) (ok bool, output []byte)
	proofLen int
	pkLens   []int
	usable   func(raw, m []byte) bool
}

func msg() []byte {
	lo := nd.Param("minmessage")
	return nd.Bytes("message", lo+nd.Choose("message length", nd.Param("message")-lo+1))
}

func retries() { group.Budget = nd.Param("retries") }

func unlimited() { group.Budget = 1 << 30 }

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// keys: exactly the well-formed private keys are accepted, generated ones too.
func keys(c *curve) {
	unlimited()
	var raw []byte
	if nd.Choose("generated", 2) == 1 {
		retries()
		raw = c.seed()
		nd.Assert(len(raw) == 32 && c.privOK(raw), "a generated private key is well-formed")
		nd.Cover("generated")
	} else {
		raw = nd.Bytes("key", []int{32, 31, 33, 0}[nd.Choose("key length", 4)])
	}
	unlimited()
	priv, err := c.newPriv(raw)
	if len(raw) != 32 || !c.privOK(raw) {
		nd.Assert(err != nil, "a malformed private key is refused")
		nd.Cover("malformed private key")
		return
	}
	nd.Assert(err == nil, "a private key is accepted")
	nd.Assert(nd.EqBytes(priv.PublicKey().Bytes(), c.public(raw)), "the public key is the one that RFC 9381 prescribes")
	nd.Cover("private key")
}

// honest: what a private key proves is what RFC 9381 prescribes, and verifies.
func honest(c *curve) {
	unlimited()
	raw := nd.Bytes("key", 32)
	nd.Assume(c.privOK(raw))
	priv, err := c.newPriv(raw)
	nd.Assert(err == nil, "a private key is accepted")
	keep := append([]byte{}, raw...)
	raw[0]++ // the key must not depend on the caller's buffer
	for i := 0; i < nd.Param("messages"); i++ {
		m := msg()
		retries()
		out, proof := priv.Prove(m)
		if group.Budget < nd.Param("retries") {
			nd.Cover("retried")
		}
		retries()
		refOut, refProof := c.prove(keep, m)
		nd.Assert(nd.EqBytes(out, refOut), "the output is the one that RFC 9381 prescribes")
		nd.Assert(nd.EqBytes(proof, refProof), "the proof is the one that RFC 9381 prescribes")
		unlimited()
		if !c.usable(keep, m) {
			return // of negligible probability in the real group
		}
		pub := priv.PublicKey()
		if nd.Choose("parsed", 2) == 1 {
			pub, err = c.newPub(pub.Bytes())
			nd.Assert(err == nil, "a public key is accepted")
			nd.Assert(nd.EqBytes(pub.Bytes(), priv.PublicKey().Bytes()), "a public key is parsed back")
		}
		got, err := pub.Verify(m, proof)
		nd.Assert(err == nil, "an honest proof verifies")
		nd.Assert(nd.EqBytes(got, out), "an honest proof verifies to the output that was computed")
		nd.Cover("verified")
	}
}

// arbitrary: a verifier accepts exactly what RFC 9381 accepts, and derives the
// output from it.
func arbitrary(c *curve) {
	unlimited()
	long := nd.Param("long") == 1 // long series of retries; only the right lengths
	lens := c.pkLens
	if long {
		lens = lens[:1]
	}
	raw := nd.Bytes("public key", lens[nd.Choose("key length", len(lens))])
	pub, err := c.newPub(raw)
	ok := c.pubOK(raw)
	nd.Assert((err == nil) == ok, "exactly the well-formed public keys are accepted")
	if !ok {
		nd.Cover("malformed public key")
		return
	}
	m := msg()
	n := c.proofLen
	if d := nd.Choose("proof length", 4); d != 0 {
		if long {
			return
		}
		n = []int{0, c.proofLen - 1, c.proofLen + 1}[d-1]
	}
	proof := nd.Bytes("proof", n)
	retries()
	out, err := pub.Verify(m, proof)
	retries()
	ok, refOut := c.verify(pub.Bytes(), m, proof)
	if ok {
		nd.Assert(err == nil, "a proof that RFC 9381 accepts is accepted")
		nd.Assert(nd.EqBytes(out, refOut), "the output is the one that RFC 9381 prescribes")
		nd.Cover("accepted")
	} else {
		nd.Assert(err != nil, "a proof that RFC 9381 refuses is refused")
		nd.Assert(len(out) == 0, "no output with a refused proof")
		nd.Cover("refused")
	}
}
