// Package kt holds the idealised cryptography and reference models shared by
// the harnesses.
package kt

import (
	"errors"
	"hash"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/crypto/vrf"
	"github.com/Bren2010/katie/zzverif/nd"
)

// Suite is a cipher suite whose hash is collision free, whose VRF is a random
// function and whose signatures cannot be forged.
type Suite struct {
	H    int  // hash size
	Prf  int  // VRF proof size
	Sym  bool // VRF outputs are unconstrained, rather than fixed
	Open int  // commitment opening size
	Sigs *[]Signed
}

// Signed is a message signed with the key.
type Signed struct {
	Key byte
	Msg []byte
}

// New returns a suite with hash size h.
func New(h int) Suite { return Suite{H: h, Prf: 2, Open: 2, Sigs: &[]Signed{}} }

var _ suites.CipherSuite = Suite{}

type hasher struct {
	buf  []byte
	size int
}

func (h *hasher) Write(b []byte) (int, error) { h.buf = append(h.buf, b...); return len(b), nil }
func (h *hasher) Sum(b []byte) []byte         { return append(b, nd.Hash("h", h.buf, h.size)...) }
func (h *hasher) Reset()                      { h.buf = nil }
func (h *hasher) Size() int                   { return h.size }
func (h *hasher) BlockSize() int              { return 4 }

func (s Suite) Id() uint16                   { return 0x7777 }
func (s Suite) Hash() hash.Hash              { return &hasher{size: s.H} }
func (s Suite) HashSize() int                { return s.H }
func (s Suite) CommitmentOpeningSize() int   { return s.Open }
func (s Suite) CommitmentFixedBytes() []byte { return []byte{1, 2, 3, 4} }
func (s Suite) VrfProofSize() int            { return s.Prf }

func (s Suite) ParseSigningPrivateKey(raw []byte) (suites.SigningPrivateKey, error) {
	if len(raw) != 1 {
		return nil, errors.New("bad key")
	}
	return SigKey{s, raw[0]}, nil
}

func (s Suite) ParseSigningPublicKey(raw []byte) (suites.SigningPublicKey, error) {
	if len(raw) != 1 {
		return nil, errors.New("bad key")
	}
	return SigPub{s, raw[0]}, nil
}

func (s Suite) ParseVRFPrivateKey(raw []byte) (vrf.PrivateKey, error) {
	if len(raw) != 1 {
		return nil, errors.New("bad key")
	}
	return VrfKey{s, raw[0]}, nil
}

func (s Suite) ParseVRFPublicKey(raw []byte) (vrf.PublicKey, error) {
	if len(raw) != 1 {
		return nil, errors.New("bad key")
	}
	return VrfPub{s, raw[0]}, nil
}

// SigKey signs by recording what was signed.
type SigKey struct {
	S  Suite
	Id byte
}

// SigPub verifies signatures made with the key.
type SigPub struct {
	S  Suite
	Id byte
}

func (k SigKey) Sign(m []byte) ([]byte, error) {
	*k.S.Sigs = append(*k.S.Sigs, Signed{k.Id, append([]byte(nil), m...)})
	return nd.Hash("sig", append([]byte{k.Id}, m...), 2), nil
}

func (k SigKey) Public() suites.SigningPublicKey { return SigPub{k.S, k.Id} }
func (k SigPub) Bytes() []byte                   { return []byte{k.Id} }

func (k SigPub) Verify(m, sig []byte) bool {
	ok := false
	for _, s := range *k.S.Sigs {
		if s.Key == k.Id {
			ok = nd.Or(ok, nd.EqBytes(s.Msg, m))
		}
	}
	return nd.And(ok, nd.EqBytes(sig, nd.Hash("sig", append([]byte{k.Id}, m...), 2)))
}

// VrfKey is a random function; the proof is a function of the input too.
type VrfKey struct {
	S  Suite
	Id byte
}

// VrfPub verifies proofs of VrfKey.
type VrfPub struct {
	S  Suite
	Id byte
}

func (k VrfKey) output(m []byte) []byte {
	in := append([]byte{k.Id}, m...)
	if k.S.Sym {
		return nd.SymHash("vrf", in, k.S.H)
	}
	return nd.Hash("vrf", in, k.S.H)
}

func (k VrfKey) Prove(m []byte) (output, proof []byte) {
	return k.output(m), nd.Hash("vrfproof", append([]byte{k.Id}, m...), k.S.Prf)
}

func (k VrfKey) PublicKey() vrf.PublicKey { return VrfPub{k.S, k.Id} }
func (k VrfPub) Bytes() []byte            { return []byte{k.Id} }

func (k VrfPub) Verify(m, proof []byte) ([]byte, error) {
	if !nd.EqBytes(proof, nd.Hash("vrfproof", append([]byte{k.Id}, m...), k.S.Prf)) {
		return nil, errors.New("vrf proof does not verify")
	}
	return VrfKey{k.S, k.Id}.output(m), nil
}
