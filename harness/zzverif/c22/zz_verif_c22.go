// Package c22 checks that what is signed, committed to or given to the VRF
// determines the values that went into it.
package c22

import (
	"github.com/Bren2010/katie/crypto/commitments"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/gen"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

type key []byte

func (k key) Bytes() []byte          { return k }
func (k key) Verify(m, s []byte) bool { return false }

type vrfKey []byte

func (k vrfKey) Bytes() []byte                           { return k }
func (k vrfKey) Verify(m, proof []byte) ([]byte, error) { return nil, nil }

// config has public keys of arbitrary bytes.
func config() *structs.PublicConfig {
	c := gen.Config(kt.New(nd.Param("hash")))
	c.SignatureKey, c.VrfKey = key(gen.Any("signature key", nd.Param("bytes"))), vrfKey(gen.Any("vrf key", nd.Param("bytes")))
	switch c.Mode {
	case structs.ThirdPartyManagement:
		c.LeafPublicKey = key(gen.Any("leaf key", nd.Param("bytes")))
	case structs.ThirdPartyAuditing:
		c.AuditorPublicKey = key(gen.Any("auditor key", nd.Param("bytes")))
	}
	return c
}

func all(x ...bool) bool {
	ok := true
	for _, y := range x {
		ok = nd.And(ok, y)
	}
	return ok
}

func eqConfig(a, b *structs.PublicConfig) bool {
	if a.Mode != b.Mode {
		return false
	}
	ok := all(nd.EqBytes(a.SignatureKey.Bytes(), b.SignatureKey.Bytes()), nd.EqBytes(a.VrfKey.Bytes(), b.VrfKey.Bytes()),
		a.MaxAhead == b.MaxAhead, a.MaxBehind == b.MaxBehind, a.ReasonableMonitoringWindow == b.ReasonableMonitoringWindow, a.MaximumLifetime == b.MaximumLifetime)
	switch a.Mode {
	case structs.ThirdPartyManagement:
		ok = all(ok, nd.EqBytes(a.LeafPublicKey.Bytes(), b.LeafPublicKey.Bytes()))
	case structs.ThirdPartyAuditing:
		ok = all(ok, a.MaxAuditorLag == b.MaxAuditorLag, a.AuditorStartPos == b.AuditorStartPos, nd.EqBytes(a.AuditorPublicKey.Bytes(), b.AuditorPublicKey.Bytes()))
	}
	return ok
}

func injective(a, b structs.Marshaller, eq bool) {
	x, y := gen.Marshal(a), gen.Marshal(b)
	if len(x) != len(y) {
		nd.Cover("lengths differ")
		return
	}
	nd.Assert(nd.Implies(nd.EqBytes(x, y), eq), "equal encodings are of equal values")
	nd.Cover("lengths agree")
}

// Configs: the configuration, which precedes everything that is signed.
func Configs() {
	a, b := config(), config()
	injective(a, b, eqConfig(a, b))
}

// small are two configurations, which may or may not be the same.
func small() (a, b *structs.PublicConfig) {
	s := kt.New(nd.Param("hash"))
	a = gen.Config(s)
	if nd.Choose("same configuration", 2) == 1 {
		return a, a
	}
	return a, gen.Config(s)
}

// Signed: tree heads, auditor tree heads and updates, of the same or of
// different kinds.
func Signed() {
	ca, cb := small()
	h := ca.Suite.HashSize()
	ecf := eqConfig(ca, cb)
	switch nd.Choose("kind", 3) {
	case 0:
		a := &structs.TreeHeadTBS{Config: ca, TreeSize: nd.U64("size"), Root: nd.Bytes("root", h)}
		b := &structs.TreeHeadTBS{Config: cb, TreeSize: nd.U64("size"), Root: nd.Bytes("root", h)}
		injective(a, b, all(ecf, a.TreeSize == b.TreeSize, nd.EqBytes(a.Root, b.Root)))
	case 1:
		a := &structs.AuditorTreeHeadTBS{Config: ca, Timestamp: nd.U64("timestamp"), TreeSize: nd.U64("size"), Root: nd.Bytes("root", h)}
		b := &structs.AuditorTreeHeadTBS{Config: cb, Timestamp: nd.U64("timestamp"), TreeSize: nd.U64("size"), Root: nd.Bytes("root", h)}
		injective(a, b, all(ecf, a.Timestamp == b.Timestamp, a.TreeSize == b.TreeSize, nd.EqBytes(a.Root, b.Root)))
	case 2:
		n := nd.Param("bytes")
		a := &structs.UpdateTBS{Config: ca, Label: gen.Any("label", n), Version: nd.U32("version"), Value: gen.Any("value", n)}
		b := &structs.UpdateTBS{Config: cb, Label: gen.Any("label", n), Version: nd.U32("version"), Value: gen.Any("value", n)}
		injective(a, b, all(ecf, nd.EqBytes(a.Label, b.Label), a.Version == b.Version, nd.EqBytes(a.Value, b.Value)))
	}
}

// Vrf: labels and versions.
func Vrf() {
	n := nd.Param("bytes")
	a := &structs.VrfInput{Label: gen.Any("label", n), Version: nd.U32("version")}
	b := &structs.VrfInput{Label: gen.Any("label", n), Version: nd.U32("version")}
	injective(a, b, all(nd.EqBytes(a.Label, b.Label), a.Version == b.Version))
}

// LongLabel: labels are never cut or wrapped.
func LongLabel() {
	c := gen.Config(kt.New(2))
	for _, n := range []int{254, 255, 256, 257, 511, 512, 65536} {
		l := make([]byte, n)
		l[n-1] = nd.U8("last")
		for _, x := range []structs.Marshaller{
			&structs.VrfInput{Label: l}, &structs.CommitmentValue{Label: l},
			&structs.UpdateTBS{Config: c, Label: l},
		} {
			raw, err := structs.Marshal(x)
			if n > 255 {
				nd.Assert(err != nil, "a label that does not fit is rejected")
			} else {
				nd.Assert(err == nil && len(raw) > n, "a label that fits is encoded")
			}
		}
	}
	nd.Cover("done")
}

// Committed: labels, versions, values and openings that are committed to, in
// each mode.
func Committed() {
	s := kt.New(nd.Param("hash"))
	s.Open = nd.Param("open")
	c := &structs.PublicConfig{Config: structs.Config{Suite: s, Mode: structs.DeploymentMode(1 + nd.Choose("mode", 3))}}
	n := nd.Param("bytes")
	mk := func() (*structs.CommitmentValue, []byte) {
		return &structs.CommitmentValue{Label: gen.Any("label", n), Version: nd.U32("version"), Update: *gen.UpdateValue(c)}, nd.Bytes("opening", s.Open)
	}
	a, oa := mk()
	b, ob := mk()
	same := all(nd.EqBytes(a.Label, b.Label), a.Version == b.Version, gen.EqUpdateValue(&a.Update, &b.Update))
	injective(a, b, same)
	x := commitments.Commit(s, oa, gen.Marshal(a))
	y := commitments.Commit(s, ob, gen.Marshal(b))
	nd.Assert(nd.EqBytes(x, y) == all(same, nd.EqBytes(oa, ob)), "commitments are equal exactly if label, version, value and opening are")
	v := commitments.Verify(s, ob, gen.Marshal(b), x)
	nd.Assert(nd.Implies(v, all(same, nd.EqBytes(oa, ob))), "a commitment is opened only to what was committed to")
	nd.Assert(commitments.Verify(s, oa, gen.Marshal(a), x), "a commitment is opened to what was committed to")
	nd.Cover("done")
}

// Entries: log entries, and the tree heads' hashes over them.
func Entries() {
	s := kt.New(nd.Param("hash"))
	c := &structs.PublicConfig{Config: structs.Config{Suite: s}}
	a, b := gen.LogEntry(c), gen.LogEntry(c)
	x, err := a.Hash(s)
	nd.Assert(err == nil, "a log entry is hashed")
	y, err := b.Hash(s)
	nd.Assert(err == nil, "a log entry is hashed")
	nd.Assert(nd.EqBytes(x, y) == gen.EqLogEntry(a, b), "log entries have equal hashes exactly if they are equal")
	nd.Cover("done")
}
