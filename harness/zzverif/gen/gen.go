// Package gen builds arbitrary values of every structure that is encoded, and
// compares them.
package gen

import (
	"bytes"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// Config is a configuration in any deployment mode.
func Config(s kt.Suite) *structs.PublicConfig {
	c := &structs.PublicConfig{
		SignatureKey: kt.SigPub{S: s, Id: nd.U8("signature key")},
		VrfKey:       kt.VrfPub{S: s, Id: nd.U8("vrf key")},
		Config: structs.Config{
			Suite: s, Mode: structs.DeploymentMode(1 + nd.Choose("mode", 3)),
			MaxAhead: nd.U64("max ahead"), MaxBehind: nd.U64("max behind"),
			ReasonableMonitoringWindow: nd.U64("window"),
		},
	}
	switch c.Mode {
	case structs.ThirdPartyManagement:
		c.LeafPublicKey = kt.SigPub{S: s, Id: nd.U8("leaf key")}
	case structs.ThirdPartyAuditing:
		c.MaxAuditorLag, c.AuditorStartPos = nd.U64("max auditor lag"), nd.U64("auditor start")
		c.AuditorPublicKey = kt.SigPub{S: s, Id: nd.U8("auditor key")}
	}
	if nd.Choose("lifetime", 2) == 1 {
		c.MaximumLifetime = nd.U64("lifetime")
		nd.Assume(c.MaximumLifetime > 0)
	}
	return c
}

// Any is up to max arbitrary bytes.
func Any(name string, max int) []byte { return nd.Bytes(name, nd.Choose(name+" size", max+1)) }

func n(name string) int { return nd.Choose(name+" count", nd.Param("count")+1) }

// List is up to `count` values.
func List[T any](name string, f func() T) []T {
	out := make([]T, n(name))
	for i := range out {
		out[i] = f()
	}
	return out
}

func opt[T any](name string, f func(string) T) *T {
	if nd.Choose(name, 2) == 0 {
		return nil
	}
	x := f(name)
	return &x
}

func hash(c *structs.PublicConfig, name string) []byte { return nd.Bytes(name, c.Suite.HashSize()) }

func TreeHead(c *structs.PublicConfig) *structs.TreeHead {
	return &structs.TreeHead{TreeSize: nd.U64("tree size"), Signature: Any("signature", nd.Param("bytes"))}
}

func AuditorTreeHead(c *structs.PublicConfig) *structs.AuditorTreeHead {
	return &structs.AuditorTreeHead{Timestamp: nd.U64("auditor timestamp"), TreeSize: nd.U64("auditor tree size"), Signature: Any("signature", nd.Param("bytes"))}
}

func FullTreeHead(c *structs.PublicConfig) *structs.FullTreeHead {
	f := &structs.FullTreeHead{}
	if nd.Choose("updated head", 2) == 1 {
		f.TreeHead = TreeHead(c)
		if c.Mode == structs.ThirdPartyAuditing {
			f.AuditorTreeHead = AuditorTreeHead(c)
		}
	}
	return f
}

func UpdateSuffix(c *structs.PublicConfig) structs.UpdateSuffix {
	if c.Mode != structs.ThirdPartyManagement {
		return structs.UpdateSuffix{}
	}
	return structs.UpdateSuffix{Signature: Any("signature", nd.Param("bytes"))}
}

func UpdateValue(c *structs.PublicConfig) *structs.UpdateValue {
	return &structs.UpdateValue{Value: Any("value", nd.Param("bytes")), UpdateSuffix: UpdateSuffix(c)}
}

func LogEntry(c *structs.PublicConfig) *structs.LogEntry {
	return &structs.LogEntry{Timestamp: nd.U64("timestamp"), PrefixTree: hash(c, "prefix root")}
}

func LabelValue(c *structs.PublicConfig) *structs.LabelValue {
	return &structs.LabelValue{Value: Any("value", nd.Param("bytes"))}
}

func Step(c *structs.PublicConfig) *structs.BinaryLadderStep {
	return &structs.BinaryLadderStep{Proof: nd.Bytes("proof", c.Suite.VrfProofSize()), Commitment: optHash(c)}
}

func optHash(c *structs.PublicConfig) []byte {
	if nd.Choose("commitment", 2) == 0 {
		return nil
	}
	return hash(c, "commitment")
}

func OpeningAndValue(c *structs.PublicConfig) *structs.OpeningAndValue {
	return &structs.OpeningAndValue{Opening: nd.Bytes("opening", c.Suite.CommitmentOpeningSize()), Value: *UpdateValue(c)}
}

func UpdateInfo(c *structs.PublicConfig) *structs.UpdateInfo {
	return &structs.UpdateInfo{Opening: nd.Bytes("opening", c.Suite.CommitmentOpeningSize()), UpdateSuffix: UpdateSuffix(c)}
}

func Hashes(c *structs.PublicConfig, name string) [][]byte {
	return List(name, func() []byte { return hash(c, name) })
}

func Entry(c *structs.PublicConfig) prefix.Entry {
	return prefix.Entry{VrfOutput: hash(c, "vrf output"), Commitment: hash(c, "commitment")}
}

// Result is the encoding of a search result in a prefix proof.
func Result(c *structs.PublicConfig, kind int) []byte {
	out := []byte{byte(kind + 1)}
	if kind == 1 {
		out = append(append(out, hash(c, "vrf output")...), hash(c, "commitment")...)
	}
	return append(out, nd.U8("depth"))
}

// PrefixProof decodes an arbitrary proof.
func PrefixProof(c *structs.PublicConfig) *prefix.PrefixProof {
	var kinds []int
	for i := n("results"); i > 0; i-- {
		kinds = append(kinds, nd.Choose("result", 3))
	}
	return proof(c, kinds, n("elements"))
}

func proof(c *structs.PublicConfig, kinds []int, elements int) *prefix.PrefixProof {
	raw := []byte{byte(len(kinds))}
	for _, k := range kinds {
		raw = append(raw, Result(c, k)...)
	}
	raw = append(raw, 0, byte(elements))
	for i := 0; i < elements; i++ {
		raw = append(raw, hash(c, "element")...)
	}
	p, err := prefix.NewPrefixProof(c.Suite, bytes.NewBuffer(raw))
	if err != nil {
		nd.Skip() // not the encoding; no proofs of this kind are built
	}
	nd.Assert(len(p.Results) == len(kinds) && len(p.Elements) == elements, "a proof has the results and elements encoded")
	for i, k := range kinds {
		nd.Assert(p.Results[i].Inclusion() == (k == 0), "a result says whether it shows inclusion")
	}
	return p
}

func Combined(c *structs.PublicConfig) *structs.CombinedTreeProof {
	return &structs.CombinedTreeProof{
		Timestamps:   List("timestamps", func() uint64 { return nd.U64("timestamp") }),
		PrefixProofs: List("proofs", func() prefix.PrefixProof { return *PrefixProof(c) }),
		PrefixRoots:  Hashes(c, "prefix root"),
		Inclusion:    structs.InclusionProof{Elements: Hashes(c, "inclusion")},
	}
}

// Small is Combined, varying only one part of it.
func Small(c *structs.PublicConfig) *structs.CombinedTreeProof {
	p := &structs.CombinedTreeProof{Timestamps: []uint64{}, PrefixProofs: []prefix.PrefixProof{}, PrefixRoots: [][]byte{}, Inclusion: structs.InclusionProof{Elements: [][]byte{}}}
	switch nd.Choose("part", 5) {
	case 0:
		p.Timestamps = []uint64{nd.U64("timestamp")}
	case 1:
		p.PrefixProofs = []prefix.PrefixProof{*proof(c, []int{nd.Choose("result", 3)}, 1)}
	case 2:
		p.PrefixRoots = [][]byte{hash(c, "prefix root")}
	case 3:
		p.Inclusion.Elements = [][]byte{hash(c, "inclusion")}
	}
	return p
}

func AuditorUpdate(c *structs.PublicConfig) *structs.AuditorUpdate {
	e := func() prefix.Entry { return Entry(c) }
	return &structs.AuditorUpdate{
		Timestamp: nd.U64("timestamp"), Added: List("added", e), Removed: List("removed", e),
		Proof: *PrefixProof(c),
	}
}

func u64(n string) uint64 { return nd.U64(n) }
func u32(n string) uint32 { return nd.U32(n) }

func label() []byte { return Any("label", nd.Param("bytes")) }

func SearchRequest(c *structs.PublicConfig) *structs.SearchRequest {
	return &structs.SearchRequest{Last: opt("last", u64), Label: label(), Version: opt("version", u32)}
}

func steps(c *structs.PublicConfig) []structs.BinaryLadderStep {
	return List("steps", func() structs.BinaryLadderStep { return *Step(c) })
}

// SearchResponse is a response to a request.
func SearchResponse(c *structs.PublicConfig, req *structs.SearchRequest) *structs.SearchResponse {
	r := &structs.SearchResponse{
		FullTreeHead: *FullTreeHead(c), Opening: nd.Bytes("opening", c.Suite.CommitmentOpeningSize()),
		Value: *UpdateValue(c), BinaryLadder: steps(c), Search: *Small(c),
	}
	if req.Version == nil {
		v := nd.U32("greatest version")
		r.Version = &v
	}
	return r
}

func MapEntry() structs.MonitorMapEntry {
	return structs.MonitorMapEntry{Position: nd.U64("position"), Version: nd.U32("version")}
}

func ContactMonitorRequest(c *structs.PublicConfig) *structs.ContactMonitorRequest {
	return &structs.ContactMonitorRequest{Last: opt("last", u64), Label: label(), Entries: List("entries", MapEntry)}
}

func ContactMonitorResponse(c *structs.PublicConfig) *structs.ContactMonitorResponse {
	return &structs.ContactMonitorResponse{FullTreeHead: *FullTreeHead(c), Monitor: *Small(c)}
}

func OwnerInitRequest(c *structs.PublicConfig) *structs.OwnerInitRequest {
	return &structs.OwnerInitRequest{Last: opt("last", u64), Label: label(), Start: nd.U64("start")}
}

func OwnerInitResponse(c *structs.PublicConfig) *structs.OwnerInitResponse {
	return &structs.OwnerInitResponse{
		FullTreeHead: *FullTreeHead(c), GreatestVersions: List("versions", func() uint32 { return nd.U32("version") }),
		BinaryLadder: steps(c), Init: *Small(c),
	}
}

func OwnerMonitorRequest(c *structs.PublicConfig) *structs.OwnerMonitorRequest {
	return &structs.OwnerMonitorRequest{
		Last: opt("last", u64), Label: label(), Entries: List("entries", MapEntry),
		Start: nd.U64("start"), GreatestVersion: opt("version", u32),
	}
}

func OwnerMonitorResponse(c *structs.PublicConfig) *structs.OwnerMonitorResponse {
	return &structs.OwnerMonitorResponse{FullTreeHead: *FullTreeHead(c), Monitor: *Small(c)}
}

func UpdateRequest(c *structs.PublicConfig) *structs.UpdateRequest {
	return &structs.UpdateRequest{
		Last: opt("last", u64), Label: label(), GreatestVersion: opt("version", u32),
		Values: List("values", func() structs.LabelValue { return *LabelValue(c) }),
	}
}

func ManagerUpdateRequest(c *structs.PublicConfig) *structs.ManagerUpdateRequest {
	return &structs.ManagerUpdateRequest{
		Last: opt("last", u64), Label: label(), GreatestVersion: opt("version", u32), SignedVersion: nd.U32("signed version"),
		Values: List("values", func() structs.UpdateValue { return *UpdateValue(c) }),
	}
}

func UpdateResponse(c *structs.PublicConfig) *structs.UpdateResponse {
	return &structs.UpdateResponse{
		FullTreeHead: *FullTreeHead(c), Position: nd.U64("position"),
		Values:       List("values", func() structs.LabelValue { return *LabelValue(c) }),
		Info:         List("info", func() structs.UpdateInfo { return *UpdateInfo(c) }),
		BinaryLadder: steps(c), Update: *Small(c),
	}
}

func ClientState(c *structs.PublicConfig) *structs.ClientState {
	s := &structs.ClientState{TreeHead: *TreeHead(c), FullSubtrees: Hashes(c, "subtree"), LogEntries: map[uint64]structs.LogEntry{}}
	if c.Mode == structs.ThirdPartyAuditing {
		s.AuditorTreeHead = AuditorTreeHead(c)
	}
	pos := nd.U64("position")
	for i := n("entries"); i > 0; i-- {
		nd.Assume(pos < 1<<63)
		s.LogEntries[pos] = *LogEntry(c)
		next := nd.U64("position")
		nd.Assume(next > pos)
		pos = next
	}
	return s
}

func LabelOwnerState(c *structs.PublicConfig) *structs.LabelOwnerState {
	// versions are 32-bit numbers, or -1 where there is none
	return &structs.LabelOwnerState{
		Starting: nd.U64("starting"), VerAtStarting: int(nd.U32("version at starting")) - 1,
		UpcomingVers: List("upcoming", func() uint64 { return nd.U64("upcoming") }),
	}
}

func Retained(c *structs.PublicConfig) structs.RetainedVersion {
	return structs.RetainedVersion{Version: nd.U32("version"), VrfOutput: hash(c, "vrf output"), Commitment: optHash(c)}
}

func ClientLabelState(c *structs.PublicConfig) *structs.ClientLabelState {
	s := &structs.ClientLabelState{Contact: List("contact", MapEntry), Versions: List("retained", func() structs.RetainedVersion { return Retained(c) })}
	if nd.Choose("owner", 2) == 1 {
		s.Owner = LabelOwnerState(c)
	}
	return s
}

// Marshal is structs.Marshal, requiring success.
func Marshal(x structs.Marshaller) []byte {
	raw, err := structs.Marshal(x)
	nd.Assert(err == nil, "a valid structure is encoded")
	return raw
}
