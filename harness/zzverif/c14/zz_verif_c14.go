// Package c14 checks that structures survive encoding and decoding.
package c14

import (
	"bytes"
	"math/bits"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/gen"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// roundtrip encodes x in front of more bytes and decodes it, whole or cut short.
func roundtrip[T any](x structs.Marshaller, y *T, dec func(*bytes.Buffer) (*T, error), eq func(a, b *T) bool) {
	raw := gen.Marshal(x)
	if nd.Param("cut") == 1 && nd.Choose("cut", 2) == 1 {
		raw = raw[:nd.Choose("length", len(raw))]
		_, err := dec(bytes.NewBuffer(raw))
		nd.Assert(err != nil, "a truncated encoding is rejected")
		nd.Cover("truncated")
		return
	}
	buf := bytes.NewBuffer(append(append([]byte(nil), raw...), nd.Bytes("rest", 2)...))
	z, err := dec(buf)
	nd.Assert(err == nil, "a structure is decoded from its encoding")
	nd.Assert(buf.Len() == 2, "decoding consumes exactly the encoding")
	nd.Assert(eq(y, z), "the decoded structure is the one that was encoded")
	nd.Cover("same")
}

func with[T any](c *structs.PublicConfig, f func(*structs.PublicConfig, *bytes.Buffer) (*T, error)) func(*bytes.Buffer) (*T, error) {
	return func(b *bytes.Buffer) (*T, error) { return f(c, b) }
}

func one(c *structs.PublicConfig, k int) {
	cs := c.Suite
	switch k {
	case 0:
		x := gen.TreeHead(c)
		roundtrip(x, x, structs.NewTreeHead, gen.EqTreeHead)
	case 1:
		x := gen.AuditorTreeHead(c)
		roundtrip(x, x, structs.NewAuditorTreeHead, gen.EqAuditorTreeHead)
	case 2:
		x := gen.FullTreeHead(c)
		roundtrip(x, x, with(c, structs.NewFullTreeHead), gen.EqFullTreeHead)
	case 3:
		x := gen.UpdateValue(c)
		roundtrip(x, x, with(c, structs.NewUpdateValue), gen.EqUpdateValue)
	case 4:
		x := gen.LogEntry(c)
		roundtrip(x, x, func(b *bytes.Buffer) (*structs.LogEntry, error) { return structs.NewLogEntry(cs, b) }, gen.EqLogEntry)
	case 5:
		x := gen.LabelValue(c)
		roundtrip(x, x, structs.NewLabelValue, gen.EqLabelValue)
	case 6:
		x := gen.Step(c)
		roundtrip(x, x, func(b *bytes.Buffer) (*structs.BinaryLadderStep, error) { return structs.NewBinaryLadderStep(cs, b) }, gen.EqStep)
	case 7:
		x := gen.OpeningAndValue(c)
		roundtrip(x, x, with(c, structs.NewOpeningAndValue), gen.EqOpeningAndValue)
	case 8:
		x := gen.UpdateInfo(c)
		roundtrip(x, x, with(c, structs.NewUpdateInfo), gen.EqUpdateInfo)
	case 9:
		x := gen.PrefixProof(c)
		roundtrip(x, x, func(b *bytes.Buffer) (*prefix.PrefixProof, error) { return prefix.NewPrefixProof(cs, b) },
			func(a, b *prefix.PrefixProof) bool { return gen.EqPrefixProof(*a, *b) })
	case 10:
		x := gen.Combined(c)
		roundtrip(x, x, func(b *bytes.Buffer) (*structs.CombinedTreeProof, error) { return structs.NewCombinedTreeProof(cs, b) }, gen.EqCombined)
	case 11:
		x := gen.AuditorUpdate(c)
		roundtrip(x, x, func(b *bytes.Buffer) (*structs.AuditorUpdate, error) { return structs.NewAuditorUpdate(cs, b) }, gen.EqAuditorUpdate)
	case 12:
		x := gen.SearchRequest(c)
		roundtrip(x, x, structs.NewSearchRequest, gen.EqSearchRequest)
	case 13:
		req := &structs.SearchRequest{}
		if v := nd.U32("version"); nd.Choose("fixed version", 2) == 1 {
			req.Version = &v
		}
		x := gen.SearchResponse(c, req)
		roundtrip(x, x, func(b *bytes.Buffer) (*structs.SearchResponse, error) { return structs.NewSearchResponse(c, req, b) }, gen.EqSearchResponse)
	case 14:
		x := gen.ContactMonitorRequest(c)
		roundtrip(x, x, structs.NewContactMonitorRequest, gen.EqContactMonitorRequest)
	case 15:
		x := gen.ContactMonitorResponse(c)
		roundtrip(x, x, with(c, structs.NewContactMonitorResponse), gen.EqContactMonitorResponse)
	case 16:
		x := gen.OwnerInitRequest(c)
		roundtrip(x, x, structs.NewOwnerInitRequest, gen.EqOwnerInitRequest)
	case 17:
		x := gen.OwnerInitResponse(c)
		roundtrip(x, x, with(c, structs.NewOwnerInitResponse), gen.EqOwnerInitResponse)
	case 18:
		x := gen.OwnerMonitorRequest(c)
		roundtrip(x, x, structs.NewOwnerMonitorRequest, gen.EqOwnerMonitorRequest)
	case 19:
		x := gen.OwnerMonitorResponse(c)
		roundtrip(x, x, with(c, structs.NewOwnerMonitorResponse), gen.EqOwnerMonitorResponse)
	case 20:
		x := gen.UpdateRequest(c)
		roundtrip(x, x, structs.NewUpdateRequest, gen.EqUpdateRequest)
	case 21:
		x := gen.ManagerUpdateRequest(c)
		roundtrip(x, x, with(c, structs.NewManagerUpdateRequest), gen.EqManagerUpdateRequest)
	case 22:
		x := gen.UpdateResponse(c)
		roundtrip(x, x, with(c, structs.NewUpdateResponse), gen.EqUpdateResponse)
	case 23:
		x := gen.ClientState(c)
		roundtrip(x, x, with(c, structs.NewClientState), gen.EqClientState)
	case 24:
		x := gen.LabelOwnerState(c)
		roundtrip(x, x, structs.NewLabelOwnerState, gen.EqLabelOwnerState)
	case 25:
		x := gen.Retained(c)
		roundtrip(&x, &x, func(b *bytes.Buffer) (*structs.RetainedVersion, error) { return structs.NewRetainedVersion(cs, b) },
			func(a, b *structs.RetainedVersion) bool { return gen.EqRetained(*a, *b) })
	case 26:
		x := gen.ClientLabelState(c)
		roundtrip(x, x, func(b *bytes.Buffer) (*structs.ClientLabelState, error) { return structs.NewClientLabelState(cs, b) }, gen.EqClientLabelState)
	case 27:
		x := AuditorState(c)
		roundtrip(state{x}, x, func(b *bytes.Buffer) (*auditor.AuditorState, error) { return auditor.NewAuditorState(cs, b) }, eqAuditorState)
	}
}

// Structures: every structure in every mode.
func Structures() { one(gen.Config(kt.New(nd.Param("hash"))), nd.Choose("structure", 28)) }

// One is a single structure with larger bounds.
func One() { one(gen.Config(kt.New(nd.Param("hash"))), nd.Param("structure")) }

type state struct{ *auditor.AuditorState }

func (s state) Marshal(buf *bytes.Buffer) error {
	raw, err := s.AuditorState.Marshal()
	buf.Write(raw)
	return err
}

// AuditorState is an arbitrary state of an auditor of a log of up to 2^64-1
// entries.
func AuditorState(c *structs.PublicConfig) *auditor.AuditorState {
	size := []uint64{1, 2, 3, 6, 7, 1 << 40, 1<<63 + 1, 1<<64 - 1}[nd.Choose("size", 8)]
	s := &auditor.AuditorState{
		TreeHead:   structs.AuditorTreeHead{Timestamp: nd.U64("timestamp"), TreeSize: size, Signature: gen.Any("signature", nd.Param("bytes"))},
		PrefixTree: nd.Bytes("prefix root", c.Suite.HashSize()),
		Inserted: gen.List("inserted", func() auditor.InsertedVrfOutput {
			return auditor.InsertedVrfOutput{Pos: nd.U64("position"), VrfOutput: nd.Bytes("vrf output", c.Suite.HashSize())}
		}),
	}
	for i := bits.OnesCount64(size); i > 0; i-- {
		s.FullSubtrees = append(s.FullSubtrees, nd.Bytes("subtree", c.Suite.HashSize()))
	}
	for range math.Frontier(size) {
		s.Timestamps = append(s.Timestamps, nd.U64("timestamp"))
	}
	return s
}

func eqAuditorState(a, b *auditor.AuditorState) bool {
	return nd.And(gen.EqAuditorTreeHead(&a.TreeHead, &b.TreeHead), nd.And(gen.EqHashes(a.FullSubtrees, b.FullSubtrees), nd.And(
		gen.Lists(a.Timestamps, b.Timestamps, func(a, b uint64) bool { return a == b }), nd.And(gen.Bytes(a.PrefixTree, b.PrefixTree),
			gen.Lists(a.Inserted, b.Inserted, func(a, b auditor.InsertedVrfOutput) bool {
				return nd.And(a.Pos == b.Pos, gen.Bytes(a.VrfOutput, b.VrfOutput))
			})))))
}

// Limits: a list or byte string around the limit of its length prefix is
// encoded so that it is decoded again, or it is not encoded at all.
func Limits() {
	s := kt.New(1)
	s.Prf = 1
	c := &structs.PublicConfig{Config: structs.Config{Suite: s, Mode: structs.ThirdPartyManagement}}
	k := nd.Choose("structure", 12)
	wide := k == 2 || k == 5 || k == 7 || k == 8 || k == 9
	n := []int{0, 254, 255, 256, 257, 300}[nd.Choose("short", 6)]
	if wide {
		n = []int{255, 256, 257, 65535, 65536, 65537}[nd.Choose("long", 6)]
	}
	list := func() [][]byte {
		out := make([][]byte, n)
		for i := range out {
			out[i] = []byte{byte(i)}
		}
		return out
	}
	entries := make([]structs.MonitorMapEntry, 0)
	steps := make([]structs.BinaryLadderStep, 0)
	values := make([]structs.LabelValue, 0)
	proof := structs.CombinedTreeProof{}
	if !wide {
		entries = make([]structs.MonitorMapEntry, n)
		values = make([]structs.LabelValue, n)
	}
	steps = make([]structs.BinaryLadderStep, n)
	for i := range steps {
		steps[i] = structs.BinaryLadderStep{Proof: []byte{byte(i)}}
	}
	limit := func(x structs.Marshaller, dec func(*bytes.Buffer) (int, error)) {
		raw, err := structs.Marshal(x)
		if err != nil {
			nd.Cover("too long")
			return
		}
		buf := bytes.NewBuffer(raw)
		m, err := dec(buf)
		nd.Assert(err == nil && m == n && buf.Len() == 0, "what is encoded is decoded, whatever its length")
		nd.Cover("same")
	}
	switch k {
	case 0:
		limit(&structs.SearchRequest{Label: make([]byte, n)}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewSearchRequest(b)
			if err != nil {
				return 0, err
			}
			return len(x.Label), nil
		})
	case 1:
		limit(&structs.ContactMonitorRequest{Entries: entries}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewContactMonitorRequest(b)
			if err != nil {
				return 0, err
			}
			return len(x.Entries), nil
		})
	case 2:
		limit(&structs.TreeHead{Signature: make([]byte, n)}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewTreeHead(b)
			if err != nil {
				return 0, err
			}
			return len(x.Signature), nil
		})
	case 3:
		limit(&structs.UpdateRequest{Values: values}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewUpdateRequest(b)
			if err != nil {
				return 0, err
			}
			return len(x.Values), nil
		})
	case 4:
		v := uint32(0)
		req := &structs.SearchRequest{Version: &v}
		limit(&structs.SearchResponse{Opening: make([]byte, s.Open), Value: structs.UpdateValue{UpdateSuffix: structs.UpdateSuffix{Signature: []byte{}}}, BinaryLadder: steps, Search: proof}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewSearchResponse(c, req, b)
			if err != nil {
				return 0, err
			}
			return len(x.BinaryLadder), nil
		})
	case 5:
		limit(&structs.UpdateValue{Value: make([]byte, n), UpdateSuffix: structs.UpdateSuffix{Signature: []byte{}}}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewUpdateValue(c, b)
			if err != nil {
				return 0, err
			}
			return len(x.Value), nil
		})
	case 6:
		limit(&structs.CombinedTreeProof{PrefixRoots: list()}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewCombinedTreeProof(s, b)
			if err != nil {
				return 0, err
			}
			return len(x.PrefixRoots), nil
		})
	case 7:
		limit(&structs.InclusionProof{Elements: list()}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewInclusionProof(s, b)
			if err != nil {
				return 0, err
			}
			return len(x.Elements), nil
		})
	case 8:
		limit(&structs.OwnerInitResponse{BinaryLadder: steps, Init: proof}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewOwnerInitResponse(c, b)
			if err != nil {
				return 0, err
			}
			return len(x.BinaryLadder), nil
		})
	case 9:
		limit(&prefix.PrefixProof{Elements: list()}, func(b *bytes.Buffer) (int, error) {
			x, err := prefix.NewPrefixProof(s, b)
			if err != nil {
				return 0, err
			}
			return len(x.Elements), nil
		})
	case 10:
		limit(&structs.CombinedTreeProof{Timestamps: make([]uint64, n)}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewCombinedTreeProof(s, b)
			if err != nil {
				return 0, err
			}
			return len(x.Timestamps), nil
		})
	case 11:
		limit(&structs.OwnerInitResponse{GreatestVersions: make([]uint32, n), Init: proof}, func(b *bytes.Buffer) (int, error) {
			x, err := structs.NewOwnerInitResponse(c, b)
			if err != nil {
				return 0, err
			}
			return len(x.GreatestVersions), nil
		})
	}
}
