// Package c15 checks that decoders survive arbitrary bytes.
package c15

import (
	"bytes"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/gen"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)


func try[T any, P interface {
	*T
	structs.Marshaller
}](raw []byte, dec func(*bytes.Buffer) (*T, error)) {
	buf := bytes.NewBuffer(append([]byte(nil), raw...))
	x, err := dec(buf)
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Assert(x != nil, "a decoder gives a value or an error")
	used := len(raw) - buf.Len()
	again, err := structs.Marshal(P(x))
	nd.Assert(err == nil, "what was decoded can be encoded")
	nd.Assert(nd.EqBytes(again, raw[:used]), "what was decoded encodes to the bytes consumed")
	nd.Cover("accepted")
}

func with[T any](c *structs.PublicConfig, f func(*structs.PublicConfig, *bytes.Buffer) (*T, error)) func(*bytes.Buffer) (*T, error) {
	return func(b *bytes.Buffer) (*T, error) { return f(c, b) }
}

func one(k, max int) {
	s := kt.New(1)
	s.Prf, s.Open = 1, 1
	nd.AllocLimit(1 << 18)
	c := &structs.PublicConfig{Config: structs.Config{Suite: s, Mode: structs.ContactMonitoring}}
	switch k {
	case 2, 3, 7, 8, 13, 15, 17, 19, 21, 22, 23:
		c.Mode = structs.DeploymentMode(1 + nd.Choose("mode", 3))
	}
	raw := nd.Bytes("raw", nd.Choose("length", max+1))
	switch k {
	case 0:
		try(raw, structs.NewTreeHead)
	case 1:
		try(raw, structs.NewAuditorTreeHead)
	case 2:
		try(raw, with(c, structs.NewFullTreeHead))
	case 3:
		try(raw, with(c, structs.NewUpdateValue))
	case 4:
		try(raw, func(b *bytes.Buffer) (*structs.LogEntry, error) { return structs.NewLogEntry(s, b) })
	case 5:
		try(raw, structs.NewLabelValue)
	case 6:
		try(raw, func(b *bytes.Buffer) (*structs.BinaryLadderStep, error) { return structs.NewBinaryLadderStep(s, b) })
	case 7:
		try(raw, with(c, structs.NewOpeningAndValue))
	case 8:
		try(raw, with(c, structs.NewUpdateInfo))
	case 9:
		try(raw, func(b *bytes.Buffer) (*prefix.PrefixProof, error) { return prefix.NewPrefixProof(s, b) })
	case 10:
		try(raw, func(b *bytes.Buffer) (*structs.CombinedTreeProof, error) { return structs.NewCombinedTreeProof(s, b) })
	case 11:
		try(raw, func(b *bytes.Buffer) (*structs.AuditorUpdate, error) { return structs.NewAuditorUpdate(s, b) })
	case 12:
		try(raw, structs.NewSearchRequest)
	case 13:
		req := &structs.SearchRequest{}
		if v := uint32(0); nd.Choose("fixed version", 2) == 1 {
			req.Version = &v
		}
		try(raw, func(b *bytes.Buffer) (*structs.SearchResponse, error) { return structs.NewSearchResponse(c, req, b) })
	case 14:
		try(raw, structs.NewContactMonitorRequest)
	case 15:
		try(raw, with(c, structs.NewContactMonitorResponse))
	case 16:
		try(raw, structs.NewOwnerInitRequest)
	case 17:
		try(raw, with(c, structs.NewOwnerInitResponse))
	case 18:
		try(raw, structs.NewOwnerMonitorRequest)
	case 19:
		try(raw, with(c, structs.NewOwnerMonitorResponse))
	case 20:
		try(raw, structs.NewUpdateRequest)
	case 21:
		try(raw, with(c, structs.NewManagerUpdateRequest))
	case 22:
		try(raw, with(c, structs.NewUpdateResponse))
	case 23:
		// the order of a client's log entries is not kept
		buf := bytes.NewBuffer(raw)
		x, err := structs.NewClientState(c, buf)
		if err != nil {
			nd.Cover("rejected")
			return
		}
		again, err := structs.Marshal(x)
		nd.Assert(err == nil && len(again) == len(raw)-buf.Len(), "what was decoded can be encoded")
		y, err := structs.NewClientState(c, bytes.NewBuffer(again))
		nd.Assert(err == nil && gen.EqClientState(x, y), "what was decoded encodes to something equal")
		nd.Cover("accepted")
	case 24:
		try(raw, structs.NewLabelOwnerState)
	case 25:
		try(raw, func(b *bytes.Buffer) (*structs.RetainedVersion, error) { return structs.NewRetainedVersion(s, b) })
	case 26:
		try(raw, func(b *bytes.Buffer) (*structs.ClientLabelState, error) { return structs.NewClientLabelState(s, b) })
	case 27:
		try(raw, structs.NewMonitorMapEntry)
	case 28:
		try(raw, func(b *bytes.Buffer) (*structs.IndexedLogEntry, error) { return structs.NewIndexedLogEntry(s, b) })
	case 29:
		try(raw, func(b *bytes.Buffer) (*structs.InclusionProof, error) { return structs.NewInclusionProof(s, b) })
	case 30:
		// an auditor's state starts with the size, which fixes what follows
		head := nd.Bytes("timestamp", 8)
		n := []uint64{0, 1, 2, 5, 1 << 20, 1 << 63}[nd.Choose("size", 6)]
		for i := 56; i >= 0; i -= 8 {
			head = append(head, byte(n>>i))
		}
		head = append(head, 0)
		raw = append(append(head, nd.U8("signature length"), nd.U8("root")), raw...)
		try(raw, func(b *bytes.Buffer) (*state, error) {
			x, err := auditor.NewAuditorState(s, b)
			return &state{x}, err
		})
	}
}

type state struct{ *auditor.AuditorState }

func (s *state) Marshal(buf *bytes.Buffer) error {
	raw, err := s.AuditorState.Marshal()
	buf.Write(raw)
	return err
}

var (
	light = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 16, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30}
	heavy = []int{9, 10, 15, 17, 19} // with proofs, where few bytes make many lists
)

// Garbage: any bytes as any structure.
func Garbage() { one(light[nd.Choose("structure", len(light))], nd.Param("max")) }

// Proofs: any bytes as any structure that is mostly proof.
func Proofs() { one(heavy[nd.Choose("structure", len(heavy))], nd.Param("max")) }
