package c13

import (
	"slices"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/forge"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
)

// edit changes a response. Those with `all` replace content by arbitrary
// content, without changing the shape of the response.
type edit struct {
	name string
	all  bool
	do   func()
}

type edits []edit

func (e *edits) add(name string, all bool, do func()) { *e = append(*e, edit{name, all, do}) }

// list adds the removal, repetition and exchange of elements.
func list[T any](e *edits, name string, l *[]T, fresh func() T) {
	e.add(name+" +", false, func() { *l = slices.Insert(*l, nd.Choose("where", len(*l)+1), fresh()) })
	if len(*l) > 0 {
		e.add(name+" -", false, func() {
			i := nd.Choose("which", len(*l))
			*l = slices.Delete(slices.Clone(*l), i, i+1)
		})
	}
	if len(*l) > 1 {
		e.add(name+" swap", false, func() {
			i := nd.Choose("which", len(*l)-1)
			(*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i]
		})
	}
}

func hash(w *world.World) []byte { return nd.Bytes("hash", w.Suite.H) }

func size(w *world.World, p *uint64) {
	sizes := []uint64{0, 1, w.N() - 1, w.N(), w.N() + 1, 2*w.N() + 1, 1 << 63, 1<<64 - 1}
	*p = sizes[nd.Choose("size", len(sizes))]
}

func headEdits(w *world.World, e *edits, h *structs.FullTreeHead) {
	if h.TreeHead != nil {
		if h.AuditorTreeHead == nil {
			e.add("auditor head", false, func() {
				h.AuditorTreeHead = &structs.AuditorTreeHead{Timestamp: nd.U64("auditor timestamp"), Signature: nd.Bytes("signature", 2)}
				size(w, &h.AuditorTreeHead.TreeSize)
			})
		}
		e.add("no tree head", false, func() { *h = structs.FullTreeHead{} })
		head := *h.TreeHead
		h.TreeHead = &head
		e.add("tree size", false, func() { size(w, &head.TreeSize) })
		e.add("signature", true, func() { head.Signature = nd.Bytes("signature", 2) })
		e.add("signature length", false, func() { head.Signature = nd.Bytes("signature", nd.Choose("length", 4)) })
	} else {
		e.add("tree head", false, func() {
			h.TreeHead = &structs.TreeHead{TreeSize: w.N(), Signature: nd.Bytes("signature", 2)}
			size(w, &h.TreeHead.TreeSize)
			if w.Config.Mode == structs.ThirdPartyAuditing {
				h.AuditorTreeHead = &structs.AuditorTreeHead{Timestamp: nd.U64("auditor timestamp"), Signature: nd.Bytes("signature", 2)}
				size(w, &h.AuditorTreeHead.TreeSize)
			}
		})
		e.add("old tree head", false, func() {
			h.TreeHead = w.Tree.TreeHead()
			h.AuditorTreeHead = w.AuditorHead()
		})
	}
	if h.AuditorTreeHead != nil {
		head := *h.AuditorTreeHead
		h.AuditorTreeHead = &head
		e.add("no auditor head", false, func() { h.AuditorTreeHead = nil })
		e.add("auditor size", false, func() { size(w, &head.TreeSize) })
		e.add("auditor timestamp", true, func() { head.Timestamp = nd.U64("auditor timestamp") })
		e.add("auditor signature", true, func() { head.Signature = nd.Bytes("auditor signature", 2) })
	}
}

func proofEdits(w *world.World, e *edits, p *structs.CombinedTreeProof) {
	for i := range p.Timestamps {
		e.add("timestamp", true, func() { p.Timestamps[i] = nd.U64("forged timestamp") })
	}
	list(e, "timestamps", &p.Timestamps, func() uint64 { return nd.U64("forged timestamp") })
	for i := range p.PrefixProofs {
		pp := p.PrefixProofs[i]
		e.add("prefix proof", true, func() {
			if nd.Param("like") == 1 {
				p.PrefixProofs[i] = *forge.Like(w.Suite, &pp)
				return
			}
			p.PrefixProofs[i] = *forge.Any(w.Suite, len(pp.Results), nd.Param("depth"), len(pp.Elements))
		})
		e.add("prefix proof results", false, func() {
			q := prefix.PrefixProof{Results: slices.Clone(pp.Results), Elements: pp.Elements}
			if nd.Choose("fewer", 2) == 0 && len(q.Results) > 0 {
				q.Results = q.Results[:len(q.Results)-1]
			} else {
				q.Results = append(q.Results, forge.Any(w.Suite, 1, nd.Param("depth"), 0).Results...)
			}
			p.PrefixProofs[i] = q
		})
		e.add("prefix proof elements", false, func() {
			q := prefix.PrefixProof{Results: pp.Results, Elements: slices.Clone(pp.Elements)}
			if nd.Choose("fewer", 2) == 0 && len(q.Elements) > 0 {
				q.Elements = q.Elements[:len(q.Elements)-1]
			} else {
				q.Elements = append(q.Elements, hash(w))
			}
			p.PrefixProofs[i] = q
		})
	}
	list(e, "prefix proofs", &p.PrefixProofs, func() prefix.PrefixProof { return *forge.Any(w.Suite, 1, 0, 0) })
	for i := range p.PrefixRoots {
		e.add("prefix root", true, func() { p.PrefixRoots[i] = hash(w) })
	}
	list(e, "prefix roots", &p.PrefixRoots, func() []byte { return hash(w) })
	for i := range p.Inclusion.Elements {
		e.add("element", true, func() { p.Inclusion.Elements[i] = hash(w) })
	}
	list(e, "elements", &p.Inclusion.Elements, func() []byte { return hash(w) })
}

func ladderEdits(w *world.World, e *edits, l *[]structs.BinaryLadderStep) {
	for i := range *l {
		e.add("vrf proof", true, func() { (*l)[i].Proof = nd.Bytes("vrf proof", w.Suite.Prf) })
		if (*l)[i].Commitment != nil {
			e.add("commitment", true, func() { (*l)[i].Commitment = hash(w) })
			e.add("no commitment", false, func() { (*l)[i].Commitment = nil })
		} else {
			e.add("a commitment", false, func() { (*l)[i].Commitment = hash(w) })
		}
	}
	list(e, "ladder", l, func() structs.BinaryLadderStep {
		return structs.BinaryLadderStep{Proof: nd.Bytes("vrf proof", w.Suite.Prf), Commitment: hash(w)}
	})
}

func suffixEdits(w *world.World, e *edits, s *structs.UpdateSuffix) {
	if w.Config.Mode == structs.ThirdPartyManagement {
		e.add("leaf signature", true, func() { s.Signature = nd.Bytes("leaf signature", 2) })
	}
}

func searchEdits(w *world.World, r *structs.SearchResponse) []edit {
	e := &edits{}
	headEdits(w, e, &r.FullTreeHead)
	if r.Version != nil {
		e.add("version", false, func() {
			v := uint32(nd.Choose("version", nd.Param("vers")))
			if v == uint32(nd.Param("vers"))-1 {
				v = 1<<32 - 1
			}
			r.Version = &v
		})
	}
	e.add("opening", true, func() { r.Opening = nd.Bytes("opening", w.Suite.Open) })
	e.add("value", true, func() { r.Value.Value = nd.Bytes("value", len(r.Value.Value)) })
	e.add("value length", false, func() { r.Value.Value = nd.Bytes("value", nd.Choose("length", 3)) })
	suffixEdits(w, e, &r.Value.UpdateSuffix)
	ladderEdits(w, e, &r.BinaryLadder)
	proofEdits(w, e, &r.Search)
	return *e
}

func monitorEdits(w *world.World, h *structs.FullTreeHead, p *structs.CombinedTreeProof) []edit {
	e := &edits{}
	headEdits(w, e, h)
	proofEdits(w, e, p)
	return *e
}

func initEdits(w *world.World, r *structs.OwnerInitResponse) []edit {
	e := &edits{}
	headEdits(w, e, &r.FullTreeHead)
	ladderEdits(w, e, &r.BinaryLadder)
	proofEdits(w, e, &r.Init)
	for i := range r.GreatestVersions {
		e.add("version", false, func() { r.GreatestVersions[i] = uint32(nd.Choose("version", nd.Param("vers"))) })
	}
	list(e, "versions", &r.GreatestVersions, func() uint32 { return uint32(nd.Choose("version", nd.Param("vers"))) })
	return *e
}

func updateEdits(w *world.World, r *structs.UpdateResponse) []edit {
	e := &edits{}
	headEdits(w, e, &r.FullTreeHead)
	e.add("position", false, func() { size(w, &r.Position) })
	for i := range r.Values {
		e.add("value", true, func() { r.Values[i].Value = nd.Bytes("value", len(r.Values[i].Value)) })
	}
	list(e, "values", &r.Values, func() structs.LabelValue { return structs.LabelValue{Value: nd.Bytes("value", 1)} })
	for i := range r.Info {
		e.add("opening", true, func() { r.Info[i].Opening = nd.Bytes("opening", w.Suite.Open) })
		suffixEdits(w, e, &r.Info[i].UpdateSuffix)
	}
	list(e, "infos", &r.Info, func() structs.UpdateInfo {
		return structs.UpdateInfo{Opening: nd.Bytes("opening", w.Suite.Open)}
	})
	e.add("values and infos +", false, func() {
		r.Values = append(slices.Clone(r.Values), structs.LabelValue{Value: nd.Bytes("value", 1)})
		r.Info = append(slices.Clone(r.Info), structs.UpdateInfo{Opening: nd.Bytes("opening", w.Suite.Open)})
	})
	ladderEdits(w, e, &r.BinaryLadder)
	proofEdits(w, e, &r.Update)
	return *e
}
