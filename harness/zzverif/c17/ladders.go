package c17

import (
	"slices"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/forge"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// ladder is the versions that are looked up to find out whether t is the
// greatest one: 0, 1, 3, 7, ... beyond t, then those of a binary search.
func ladder(t uint32) []uint32 {
	var out []uint32
	lo, hi := uint32(0), uint32(0)
	for {
		out = append(out, hi)
		if hi > t {
			break
		}
		lo, hi = hi, 2*hi+1
	}
	for hi-lo > 1 {
		mid := lo + (hi-lo)/2
		out = append(out, mid)
		if mid <= t {
			lo = mid
		} else {
			hi = mid
		}
	}
	return out
}

// Ladders: an entry of the log in which the label has any versions, also ones
// that leave gaps, and a proof about any of them. What the client concludes
// from it is true, if the proof is one for the entry's prefix tree.
func Ladders() {
	s := kt.New(2)
	ver := uint32(nd.Choose("version", nd.Param("versions")))
	kind := nd.Choose("kind", 3)
	look := ladder(ver)
	if kind != 0 {
		look = slices.DeleteFunc(slices.Clone(look), func(v uint32) bool { return v > ver })
	}
	if kind == 2 { // any of the versions
		look = slices.DeleteFunc(look, func(v uint32) bool { return nd.Choose("skip", 2) == 1 })
	}

	// the prefix tree
	in := map[uint32]bool{}
	var set []kt.Entry
	var entries []prefix.Entry
	for i, v := range look {
		in[v] = nd.Choose("present", 2) == 1
		if in[v] {
			set = append(set, kt.Entry{Vrf: position(s, v), Com: kt.Fill(byte(0x10+i), s.H)})
		}
	}
	if nd.Choose("other", 2) == 1 {
		set = append(set, kt.Entry{Vrf: []byte{0x81, 0}, Com: kt.Fill(0x99, s.H)})
	}
	for _, x := range set {
		entries = append(entries, prefix.Entry{VrfOutput: x.Vrf, Commitment: x.Com})
	}
	t := prefix.NewTree(s, memory.NewPrefixStore())
	root, _, _, err := t.Mutate(0, entries, nil)
	nd.Assert(err == nil && nd.EqBytes(root, kt.PrefixRoot(s, set, 0)), "the prefix tree is made")

	// the proof shows some of what is looked up, and possibly more
	k := nd.Choose("shown", len(look)+2)
	var show [][]byte
	for _, v := range look[:min(k, len(look))] {
		show = append(show, position(s, v))
	}
	if k > len(look) {
		show = append(show, []byte{0x42, 0})
	}
	proof := &prefix.PrefixProof{}
	if len(show) > 0 {
		res, err := t.Search([]prefix.PrefixSearch{{Version: 1, VrfOutputs: show}})
		nd.Assert(err == nil && len(res) == 1, "the prefix tree is searched")
		proof = &res[0].Proof
	}
	honest := true
	if len(show) > 0 && nd.Choose("forged", nd.Param("forged")) == 1 {
		proof, honest = forge.Like(s, proof), false
	}

	// the truth
	want, steps := 0, len(look)
	for i, v := range look {
		if in[v] && v > ver {
			want, steps = 1, i+1
			break
		} else if !in[v] && v <= ver {
			want, steps = -1, i+1
			break
		}
	}

	// what the client was told about the versions
	h := algorithms.NewReceivedProofHandle(s, structs.CombinedTreeProof{PrefixProofs: []prefix.PrefixProof{*proof}})
	true_, known := true, true
	coms := map[uint32][]byte{}
	for i, v := range look {
		if nd.Choose("told", 2) == 0 {
			if in[v] && i < steps {
				known = false
			}
			nd.Assert(h.AddVersion(v, position(s, v), nil) == nil, "versions are added")
			continue
		}
		coms[v] = nd.Bytes("commitment", s.H)
		true_ = nd.And(true_, nd.Or(!in[v] || i >= steps, nd.EqBytes(coms[v], kt.Fill(byte(0x10+i), s.H))))
		nd.Assert(h.AddVersion(v, position(s, v), coms[v]) == nil, "versions are added")
	}

	var got []byte
	var out int
	switch kind {
	case 0:
		got, out, err = h.GetSearchBinaryLadder(0, ver, false)
	case 1:
		got, err = h.GetMonitoringBinaryLadder(0, ver)
	case 2:
		got, err = h.GetInclusionProof(0, look)
	}

	if err != nil {
		ok := honest && known && k == steps && (kind == 0 || want == 0) && k > 0
		nd.Assert(nd.Not(nd.And(ok, true_)), "a true proof is accepted")
		nd.Cover("refused")
		return
	}
	if honest && known && k == steps && k > 0 {
		nd.Assert(nd.Or(nd.Not(true_), nd.EqBytes(got, root)), "a true proof has the root of the prefix tree")
	}
	nd.Assume(nd.EqBytes(got, root))
	if k > 0 {
		nd.Cover("accepted")
	}
	if kind != 0 {
		nd.Assert(want == 0, "every version that should be there is")
	} else {
		nd.Assert(out == want, "the search goes where the greatest version is")
	}
	for i, v := range look[:steps] {
		if in[v] {
			nd.Assert(nd.EqBytes(coms[v], kt.Fill(byte(0x10+i), s.H)), "the versions are those that the client was told about")
		}
	}
	leftover, err := h.Finish()
	nd.Assert(err == nil && len(leftover) == 0, "the proof is used once")
}

// position is where a version is in the prefix tree.
func position(s kt.Suite, v uint32) []byte {
	return []byte{[]byte{0x60, 0xc0, 0x10, 0xa0, 0xe0, 0x20, 0x30, 0x50, 0xd0, 0x90, 0xb0, 0x70, 0xf0, 0x04, 0x08, 0x0c}[v], 0}
}
