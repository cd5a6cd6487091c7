// Package c04 checks the prefix tree against a set of (VRF output, commitment)
// pairs.
package c04

import (
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

func find(set []kt.Entry, vrf []byte) int {
	for i, e := range set {
		if nd.EqBytes(e.Vrf, vrf) {
			return i
		}
	}
	return -1
}

// History runs an arbitrary sequence of mutations. In step v every one of the
// key slots is either left alone, added (with a commitment of its own) or
// removed, and the tree must hold exactly what the model holds, in every
// version.
func History() {
	s := kt.New(nd.Param("hash"))
	bits, steps, per := nd.Param("bits"), nd.Param("steps"), nd.Param("per")
	tx := memory.NewPrefixStore()
	t := prefix.NewTree(s, tx)

	var set []kt.Entry
	var sets [][]kt.Entry
	var roots [][]byte
	ctr := byte(0)
	pre := nd.Param("prefill")
	for i := 0; i < pre; i++ {
		// a fixed population, spread over the tree
		v := make([]byte, s.H)
		v[0], v[1] = byte(i*37), byte(i*91+1)
		set = append(set, kt.Entry{Vrf: v, Com: kt.Fill(0xc0+byte(i), s.H)})
	}
	if pre > 0 {
		var es []prefix.Entry
		for _, e := range set {
			es = append(es, prefix.Entry{VrfOutput: e.Vrf, Commitment: e.Com})
		}
		root, _, _, err := t.Mutate(0, es, nil)
		nd.Assert(err == nil, "adding new entries succeeds")
		nd.Assert(nd.EqBytes(root, kt.PrefixRoot(s, set, 0)), "root is that of the contents")
		sets, roots = append(sets, append([]kt.Entry(nil), set...)), append(roots, root)
	}
	for v := 0; v < steps; v++ {
		var add []prefix.Entry
		var rem [][]byte
		var remCom [][]byte
		next := append([]kt.Entry(nil), set...)
		n := per
		if nd.Param("any") == 1 {
			n = nd.Choose("ops", per+1)
		}
		for k := 0; k < n; k++ {
			if len(set) > 0 && nd.Choose("op", 2) == 1 {
				// remove something present before this version
				i := nd.Choose("which", len(set))
				if j := find(next, set[i].Vrf); j >= 0 && nd.EqBytes(next[j].Com, set[i].Com) {
					rem = append(rem, set[i].Vrf)
					remCom = append(remCom, set[i].Com)
					next = append(next[:j:j], next[j+1:]...)
					nd.Cover("remove")
					continue
				}
				nd.Skip()
			}
			ctr++
			e := kt.Entry{Vrf: kt.SymVrf("vrf", s, bits), Com: kt.Fill(ctr, s.H)}
			nd.Assume(find(next, e.Vrf) < 0)
			add = append(add, prefix.Entry{VrfOutput: e.Vrf, Commitment: e.Com})
			next = append(next, e)
		}
		root, _, coms, err := t.Mutate(uint64(len(sets)), add, rem)
		nd.Assert(err == nil, "adding new entries and removing present ones succeeds")
		nd.Assert(len(coms) == len(remCom), "the commitments of the removed entries are returned")
		for i := range remCom {
			nd.Assert(nd.EqBytes(coms[i], remCom[i]), "the commitments of the removed entries are returned")
		}
		set = next
		nd.Assert(nd.EqBytes(root, kt.PrefixRoot(s, set, 0)), "root is that of the contents")
		sets, roots = append(sets, append([]kt.Entry(nil), set...)), append(roots, root)
	}

	// Search every version for an arbitrary key and for a present one.
	var searches []prefix.PrefixSearch
	q := kt.SymVrf("query", s, bits)
	for v := range sets {
		keys := [][]byte{q}
		for _, e := range sets[v] {
			if !nd.EqBytes(e.Vrf, q) && nd.Param("all") == 1 {
				keys = append(keys, e.Vrf)
			}
		}
		searches = append(searches, prefix.PrefixSearch{Version: uint64(v + 1), VrfOutputs: keys})
	}
	res, err := t.Search(searches)
	nd.Assert(err == nil, "searching existing versions succeeds")
	for v, r := range res {
		var entries []prefix.Entry
		for i, key := range searches[v].VrfOutputs {
			j := find(sets[v], key)
			nd.Assert(r.Proof.Results[i].Inclusion() == (j >= 0), "found exactly if present")
			e := prefix.Entry{VrfOutput: key}
			if j >= 0 {
				nd.Assert(nd.EqBytes(r.Commitments[i], sets[v][j].Com), "the commitment is the one inserted")
				e.Commitment = sets[v][j].Com
				nd.Cover("present")
			} else {
				nd.Assert(r.Commitments[i] == nil, "no commitment for an absent entry")
				nd.Cover("absent")
			}
			entries = append(entries, e)
		}
		nd.Assert(prefix.Verify(s, entries, &r.Proof, roots[v]) == nil, "the proof verifies to the root of that version")
	}
}

// Reject: adding something present or removing something absent is refused and
// the tree stays usable.
func Reject() {
	s := kt.New(nd.Param("hash"))
	bits := nd.Param("bits")
	t := prefix.NewTree(s, memory.NewPrefixStore())
	var set []kt.Entry
	var es []prefix.Entry
	for i := 0; i < nd.Param("per"); i++ {
		e := kt.Entry{Vrf: kt.SymVrf("vrf", s, bits), Com: kt.Fill(byte(i+1), s.H)}
		nd.Assume(find(set, e.Vrf) < 0)
		set = append(set, e)
		es = append(es, prefix.Entry{VrfOutput: e.Vrf, Commitment: e.Com})
	}
	_, _, _, err := t.Mutate(0, es, nil)
	nd.Assert(err == nil, "adding new entries succeeds")

	k1, k2 := kt.SymVrf("a", s, bits), kt.SymVrf("b", s, bits)
	p1, p2 := find(set, k1) >= 0, find(set, k2) >= 0
	same := nd.EqBytes(k1, k2)
	var add []prefix.Entry
	var rem [][]byte
	ok := true
	c := kt.Fill(0x77, s.H)
	switch nd.Choose("kind", 3) {
	case 0:
		add = []prefix.Entry{{VrfOutput: k1, Commitment: c}, {VrfOutput: k2, Commitment: c}}
		ok = !p1 && !p2 && !same
	case 1:
		rem = [][]byte{k1, k2}
		ok = p1 && p2 && !same
	case 2:
		add, rem = []prefix.Entry{{VrfOutput: k1, Commitment: c}}, [][]byte{k2}
		ok = p2 && (!p1 || same)
	}
	_, _, _, err = t.Mutate(1, add, rem)
	nd.Assert((err == nil) == ok, "a mutation is accepted exactly if it adds absent and removes present entries")
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
		res, err := t.Search([]prefix.PrefixSearch{{Version: 1, VrfOutputs: [][]byte{k1}}})
		nd.Assert(err == nil && res[0].Proof.Results[0].Inclusion() == p1, "a rejected mutation does not disturb the tree")
	}
}

// Order: the root does not depend on the order entries are passed or on how
// they are batched.
func Order() {
	s := kt.New(nd.Param("hash"))
	n := nd.Param("per")
	var set []kt.Entry
	var es []prefix.Entry
	for i := 0; i < n; i++ {
		e := kt.Entry{Vrf: kt.SymVrf("vrf", s, nd.Param("bits")), Com: nd.Bytes("com", s.H)}
		nd.Assume(find(set, e.Vrf) < 0)
		set = append(set, e)
		es = append(es, prefix.Entry{VrfOutput: e.Vrf, Commitment: e.Com})
	}
	want := kt.PrefixRoot(s, set, 0)
	t := prefix.NewTree(s, memory.NewPrefixStore())
	cut := nd.Choose("cut", n+1)
	var root []byte
	var err error
	ver := uint64(0)
	for _, part := range [][]prefix.Entry{es[:cut], es[cut:]} {
		if len(part) == 0 {
			continue
		}
		root, _, _, err = t.Mutate(ver, part, nil)
		nd.Assert(err == nil, "adding new entries succeeds")
		ver++
	}
	nd.Assert(nd.EqBytes(root, want), "the root depends on the contents alone")
	nd.Cover("done")
}
