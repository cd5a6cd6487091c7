// Package c06 checks that mutation proofs let a verifier follow the tree.
package c06

import (
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/zzverif/forge"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

func entry(e kt.Entry) prefix.Entry { return prefix.Entry{VrfOutput: e.Vrf, Commitment: e.Com} }

func entries(es []kt.Entry) []prefix.Entry {
	var out []prefix.Entry
	for _, e := range es {
		out = append(out, entry(e))
	}
	return out
}

// depth of e in the tree of set.
func depth(set []kt.Entry, e kt.Entry, bits int) int {
	d := 0
	for _, f := range set {
		if nd.EqBytes(e.Vrf, f.Vrf) {
			continue
		}
		i := 0
		for i < bits && kt.Bit(e.Vrf, i) == kt.Bit(f.Vrf, i) {
			i++
		}
		if i+1 > d {
			d = i + 1
		}
	}
	return d
}

// hiddenSibling: removing entries moves a leaf up that is not part of the
// proof, so the verifier cannot know that it is a leaf.
func hiddenSibling(set, next, add []kt.Entry, bits int) bool {
	for _, e := range set {
		i := kt.FindEntry(next, e.Vrf)
		if i < 0 || kt.FindEntry(add, e.Vrf) >= 0 {
			continue
		}
		d := depth(set, e, bits)
		if depth(next, e, bits) >= d {
			continue
		}
		shown := false
		for _, a := range add {
			same := true
			for j := 0; j < d; j++ {
				if kt.Bit(a.Vrf, j) != kt.Bit(e.Vrf, j) {
					same = false
				}
			}
			if same {
				shown = true
			}
		}
		if !shown {
			return true
		}
	}
	return false
}

// change picks removals from set and arbitrary additions.
func change(s kt.Suite, set []kt.Entry, bits int) (add, remove, next []kt.Entry) {
	next = append(next, set...)
	for i, n := 0, nd.Choose("removals", min(len(set), nd.Param("removals"))+1); i < n; i++ {
		j := nd.Choose("which", len(next))
		remove = append(remove, next[j])
		next = append(next[:j:j], next[j+1:]...)
		nd.Cover("remove")
	}
	for i, n := 0, nd.Choose("additions", nd.Param("additions")+1); i < n; i++ {
		e := kt.Entry{Vrf: kt.SymVrf("add", s, bits), Com: kt.Fill(byte(0xa0+i), s.H)}
		nd.Assume(kt.FindEntry(next, e.Vrf) < 0)
		if kt.FindEntry(remove, e.Vrf) >= 0 {
			nd.Cover("replace")
		}
		add = append(add, e)
		next = append(next, e)
		nd.Cover("add")
	}
	return
}

const known = "hidden-sibling"

// Complete: the proof the tree produces evaluates to both roots.
func Complete() {
	s := kt.New(nd.Param("hash"))
	bits := nd.Param("bits")
	set := kt.SymSet(s, nd.Choose("set", nd.Param("set")+1), bits)
	if len(set) < nd.Param("removals") {
		nd.Assume(len(set) > 0 || nd.Param("removals") == 0)
	}
	add, remove, next := change(s, set, bits)
	t := prefix.NewTree(s, memory.NewPrefixStore())
	ver := uint64(0)
	before := kt.PrefixRoot(s, nil, 0)
	if len(set) > 0 {
		_, _, _, err := t.Mutate(0, entries(set), nil)
		nd.Assert(err == nil, "adding new entries succeeds")
		ver, before = 1, kt.PrefixRoot(s, set, 0)
	}
	var rem [][]byte
	for _, e := range remove {
		rem = append(rem, e.Vrf)
	}
	root, proof, coms, err := t.Mutate(ver, entries(add), rem)
	nd.Assert(err == nil, "the mutation succeeds")
	var removed []prefix.Entry
	for i, e := range remove {
		removed = append(removed, prefix.Entry{VrfOutput: e.Vrf, Commitment: coms[i]})
	}
	b, a, err := prefix.EvaluateBeforeAfter(s, entries(add), removed, proof)
	nd.Assert(err == nil, "the mutation proof evaluates")
	nd.Assert(nd.EqBytes(b, before), "the mutation proof evaluates to the root before")
	nd.Assert(nd.EqBytes(root, kt.PrefixRoot(s, next, 0)), "the root is that of the contents")
	nd.AssertKnown(nd.EqBytes(a, root), "the mutation proof evaluates to the root after", known, hiddenSibling(set, next, add, bits))
	nd.Cover("evaluated")
}

// Sound: whatever the proof, if it evaluates to the root before it evaluates
// to the root after.
func Sound() {
	s := kt.New(nd.Param("hash"))
	bits := nd.Param("bits")
	set := kt.SymSet(s, nd.Param("set"), bits)
	before := kt.PrefixRoot(s, set, 0)
	next := append([]kt.Entry(nil), set...)
	var add, remove []kt.Entry
	for i, n := 0, nd.Choose("removals", nd.Param("removals")+1); i < n; i++ {
		e := kt.Entry{Vrf: kt.SymVrf("rem", s, bits), Com: nd.Bytes("remcom", s.H)}
		nd.Assume(kt.FindEntry(remove, e.Vrf) < 0)
		remove = append(remove, e)
	}
	for i, n := 0, nd.Choose("additions", nd.Param("additions")+1); i < n; i++ {
		e := kt.Entry{Vrf: kt.SymVrf("add", s, bits), Com: kt.Fill(byte(0xa0+i), s.H)}
		nd.Assume(kt.FindEntry(add, e.Vrf) < 0)
		add = append(add, e)
	}
	proof, kinds := forge.Proof(s, len(add)+len(remove), nd.Param("depth"), nd.Param("elems"), bits)
	// what the auditor insists on before evaluating
	for i, e := range add {
		if kinds[i] == 1 && kt.FindEntry(remove, e.Vrf) < 0 {
			nd.Skip()
		}
	}
	for i := range remove {
		if kinds[len(add)+i] != 1 {
			nd.Skip()
		}
	}
	b, a, err := prefix.EvaluateBeforeAfter(s, entries(add), entries(remove), proof)
	if err != nil {
		nd.Cover("malformed")
		return
	}
	if !nd.EqBytes(b, before) {
		nd.Cover("wrong root")
		return
	}
	nd.Cover("accepted")
	for _, e := range remove {
		j := kt.FindEntry(next, e.Vrf)
		nd.Assert(j >= 0 && nd.EqBytes(next[j].Com, e.Com), "only present entries can be removed")
		next = append(next[:j:j], next[j+1:]...)
	}
	for _, e := range add {
		nd.Assert(kt.FindEntry(next, e.Vrf) < 0, "only absent entries can be added")
		next = append(next, e)
	}
	nd.AssertKnown(nd.EqBytes(a, kt.PrefixRoot(s, next, 0)), "the proof evaluates to the root of the mutated contents", known, hiddenSibling(set, next, add, bits))
}
