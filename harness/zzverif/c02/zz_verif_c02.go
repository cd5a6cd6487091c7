// Package c02 checks log inclusion and consistency proofs.
package c02

import (
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

type setup struct {
	s       kt.Suite
	leaves  [][]byte
	n       int
	m, nP   *uint64
	entries []uint64
	t       *log.Tree
}

// pick chooses sizes and entries: any current size up to `max`, any earlier
// size or none, any additional size or none, and up to `k` entries.
func pick(build bool) *setup {
	x := &setup{s: kt.New(nd.Param("hash"))}
	min := nd.Param("min")
	x.n = min + nd.Choose("n", nd.Param("max")-min+1)
	for i := 0; i < x.n; i++ {
		x.leaves = append(x.leaves, nd.Bytes("leaf", x.s.H))
	}
	if build {
		tx := memory.NewLogStore()
		for i, l := range x.leaves {
			_, err := log.NewTree(x.s, tx).Append(uint64(i), l)
			nd.Assert(err == nil, "appending succeeds")
		}
		x.t = log.NewTree(x.s, tx)
	}
	if nd.Param("m") == 1 {
		if i := nd.Choose("m", x.n+1); i > 0 {
			m := uint64(i)
			x.m = &m
		}
	}
	if nd.Param("nP") == 1 {
		if i := nd.Choose("nP", x.n+1); i > 0 {
			nP := uint64(i)
			x.nP = &nP
		}
	}
	last := -1
	for i := 0; i < nd.Param("entries"); i++ {
		e := last + nd.Choose("entry", x.n-last) // the same again ends the list
		if e == last {
			break
		}
		x.entries = append(x.entries, uint64(e))
		last = e
	}
	return x
}

func (x *setup) verifier() *log.Verifier {
	v := log.NewVerifier(x.s)
	if x.m != nil {
		nd.Assert(v.Retain(*x.m, kt.LogSubtrees(x.s, x.leaves[:*x.m])) == nil, "full subtrees can be retained")
	}
	return v
}

// Complete: honest proofs verify to the current root.
func Complete() {
	x := pick(true)
	var values [][]byte
	for _, e := range x.entries {
		values = append(values, x.leaves[e])
	}
	proof, err := x.t.GetBatch(append([]uint64(nil), x.entries...), uint64(x.n), x.nP, x.m)
	nd.Assert(err == nil, "a proof is produced")
	full, addl, err := x.verifier().Evaluate(x.entries, uint64(x.n), x.nP, values, proof)
	nd.Assert(err == nil, "an honest proof evaluates")
	nd.Assert(kt.EqList(full, kt.LogSubtrees(x.s, x.leaves)), "it gives the full subtrees of the current tree")
	root, err := log.Root(x.s, uint64(x.n), full)
	nd.Assert(err == nil, "the full subtrees give a root")
	nd.Assert(nd.EqBytes(root, kt.LogRoot(x.s, x.leaves).Value), "it gives the current root")
	if x.nP != nil {
		nd.Assert(kt.EqList(addl, kt.LogSubtrees(x.s, x.leaves[:*x.nP])), "it gives the full subtrees of the additional tree size")
		nd.Cover("additional")
	} else {
		nd.Assert(addl == nil, "no additional tree size was asked for")
	}
	if x.m != nil {
		nd.Cover("consistency")
	}
	if len(x.entries) > 0 {
		nd.Cover("inclusion")
	}
}

// Sound: whatever the proof and the values, what evaluates to the honest root
// is true; and whatever the root, what a verifier accepts agrees with what it
// retained.
func Sound() {
	x := pick(false)
	var values [][]byte
	for range x.entries {
		values = append(values, nd.Bytes("value", x.s.H))
	}
	proof := make([][]byte, nd.Choose("proof", nd.Param("proof")+1))
	for i := range proof {
		proof[i] = nd.Bytes("proof", x.s.H)
	}
	full, addl, err := x.verifier().Evaluate(x.entries, uint64(x.n), x.nP, values, proof)
	if err != nil {
		nd.Cover("malformed")
		return
	}
	root, err := log.Root(x.s, uint64(x.n), full)
	nd.Assert(err == nil, "the full subtrees give a root")
	for i, e := range x.entries {
		if x.m != nil && e < *x.m {
			nd.Assert(nd.EqBytes(values[i], x.leaves[e]), "an entry below the retained size has the value it had then, whatever the root")
			nd.Cover("retained entry")
		}
	}
	if x.m != nil && int(*x.m) == x.n {
		nd.Assert(nd.EqBytes(root, kt.LogRoot(x.s, x.leaves).Value), "the same size has the same root")
	}
	if !nd.EqBytes(root, kt.LogRoot(x.s, x.leaves).Value) {
		nd.Cover("other root")
		return
	}
	nd.Cover("honest root")
	for i, e := range x.entries {
		nd.Assert(nd.EqBytes(values[i], x.leaves[e]), "every proven entry has its true value")
	}
	nd.Assert(kt.EqList(full, kt.LogSubtrees(x.s, x.leaves)), "the full subtrees are those of the tree")
	if x.nP != nil {
		nd.Assert(kt.EqList(addl, kt.LogSubtrees(x.s, x.leaves[:*x.nP])), "the additional full subtrees are those of the tree")
		nd.Cover("additional")
	}
}

// Fork: a verifier that retained another history never gets to the honest
// root.
func Fork() {
	x := pick(false)
	nd.Assume(x.m != nil)
	other := append([][]byte(nil), x.leaves[:*x.m]...)
	i := nd.Choose("changed", len(other))
	other[i] = nd.Bytes("other", x.s.H)
	nd.Assume(!nd.EqBytes(other[i], x.leaves[i]))
	v := log.NewVerifier(x.s)
	nd.Assert(v.Retain(*x.m, kt.LogSubtrees(x.s, other)) == nil, "full subtrees can be retained")
	proof := make([][]byte, nd.Choose("proof", nd.Param("proof")+1))
	for i := range proof {
		proof[i] = nd.Bytes("proof", x.s.H)
	}
	full, _, err := v.Evaluate(nil, uint64(x.n), nil, nil, proof)
	if err != nil {
		nd.Cover("malformed")
		return
	}
	root, err := log.Root(x.s, uint64(x.n), full)
	nd.Assert(err == nil, "the full subtrees give a root")
	nd.Assert(!nd.EqBytes(root, kt.LogRoot(x.s, x.leaves).Value), "a different history never gives the honest root")
	nd.Cover("forked")
}

// Validate: impossible sizes, entries and hash sizes are rejected.
func Validate() {
	s := kt.New(nd.Param("hash"))
	n, m, nP, e := nd.U64("n"), nd.U64("m"), nd.U64("nP"), nd.U64("e")
	lim := uint64(1) << 62
	nd.Assume(nd.Or(n == 0, n > lim/2))
	v := log.NewVerifier(s)
	if nd.Choose("retain", 2) == 1 {
		err := v.Retain(0, nil)
		nd.Assert(err != nil, "an empty tree can not be retained")
		k := 1 + nd.Choose("size", 4)
		cnt := nd.Choose("count", 4)
		var vals [][]byte
		good := true
		for i := 0; i < cnt; i++ {
			l := s.H - nd.Choose("short", 2)
			good = good && l == s.H
			vals = append(vals, make([]byte, l))
		}
		want := len(kt.LogSubtrees(s, make([][]byte, k)))
		nd.Assert((v.Retain(uint64(k), vals) == nil) == (good && cnt == want), "exactly the full subtrees can be retained")
		nd.Cover("retain")
		return
	}
	switch nd.Choose("what", 3) {
	case 0:
		_, _, err := v.Evaluate(nil, 0, nil, nil, nil)
		nd.Assert(err != nil, "an empty tree has no proofs")
		_, err = log.NewTree(s, memory.NewLogStore()).GetBatch(nil, 0, nil, nil)
		nd.Assert(err != nil, "an empty tree has no proofs")
		_, err = log.Root(s, 0, nil)
		nd.Assert(err != nil, "an empty tree has no root")
	case 1:
		k := uint64(1 + nd.Choose("size", 3))
		_, err := log.NewTree(s, memory.NewLogStore()).GetBatch([]uint64{e}, k, &nP, &m)
		nd.Assert(nd.Or(err != nil, nd.And(e < k, nd.And(nP <= k, m <= k))), "sizes and entries beyond the tree are rejected")
	case 2:
		k := uint64(1 + nd.Choose("size", 3))
		nd.Assume(nd.Or(e >= k, nd.Or(nP > k, nP == 0)))
		_, _, err := v.Evaluate([]uint64{e}, k, &nP, [][]byte{make([]byte, s.H)}, nil)
		nd.Assert(err != nil, "sizes and entries beyond the tree are rejected")
	}
	nd.Cover("rejected")
}
