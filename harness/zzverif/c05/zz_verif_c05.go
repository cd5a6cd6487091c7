// Package c05 checks that prefix tree proofs cannot be forged.
package c05

import (
	"bytes"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/zzverif/forge"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// Forge: a proof of any shape that evaluates to the root of a tree tells the
// truth about every VRF output searched for.
func Forge() {
	s := kt.New(nd.Param("hash"))
	bits := nd.Param("bits")
	set := kt.SymSet(s, nd.Param("set"), bits)
	root := kt.PrefixRoot(s, set, 0)
	n := nd.Param("queries")
	var entries []prefix.Entry
	for i := 0; i < n; i++ {
		e := prefix.Entry{VrfOutput: kt.SymVrf("query", s, bits)}
		for _, f := range entries {
			nd.Assume(!nd.EqBytes(e.VrfOutput, f.VrfOutput))
		}
		if nd.Choose("commitment", 2) == 1 {
			e.Commitment = nd.Bytes("claimed", s.H)
		}
		entries = append(entries, e)
	}
	proof, kinds := forge.Proof(s, n, nd.Param("depth"), nd.Param("elems"), bits)
	got, err := prefix.Evaluate(s, entries, proof)
	if err != nil {
		nd.Cover("malformed")
		nd.Assert(prefix.Verify(s, entries, proof, root) != nil, "Verify rejects what does not evaluate")
		return
	}
	if !nd.EqBytes(got, root) {
		nd.Cover("wrong root")
		nd.Assert(prefix.Verify(s, entries, proof, root) != nil, "Verify rejects a different root")
		return
	}
	nd.Assert(prefix.Verify(s, entries, proof, root) == nil, "Verify accepts what evaluates to the root")
	for i, e := range entries {
		j := kt.FindEntry(set, e.VrfOutput)
		nd.Assert((kinds[i] == 1) == proof.Results[i].Inclusion(), "the result says what its type says")
		if kinds[i] == 1 {
			nd.Assert(j >= 0, "an accepted proof of inclusion is for something in the tree")
			nd.Assert(e.Commitment != nil && nd.EqBytes(e.Commitment, set[j].Com), "an accepted proof of inclusion is for the right commitment")
			nd.Cover("accepted inclusion")
		} else {
			nd.Assert(j < 0, "an accepted proof of absence is for something not in the tree")
			nd.Cover("accepted absence")
		}
	}
}

// Arity: the number of entries must match the number of results and entries
// must be distinct and of the right size.
func Arity() {
	s := kt.New(nd.Param("hash"))
	proof, kinds := forge.Proof(s, nd.Choose("results", 3), 1, 1, 1)
	n := nd.Choose("entries", 3)
	var entries []prefix.Entry
	good := n == len(kinds)
	for i := 0; i < n; i++ {
		vl, cl := s.H-1+nd.Choose("vrf size", 2), s.H-1+nd.Choose("com size", 4)
		e := prefix.Entry{VrfOutput: nd.Bytes("v", vl)}
		if cl < s.H+2 {
			e.Commitment = nd.Bytes("c", cl)
			good = good && cl == s.H
		}
		good = good && vl == s.H
		for _, f := range entries {
			if bytes.Equal(f.VrfOutput, e.VrfOutput) {
				good = false
			}
		}
		entries = append(entries, e)
	}
	_, err := prefix.Evaluate(s, entries, proof)
	nd.Assert(nd.Or(err != nil, good), "mismatched, misshapen or repeated entries are rejected")
	if err == nil {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
}

// Deep: proofs with any depth byte are evaluated or rejected without a panic,
// also by the code that applies mutations.
func Deep() {
	s := kt.New(32)
	share := nd.Choose("shared bits", 256/nd.Param("stride"))*nd.Param("stride") + nd.Param("stride") - 1
	a, b := make([]byte, 32), make([]byte, 32)
	b[share/8] ^= 0x80 >> (share % 8)
	ds := nd.Param("dstride")
	d := nd.Choose("depth", 256/ds)*ds + ds - 1
	leaf := nd.Bytes("leaf", 1)
	lv := make([]byte, 32)
	copy(lv, leaf)
	raw := []byte{2}
	for i := 0; i < 2; i++ {
		k := 1 + nd.Choose("kind", 3)
		raw = append(raw, byte(k))
		if k == 2 {
			raw = append(raw, lv...)
			raw = append(raw, kt.Fill(1, 32)...)
		}
		raw = append(raw, byte(d))
	}
	n := d + nd.Choose("extra", 2)
	if d > share {
		n = 2*d - share - 1
	}
	raw = append(raw, byte(n>>8), byte(n))
	raw = append(raw, make([]byte, 32*n)...)
	p, err := prefix.NewPrefixProof(s, bytes.NewBuffer(raw))
	nd.Assert(err == nil, "a well-formed proof decodes")
	es := []prefix.Entry{{VrfOutput: a, Commitment: kt.Fill(2, 32)}, {VrfOutput: b, Commitment: kt.Fill(3, 32)}}
	_, err = prefix.Evaluate(s, es, p)
	if err == nil {
		nd.Cover("evaluated")
	} else {
		nd.Cover("rejected")
	}
	if nd.Choose("mutation", 2) == 1 {
		if p.Results[0].Inclusion() || !p.Results[1].Inclusion() {
			return
		}
		prefix.EvaluateBeforeAfter(s, es[:1], es[1:], p)
		nd.Cover("mutation")
	}
}
