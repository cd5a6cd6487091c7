// Package forge builds arbitrary prefix tree proofs.
package forge

import (
	"bytes"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// Result appends an arbitrary search result with a depth of at most
// maxDepth to b, and returns its type (1 inclusion, 2 other leaf, 3 empty).
func Result(s kt.Suite, b []byte, maxDepth int, leaf []byte) ([]byte, int) {
	kind := 1 + nd.Choose("kind", 3)
	b = append(b, byte(kind))
	if kind == 2 {
		b = append(b, leaf...)
		b = append(b, nd.Bytes("leafcom", s.H)...)
	}
	return append(b, byte(nd.Choose("depth", maxDepth+1))), kind
}

// Proof is an arbitrary proof with n results of depth at most maxDepth
// and arbitrary copath elements. Other leaves have VRF outputs with `bits`
// arbitrary bits, or are one of the given leaves.
func Proof(s kt.Suite, n, maxDepth, maxElems, bits int) (*prefix.PrefixProof, []int) {
	b := []byte{byte(n)}
	var kinds []int
	for i := 0; i < n; i++ {
		var k int
		b, k = Result(s, b, maxDepth, kt.SymVrf("leafvrf", s, bits))
		kinds = append(kinds, k)
	}
	return finish(s, b, nd.Choose("elems", maxElems+1)), kinds
}

// Any is an arbitrary proof with n results and m copath elements. Other leaves
// have arbitrary VRF outputs.
func Any(s kt.Suite, n, maxDepth, m int) *prefix.PrefixProof {
	b := []byte{byte(n)}
	for i := 0; i < n; i++ {
		b, _ = Result(s, b, maxDepth, nd.Bytes("leafvrf", s.H))
	}
	return finish(s, b, m)
}

func finish(s kt.Suite, b []byte, m int) *prefix.PrefixProof {
	b = append(b, 0, byte(m))
	for i := 0; i < m; i++ {
		b = append(b, nd.Bytes("elem", s.H)...)
	}
	p, err := prefix.NewPrefixProof(s, bytes.NewBuffer(b))
	nd.Assert(err == nil, "a well-formed proof decodes")
	return p
}

// Like is an arbitrary proof that has the kinds of results, depths and number
// of copath elements of p.
func Like(s kt.Suite, p *prefix.PrefixProof) *prefix.PrefixProof {
	var buf bytes.Buffer
	nd.Assert(p.Marshal(&buf) == nil, "the proof is encoded")
	b := buf.Bytes()
	out, b := []byte{b[0]}, b[1:]
	for range p.Results {
		kind := b[0]
		out, b = append(out, kind), b[1:]
		if kind == 2 {
			out = append(out, nd.Bytes("leafvrf", s.H)...)
			out = append(out, nd.Bytes("leafcom", s.H)...)
			b = b[2*s.H:]
		}
		out, b = append(out, b[0]), b[1:]
	}
	return finish(s, out, len(p.Elements))
}
