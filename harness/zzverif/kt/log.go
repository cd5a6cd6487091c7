package kt

import "github.com/Bren2010/katie/zzverif/nd"

// LogNode is a hash in the log tree.
type LogNode struct {
	Leaf  bool
	Value []byte
}

// LogParent hashes two children of the log tree.
func LogParent(s Suite, l, r LogNode) LogNode {
	return LogNode{false, nd.Hash("h", Cat(tag(l), l.Value, tag(r), r.Value), s.H)}
}

func tag(n LogNode) []byte {
	if n.Leaf {
		return []byte{0}
	}
	return []byte{1}
}

// LogRoot is the Merkle tree hash of the leaves: the left subtree holds the
// largest power of two that is smaller than the number of leaves.
func LogRoot(s Suite, leaves [][]byte) LogNode {
	if len(leaves) == 1 {
		return LogNode{true, leaves[0]}
	}
	k := 1
	for 2*k < len(leaves) {
		k *= 2
	}
	return LogParent(s, LogRoot(s, leaves[:k]), LogRoot(s, leaves[k:]))
}

// LogSubtrees are the maximal full subtrees, left to right.
func LogSubtrees(s Suite, leaves [][]byte) [][]byte {
	var out [][]byte
	for len(leaves) > 0 {
		k := 1
		for 2*k <= len(leaves) {
			k *= 2
		}
		out = append(out, LogRoot(s, leaves[:k]).Value)
		leaves = leaves[k:]
	}
	return out
}

// EqList compares lists of byte strings.
func EqList(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, nd.EqBytes(a[i], b[i]))
	}
	return ok
}
