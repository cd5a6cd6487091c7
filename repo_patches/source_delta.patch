From 0b0d5995fb3e825e8b425b780fa6e5d5d54ecf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 01/40] fix: keep the prefix tree intact when a mutation adds
 and removes nothing

The root of the prior version was never loaded when there was nothing to
search for, so the new version got a root without a hash, and a tile whose
root is stored in another tile could not be searched.
---
 tree/prefix/batch.go  | 2 +-
 tree/prefix/prefix.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/prefix/batch.go b/tree/prefix/batch.go
index 93beab9..262988e 100644
--- a/tree/prefix/batch.go
+++ b/tree/prefix/batch.go
@@ -172,7 +172,7 @@ func (b *batch) search(state map[*node][]cursor) error {
 		// Replace the node where the search terminated with the new subtree
 		// that was just looked up. Setup cursor for next iteration.
 		*step.ptr = *n
-		nextState[n] = append(nextState[n], *cursor)
+		nextState[step.ptr] = append(nextState[step.ptr], *cursor)
 	}
 
 	return b.search(nextState)
diff --git a/tree/prefix/prefix.go b/tree/prefix/prefix.go
index c92c360..52165fc 100644
--- a/tree/prefix/prefix.go
+++ b/tree/prefix/prefix.go
@@ -150,8 +150,15 @@ func (t *Tree) getMutationRoot(ver uint64, add []Entry, remove [][]byte) (node,
 		return root, &proof, nil, nil
 	}
 
+	// If there's nothing to add or remove, search for an arbitrary VRF output to
+	// ensure that the root of the prior version is still loaded into memory.
+	searches := vrfOutputs
+	if len(searches) == 0 {
+		searches = [][]byte{make([]byte, t.cs.HashSize())}
+	}
+
 	b := newBatch(t.cs, t.tx)
-	res, state := b.initialize(map[uint64][][]byte{ver: vrfOutputs})
+	res, state := b.initialize(map[uint64][][]byte{ver: searches})
 	if err := b.search(state); err != nil {
 		return nil, nil, nil, err
 	}
-- 
2.43.0


From 20c12068249e73fc527bffdc72b1b3b4199c46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 02/40] fix: reject forged proofs of non-inclusion in the
 prefix tree

A non-inclusion proof showing another leaf was accepted when that leaf was
the one searched for, or when it could not lie on the search path.
---
 tree/prefix/verify.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index e77543b..2bae556 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -22,6 +22,18 @@ func terminalNode(entry Entry, res PrefixSearchResult) node {
 	}
 }
 
+// isOtherLeaf returns whether `leaf`, if it was found at the given depth of a
+// search for `entry`, shows that `entry` is not in the tree: it must be on the
+// same path through the tree, but have a different VRF output.
+func isOtherLeaf(entry Entry, leaf leafNode, depth int) bool {
+	for i := range depth {
+		if getBit(entry.VrfOutput, i) != getBit(leaf.vrfOutput, i) {
+			return false
+		}
+	}
+	return !bytes.Equal(entry.VrfOutput, leaf.vrfOutput)
+}
+
 // addToSkeleton adds the terminal node for a single search result
 // to the in-memory tree in `n`.
 func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
@@ -54,6 +66,9 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			if depth > res.Depth() {
 				return errors.New("current depth is greater than result depth")
 			} else if depth == res.Depth() {
+				if p, ok := res.(nonInclusionLeafProof); ok && !isOtherLeaf(entry, p.leaf, depth) {
+					return errors.New("malformed proof")
+				}
 				*n = terminalNode(entry, res)
 				return nil
 			} else {
-- 
2.43.0


From 96c4a854f39f699e7ed9027a902ed2702e827230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 03/40] fix: check the commitment of every inclusion proof in
 the prefix tree

The commitment given for an entry was ignored when the leaf had already been
placed by a proof of non-inclusion for another entry.
---
 tree/prefix/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 2bae556..a921baa 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -51,6 +51,8 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 			equal := bytes.Equal(entry.VrfOutput, m.vrfOutput)
 			if res.Depth() != depth || res.Inclusion() != equal {
 				return errors.New("malformed proof")
+			} else if equal && !bytes.Equal(entry.Commitment, m.commitment) {
+				return errors.New("malformed proof")
 			}
 			return nil
 
-- 
2.43.0


From 6867036e6d045a9a4ccdf4b491887401fa34f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 04/40] fix: evaluate mutation proofs where an entry is removed
 and added again

The prefix tree and the auditor allow the same VRF output to be removed and
added in one mutation, but EvaluateBeforeAfter always rejected it.
---
 tree/prefix/verify.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index a921baa..6f4be1c 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -114,19 +114,25 @@ func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
 	}
 }
 
-func evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) (node, error) {
+// checkEntries returns an error if any entry is malformed or if the same VRF
+// output is present multiple times.
+func checkEntries(cs suites.CipherSuite, entries []Entry) error {
 	sortedEntries := make([]Entry, len(entries))
 	copy(sortedEntries, entries)
 	slices.SortFunc(sortedEntries, compareEntries)
 	for i, entry := range sortedEntries {
 		if len(entry.VrfOutput) != cs.HashSize() {
-			return nil, errors.New("unexpected vrf output length")
+			return errors.New("unexpected vrf output length")
 		} else if entry.Commitment != nil && len(entry.Commitment) != cs.HashSize() {
-			return nil, errors.New("unexpected commitment length")
+			return errors.New("unexpected commitment length")
 		} else if i > 0 && bytes.Equal(sortedEntries[i-1].VrfOutput, entry.VrfOutput) {
-			return nil, errors.New("same vrf output present multiple times")
+			return errors.New("same vrf output present multiple times")
 		}
 	}
+	return nil
+}
+
+func evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) (node, error) {
 	if len(entries) != len(proof.Results) {
 		return nil, errors.New("number of entries searched for does not match number of results")
 	}
@@ -149,6 +155,9 @@ func evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) (node,
 
 // Evaluate returns the root hash that `proof` corresponds to.
 func Evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) ([]byte, error) {
+	if err := checkEntries(cs, entries); err != nil {
+		return nil, err
+	}
 	root, err := evaluate(cs, entries, proof)
 	if err != nil {
 		return nil, err
@@ -170,11 +179,25 @@ func Verify(cs suites.CipherSuite, entries []Entry, proof *PrefixProof, root []b
 // EvaluateBeforeAfter evaluates `proof` before and after making the requested
 // additions and removals.
 func EvaluateBeforeAfter(cs suites.CipherSuite, add, remove []Entry, proof *PrefixProof) ([]byte, []byte, error) {
+	if err := checkEntries(cs, add); err != nil {
+		return nil, nil, err
+	} else if err := checkEntries(cs, remove); err != nil {
+		return nil, nil, err
+	}
+
 	// Combine the `add` and `remove` slices and compute the prefix tree root
-	// hash in the straightforward way.
+	// hash in the straightforward way. If a VRF output is both removed and
+	// added, then the commitment that's being removed is the one in `proof`.
 	allEntries := make([]Entry, len(add)+len(remove))
 	copy(allEntries, add)
 	copy(allEntries[len(add):], remove)
+	for i, entry := range add {
+		for _, removed := range remove {
+			if bytes.Equal(entry.VrfOutput, removed.VrfOutput) {
+				allEntries[i].Commitment = removed.Commitment
+			}
+		}
+	}
 
 	root, err := evaluate(cs, allEntries, proof)
 	if err != nil {
-- 
2.43.0


From 08fecda85c0e5a443f2e4896b3600c70ff885c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 05/40] fix: recognise empty nodes in mutation proofs

An empty copath node was treated as an opaque subtree, so removing the last
entries next to it gave a different root than the prefix tree itself.
---
 tree/prefix/verify.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tree/prefix/verify.go b/tree/prefix/verify.go
index 6f4be1c..e5b0443 100644
--- a/tree/prefix/verify.go
+++ b/tree/prefix/verify.go
@@ -85,18 +85,18 @@ func addToSkeleton(n *node, entry Entry, res PrefixSearchResult) error {
 
 // fillInCopath populates all of the empty copath nodes in `n` with `elements`
 // in left-to-right order.
-func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
+func fillInCopath(cs suites.CipherSuite, n *node, elements [][]byte) ([][]byte, error) {
 	switch m := (*n).(type) {
 	case emptyNode, leafNode:
 		return elements, nil
 
 	case *parentNode:
 		var err error
-		elements, err = fillInCopath(&m.left, elements)
+		elements, err = fillInCopath(cs, &m.left, elements)
 		if err != nil {
 			return nil, err
 		}
-		elements, err = fillInCopath(&m.right, elements)
+		elements, err = fillInCopath(cs, &m.right, elements)
 		if err != nil {
 			return nil, err
 		}
@@ -106,7 +106,11 @@ func fillInCopath(n *node, elements [][]byte) ([][]byte, error) {
 		if len(elements) == 0 {
 			return nil, errors.New("wrong number of copath nodes provided")
 		}
-		*n = externalNode{hash: elements[0]}
+		if bytes.Equal(elements[0], emptyNode{}.Hash(cs)) {
+			*n = emptyNode{}
+		} else {
+			*n = externalNode{hash: elements[0]}
+		}
 		return elements[1:], nil
 
 	default:
@@ -143,7 +147,7 @@ func evaluate(cs suites.CipherSuite, entries []Entry, proof *PrefixProof) (node,
 			return nil, err
 		}
 	}
-	elements, err := fillInCopath(&root, proof.Elements)
+	elements, err := fillInCopath(cs, &root, proof.Elements)
 	if err != nil {
 		return nil, err
 	} else if len(elements) != 0 {
-- 
2.43.0


From bdeb48d85e0f23504ecdb829e672acd706cc8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 06/40] fix: compute binary ladders of large versions without
 overflow

---
 tree/transparency/math/ladders.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/math/ladders.go b/tree/transparency/math/ladders.go
index 5e398d4..43f4d68 100644
--- a/tree/transparency/math/ladders.go
+++ b/tree/transparency/math/ladders.go
@@ -2,6 +2,7 @@ package math
 
 import (
 	"errors"
+	"math"
 
 	"github.com/Bren2010/katie/tree/prefix"
 )
@@ -14,12 +15,14 @@ func baseBinaryLadder(n uint32) []uint32 {
 		out = append(out, val)
 		if val > n {
 			break
+		} else if val == math.MaxUint32 {
+			return out // No greater version exists.
 		}
 	}
 
 	lowerBound, upperBound := out[len(out)-2], out[len(out)-1]
 	for lowerBound+1 < upperBound {
-		val := (lowerBound + upperBound) / 2
+		val := lowerBound + (upperBound-lowerBound)/2
 		out = append(out, val)
 		if val <= n {
 			lowerBound = val
-- 
2.43.0


From a4fe9ac4d022f27bbd011e032c44ccd5fcb7be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 07/40] fix: visit the rest of the frontier when the previous
 rightmost entry is on it

---
 tree/transparency/math/math.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/math/math.go b/tree/transparency/math/math.go
index bde0268..5596f99 100644
--- a/tree/transparency/math/math.go
+++ b/tree/transparency/math/math.go
@@ -132,9 +132,12 @@ func UpdateView(n uint64, m *uint64) []uint64 {
 		out = append(out, Root(n))
 	} else {
 		out = append(out, RightDirectPath(*m-1, n)...)
+		if len(out) == 0 { // The previous rightmost entry is on the frontier.
+			out = append(out, Right(*m-1, n))
+		}
 	}
 
-	for len(out) > 0 && out[len(out)-1] != n-1 {
+	for out[len(out)-1] != n-1 {
 		out = append(out, Right(out[len(out)-1], n))
 	}
 
-- 
2.43.0


From f41c66066d7ee124825155932f5e9ea1aadfc275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 08/40] fix: report errors from finding the rightmost
 distinguished log entry

---
 tree/transparency/algorithms/search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/search.go b/tree/transparency/algorithms/search.go
index 92e7d95..b7baeb4 100644
--- a/tree/transparency/algorithms/search.go
+++ b/tree/transparency/algorithms/search.go
@@ -22,7 +22,7 @@ func GreatestVersionSearch(config *structs.PublicConfig, ver uint32, n uint64, p
 	// distinguished log entries.
 	rightmostDLE, err := RightmostDistinguished(config, n, provider)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	var x uint64
 	if rightmostDLE != nil {
-- 
2.43.0


From a2caee4cbf9cf16e887cf55c926baa88fa8a8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 09/40] fix: encode the version of a label owner with a fixed
 size

---
 tree/transparency/structs/client.go  | 6 +++---
 tree/transparency/structs/structs.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 3348b17..4b27648 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -107,7 +107,7 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	if err != nil {
 		return nil, err
 	}
-	verAtStarting, err := readNumeric[int](buf)
+	verAtStarting, err := readNumeric[int64](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -117,14 +117,14 @@ func NewLabelOwnerState(buf *bytes.Buffer) (*LabelOwnerState, error) {
 	}
 	return &LabelOwnerState{
 		Starting:      starting,
-		VerAtStarting: verAtStarting,
+		VerAtStarting: int(verAtStarting),
 		UpcomingVers:  upcomingVers,
 	}, nil
 }
 
 func (los *LabelOwnerState) Marshal(buf *bytes.Buffer) error {
 	writeNumeric(buf, los.Starting)
-	writeNumeric(buf, los.VerAtStarting)
+	writeNumeric(buf, int64(los.VerAtStarting))
 	return writeNumericSlice[uint32](buf, los.UpcomingVers, "upcoming versions")
 }
 
diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 8f4e159..4fc6fb7 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -24,7 +24,7 @@ func Marshal(x Marshaller) ([]byte, error) {
 }
 
 type numeric interface {
-	uint8 | uint16 | uint32 | uint64 | int
+	uint8 | uint16 | uint32 | uint64 | int64
 }
 
 func readNumeric[T numeric](buf *bytes.Buffer) (T, error) {
-- 
2.43.0


From 8b60283c9611b8ec6fd16f710aab555eb7c400b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 10/40] fix: encode the retained versions of an owned label and
 report errors decoding them

---
 tree/transparency/structs/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/structs/client.go b/tree/transparency/structs/client.go
index 4b27648..f9a2523 100644
--- a/tree/transparency/structs/client.go
+++ b/tree/transparency/structs/client.go
@@ -195,6 +195,9 @@ func NewClientLabelState(cs suites.CipherSuite, buf *bytes.Buffer) (*ClientLabel
 	versions, err := readFuncSlice[uint32](buf, func(buf *bytes.Buffer) (*RetainedVersion, error) {
 		return NewRetainedVersion(cs, buf)
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return &ClientLabelState{Contact: contact, Owner: owner, Versions: versions}, nil
 }
@@ -204,7 +207,9 @@ func (cls *ClientLabelState) Marshal(buf *bytes.Buffer) error {
 		return err
 	}
 	if writeOptional(buf, cls.Owner != nil) {
-		return cls.Owner.Marshal(buf)
+		if err := cls.Owner.Marshal(buf); err != nil {
+			return err
+		}
 	}
 	return writeMarshalSlice[uint32](buf, cls.Versions, "retained versions")
 }
-- 
2.43.0


From b1a4a737d541d2f757454c4efc51ca183e562b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 11/40] fix: don't allocate memory for list elements that
 aren't in the input

---
 tree/prefix/proof.go                 |  2 ++
 tree/transparency/structs/structs.go | 27 ++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/tree/prefix/proof.go b/tree/prefix/proof.go
index 07d534c..414c621 100644
--- a/tree/prefix/proof.go
+++ b/tree/prefix/proof.go
@@ -38,6 +38,8 @@ func NewPrefixProof(cs suites.CipherSuite, buf *bytes.Buffer) (*PrefixProof, err
 	var numElements uint16
 	if err := binary.Read(buf, binary.BigEndian, &numElements); err != nil {
 		return nil, err
+	} else if int(numElements)*cs.HashSize() > buf.Len() {
+		return nil, io.ErrUnexpectedEOF
 	}
 	elements := make([][]byte, numElements)
 	for i := range int(numElements) {
diff --git a/tree/transparency/structs/structs.go b/tree/transparency/structs/structs.go
index 4fc6fb7..5a4a470 100644
--- a/tree/transparency/structs/structs.go
+++ b/tree/transparency/structs/structs.go
@@ -86,8 +86,21 @@ type sizeParam interface {
 
 func max[S sizeParam]() int { return int(^S(0)) }
 
-func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
+// readSize reads the size of a string or list. Every element takes up at least
+// one byte, so a size that's greater than the number of bytes remaining is
+// rejected instead of allocating memory for it.
+func readSize[S sizeParam](buf *bytes.Buffer) (int, error) {
 	size, err := readNumeric[S](buf)
+	if err != nil {
+		return 0, err
+	} else if uint64(size) > uint64(buf.Len()) {
+		return 0, io.ErrUnexpectedEOF
+	}
+	return int(size), nil
+}
+
+func readBytes[S sizeParam](buf *bytes.Buffer) ([]byte, error) {
+	size, err := readSize[S](buf)
 	if err != nil {
 		return nil, err
 	}
@@ -108,12 +121,12 @@ func writeBytes[S sizeParam](buf *bytes.Buffer, out []byte, name string) error {
 }
 
 func readByteSlice[S sizeParam](buf *bytes.Buffer, n int) ([][]byte, error) {
-	size, err := readNumeric[S](buf)
+	size, err := readSize[S](buf)
 	if err != nil {
 		return nil, err
 	}
 	out := make([][]byte, size)
-	for i := range int(size) {
+	for i := range size {
 		elem := make([]byte, n)
 		if _, err := io.ReadFull(buf, elem); err != nil {
 			return nil, err
@@ -135,12 +148,12 @@ func writeByteSlice[S sizeParam](buf *bytes.Buffer, out [][]byte, name string) e
 }
 
 func readNumericSlice[S sizeParam, T numeric](buf *bytes.Buffer) ([]T, error) {
-	size, err := readNumeric[S](buf)
+	size, err := readSize[S](buf)
 	if err != nil {
 		return nil, err
 	}
 	out := make([]T, size)
-	for i := range int(size) {
+	for i := range size {
 		val, err := readNumeric[T](buf)
 		if err != nil {
 			return nil, err
@@ -169,12 +182,12 @@ func readFuncSlice[S sizeParam, T any](
 	buf *bytes.Buffer,
 	newF func(*bytes.Buffer) (*T, error),
 ) ([]T, error) {
-	size, err := readNumeric[S](buf)
+	size, err := readSize[S](buf)
 	if err != nil {
 		return nil, err
 	}
 	out := make([]T, size)
-	for i := range int(size) {
+	for i := range size {
 		elem, err := newF(buf)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From c2f214e0a84b275f636f4b876d4efd31bfad19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 12/40] fix: reject auditor states that end before their list
 or cover an empty tree

---
 tree/transparency/auditor/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/auditor/state.go b/tree/transparency/auditor/state.go
index cd273c7..f42571d 100644
--- a/tree/transparency/auditor/state.go
+++ b/tree/transparency/auditor/state.go
@@ -36,6 +36,8 @@ func NewAuditorState(cs suites.CipherSuite, buf *bytes.Buffer) (*AuditorState, e
 	treeHead, err := structs.NewAuditorTreeHead(buf)
 	if err != nil {
 		return nil, err
+	} else if treeHead.TreeSize == 0 {
+		return nil, errors.New("auditor tree head is for an empty tree")
 	}
 
 	fullSubtrees := make([][]byte, bits.OnesCount64(treeHead.TreeSize))
@@ -64,6 +66,8 @@ func NewAuditorState(cs suites.CipherSuite, buf *bytes.Buffer) (*AuditorState, e
 	var size uint16
 	if err := binary.Read(buf, binary.BigEndian, &size); err != nil {
 		return nil, err
+	} else if int(size) > buf.Len() {
+		return nil, io.ErrUnexpectedEOF
 	}
 	inserted := make([]InsertedVrfOutput, size)
 	for i := range size {
-- 
2.43.0


From 24ff5909146c0d6f1d2e16ff850568d533d5f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 13/40] fix: client crashed on its first response and dropped
 the auditor's tree head

---
 tree/transparency/client_crypto.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 630155c..8598698 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -231,13 +231,15 @@ func (v *verifier) finish() (*structs.ClientState, error) {
 
 	// Compute and return the updated client state.
 	updated := &structs.ClientState{
-		TreeHead:        v.state.TreeHead,
-		AuditorTreeHead: v.fth.AuditorTreeHead,
-		FullSubtrees:    result.FullSubtrees,
-		LogEntries:      result.LogEntries,
+		FullSubtrees: result.FullSubtrees,
+		LogEntries:   result.LogEntries,
 	}
 	if v.fth.TreeHead != nil {
 		updated.TreeHead = *v.fth.TreeHead
+		updated.AuditorTreeHead = v.fth.AuditorTreeHead
+	} else {
+		updated.TreeHead = v.state.TreeHead
+		updated.AuditorTreeHead = v.state.AuditorTreeHead
 	}
 	return updated, nil
 }
-- 
2.43.0


From 2e415312804d5a0fce3b221c0682074864e520a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 14/40] fix: client rejected every larger tree and accepted
 smaller ones

---
 tree/transparency/client_crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index 8598698..fc91b0c 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -144,7 +144,7 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 	}
 
 	// Verify the size and signature on the tree head.
-	if v.state != nil && v.state.TreeHead.TreeSize <= v.n {
+	if v.state != nil && v.n <= v.state.TreeHead.TreeSize {
 		return errors.New("provided tree size is not greater than advertised")
 	}
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
-- 
2.43.0


From 59e28b8a4acdafa47005941b71e013e4cc180bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 15/40] fix: proofs for a user that's up-to-date repeated the
 retained parts of the log

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 677c3cb..b5e9516 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -112,7 +112,7 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
 		if *last == t.treeHead.TreeSize {
-			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, nil, nil
+			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
 		}
-- 
2.43.0


From 351c4d4a2627f9bb7482f3f12e45ea2653fe4d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 16/40] fix: client couldn't process proofs for a label that it
 has retained versions of

---
 tree/transparency/algorithms/proof_handle.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index f78834d..3b51a59 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -22,8 +22,16 @@ func addVersion(
 		return errors.New("malformed vrf output")
 	} else if commitment != nil && len(commitment) != cs.HashSize() {
 		return errors.New("malformed commitment")
-	} else if _, ok := versions[ver]; ok {
-		return errors.New("can not add the same version twice")
+	}
+	// If the version was already added, verify that the two are consistent.
+	if existing, ok := versions[ver]; ok {
+		if !bytes.Equal(vrfOutput, existing.VrfOutput) {
+			return errors.New("different vrf outputs for same version found")
+		} else if commitment == nil {
+			return nil
+		} else if existing.Commitment != nil && !bytes.Equal(commitment, existing.Commitment) {
+			return errors.New("different commitments for same version found")
+		}
 	}
 	versions[ver] = prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment}
 	return nil
-- 
2.43.0


From 35b8712e3aa4a0bb2ece8bce13903d04f86bb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 17/40] fix: response to a search for a missing version
 couldn't be decoded with third-party management

---
 tree/transparency/crypto.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 2c58c43..5e4f80d 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -75,11 +75,16 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	if err != nil {
 		return nil, err
 	} else if raw == nil {
-		// Returning a zero value for the commitment opening ensures that the
-		// SearchResponse doesn't end up getting serialized wrong when a search
-		// produces a non-inclusion proof.
+		// Returning a zero value for the commitment opening, and for the Service
+		// Operator's signature if there is one, ensures that the SearchResponse
+		// doesn't end up getting serialized wrong when a search produces a
+		// non-inclusion proof.
 		size := t.config.Suite.CommitmentOpeningSize()
-		return &structs.OpeningAndValue{Opening: make([]byte, size)}, nil
+		out := &structs.OpeningAndValue{Opening: make([]byte, size)}
+		if t.config.Mode == structs.ThirdPartyManagement {
+			out.Value.Signature = []byte{}
+		}
+		return out, nil
 	}
 	buf := bytes.NewBuffer(raw)
 	labelValue, err := structs.NewOpeningAndValue(t.config.Public(), buf)
-- 
2.43.0


From 2d249a31f076d35b887557833019f477b5ba74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 18/40] fix: client couldn't verify that a label doesn't exist

---
 tree/transparency/transparency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index b5e9516..74cc96d 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -186,7 +186,7 @@ func (t *Tree) Search(
 	)
 	if req.Version == nil {
 		if greatest < 0 {
-			ladder = []uint32{0}
+			ladder = math.SearchBinaryLadder(0, 0, nil, nil)
 			openingAndValue, err = t.getVersion(req.Label, 0)
 		} else {
 			ladder = math.SearchBinaryLadder(uint32(greatest), uint32(greatest), nil, nil)
-- 
2.43.0


From d11ec795a7b1fa8f19e12118132dc7635571686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 19/40] fix: client crashed when contact monitoring of a label
 was completed

---
 tree/transparency/algorithms/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index e215073..0265ec4 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -24,7 +24,12 @@ func NewContactState(entries []structs.MonitorMapEntry) *ContactState {
 	return &ContactState{Ptrs: ptrs}
 }
 
+// Struct returns the serializable form of the state, which is empty if `cs` is
+// nil because no future monitoring is required.
 func (cs *ContactState) Struct() []structs.MonitorMapEntry {
+	if cs == nil {
+		return nil
+	}
 	out := make([]structs.MonitorMapEntry, 0, len(cs.Ptrs))
 	for pos, ver := range cs.Ptrs {
 		out = append(out, structs.MonitorMapEntry{Position: pos, Version: ver})
-- 
2.43.0


From 9a72b43e297402ea89fd8836ac4621c81d3099bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 20/40] fix: server couldn't answer a label owner's update

The monitor used to produce the proof in an UpdateResponse had no owner
state, and no VRF outputs were computed for the versions looked up by the
proof, so every update failed.
---
 tree/transparency/update.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 831b320..4a4f7f7 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -247,24 +247,18 @@ func (u *updater) next(withValues bool) (*structs.UpdateResponse, error) {
 		return nil, err
 	}
 
-	fth, n, nP, m, err := t.fullTreeHead(u.last)
+	op, err := t.startMonitor(u.last, u.label)
 	if err != nil {
 		return nil, err
 	}
-
-	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, u.index)
-	provider := algorithms.NewDataProvider(t.config.Suite, handle)
-
-	if err := t.updateView(u.last, provider); err != nil {
-		return nil, err
+	op.monitor.Owner = &algorithms.OwnerState{
+		VerAtStarting: -1,
+		UpcomingVers:  slices.Clone(u.index[:u.ver-len(info)]),
 	}
-	monitor, err := algorithms.NewMonitor(t.config.Public(), n, provider)
-	if err != nil {
-		return nil, err
-	} else if err := monitor.Update(pos, len(info)); err != nil {
+	if err := op.monitor.Update(pos, len(info)); err != nil {
 		return nil, err
 	}
-	proof, err := provider.Output(n, nP, m)
+	fth, proof, err := op.finish()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c0bf55f183ab9e6f51debbb418828dc636e59c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 21/40] fix: client rejected updates whose new versions it had
 already retained VRF outputs for

The binary ladder in an UpdateResponse omits versions that the client
already knows the VRF output of. The commitments to those versions were
dropped, even though they're needed to verify the proof.
---
 tree/transparency/client_crypto.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index fc91b0c..b09e0e2 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -130,6 +130,17 @@ func (v *verifier) processLadder(
 		}
 	}
 
+	// The VRF output for a manually-computed commitment may not have been in
+	// the binary ladder, if it was retained from a previous response.
+	for ver, commitment := range manual {
+		entry, ok := v.handle.GetVersion(ver)
+		if !ok {
+			return errors.New("vrf output not known for version")
+		} else if err := v.handle.AddVersion(ver, entry.VrfOutput, commitment); err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 3208b11d361c3c2d149d375448a953724dd67ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 22/40] fix: client rejected inclusion proofs for more than one
 new version of a label

---
 tree/transparency/algorithms/proof_handle.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tree/transparency/algorithms/proof_handle.go b/tree/transparency/algorithms/proof_handle.go
index 3b51a59..46a9667 100644
--- a/tree/transparency/algorithms/proof_handle.go
+++ b/tree/transparency/algorithms/proof_handle.go
@@ -205,11 +205,14 @@ func (rph *ReceivedProofHandle) GetInclusionProof(x uint64, vers []uint32) ([]by
 	}
 	proof := rph.inner.PrefixProofs[0]
 
-	// Verify that proof shows inclusion for a single version.
-	if len(proof.Results) != 1 {
+	// Verify that proof shows inclusion for each of the requested versions.
+	if len(proof.Results) != len(vers) {
 		return nil, errors.New("unexpected number of results present in prefix proof")
-	} else if !proof.Results[0].Inclusion() {
-		return nil, errors.New("unexpected non-inclusion proof provided")
+	}
+	for _, res := range proof.Results {
+		if !res.Inclusion() {
+			return nil, errors.New("unexpected non-inclusion proof provided")
+		}
 	}
 
 	// Evaluate the prefix proof and return.
-- 
2.43.0


From 1aafb7898a05415ae8699026d8ead0dd5fa86e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 23/40] fix: client crashed on an update response with too few
 binary ladder steps

---
 tree/transparency/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ea83eaf..51d4335 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -564,6 +564,9 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 	// Verify that no commitment is provided for a version greater than or equal
 	// to `startVer`.
 	ladder := updateLadderVersions(startVer, startVer+uint32(len(res.Info)-1))
+	if len(res.BinaryLadder) != len(ladder) {
+		return errors.New("incorrect number of binary ladder steps provided")
+	}
 	for i, ver := range ladder {
 		if ver >= startVer && res.BinaryLadder[i].Commitment != nil {
 			return errors.New("commitment provided when not expected")
-- 
2.43.0


From dd8b8405ef90cfe2f538c5dc28c69bb257fd4731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 24/40] fix: client remembered unverified commitments of
 versions that don't exist yet when taking ownership

---
 tree/transparency/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index 51d4335..ba1b96d 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -286,6 +286,11 @@ func (c *Client) ownerInit(
 			if ok && res.BinaryLadder[i].Commitment == nil {
 				return errors.New("commitment not provided when expected")
 			}
+			// No inclusion proof is verified for versions that don't exist yet.
+			exists := len(res.GreatestVersions) > 0 && ver <= res.GreatestVersions[0]
+			if !exists && res.BinaryLadder[i].Commitment != nil {
+				return errors.New("commitment provided when not expected")
+			}
 		}
 
 		// Verify the proof.
-- 
2.43.0


From d789e510db960eae5c5fbfcf5067c3ca781bf444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:13 +0000
Subject: [PATCH 25/40] fix: client accepted tree heads without the auditor's
 when third-party auditing is used

---
 tree/transparency/client_crypto.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index b09e0e2..d0c7bcd 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -154,6 +154,14 @@ func (v *verifier) verifyTreeHead(root, rootP []byte) error {
 		return nil
 	}
 
+	// Verify that the auditor tree head is present exactly if it's needed.
+	hasAuditor := v.config.Mode == structs.ThirdPartyAuditing
+	if hasAuditor && v.fth.AuditorTreeHead == nil {
+		return errors.New("no auditor tree head was provided when required")
+	} else if !hasAuditor && v.fth.AuditorTreeHead != nil {
+		return errors.New("auditor tree head provided when not expected")
+	}
+
 	// Verify the size and signature on the tree head.
 	if v.state != nil && v.n <= v.state.TreeHead.TreeSize {
 		return errors.New("provided tree size is not greater than advertised")
-- 
2.43.0


From 43024384ce3fb00feca34a401dfb16d3fc62dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 26/40] fix: server crashed on requests that advertise a tree
 size of zero

---
 tree/transparency/transparency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 74cc96d..01a6346 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -111,7 +111,9 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 	if t.treeHead == nil {
 		return nil, 0, nil, nil, errors.New("can not operate on an empty tree")
 	} else if last != nil {
-		if *last == t.treeHead.TreeSize {
+		if *last == 0 {
+			return nil, 0, nil, nil, errors.New("tree size advertised by user is zero")
+		} else if *last == t.treeHead.TreeSize {
 			return &structs.FullTreeHead{}, t.treeHead.TreeSize, nil, last, nil
 		} else if *last > t.treeHead.TreeSize {
 			return nil, 0, nil, nil, errors.New("tree size advertised by user is greater than current tree size")
-- 
2.43.0


From 3621b6c08e28862bcf32dccb1913ecc843db9dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 27/40] fix: server sent tree heads that users can't decode
 before the auditor's first one

---
 tree/transparency/transparency.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 01a6346..9040398 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -120,6 +120,11 @@ func (t *Tree) fullTreeHead(last *uint64) (fth *structs.FullTreeHead, n uint64,
 		}
 	}
 
+	// Users can not decode or verify a tree head without the auditor's.
+	if t.config.Mode == structs.ThirdPartyAuditing && t.auditorHead == nil {
+		return nil, 0, nil, nil, errors.New("no auditor tree head available")
+	}
+
 	fth = &structs.FullTreeHead{TreeHead: t.treeHead, AuditorTreeHead: t.auditorHead}
 	n = t.treeHead.TreeSize
 	if t.auditorHead != nil {
-- 
2.43.0


From 96bad4b5099e9a1188c6c907c10130fb84738df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 28/40] fix: server crashed on a manager update when it has no
 third-party manager

---
 tree/transparency/update.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index 4a4f7f7..dd6b451 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -115,6 +115,10 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 }
 
 func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
+	if u.tree.config.Mode != structs.ThirdPartyManagement {
+		return errors.New("transparency log is not configured with third party manager")
+	}
+
 	// Verify service operator signatures.
 	for i, val := range req.Values {
 		tbs, err := structs.Marshal(&structs.UpdateTBS{
-- 
2.43.0


From a0ef6a926a65b5224e7545a7c45b7d62006fcdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 29/40] fix: rejected batch of updates left partial changes in
 the database

---
 tree/transparency/crypto.go | 18 ++++----
 tree/transparency/mutate.go | 82 ++++++++++++++++++++++++++-----------
 2 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 5e4f80d..937b235 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -96,17 +96,15 @@ func (t *Tree) getVersion(label []byte, ver uint32) (*structs.OpeningAndValue, e
 	return labelValue, nil
 }
 
-// putVersion generates a new commitment opening and sets the given
-// label-version pair to the given value. It returns the new commitment.
-func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) ([]byte, error) {
+// newVersion generates a new commitment opening for the given label-version pair
+// and value. It returns the encoded value, to be stored, and the new commitment.
+func (t *Tree) newVersion(label []byte, ver uint32, value structs.UpdateValue) (labelValue, commitment []byte, err error) {
 	opening := commitments.GenerateOpening(t.config.Suite)
 
-	// Serialize opening and UpdateValue structure. Write to database.
-	labelValue, err := structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
+	// Serialize opening and UpdateValue structure.
+	labelValue, err = structs.Marshal(&structs.OpeningAndValue{Opening: opening, Value: value})
 	if err != nil {
-		return nil, err
-	} else if err := t.tx.PutVersion(label, ver, labelValue); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	// Serialize the data that will be committed to and compute the commitment.
@@ -116,9 +114,9 @@ func (t *Tree) putVersion(label []byte, ver uint32, value structs.UpdateValue) (
 		Update:  value,
 	})
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
-	return commitments.Commit(t.config.Suite, opening, commitmentValue), nil
+	return labelValue, commitments.Commit(t.config.Suite, opening, commitmentValue), nil
 }
 
 // computeVrfOutput returns the VRF output for the requested label-version pair
diff --git a/tree/transparency/mutate.go b/tree/transparency/mutate.go
index a4d293f..7d916b2 100644
--- a/tree/transparency/mutate.go
+++ b/tree/transparency/mutate.go
@@ -59,8 +59,8 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 		prefixAdd    []prefix.Entry
 		prefixRemove [][]byte
 	)
-	for _, mutation := range mutations {
-		pa, pr, err := t.mutateLabel(n, prevDLE, mutation)
+	for i := range mutations {
+		pa, pr, err := t.mutateLabel(n, prevDLE, &mutations[i])
 		if err != nil {
 			return nil, err
 		}
@@ -82,8 +82,8 @@ func (t *Tree) Mutate(add []LabelValue, remove [][]byte) (*structs.AuditorUpdate
 		return nil, err
 	}
 
-	// Issue new tree head.
-	if err := t.issueTreeHead(n, timestamp, prefixRoot); err != nil {
+	// Issue new tree head, and write the label mutations along with it.
+	if err := t.issueTreeHead(n, timestamp, prefixRoot, mutations); err != nil {
 		return nil, err
 	}
 
@@ -105,6 +105,12 @@ type labelMutation struct {
 	index  []uint64
 	add    []LabelValue
 	remove bool
+
+	// Populated by mutateLabel. `newIndex` is the label's index after the
+	// mutation, and `newVersions` contains the encoded values of the versions
+	// that were added.
+	newIndex    []uint64
+	newVersions [][]byte
 }
 
 // groupByLabel takes the full set of requested additions and removals and
@@ -156,9 +162,10 @@ func (t *Tree) groupByLabel(add []LabelValue, remove [][]byte) ([]labelMutation,
 	return out, nil
 }
 
-// mutateLabel performs the requested additions and removals for a single label.
-// Version counters are assigned sequentially.
-func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]prefix.Entry, [][]byte, error) {
+// mutateLabel computes the requested additions and removals for a single label.
+// Version counters are assigned sequentially. Nothing is written to the database
+// until writeLabel is called, such that a rejected mutation leaves no trace.
+func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut *labelMutation) ([]prefix.Entry, [][]byte, error) {
 	var (
 		add    []prefix.Entry
 		remove [][]byte
@@ -173,16 +180,8 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 			return nil, nil, fmt.Errorf("unable to delete label that was modified recently: %s", label)
 		}
 
-		// Delete the label's index.
-		if err := t.tx.DeleteIndex(label); err != nil {
-			return nil, nil, err
-		}
-
-		// Delete the value and VRF output of each version.
+		// Delete the VRF output of each version.
 		for ver := range index {
-			if err := t.tx.DeleteVersion(label, uint32(ver)); err != nil {
-				return nil, nil, err
-			}
 			vrfOutput, _, err := t.computeVrfOutput(label, uint32(ver))
 			if err != nil {
 				return nil, nil, err
@@ -190,7 +189,7 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 			remove = append(remove, vrfOutput)
 		}
 
-		index = index[:0]
+		index = nil
 	}
 
 	for _, pair := range mut.add {
@@ -200,27 +199,52 @@ func (t *Tree) mutateLabel(n uint64, prevDLE *uint64, mut labelMutation) ([]pref
 		if err != nil {
 			return nil, nil, err
 		}
-		commitment, err := t.putVersion(pair.Label, ver, pair.Value)
+		labelValue, commitment, err := t.newVersion(pair.Label, ver, pair.Value)
 		if err != nil {
 			return nil, nil, err
 		}
+		mut.newVersions = append(mut.newVersions, labelValue)
 
 		add = append(add, prefix.Entry{VrfOutput: vrfOutput, Commitment: commitment})
 		index = append(index, n)
 	}
+	mut.newIndex = index
+
+	return add, remove, nil
+}
+
+// writeLabel writes the additions and removals computed by mutateLabel.
+func (t *Tree) writeLabel(mut *labelMutation) error {
+	if mut.remove && len(mut.index) > 0 {
+		// Delete the label's index, and the value of each version.
+		if err := t.tx.DeleteIndex(mut.label); err != nil {
+			return err
+		}
+		for ver := range mut.index {
+			if err := t.tx.DeleteVersion(mut.label, uint32(ver)); err != nil {
+				return err
+			}
+		}
+	}
+
 	if len(mut.add) > 0 {
-		if err := t.putIndex(mut.add[0].Label, index); err != nil {
-			return nil, nil, err
+		start := len(mut.newIndex) - len(mut.newVersions)
+		for i, labelValue := range mut.newVersions {
+			if err := t.tx.PutVersion(mut.label, uint32(start+i), labelValue); err != nil {
+				return err
+			}
 		}
+		return t.putIndex(mut.label, mut.newIndex)
 	}
 
-	return add, remove, nil
+	return nil
 }
 
 // issueTreeHead takes as input the current tree size, the new rightmost
 // timestamp, and the new prefix tree root. It adds a new log entry to the right
-// edge of the log tree and then signs and commits a new tree head.
-func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
+// edge of the log tree and then signs and commits a new tree head, along with
+// the given label mutations.
+func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte, mutations []labelMutation) error {
 	logEntry := structs.LogEntry{
 		Timestamp:  timestamp,
 		PrefixTree: prefixRoot,
@@ -248,7 +272,7 @@ func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
 		return err
 	}
 
-	// Sign and persist the new tree head.
+	// Sign the new tree head.
 	tbs, err := structs.Marshal(&structs.TreeHeadTBS{
 		Config:   t.config.Public(),
 		TreeSize: n + 1,
@@ -265,7 +289,15 @@ func (t *Tree) issueTreeHead(n, timestamp uint64, prefixRoot []byte) error {
 	rawTreeHead, err := structs.Marshal(treeHead)
 	if err != nil {
 		return err
-	} else if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
+	}
+
+	// Persist the label mutations and the new tree head.
+	for i := range mutations {
+		if err := t.writeLabel(&mutations[i]); err != nil {
+			return err
+		}
+	}
+	if err := t.tx.PutTreeHead(rawTreeHead); err != nil {
 		return err
 	} else if err := t.tx.Commit(); err != nil {
 		return err
-- 
2.43.0


From 899da220288af11fd479eaca681f0f87140675a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 30/40] fix: auditor forgot recently inserted entries, so they
 could be removed before users saw them

---
 tree/transparency/auditor/auditor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 0688b54..90b509e 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -107,6 +107,7 @@ func (a *Auditor) updateState(
 	if a.state != nil {
 		n = a.state.TreeHead.TreeSize
 		fullSubtrees = a.state.FullSubtrees
+		inserted = a.state.Inserted
 	}
 
 	// Compute the new set of full subtrees of the log tree.
-- 
2.43.0


From 174ea4c0a1cf3f697b3d91cfd57c856b031391a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 31/40] fix: auditor accepted a first update that does not
 start from the empty prefix tree

---
 tree/transparency/auditor/auditor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index 90b509e..be3f376 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -231,7 +231,12 @@ func (a *Auditor) Process(update *structs.AuditorUpdate) error {
 	before, after, err := prefix.EvaluateBeforeAfter(a.config.Suite, update.Added, update.Removed, &update.Proof)
 	if err != nil {
 		return err
-	} else if a.state != nil && !bytes.Equal(before, a.state.PrefixTree) {
+	}
+	prefixTree := make([]byte, a.config.Suite.HashSize()) // Root of an empty prefix tree.
+	if a.state != nil {
+		prefixTree = a.state.PrefixTree
+	}
+	if !bytes.Equal(before, prefixTree) {
 		return errors.New("prefix tree root does not match expected")
 	}
 
-- 
2.43.0


From 84efeecc423dac2d6b09f8a812b4359eede1886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:18 +0000
Subject: [PATCH 32/40] fix: in-memory counter of a managed log skipped a
 version after the first update

---
 db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/memory/memory.go b/db/memory/memory.go
index 051fb76..6a029d4 100644
--- a/db/memory/memory.go
+++ b/db/memory/memory.go
@@ -229,9 +229,9 @@ func (mls *ManagedLogStore) IncrementGreatestVersion(label []byte, count int) (i
 	labelStr := fmt.Sprintf("%x", label)
 
 	ver, ok := mls.Data[labelStr]
-	mls.Data[labelStr] += count
 	if !ok {
-		return -1, nil
+		ver = -1
 	}
+	mls.Data[labelStr] = ver + count
 	return ver, nil
 }
-- 
2.43.0


From 4b2614c8fcaeebf7aed3f7226e5a3ef6faf81b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:18 +0000
Subject: [PATCH 33/40] fix: crash while committing to LevelDB left an update
 without its tree head

---
 db/leveldb.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index a060261..d83ac20 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -54,9 +54,7 @@ func (c *ldbConn) Commit() error {
 
 	b := new(leveldb.Batch)
 	for key, value := range c.batch {
-		if key == leveldbTreeHeadKey {
-			continue
-		} else if value == nil {
+		if value == nil {
 			b.Delete([]byte(key))
 		} else {
 			b.Put([]byte(key), value)
@@ -65,11 +63,6 @@ func (c *ldbConn) Commit() error {
 	if err := c.conn.Write(b, nil); err != nil {
 		return err
 	}
-	if value, ok := c.batch[leveldbTreeHeadKey]; ok {
-		if err := c.conn.Put([]byte(leveldbTreeHeadKey), value, nil); err != nil {
-			return err
-		}
-	}
 
 	c.batch = make(map[string][]byte)
 	return nil
-- 
2.43.0


From 95d9e348bc60cdec12fc712f124fa34edda80c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 34/40] fix: LevelDB store kept serving changes that it failed
 to commit

---
 db/leveldb.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index d83ac20..3a5625b 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -60,12 +60,11 @@ func (c *ldbConn) Commit() error {
 			b.Put([]byte(key), value)
 		}
 	}
-	if err := c.conn.Write(b, nil); err != nil {
-		return err
-	}
 
+	// The pending changes are dropped even if they can't be written, such that
+	// subsequent reads don't return changes that were never committed.
 	c.batch = make(map[string][]byte)
-	return nil
+	return c.conn.Write(b, nil)
 }
 
 // ldbTransparencyStore implements the TransparencyStore interface over a
-- 
2.43.0


From d4552e0fa2218a56ec20c7aa19824dfee2269678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 35/40] fix: contact monitoring stopped following a version
 that shares its log entry with an earlier one

---
 tree/transparency/algorithms/monitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/transparency/algorithms/monitor.go b/tree/transparency/algorithms/monitor.go
index 0265ec4..c428f3e 100644
--- a/tree/transparency/algorithms/monitor.go
+++ b/tree/transparency/algorithms/monitor.go
@@ -265,7 +265,11 @@ func (m *Monitor) ContactMonitor() error {
 		updated, err := m.contactMonitor(x, ver, previous)
 		if err != nil {
 			return err
-		} else if updated != nil {
+		} else if updated == nil {
+			continue
+		}
+		// A greater version of the label may already be monitored from there.
+		if other, ok := ptrs[*updated]; !ok || other < ver {
 			ptrs[*updated] = ver
 		}
 	}
-- 
2.43.0


From 0ec572159106ed11d506010e6b9e173c7d6e2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 36/40] fix: labels could go unmonitored, since searching or
 monitoring one postponed or repeated it wrongly

---
 tree/transparency/client.go        | 27 ++++++++-------------------
 tree/transparency/client_crypto.go | 27 +++++++++++++++++++++------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/tree/transparency/client.go b/tree/transparency/client.go
index ba1b96d..2d18a27 100644
--- a/tree/transparency/client.go
+++ b/tree/transparency/client.go
@@ -98,7 +98,6 @@ func (c *Client) putLabelState(
 	updated *structs.ClientState,
 	label []byte,
 	updatedLabel *structs.ClientLabelState,
-	terminal uint64,
 ) error {
 	raw, err := structs.Marshal(updated)
 	if err != nil {
@@ -111,7 +110,7 @@ func (c *Client) putLabelState(
 			return err
 		}
 	}
-	return c.tx.PutLabelState(raw, label, rawLabel, terminal)
+	return c.tx.PutLabelState(raw, label, rawLabel, nextMonitored(updatedLabel))
 }
 
 // GreatestVersionSearch returns a SearchRequest for the greatest version of
@@ -222,13 +221,11 @@ func (c *Client) search(
 		} else if err := v.addLabelState(labelState); err != nil {
 			return err
 		}
-		terminal, err = updateContactState(labelState, terminal, v.n, target)
-		if err != nil {
-			return err
-		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
+		updateContactState(labelState, terminal, v.n, target)
+		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, terminal)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -317,7 +314,7 @@ func (c *Client) ownerInit(
 		} else if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, req.Start)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -407,15 +404,7 @@ func (c *Client) contactMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-
-		terminal, err := v.rightmostDistinguished()
-		if err != nil {
-			return err
-		} else if terminal == nil {
-			return errors.New("unable to compute rightmost distinguished log entry")
-		}
-
-		return c.putLabelState(updated, req.Label, labelState, *terminal)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -461,7 +450,7 @@ func (c *Client) ownerMonitor(
 		if err := updateRetainedVersions(labelState, v.handle); err != nil {
 			return err
 		}
-		return c.putLabelState(updated, req.Label, labelState, labelState.Owner.Starting)
+		return c.putLabelState(updated, req.Label, labelState)
 	}
 }
 
@@ -616,5 +605,5 @@ func (sv *StreamVerifier) Verify(res *structs.UpdateResponse) error {
 		return err
 	}
 
-	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState, sv.labelState.Owner.Starting)
+	return sv.client.putLabelState(updated, sv.req.Label, sv.labelState)
 }
diff --git a/tree/transparency/client_crypto.go b/tree/transparency/client_crypto.go
index d0c7bcd..48e2499 100644
--- a/tree/transparency/client_crypto.go
+++ b/tree/transparency/client_crypto.go
@@ -384,14 +384,15 @@ func simplifyMonitoringMap(ptrs map[uint64]uint32, n uint64) {
 	}
 }
 
-// updateContactState is used specifically after Search operations. It computes
-// the rightmost terminal log entry for the search, and removes any map entries
-// that no longer need to be monitored as a result of this search.
+// updateContactState is used specifically after Search operations. It adds the
+// terminal log entry `x` of the search to the label's monitoring map, and
+// removes any map entries that no longer need to be monitored as a result of
+// this search.
 func updateContactState(
 	state *structs.ClientLabelState,
 	x, n uint64,
 	ver uint32,
-) (uint64, error) {
+) {
 	contact := algorithms.NewContactState(state.Contact)
 
 	path := append([]uint64{x}, math.RightDirectPath(x, n)...)
@@ -401,12 +402,26 @@ func updateContactState(
 			break
 		}
 		contact.Ptrs[pos] = ver
-		x = pos
 	}
 	simplifyMonitoringMap(contact.Ptrs, n)
 
 	state.Contact = contact.Struct()
-	return x, nil
+}
+
+// nextMonitored returns the leftmost log entry that's still relevant for
+// monitoring the label: as soon as the rightmost distinguished log entry is at
+// or to the right of it, the label needs to be monitored again.
+func nextMonitored(state *structs.ClientLabelState) uint64 {
+	var next uint64
+	if len(state.Contact) > 0 { // Sorted by position.
+		next = state.Contact[0].Position
+	}
+	if owner := state.Owner; owner != nil {
+		if len(state.Contact) == 0 || owner.Starting+1 < next {
+			next = owner.Starting + 1
+		}
+	}
+	return next
 }
 
 // updateRetainedVersions recomputes the set of VRF outputs and commitments that
-- 
2.43.0


From 294826eb3053bf4d08af88323352b6ee8a0e64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:03 +0000
Subject: [PATCH 37/40] fix: auditor tree head newer than the tree head was
 served when both were updated during a read

---
 db/leveldb.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index 3a5625b..9b19036 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -89,16 +89,18 @@ func (ldb *ldbTransparencyStore) Clone() TransparencyStore {
 }
 
 func (ldb *ldbTransparencyStore) GetTreeHead() ([]byte, []byte, error) {
+	// The auditor's tree head is read first, such that it isn't newer than the
+	// tree head if both are being updated.
+	auditor, err := ldb.conn.Get("auditor-tree-head")
+	if err != leveldb.ErrNotFound && err != nil {
+		return nil, nil, err
+	}
 	treeHead, err := ldb.conn.Get(leveldbTreeHeadKey)
 	if err == leveldb.ErrNotFound {
 		return nil, nil, nil
 	} else if err != nil {
 		return nil, nil, err
 	}
-	auditor, err := ldb.conn.Get("auditor-tree-head")
-	if err != leveldb.ErrNotFound && err != nil {
-		return nil, nil, err
-	}
 	return treeHead, auditor, nil
 }
 
-- 
2.43.0


From 5aa1c23a4d576c5171e0fb62439412a6c3842914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:03 +0000
Subject: [PATCH 38/40] fix: requests failed, or were answered inconsistently,
 when the log was updated while serving them

---
 tree/transparency/crypto.go       | 15 +++++++++++++++
 tree/transparency/monitor.go      |  3 +--
 tree/transparency/transparency.go |  6 +++---
 tree/transparency/update.go       | 11 +++++------
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/tree/transparency/crypto.go b/tree/transparency/crypto.go
index 937b235..acff3a9 100644
--- a/tree/transparency/crypto.go
+++ b/tree/transparency/crypto.go
@@ -47,6 +47,21 @@ func (t *Tree) batchGetIndex(labels [][]byte) ([][]uint64, error) {
 	return out, nil
 }
 
+// getIndex returns the index of the given label, without any versions that were
+// added after the current tree head. Such versions exist if the tree has been
+// modified since the tree head was loaded.
+func (t *Tree) getIndex(label []byte) ([]uint64, error) {
+	indices, err := t.batchGetIndex([][]byte{label})
+	if err != nil {
+		return nil, err
+	}
+	index := indices[0]
+	for t.treeHead != nil && len(index) > 0 && index[len(index)-1] >= t.treeHead.TreeSize {
+		index = index[:len(index)-1]
+	}
+	return index, nil
+}
+
 // putIndex updates the stored index of the label.
 func (t *Tree) putIndex(label []byte, index []uint64) error {
 	compressed := make([]uint64, len(index))
diff --git a/tree/transparency/monitor.go b/tree/transparency/monitor.go
index 4151ed0..495fad6 100644
--- a/tree/transparency/monitor.go
+++ b/tree/transparency/monitor.go
@@ -117,11 +117,10 @@ func (t *Tree) startMonitor(last *uint64, label []byte) (*monitorOp, error) {
 	if err != nil {
 		return nil, err
 	}
-	indices, err := t.batchGetIndex([][]byte{label})
+	index, err := t.getIndex(label)
 	if err != nil {
 		return nil, err
 	}
-	index := indices[0]
 
 	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, index)
 	provider := algorithms.NewDataProvider(t.config.Suite, handle)
diff --git a/tree/transparency/transparency.go b/tree/transparency/transparency.go
index 9040398..6b0ef2c 100644
--- a/tree/transparency/transparency.go
+++ b/tree/transparency/transparency.go
@@ -177,13 +177,13 @@ func (t *Tree) Search(
 	}
 
 	// Load label index and determine greatest version that exists, if any.
-	indices, err := t.batchGetIndex([][]byte{req.Label})
+	index, err := t.getIndex(req.Label)
 	if err != nil {
 		return nil, err
 	}
-	greatest := len(indices[0]) - 1
+	greatest := len(index) - 1
 
-	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, indices[0])
+	handle := algorithms.NewProducedProofHandle(t.config.Suite, t.tx, index)
 
 	// Determine which versions we will need VRF outputs for, and also load the
 	// target version of the label.
diff --git a/tree/transparency/update.go b/tree/transparency/update.go
index dd6b451..1661d00 100644
--- a/tree/transparency/update.go
+++ b/tree/transparency/update.go
@@ -98,7 +98,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	for i, val := range req.Values {
 		values[i] = structs.UpdateValue{Value: val.Value}
 	}
-	indices, err := u.tree.batchGetIndex([][]byte{req.Label})
+	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
 	}
@@ -106,7 +106,7 @@ func (u *updater) setRequest(req *structs.UpdateRequest) error {
 	u.last = req.Last
 	u.label = req.Label
 	u.values = values
-	u.index = indices[0]
+	u.index = index
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -137,7 +137,7 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	}
 
 	// Load index and populate updater state.
-	indices, err := u.tree.batchGetIndex([][]byte{req.Label})
+	index, err := u.tree.getIndex(req.Label)
 	if err != nil {
 		return err
 	}
@@ -146,7 +146,7 @@ func (u *updater) setManagerRequest(req *structs.ManagerUpdateRequest) error {
 	u.label = req.Label
 	u.signedVer = &req.SignedVersion
 	u.values = req.Values
-	u.index = indices[0]
+	u.index = index
 	u.ver = 0
 	if req.GreatestVersion != nil {
 		u.ver = int(*req.GreatestVersion) + 1
@@ -324,11 +324,10 @@ func (u *updater) reloadTree(pos uint64) error {
 		return errors.New("reloaded tree does not contain new versions of label")
 	}
 
-	indices, err := u.tree.batchGetIndex([][]byte{u.label})
+	index, err := tree.getIndex(u.label)
 	if err != nil {
 		return err
 	}
-	index := indices[0]
 	if len(index) == 0 || index[len(index)-1] < pos {
 		return errors.New("reloaded index does not contain new versions of label")
 	}
-- 
2.43.0


From eb1f00f5167c1b7a422888ec14c2425c8ef17e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 39/40] fix: auditor returned a signed tree head that it failed
 to persist

---
 tree/transparency/auditor/auditor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tree/transparency/auditor/auditor.go b/tree/transparency/auditor/auditor.go
index be3f376..2464344 100644
--- a/tree/transparency/auditor/auditor.go
+++ b/tree/transparency/auditor/auditor.go
@@ -268,18 +268,21 @@ func (a *Auditor) Commit() (*structs.AuditorTreeHead, error) {
 	if err != nil {
 		return nil, err
 	}
-	a.state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
+	// The tree head isn't considered signed until it's been persisted.
+	state := *a.state
+	state.TreeHead.Signature, err = a.auditorKey.Sign(tbs)
 	if err != nil {
 		return nil, err
 	}
 
 	// Serialize the auditor's state and commit it to the database.
-	raw, err := a.state.Marshal()
+	raw, err := state.Marshal()
 	if err != nil {
 		return nil, err
 	} else if err := a.tx.PutState(raw); err != nil {
 		return nil, err
 	}
+	a.state = &state
 
 	return &a.state.TreeHead, nil
 }
-- 
2.43.0


From 90f87348c6e5b108dcba8027efc34903132ffbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:05 +0000
Subject: [PATCH 40/40] fix: VRF nonce was derived from an unreduced digest,
 unlike RFC 9381 prescribes

---
 crypto/vrf/p256/p256.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/vrf/p256/p256.go b/crypto/vrf/p256/p256.go
index 6ce0212..43c5e10 100644
--- a/crypto/vrf/p256/p256.go
+++ b/crypto/vrf/p256/p256.go
@@ -57,8 +57,11 @@ func mac(key, message []byte) []byte {
 
 // generateNonce deterministically generates a private key from hStr.
 func generateNonce(priv, hStr []byte) []byte {
-	// a. h1 = H(m)
+	// a. h1 = H(m), which is only used as bits2octets(h1): reduced modulo the
+	// order of the group.
 	h1 := sha256.Sum256(hStr)
+	h1Int := new(big.Int).SetBytes(h1[:])
+	h1Int.Mod(h1Int, elliptic.P256().Params().N).FillBytes(h1[:])
 
 	// b. V = 0x01 0x01 ... 0x01
 	V := make([]byte, 32)
-- 
2.43.0

