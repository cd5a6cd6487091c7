// Package c01 checks the log tree's node arithmetic against the interval view
// of a left-balanced Merkle tree: a node of level k covers the leaves
// [lo, lo+2^k) that exist.
package c01

import (
	"math/bits"

	"github.com/Bren2010/katie/tree/log/math"
	"github.com/Bren2010/katie/zzverif/nd"
)

// level, written independently: the number of trailing one bits.
func level(x uint64) uint64 { return uint64(bits.TrailingZeros64(^x)) }

func size() uint64 {
	if h := nd.Param("hi"); h > 0 {
		// A huge size with few significant bits: hi * 2^k.
		k := nd.Param("kmin") + nd.Choose("k", nd.Param("kmax")-nd.Param("kmin")+1)
		hi := nd.U64("hi")
		nd.Assume(nd.And(hi >= 1, hi < 1<<h))
		return hi << k
	}
	b := nd.Param("bits")
	n := nd.U64("n")
	nd.Assume(nd.And(n >= uint64(1)<<nd.Param("minbits"), n <= uint64(1)<<b))
	return n
}

// node returns an arbitrary node id of a tree with n leaves.
func node(n uint64) uint64 {
	x := nd.U64("x")
	nd.Assume(x <= 2*(n-1))
	if ml := nd.Param("minlevel"); ml > 0 {
		nd.Assume(x&(1<<ml-1) == 1<<ml-1)
	}
	return x
}

func lo(x, k uint64) uint64 { return (x - (1<<k - 1)) >> 1 }

// cover returns the leaf interval [a,b) of node x of level k in an n leaf tree.
func cover(x, k, n uint64) (uint64, uint64) {
	a := lo(x, k)
	b := a + 1<<k
	return a, nd.IteU64(nd.Or(b > n, b < a), n, b)
}

// Level, child, parent and sibling arithmetic for every node of every tree.
func Children() {
	n := size()
	x := node(n)
	k := math.Level(x)
	nd.Assert(k == level(x), "Level is the number of trailing ones")
	nd.Assert(math.IsLeaf(x) == (k == 0), "leaves are the nodes of level 0")
	full := math.IsFullSubtree(x, n)
	a, b := cover(x, k, n)
	nd.Assert(full == (b-a == 1<<k), "a subtree is full exactly if all its 2^level leaves exist")
	if k == 0 {
		nd.Cover("leaf")
		return
	}
	mid := (x + 1) >> 1
	l, r := math.Left(x), math.Right(x, n)
	kl, kr := level(l), level(r)
	nd.Assert(kl == k-1, "left child is one level down")
	la, lb := cover(l, kl, n)
	nd.Assert(nd.And(la == a, lb == mid), "left child covers the left half")
	ra, rb := cover(r, kr, n)
	nd.Assert(nd.And(ra == mid, rb == b), "right child covers the rest")
	nd.Assert(r <= 2*(n-1), "right child is in the tree")
	nd.Assert(kr < k, "right child is below its parent")
	if kr+1 < k {
		nd.Cover("skipped level")
	} else {
		rs := math.RightStep(x)
		nd.Assert(rs == r, "RightStep agrees with Right where no level is skipped")
	}
	nd.Cover("intermediate")
}

// Parents: Parent and Sibling invert Left and Right.
func Parents() {
	n := size()
	x := node(n)
	k := level(x)
	a, b := cover(x, k, n)
	if nd.And(a == 0, b == n) {
		nd.Skip() // the root
	}
	p := math.Parent(x, n)
	nd.Assert(p <= 2*(n-1), "parent is in the tree")
	kp := level(p)
	pa, pb := cover(p, kp, n)
	mid := (p + 1) >> 1
	isL := nd.And(nd.And(pa == a, b == mid), kp == k+1)
	isR := nd.And(nd.And(a == mid, pb == b), kp > k)
	nd.Assert(nd.Or(isL, isR), "a node is the left or the right part of its parent")
	s := math.Sibling(x, n)
	nd.Assert(s <= 2*(n-1), "sibling is in the tree")
	sa, sb := cover(s, level(s), n)
	nd.Assert(nd.Or(nd.And(isL, nd.And(sa == mid, sb == pb)), nd.And(isR, nd.And(sa == pa, sb == mid))),
		"sibling covers the other part of the parent")
	if x < p {
		nd.Cover("left")
	} else {
		nd.Cover("right")
	}
}

// Root: the root of every size covers everything.
func Root() {
	n := size()
	root(n)
	nd.Cover("done")
}

// Roots: the root covers everything; full subtrees tile the tree.
func Roots() {
	n := size()
	root := root(n)
	next := uint64(0)
	last := uint64(64)
	for _, x := range math.FullSubtrees(root, n) {
		kx := level(x)
		nd.Assert(lo(x, kx) == next, "full subtrees are contiguous from the left")
		nd.Assert(kx < last, "full subtrees shrink strictly")
		next += 1 << kx
		last = kx
		nd.Assert(next <= n, "full subtrees are full")
	}
	nd.Assert(next == n, "full subtrees cover the tree")
	nd.Cover("done")
}

func root(n uint64) uint64 {
	root := math.Root(n)
	k := math.Level(root)
	a, b := cover(root, k, n)
	nd.Assert(nd.And(a == 0, b == n), "the root covers every leaf")
	nd.Assert(root <= 2*(n-1), "the root is in the tree")
	nd.Assert(nd.Or(n == 1, nd.And(k >= 1, 1<<(k-1) < n)), "the root is not taller than needed")
	return root
}

// Paths: direct path and copath of a leaf.
func Paths() {
	n := size()
	i := nd.U64("leaf")
	if h := nd.Param("hi"); h > 0 {
		// the first or the last leaf below a node of level k
		nd.Assume(i < 1<<h)
		k := nd.Param("kmin") + nd.Choose("lk", nd.Param("kmax")-nd.Param("kmin")+1)
		i <<= k
		if nd.Choose("last", 2) == 1 {
			i += 1<<k - 1
		}
	}
	nd.Assume(i < n)
	x := 2 * i
	root := math.Root(n)
	dp := math.DirectPath(x, n)
	cp := math.Copath(x, n)
	nd.Assert(len(dp) == len(cp), "one copath node per ancestor")
	ca, cb := i, i+1
	for j := range dp {
		sa, sb := cover(cp[j], level(cp[j]), n)
		pa, pb := cover(dp[j], level(dp[j]), n)
		nd.Assert(nd.Or(nd.And(nd.And(pa == ca, sa == cb), pb == sb), nd.And(nd.And(pa == sa, sb == ca), pb == cb)),
			"each ancestor is the union of the part below and the copath node")
		ca, cb = pa, pb
	}
	nd.Assert(nd.And(ca == 0, cb == n), "the path reaches the root")
	if len(dp) > 0 {
		nd.Assert(dp[len(dp)-1] == root, "the path ends with the root")
		nd.Cover("path")
	}
}

// Chunks: every node that is ever stored has one chunk, of the right height.
func Chunks() {
	n := size()
	x := node(n)
	k := level(x)
	c := math.Chunk(x)
	kc := level(c)
	nd.Assert(nd.And(kc&3 == 3, nd.And(kc >= k, kc-k <= 3)), "the chunk root is the ancestor of level 3 mod 4 within the node's group of four levels")
	// c is x's ancestor in the unbounded tree
	nd.Assert((x>>(kc+1)) == (c>>(kc+1)), "the chunk contains the node")
	nd.Cover("chunk")
}

// Copaths: the batch copath together with the wanted nodes tiles the tree.
func Copaths() {
	maxN := nd.Param("n")
	n := uint64(nd.Choose("n", maxN)) + 1
	var leaves []uint64
	for i := uint64(0); i < n; i++ {
		if nd.Bool("want") {
			leaves = append(leaves, i)
		}
	}
	var nP, m *uint64
	if v := uint64(nd.Choose("m", int(n)+1)); v > 0 {
		m = &v
	}
	if nd.Param("nP") == 1 {
		if v := uint64(nd.Choose("nP", int(n)+1)); v > 0 {
			nP = &v
		}
	}
	cp := math.BatchCopath(leaves, n, nP, m)

	// known: nodes the verifier holds a value for.
	var known, inc []uint64
	for _, l := range leaves {
		known = append(known, 2*l)
	}
	if m != nil {
		known = append(known, subtrees(*m)...)
	}
	if nP != nil {
		inc = subtrees(*nP)
	}
	// every leaf is covered exactly once by the copath and the lowest known nodes
	for i := range cp {
		ka := level(cp[i])
		a := lo(cp[i], ka)
		b := a + 1<<ka
		nd.Assert(b <= n, "copath nodes are full subtrees")
		if i > 0 {
			kb := level(cp[i-1])
			nd.Assert(lo(cp[i-1], kb)+1<<kb <= a, "copath nodes are sorted and disjoint")
		}
		for _, y := range known {
			ky := level(y)
			ya := lo(y, ky)
			// A copath node strictly inside a known node is allowed (it
			// re-proves it), the converse is not.
			nd.Assert(!(ya >= a && ya+1<<ky <= b && !has(inc, cp[i])), "copath nodes contain no node already known")
		}
		for _, y := range inc {
			ky := level(y)
			ya := lo(y, ky)
			nd.Assert(!(ya >= a && ya+1<<ky <= b) || y == cp[i], "copath nodes never swallow a subtree of the additional size")
		}
	}
	for i := uint64(0); i < n; i++ {
		cnt := 0
		for _, x := range cp {
			k := level(x)
			if lo(x, k) <= i && i < lo(x, k)+1<<k {
				cnt++
			}
		}
		kn := false
		for _, x := range known {
			k := level(x)
			if lo(x, k) <= i && i < lo(x, k)+1<<k {
				kn = true
			}
		}
		nd.Assert(cnt <= 1, "no leaf is covered twice")
		nd.Assert(cnt == 1 || kn, "every leaf is under a copath node or a known node")
		if cnt == 1 {
			nd.Cover("copath")
		}
	}
	nd.Cover("done")
}

func has(xs []uint64, x uint64) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// subtrees of a tree of n leaves, from the binary expansion of n.
func subtrees(n uint64) []uint64 {
	var out []uint64
	a := uint64(0)
	for k := 63; k >= 0; k-- {
		if n>>k&1 == 1 {
			out = append(out, 2*a+(1<<k-1))
			a += 1 << k
		}
	}
	return out
}
