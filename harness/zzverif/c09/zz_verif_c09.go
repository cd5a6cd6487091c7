// Package c09 checks the search tree over the log against the interval view: a
// node x of level k is the parent of everything in [x-(2^k-1), x+2^k) that
// exists.
package c09

import (
	"math/bits"

	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/zzverif/nd"
)

func level(x uint64) uint64 { return uint64(bits.TrailingZeros64(^x)) }

// cover is the interval [a,b] below x in a tree with n entries.
func cover(x, n uint64) (uint64, uint64) {
	k := level(x)
	a, b := x-(1<<k-1), x+(1<<k-1)
	return a, nd.IteU64(b > n-1, n-1, b)
}

func size() uint64 {
	n := nd.U64("n")
	nd.Assume(n >= uint64(1)<<nd.Param("minbits"))
	if b := nd.Param("bits"); b < 64 {
		nd.Assume(n <= uint64(1)<<b)
	}
	return n
}

// shape is a*2^k + b, with zeros or ones in between.
func shape(name string) uint64 {
	w := nd.Param("ends")
	a, b := uint64(1+nd.Choose(name+" high", 1<<w-1)), uint64(nd.Choose(name+" low", 1<<w))
	m := nd.Param("minshift")
	k := w + m + nd.Choose(name+" shift", 65-2*w-m)
	n := a<<k | b
	if nd.Choose(name+" fill", 2) == 1 {
		n |= (1<<k - 1) &^ (1<<w - 1)
	}
	return n
}

func node(n uint64) uint64 {
	x := nd.U64("x")
	nd.Assume(x < n)
	if ml := nd.Param("minlevel"); ml > 0 {
		nd.Assume(x&(1<<ml-1) == 1<<ml-1)
	}
	return x
}

// Children: the children cover what is left and right of their parent, and
// their parent is their parent.
func Children() {
	n := size()
	x := node(n)
	a, b := cover(x, n)
	nd.Assert(math.IsLeaf(x) == (level(x) == 0), "leaves have level 0")
	if level(x) == 0 {
		nd.Assert(a == x && b == x, "leaves have nothing below")
		nd.Cover("leaf")
		return
	}
	l := math.Left(x)
	la, lb := cover(l, n)
	nd.Assert(nd.And(la == a, lb == x-1), "the left child covers everything to the left")
	nd.Assert(level(l) < level(x), "children are below their parent")
	nd.Assert(math.Parent(l, n) == x, "the parent of the left child")
	nd.Cover("left")
	if x == n-1 {
		return
	}
	r := math.Right(x, n)
	ra, rb := cover(r, n)
	nd.Assert(nd.And(r < n, nd.And(ra == x+1, rb == b)), "the right child covers everything to the right")
	nd.Assert(level(r) < level(x), "children are below their parent")
	nd.Assert(math.Parent(r, n) == x, "the parent of the right child")
	nd.Cover("right")
	if level(r)+1 < level(x) {
		nd.Cover("skipped level")
	}
}

// Parents: every node but the root is one of the children of its parent.
func Parents() {
	n := size()
	x := node(n)
	root := math.Root(n)
	ra, rb := cover(root, n)
	nd.Assert(nd.And(root < n, nd.And(ra == 0, rb == n-1)), "the root covers the log")
	if x == root {
		nd.Cover("root")
		return
	}
	a, b := cover(x, n)
	p := math.Parent(x, n)
	nd.Assert(p < n, "the parent exists")
	pa, pb := cover(p, n)
	nd.Assert(nd.Or(nd.And(pa == a, b == p-1), nd.And(a == p+1, pb == b)), "a node is one side of its parent")
	nd.Assert(level(p) > level(x), "a parent is above its children")
	if x < p {
		nd.Cover("left")
	} else {
		nd.Cover("right")
	}
}

// reference descends from the root to x.
func descend(n, x uint64) []uint64 {
	lo, hi := uint64(0), n // [lo, hi)
	var out []uint64
	for {
		// the node of [lo,hi): the largest power of two minus one that fits
		k := 63 - bits.LeadingZeros64(hi-lo)
		y := lo + 1<<k - 1
		out = append(out, y)
		if y == x {
			return out
		} else if x < y {
			hi = y
		} else {
			lo = y + 1
		}
	}
}

func frontier(n uint64) []uint64 { return descend(n, n-1) }

func eq(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func paths(n, x uint64) {
	path := descend(n, x)
	var right, left []uint64
	for i := len(path) - 2; i >= 0; i-- {
		if path[i] > x {
			right = append(right, path[i])
		} else {
			left = append(left, path[i])
		}
	}
	nd.Assert(eq(math.RightDirectPath(x, n), right), "the right direct path")
	for i, y := range math.LeftDirectPath(x) {
		nd.Assert(i < len(left) && y == left[i], "the left direct path")
	}
	nd.Assert(len(math.LeftDirectPath(x)) == len(left), "the left direct path")
	if len(right) > 0 && len(left) > 0 {
		nd.Cover("both sides")
	}
}

func view(n uint64, m *uint64) {
	f := frontier(n)
	nd.Assert(eq(math.Frontier(n), f), "the frontier is the path to the last entry")
	got := math.UpdateView(n, m)
	var want []uint64
	if m == nil || *m == 0 {
		want = f
	} else if *m < n {
		x := *m - 1
		path := descend(n, x)
		for i := len(path) - 2; i >= 0; i-- {
			if path[i] > x {
				want = append(want, path[i])
			}
		}
		top := x
		if len(want) > 0 {
			top = want[len(want)-1]
		}
		for _, y := range f {
			if y > top {
				want = append(want, y)
			}
		}
	}
	nd.Assert(eq(got, want), "an update visits the ancestors to the right and the rest of the frontier")
	if m != nil && *m > 0 {
		have := map[uint64]bool{}
		for _, y := range math.Frontier(*m) {
			have[y] = true
		}
		for _, y := range got {
			nd.Assert(!have[y], "nothing is visited that is retained")
			have[y] = true
		}
		for _, y := range f {
			nd.Assert(have[y], "the new frontier is retained or visited")
		}
		nd.Cover("update")
	}
}

// Small: paths, frontiers and updates of all small logs.
func Small() {
	n := uint64(1 + nd.Choose("n", nd.Param("max")))
	if nd.Choose("what", 2) == 0 {
		paths(n, uint64(nd.Choose("x", int(n))))
		return
	}
	var m *uint64
	if v := uint64(nd.Choose("m", int(n)+2)); v <= n {
		m = &v
	}
	view(n, m)
}

// Huge: the same for sizes and positions of any length.
func Huge() {
	n, x := shape("n"), shape("x")
	nd.Assume(x < n)
	paths(n, x)
	m := x + 1
	view(n, &m)
	view(n, nil)
}
