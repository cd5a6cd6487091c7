// Package c03 checks that the stored log is the Merkle tree of what was
// appended.
package c03

import (
	"errors"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/log"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// History appends `max` arbitrary leaves, reopening the log whenever, and
// compares every root with the Merkle tree hash.
func History() {
	s := kt.New(nd.Param("hash"))
	tx := memory.NewLogStore()
	t := log.NewTree(s, tx)
	var leaves, aud [][]byte
	max := nd.Param("max")
	for i := 0; i < max; i++ {
		l := nd.Bytes("leaf", s.H)
		full, err := t.Append(uint64(i), l)
		nd.Assert(err == nil, "appending succeeds")
		leaves = append(leaves, l)
		want := kt.LogSubtrees(s, leaves)
		nd.Assert(kt.EqList(full, want), "appending gives the full subtrees of everything appended")
		root, err := log.Root(s, uint64(i+1), full)
		nd.Assert(err == nil && nd.EqBytes(root, kt.LogRoot(s, leaves).Value), "the root is the Merkle tree hash of everything appended")
		aud, err = log.Append(s, uint64(i), aud, l)
		nd.Assert(err == nil && kt.EqList(aud, want), "appending to the full subtrees alone gives the same")
		if nd.Param("reopen") == 1 {
			t = log.NewTree(s, tx)
		}
	}
	// every node that was ever full is still served with its value
	n := 1 + nd.Choose("earlier size", max)
	got, err := t.GetBatch(nil, uint64(n), nil, nil)
	nd.Assert(err == nil && kt.EqList(got, kt.LogSubtrees(s, leaves[:n])), "earlier trees are unchanged")
	x := nd.Choose("entry", max)
	m := uint64(x + 1)
	got, err = t.GetBatch(nil, uint64(x+1), nil, nil)
	nd.Assert(err == nil && len(got) > 0, "earlier trees are served")
	v := log.NewVerifier(s)
	p, err := t.GetBatch([]uint64{uint64(x)}, uint64(max), nil, &m)
	nd.Assert(err == nil, "a proof of an earlier entry is served")
	nd.Assert(v.Retain(m, got) == nil, "an earlier tree can be retained")
	full, _, err := v.Evaluate([]uint64{uint64(x)}, uint64(max), nil, [][]byte{leaves[x]}, p)
	nd.Assert(err == nil && kt.EqList(full, kt.LogSubtrees(s, leaves)), "an earlier entry is unchanged")
	nd.Cover("done")
}

// size is n = a*2^k + b: all sizes with arbitrary high and low bits and zeros
// or ones in between.
func size() uint64 {
	w := nd.Param("ends")
	a, b := uint64(1+nd.Choose("high", 1<<w-1)), uint64(nd.Choose("low", 1<<w))
	k := w + nd.Choose("shift", nd.Param("shifts"))
	n := a<<k | b
	if nd.Choose("fill", 2) == 1 {
		n |= (1<<k - 1) &^ (1<<w - 1)
	}
	return n
}

type ref struct {
	s kt.Suite
	n uint64
	v map[uint64][]byte
}

func level(x uint64) uint {
	k := uint(0)
	for x>>k&1 == 1 {
		k++
	}
	return k
}

// value of the full node x: what is stored at every fourth level is arbitrary,
// the rest is the hash of the children.
func (r *ref) value(x uint64) kt.LogNode {
	k := level(x)
	if k%4 == 0 {
		b, ok := r.v[x]
		if !ok {
			b = nd.Bytes("stored", r.s.H)
			r.v[x] = b
		}
		return kt.LogNode{Leaf: k == 0, Value: b}
	}
	return kt.LogParent(r.s, r.value(x^(1<<(k-1))), r.value(x^(3<<(k-1))))
}

func (r *ref) hash(x uint64) kt.LogNode {
	k := level(x)
	return kt.LogParent(r.s, r.value(x^(1<<(k-1))), r.value(x^(3<<(k-1))))
}

// subtrees are the full subtrees of a tree with n leaves.
func subtrees(n uint64) []uint64 {
	var out []uint64
	lo := uint64(0)
	for k := 62; k >= 0; k-- {
		if n>>k&1 == 1 {
			out = append(out, 2*lo+1<<k-1)
			lo += 1 << k
		}
	}
	return out
}

// chunk is the content of the stored chunk with root id (of level 4j+3) in a
// tree with n leaves: the nodes of level 4j below it that are full.
func (r *ref) chunk(id, n uint64) ([]byte, bool) {
	k := level(id)
	if k%4 != 3 {
		return nil, false
	}
	lo := (id - (1<<k - 1)) / 2
	w := uint64(1) << (k - 3)
	var out []byte
	for i := uint64(0); i < 8 && lo+(i+1)*w <= n; i++ {
		out = append(out, r.value(2*(lo+i*w)+w-1).Value...)
	}
	return out, len(out) > 0
}

type store struct {
	r   *ref
	put map[uint64][]byte
}

func (t *store) BatchGet(keys []uint64) (map[uint64][]byte, error) {
	out := make(map[uint64][]byte)
	for _, k := range keys {
		if b, ok := t.put[k]; ok {
			out[k] = append([]byte(nil), b...)
		} else if b, ok := t.r.chunk(k, t.r.n); ok {
			out[k] = b
		}
	}
	return out, nil
}

func (t *store) Put(k uint64, v []byte) error {
	t.put[k] = append([]byte(nil), v...)
	return nil
}

func (t *store) Delete(k uint64) error { return errors.New("the log never deletes") }

// Huge appends to a log of any size up to 2^62 with arbitrary contents: the
// chunks written are those of the longer log, and nothing else changes.
func Huge() {
	n := size()
	nd.Assume(n < 1<<62)
	r := &ref{s: kt.New(nd.Param("hash")), n: n, v: map[uint64][]byte{}}
	tx := &store{r: r, put: map[uint64][]byte{}}
	leaf := nd.Bytes("leaf", r.s.H)
	var before [][]byte
	for _, x := range subtrees(n) {
		before = append(before, r.value(x).Value)
	}
	full, err := log.NewTree(r.s, tx).Append(n, leaf)
	nd.Assert(err == nil, "appending succeeds at every size")
	// the nodes that become full
	r.v[2*n] = leaf
	fresh := map[uint64]bool{2 * n: true}
	for k := uint(1); (n+1)%(1<<k) == 0; k++ {
		x := 2*(n+1-1<<k) + 1<<k - 1
		if k%4 == 0 {
			r.v[x] = r.hash(x).Value
			fresh[x] = true
			nd.Cover("carry into the next chunk level")
		}
	}
	var want [][]byte
	for _, x := range subtrees(n + 1) {
		want = append(want, r.value(x).Value)
	}
	nd.Assert(kt.EqList(full, want), "appending gives the full subtrees of everything appended")
	aud, err := log.Append(r.s, n, before, leaf)
	nd.Assert(err == nil && kt.EqList(aud, want), "appending to the full subtrees alone gives the same")
	for id, b := range tx.put {
		c, ok := r.chunk(id, n+1)
		nd.Assert(ok && nd.EqBytes(b, c), "every chunk written is right")
	}
	for x := range fresh {
		k := level(x)
		id := x
		for ; level(id) != k+3; id = id>>(level(id)+2)<<(level(id)+2) | (1<<(level(id)+1) - 1) {
		}
		_, ok := tx.put[id]
		nd.Assert(ok, "every chunk that changes is written")
	}
	// the root
	root, err := log.Root(r.s, n+1, full)
	nd.Assert(err == nil, "the full subtrees give a root")
	acc := kt.LogNode{}
	st := subtrees(n + 1)
	for i := len(st) - 1; i >= 0; i-- {
		if i == len(st)-1 {
			acc = r.value(st[i])
		} else {
			acc = kt.LogParent(r.s, r.value(st[i]), acc)
		}
	}
	nd.Assert(nd.EqBytes(root, acc.Value), "the root rolls up the full subtrees")
	// and it can be served
	r.n = n + 1
	got, err := log.NewTree(r.s, tx).GetBatch(nil, n+1, nil, nil)
	nd.Assert(err == nil && kt.EqList(got, want), "the longer log is served")
	nd.Cover("appended")
}

// Limit: beyond the maximal size nothing is accepted.
func Limit() {
	s := kt.New(nd.Param("hash"))
	n := nd.U64("n")
	nd.Assume(n >= 1<<63)
	tx := memory.NewLogStore()
	_, err := log.NewTree(s, tx).Append(n, make([]byte, s.H))
	nd.Assert(err != nil, "a log beyond the maximal size is rejected")
	_, err = log.Root(s, n, [][]byte{make([]byte, s.H)})
	nd.Assert(nd.Or(err != nil, n == 1<<63), "a log beyond the maximal size is rejected")
	l := nd.Choose("len", 5)
	if l != s.H {
		_, err = log.NewTree(s, tx).Append(0, make([]byte, l))
		nd.Assert(err != nil, "a leaf of the wrong size is rejected")
		_, err = log.Root(s, 1, [][]byte{make([]byte, l)})
		nd.Assert(err != nil, "a subtree of the wrong size is rejected")
	}
	nd.Cover("rejected")
}
