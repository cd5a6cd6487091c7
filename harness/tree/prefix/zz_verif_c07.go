package prefix

import (
	"bytes"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// zzNode is an arbitrary subtree of height at most h with arbitrary contents.
// Types: leaf, external, empty, parent.
func zzNode(s kt.Suite, h, depth int, wide bool) node {
	n := 3
	if h > 0 {
		n = 4
	}
	switch nd.Choose("node", n) {
	case 0:
		return leafNode{nd.Bytes("vrf", s.H), nd.Bytes("com", s.H)}
	case 1:
		id := tileId{ver: 7, ctr: 300}
		if wide && zzSeen == 0 {
			zzSeen++
			id = tileId{ver: nd.U64("ver"), ctr: nd.U64("ctr")}
		}
		return externalNode{nd.Bytes("hash", s.H), id}
	case 2:
		return emptyNode{}
	default:
		return &parentNode{left: zzNode(s, h-1, depth+1, wide), right: zzNode(s, h-1, depth+1, wide)}
	}
}

func zzSame(a, b node) bool {
	switch a := a.(type) {
	case emptyNode:
		_, ok := b.(emptyNode)
		return ok
	case leafNode:
		b, ok := b.(leafNode)
		return ok && nd.And(nd.EqBytes(a.vrfOutput, b.vrfOutput), nd.EqBytes(a.commitment, b.commitment))
	case externalNode:
		b, ok := b.(externalNode)
		return ok && nd.And(nd.EqBytes(a.hash, b.hash), nd.And(a.id.ver == b.id.ver, a.id.ctr == b.id.ctr))
	case *parentNode:
		b, ok := b.(*parentNode)
		return ok && nd.And(zzSame(a.left, b.left), zzSame(a.right, b.right))
	}
	return false
}

// zzHash is the hash of a node by definition, ignoring what is cached.
func zzHash(s kt.Suite, n node) []byte {
	switch n := n.(type) {
	case leafNode:
		return nd.Hash("h", kt.Cat([]byte{2}, n.vrfOutput, n.commitment), s.H)
	case externalNode:
		return n.hash
	case *parentNode:
		return nd.Hash("h", kt.Cat([]byte{3}, zzHash(s, n.left), zzHash(s, n.right)), s.H)
	}
	return make([]byte, s.H)
}

func zzCopy(n node) node {
	if p, ok := n.(*parentNode); ok {
		return &parentNode{left: zzCopy(p.left), right: zzCopy(p.right)}
	}
	return n
}

// ZzRoundtrip: what is written is what is read back.
func ZzRoundtrip() {
	s := kt.New(nd.Param("hash"))
	depth := nd.Param("depth") + nd.Choose("depth", nd.Param("depths"))
	zzSeen = 0
	n := zzNode(s, nd.Param("height"), depth, nd.Param("wide") == 1)
	want := zzHash(s, n)
	nd.Assert(nd.EqBytes(n.Hash(s), want), "the hash of a node follows from its contents")
	buf := &bytes.Buffer{}
	n.Marshal(s, depth, buf)
	raw := append([]byte(nil), buf.Bytes()...)
	m, err := unmarshalNode(s, nil, depth, buf)
	nd.Assert(err == nil, "an encoded subtree decodes")
	nd.Assert(buf.Len() == 0, "decoding consumes the encoding")
	nd.Assert(zzSame(n, m), "the same subtree is read back")
	nd.Assert(nd.EqBytes(m.Hash(s), want), "its hash is the same")
	buf2 := &bytes.Buffer{}
	m.Marshal(s, depth, buf2)
	nd.Assert(nd.EqBytes(raw, buf2.Bytes()), "it encodes to the same bytes again")
	if len(raw) > 1 {
		// a truncated encoding never passes for a subtree
		k := nd.Choose("cut", len(raw))
		if k == 0 || nd.Param("cut") == 1 {
			_, err = unmarshalNode(s, nil, depth, bytes.NewBuffer(raw[:k]))
			nd.Assert(err != nil, "a truncated encoding is rejected")
			nd.Cover("truncated")
		}
	}
	nd.Cover("roundtrip")
}

// ZzGarbage: decoding arbitrary bytes gives an error or a subtree that is
// stable under encoding.
func ZzGarbage() {
	s := kt.New(nd.Param("hash"))
	depth := nd.Choose("depth", 4)
	raw := nd.Bytes("raw", nd.Choose("len", nd.Param("len")+1))
	buf := bytes.NewBuffer(append([]byte(nil), raw...))
	n, err := unmarshalNode(s, nil, depth, buf)
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	out := &bytes.Buffer{}
	n.Marshal(s, depth, out)
	nd.Assert(out.Len() <= len(raw)-buf.Len(), "encoding is no longer than what was read")
	m, err := unmarshalNode(s, nil, depth, out)
	nd.Assert(err == nil && zzSame(n, m), "the same subtree is read back")
}

// ZzTile: a store with an arbitrary tile in it never panics a search.
func ZzTile() {
	s := kt.New(nd.Param("hash"))
	tx := memory.NewPrefixStore()
	raw := nd.Bytes("raw", nd.Choose("len", nd.Param("len")+1))
	if len(raw) > 0 {
		nd.Assume(raw[0] == 0) // depth of a version's first tile
	}
	tx.Put("1:0", raw)
	q := kt.SymVrf("q", s, nd.Param("bits"))
	r, err := NewTree(s, tx).Search([]PrefixSearch{{Version: 1, VrfOutputs: [][]byte{q}}})
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Assert(len(r) == 1 && len(r[0].Proof.Results) == 1, "a result is given")
	nd.Cover("found")
}

// ZzSplit: tiles are small enough, numbered in order, and together they are
// the tree.
func ZzSplit() {
	s := kt.New(nd.Param("hash"))
	full := nd.Param("full")
	var build func(depth int) node
	build = func(depth int) node {
		if depth < full {
			return &parentNode{left: build(depth + 1), right: build(depth + 1)}
		}
		if full > 0 && nd.Param("sym") < 1<<full && depth == full {
			// only the first few subtrees vary
			if zzSeen >= nd.Param("sym") {
				return leafNode{kt.Fill(1, s.H), kt.Fill(2, s.H)}
			}
			zzSeen++
		}
		return zzNode(s, nd.Param("height"), depth, false)
	}
	zzSeen = 0
	root := build(0)
	orig := zzCopy(root)
	want := zzHash(s, root)
	ver := uint64(9)
	tiles := splitIntoTiles(s, ver, root)
	nd.Assert(len(tiles) > 0, "there is a tile")
	byId := map[tileId]tile{}
	for i, t := range tiles {
		nd.Assert(t.id == tileId{ver: ver, ctr: uint64(i)}, "tiles are numbered in order")
		raw, err := t.Marshal(s)
		nd.Assert(err == nil, "a tile encodes")
		nd.Assert(len(raw)-1 <= MaxTileWeight, "a tile is within its size limit")
		buf := bytes.NewBuffer(raw[1:])
		nd.Assert(int(raw[0]) == t.depth, "a tile records its depth")
		n, err := unmarshalNode(s, nil, t.depth, buf)
		nd.Assert(err == nil && buf.Len() == 0, "a tile decodes")
		t.root = n
		byId[t.id] = t
	}
	used := 0
	var join func(n node, depth int) node
	join = func(n node, depth int) node {
		switch n := n.(type) {
		case *parentNode:
			return &parentNode{left: join(n.left, depth+1), right: join(n.right, depth+1)}
		case externalNode:
			if n.id.ver != ver {
				return n
			}
			t, ok := byId[n.id]
			nd.Assert(ok, "every reference is to a tile that exists")
			nd.Assert(t.depth == depth, "a tile has the depth of the reference to it")
			delete(byId, n.id)
			used++
			nd.Assert(nd.EqBytes(n.hash, zzHash(s, t.root)), "a reference carries the hash of the tile")
			return join(t.root, depth)
		}
		return n
	}
	first := byId[tileId{ver: ver, ctr: 0}]
	nd.Assert(first.depth == 0, "the first tile is the root")
	got := join(first.root, 0)
	nd.Assert(used == len(tiles)-1, "every tile is referenced once")
	nd.Assert(zzSame(orig, got), "the tiles together are the tree")
	nd.Assert(nd.EqBytes(zzHash(s, got), want), "the root hash is unchanged")
	if len(tiles) > 1 {
		nd.Cover("split")
	}
	if len(tiles) > 2 {
		nd.Cover("split often")
	}
}

var zzSeen int
