// Package c11 checks the search algorithms against what the log contains.
package c11

import (
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/ktl"
	"github.com/Bren2010/katie/zzverif/nd"
)

func config() *structs.PublicConfig {
	return &structs.PublicConfig{Config: structs.Config{
		Suite: kt.New(2), Mode: structs.ContactMonitoring,
		ReasonableMonitoringWindow: ktl.Time("window"), MaximumLifetime: ktl.Time("lifetime"),
	}}
}

// index is where each of up to `versions` versions was added to a log of n
// entries.
func index(n int) []uint64 {
	out := make([]uint64, nd.Choose("versions", nd.Param("versions")+1))
	for i := range out {
		out[i] = nd.U64("added")
		nd.Assume(out[i] < uint64(n))
		if i > 0 {
			nd.Assume(out[i] >= out[i-1])
		}
	}
	return out
}

// fixedIndex is every such index in turn.
func fixedIndex(n int) []uint64 {
	out := make([]uint64, nd.Choose("versions", nd.Param("versions")+1))
	for i := range out {
		lo := 0
		if i > 0 {
			lo = int(out[i-1])
		}
		out[i] = uint64(lo + nd.Choose("added", n-lo))
	}
	return out
}

func size() int { return nd.Param("min") + nd.Choose("n", nd.Param("max")-nd.Param("min")+1) }

// Greatest: the greatest version is accepted, any other claim is rejected.
func Greatest() {
	n := size()
	c := config()
	h := &ktl.Handle{Ts: ktl.Timestamps(n), Index: index(n)}
	ver := nd.Choose("claimed", nd.Param("versions")+2)
	x, err := algorithms.GreatestVersionSearch(c, uint32(ver), uint64(n), algorithms.NewDataProvider(c.Suite, h))
	t := ktl.NewTree(n)
	d := t.Distinguished(h.Ts, c.ReasonableMonitoringWindow)
	if len(h.Index) == 0 && ver == 0 {
		nd.Assert(err == algorithms.ErrLabelNotFound, "a label without versions is not found")
		nd.Cover("not found")
	} else if ver != len(h.Index)-1 {
		nd.Assert(err != nil && err != algorithms.ErrLabelNotFound, "a claim that is not the greatest version is rejected")
		nd.Cover("rejected")
		return
	} else {
		nd.Assert(err == nil, "the greatest version is accepted")
		nd.Cover("accepted")
		nd.Assert(h.Greatest(x) == int64(ver), "the version is the greatest at the terminal entry")
	}
	// the search inspects the frontier from the rightmost distinguished entry
	i := 0
	frontier := t.Path(n - 1)
	for j, y := range frontier {
		last := d[y]
		if j+1 < len(frontier) {
			last = nd.And(d[y], nd.Not(d[frontier[j+1]]))
		}
		if nd.Or(last, nd.Not(d[frontier[0]])) {
			i = j
			break
		}
	}
	nd.Assert(len(h.Ladders) == len(frontier)-i, "the frontier is inspected")
	first := true
	for j, l := range h.Ladders {
		y := frontier[i+j]
		nd.Assert(l.X == uint64(y) && l.Ver == uint32(ver) && l.Omit, "the frontier is inspected from the rightmost distinguished entry")
		if err == nil && first && h.Greatest(uint64(y)) == int64(ver) {
			first = false
			nd.Assert(x == uint64(y), "the terminal entry is the first on the frontier with the version")
		}
	}
}

// Contradiction: whatever the number of versions in each entry and whatever the
// timestamps, a claim is accepted only if it is the greatest at the end and was
// never exceeded.
func Contradiction() {
	n := size()
	c := config()
	cnt := make([]int64, n)
	for i := range cnt {
		cnt[i] = int64(nd.U8("count"))
	}
	ts := make([]uint64, n)
	for i := range ts {
		ts[i] = nd.U64("timestamp")
	}
	h := &ktl.Handle{Ts: ts, Versions: func(x uint64) int64 { return cnt[x] }}
	ver := nd.U8("claimed")
	x, err := algorithms.GreatestVersionSearch(c, uint32(ver), uint64(n), algorithms.NewDataProvider(c.Suite, h))
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Assert(cnt[n-1] == int64(ver)+1, "the claim is the greatest version in the last entry")
	nd.Assert(cnt[x] == int64(ver)+1, "the claim is the greatest version in the terminal entry")
	for _, l := range h.Ladders {
		nd.Assert(cnt[l.X] <= int64(ver)+1, "the claim is never exceeded")
	}
	for _, a := range h.Timestamps {
		for _, b := range h.Timestamps {
			nd.Assert(nd.Or(a >= b, ts[a] <= ts[b]), "timestamps do not decrease")
		}
	}
	nd.Cover("accepted")
}

// Fixed: a search for one version.
func Fixed() {
	n := size()
	c := config()
	h := &ktl.Handle{Ts: ktl.Timestamps(n), Index: fixedIndex(n)}
	ver := int64(nd.Choose("target", nd.Param("versions")+1))
	x, err := algorithms.FixedVersionSearch(c, uint32(ver), uint64(n), algorithms.NewDataProvider(c.Suite, h))
	g := make([]int64, n)
	live := make([]bool, n) // not expired
	mark := make([]bool, n) // distinguished and not expired
	d := ktl.NewTree(n).Distinguished(h.Ts, c.ReasonableMonitoringWindow)
	for i := range g {
		g[i] = h.Greatest(uint64(i))
		live[i] = nd.Or(c.MaximumLifetime == 0, h.Ts[n-1]-h.Ts[i] < c.MaximumLifetime)
		mark[i] = nd.And(d[i], live[i])
	}
	nd.Assert((err == algorithms.ErrLabelNotFound) == (g[n-1] < ver), "a version is not found exactly if it does not exist")
	inspected := true // everything inspected is live
	for _, y := range h.Timestamps {
		inspected = nd.And(inspected, live[y])
	}
	switch err {
	case algorithms.ErrLabelNotFound:
		nd.Cover("not found")

	case algorithms.ErrLabelExpired:
		nd.Assert(nd.Not(inspected), "nothing expires in a log without expired entries")
		for y := range g {
			// an unexpired distinguished entry y: the version appeared in it
			// at the latest, but it isn't the greatest.
			before := false
			for z := 0; z <= y; z++ {
				before = nd.Or(before, nd.And(live[z], g[z] >= ver))
			}
			nd.Assert(nd.Or(nd.Not(mark[y]), nd.And(before, g[y] != ver)), "a version that appears after an unexpired distinguished entry, or is the greatest in it, is not expired")
		}
		nd.Cover("expired")

	case nil:
		nd.Assert(x < uint64(n), "the terminal entry exists")
		nd.Assert(live[x], "the terminal entry is not expired")
		nd.Assert(g[x] >= ver, "the terminal entry contains the version")
		ok := inspected
		for y := 0; y <= int(x); y++ {
			if y < int(x) || g[x] == ver {
				ok = nd.Or(ok, mark[y])
			}
		}
		nd.Assert(ok, "an expired version is reported as such")
		if len(h.Inclusions) > 0 {
			l := h.Inclusions[0]
			nd.Assert(len(h.Inclusions) == 1 && l.X == x && l.Ver == uint32(ver), "the version is looked up in the terminal entry")
			for y := range g {
				nd.Assert(nd.Or(nd.Not(live[y]), g[y] != ver), "the version is nowhere the greatest")
				nd.Assert(nd.Or(nd.Or(y >= int(x), nd.Not(live[y])), g[y] < ver), "the terminal entry is the first to contain the version")
			}
			nd.Cover("passed over")
		} else {
			nd.Assert(g[x] == ver, "the version is the greatest at the terminal entry")
			nd.Cover("found")
		}

	default:
		nd.Assert(false, "an honest history is not rejected")
	}
}

type liar struct {
	ktl.Handle
	roots [][]byte
}

func (l *liar) next() []byte {
	r := nd.Bytes("root", 2)
	l.roots = append(l.roots, r)
	return r
}

func (l *liar) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	return l.next(), 0, nil
}
func (l *liar) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) { return l.next(), nil }
func (l *liar) GetInclusionProof(x uint64, vers []uint32) ([]byte, error)      { return l.next(), nil }

// Roots: every proof about an entry must have the same prefix tree root.
func Roots() {
	n := 4
	c := config()
	h := &liar{Handle: ktl.Handle{Ts: ktl.Timestamps(n)}}
	p := algorithms.NewDataProvider(c.Suite, h)
	var roots [][]byte
	x := uint64(nd.Choose("entry", n))
	if nd.Choose("retained", 2) == 1 {
		roots = append(roots, nd.Bytes("retained", 2))
		nd.Assert(p.AddRetained(nil, map[uint64]structs.LogEntry{x: {Timestamp: h.Ts[x], PrefixTree: roots[0]}}) == nil, "entries can be retained")
	}
	for i := 0; i < nd.Param("steps"); i++ {
		h.roots = nil
		y := uint64(nd.Choose("other", 2))
		if y == 0 {
			y = x
		} else {
			y = (x + 1) % uint64(n)
		}
		var err error
		switch nd.Choose("kind", 3) {
		case 0:
			_, err = p.GetSearchBinaryLadder(y, 0, true)
		case 1:
			err = p.GetMonitoringBinaryLadder(y, 0)
		case 2:
			err = p.GetInclusionProof(y, []uint32{0})
		}
		if y != x {
			nd.Assume(err == nil)
			continue
		}
		ok := true
		for _, r := range h.roots {
			for _, o := range roots {
				ok = nd.And(ok, nd.EqBytes(r, o))
			}
		}
		nd.Assert((err == nil) == ok, "two proofs about an entry are accepted exactly if their roots agree")
		if err != nil {
			nd.Cover("conflict")
			return
		}
		roots = append(roots, h.roots...)
	}
	nd.Cover("done")
}
