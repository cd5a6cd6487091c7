// Package ktl models the log behind the proofs of the transparency tree.
package ktl

import (
	"errors"

	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/nd"
)

// Handle is a source of proofs about a log with the given timestamps where
// version i of the label was added at entry Index[i].
type Handle struct {
	Ts    []uint64
	Index []uint64

	// Versions counts the versions at an entry, if it isn't given by Index.
	Versions func(x uint64) int64

	Timestamps  []uint64 // entries whose timestamp was asked for
	Ladders     []Ladder // binary ladders that were asked for
	Inclusions  []Ladder
	MaxLadders  int
	tracker     math.VersionTracker
	Consistency bool
}

// Ladder is a lookup that was made.
type Ladder struct {
	X       uint64
	Ver     uint32
	Omit    bool
	Monitor bool
}

// Greatest is the greatest version at x, or -1.
func (h *Handle) Greatest(x uint64) int64 {
	if h.Versions != nil {
		return h.Versions(x) - 1
	}
	g := uint64(0)
	for _, p := range h.Index {
		g += nd.IteU64(p <= x, 1, 0)
	}
	return int64(g) - 1
}

func (h *Handle) GetTimestamp(x uint64) (uint64, error) {
	if x >= uint64(len(h.Ts)) {
		nd.Assert(false, "only entries of the log are visited")
	}
	h.Timestamps = append(h.Timestamps, x)
	return h.Ts[x], nil
}

func (h *Handle) root(x uint64) []byte { return []byte{byte(x >> 8), byte(x)} }

func (h *Handle) GetSearchBinaryLadder(x uint64, ver uint32, omit bool) ([]byte, int, error) {
	h.Ladders = append(h.Ladders, Ladder{x, ver, omit, false})
	g := h.Greatest(x)
	if g < int64(ver) {
		return h.root(x), -1, nil
	} else if g > int64(ver) {
		return h.root(x), 1, nil
	}
	return h.root(x), 0, nil
}

func (h *Handle) GetMonitoringBinaryLadder(x uint64, ver uint32) ([]byte, error) {
	h.Ladders = append(h.Ladders, Ladder{x, ver, false, true})
	if h.Greatest(x) < int64(ver) {
		return nil, errors.New("not included")
	}
	return h.root(x), nil
}

func (h *Handle) GetInclusionProof(x uint64, vers []uint32) ([]byte, error) {
	for _, v := range vers {
		h.Inclusions = append(h.Inclusions, Ladder{x, v, false, false})
		if h.Greatest(x) < int64(v) {
			return nil, errors.New("not included")
		}
	}
	return h.root(x), nil
}

func (h *Handle) GetPrefixTrees(xs []uint64) ([][]byte, error) {
	var out [][]byte
	for _, x := range xs {
		out = append(out, h.root(x))
	}
	return out, nil
}

func (h *Handle) Finish() ([][]byte, error) { return nil, nil }

func (h *Handle) Output(leaves []uint64, n uint64, nP, m *uint64) (*structs.CombinedTreeProof, error) {
	return nil, errors.New("unused")
}

// StopCondition ends owner monitoring after MaxLadders.
func (h *Handle) StopCondition(x uint64, ver int) bool {
	return h.MaxLadders > 0 && len(h.Ladders) >= h.MaxLadders
}

func (h *Handle) Tracker() *math.VersionTracker { return &h.tracker }

// Time is an arbitrary time, of 16 bits if so configured.
func Time(name string) uint64 {
	if nd.Param("time16") == 1 {
		return uint64(nd.U16(name))
	}
	return nd.U64(name)
}

// Timestamps are n arbitrary timestamps that do not decrease.
func Timestamps(n int) []uint64 {
	out := make([]uint64, n)
	for i := range out {
		out[i] = Time("timestamp")
		if i > 0 {
			nd.Assume(out[i] >= out[i-1])
		}
	}
	return out
}

// Tree is the search tree over a log of n entries, by entry.
type Tree struct {
	Left, Right, Parent []int // -1 if there is none
	Root                int
}

// NewTree builds the search tree of n > 0 entries.
func NewTree(n int) *Tree {
	t := &Tree{make([]int, n), make([]int, n), make([]int, n), -1}
	var build func(lo, hi, parent int) int
	build = func(lo, hi, parent int) int {
		if lo >= hi {
			return -1
		}
		k := 1
		for 2*k <= hi-lo {
			k *= 2
		}
		x := lo + k - 1
		t.Parent[x] = parent
		t.Left[x] = build(lo, x, x)
		t.Right[x] = build(x+1, hi, x)
		return x
	}
	t.Root = build(0, n, -1)
	return t
}

// Path is the path from the root to x.
func (t *Tree) Path(x int) []int {
	if x < 0 {
		return nil
	}
	return append(t.Path(t.Parent[x]), x)
}

// Distinguished computes which entries are distinguished: those reached from
// the root through distinguished entries where the timestamps surrounding the
// entry's part of the log are at least a window apart.
func (t *Tree) Distinguished(ts []uint64, window uint64) []bool {
	out := make([]bool, len(ts))
	var walk func(x int, above bool, left, right uint64)
	walk = func(x int, above bool, left, right uint64) {
		if x < 0 {
			return
		}
		out[x] = nd.And(above, right-left >= window)
		walk(t.Left[x], out[x], left, ts[x])
		walk(t.Right[x], out[x], ts[x], right)
	}
	walk(t.Root, true, 0, ts[len(ts)-1])
	return out
}
