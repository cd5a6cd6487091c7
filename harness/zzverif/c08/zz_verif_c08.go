// Package c08 checks binary ladders against the comparison they decide.
package c08

import (
	"bytes"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// version is any version below 2^bits, and those of the form a*2^k + b with
// zeros or ones in between.
func version() uint32 {
	if b := nd.Param("bits"); b > 0 {
		return uint32(nd.Choose("version", 1<<b))
	}
	w := nd.Param("ends")
	a, b := uint32(1+nd.Choose("high", 1<<w-1)), uint32(nd.Choose("low", 1<<w))
	m := nd.Param("minshift")
	k := w + m + nd.Choose("shift", 33-2*w-m)
	n := a<<k | b
	if nd.Choose("fill", 2) == 1 {
		n |= (1<<k - 1) &^ (1<<w - 1)
	}
	return n
}

// proof is a prefix proof with the given results.
func proof(included []bool) *prefix.PrefixProof {
	b := []byte{byte(len(included))}
	for _, in := range included {
		if in {
			b = append(b, 1, 0)
		} else {
			b = append(b, 3, 0)
		}
	}
	p, err := prefix.NewPrefixProof(kt.New(2), bytes.NewBuffer(append(b, 0, 0)))
	nd.Assert(err == nil, "a well-formed proof decodes")
	return p
}

func sign(greatest, target int64) int {
	if greatest < target {
		return -1
	} else if greatest > target {
		return 1
	}
	return 0
}

// Shape: the ladder of any target has distinct versions, starts with 0 and
// contains the target and its successor; the monitoring ladder is the part up
// to the target.
func Shape() {
	t := version()
	ladder := math.SearchBinaryLadder(t, t, nil, nil)
	nd.Assert(len(ladder) <= 66 && ladder[0] == 0, "the ladder is logarithmic and starts with version 0")
	seen := map[uint32]bool{}
	var low []uint32
	for _, v := range ladder {
		nd.Assert(!seen[v], "the ladder consists of distinct versions")
		seen[v] = true
		if v <= t {
			low = append(low, v)
		}
	}
	nd.Assert(seen[t] && (t == 1<<32-1 || seen[t+1]), "the ladder contains the target and its successor")
	mon := math.MonitoringBinaryLadder(t)
	nd.Assert(len(mon) == len(low), "the monitoring ladder has the versions up to the target")
	for i := range mon {
		nd.Assert(mon[i] == low[i], "the monitoring ladder has the versions up to the target")
	}
	// looking up version v never depends on the answers, except for ending
	n := nd.U32("n")
	part := math.SearchBinaryLadder(t, n, nil, nil)
	nd.Assert(len(part) <= len(ladder), "a ladder ends early or not at all")
	for i := range part {
		nd.Assert(part[i] == ladder[i], "a ladder ends early or not at all")
	}
	if len(part) < len(ladder) {
		nd.Cover("early")
	} else {
		nd.Cover("complete")
	}
}

// Decide: the honest answers of a label whose greatest version is arbitrary
// decide how it compares with the target.
func Decide() {
	t := version()
	n := nd.U32("greatest")
	nd.Assume(n < 1<<32-1)
	ladder := math.SearchBinaryLadder(t, n, nil, nil)
	var in []bool
	for _, v := range ladder {
		in = append(in, v <= n)
	}
	res, err := math.InterpretSearchLadder(math.SearchBinaryLadder(t, t, nil, nil), t, proof(in))
	nd.Assert(err == nil, "the honest answers are accepted")
	nd.Assert(res == sign(int64(n), int64(t)), "the answers decide the comparison")
	nd.Cover([]string{"less", "equal", "greater"}[res+1])
}

// Absent: a label without versions.
func Absent() {
	t := version()
	res, err := math.InterpretSearchLadder(math.SearchBinaryLadder(t, t, nil, nil), t, proof([]bool{false}))
	nd.Assert(err == nil && res == -1, "a label without versions is less than any target")
	nd.Cover("absent")
}

// Reject: whatever answers are accepted, they pin the greatest version to the
// result: equality needs the target and the absence of its successor, and no
// answer is superfluous or contradicts another.
func Reject() {
	t := version()
	ladder := math.SearchBinaryLadder(t, t, nil, nil)
	k := nd.Choose("answers", len(ladder)+2)
	var in []bool
	for i := 0; i < k; i++ {
		in = append(in, nd.Choose("included", 2) == 1)
		// after the answer that decides the search, one more suffices
		if i > 0 && i-1 < len(ladder) && in[i-1] != (ladder[i-1] <= t) {
			nd.Assume(i == k-1)
		}
	}
	res, err := math.InterpretSearchLadder(ladder, t, proof(in))
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Assert(k <= len(ladder), "superfluous answers are rejected")
	lo, hi := int64(-1), int64(1<<32)
	for i, v := range ladder[:k] {
		if in[i] && int64(v) > lo {
			lo = int64(v)
		} else if !in[i] && int64(v) < hi {
			hi = int64(v)
		}
	}
	nd.Assert(lo < hi, "contradicting answers are rejected")
	nd.Assert(res == sign(lo, int64(t)) && (res == 1 || res == sign(hi-1, int64(t))), "the answers decide the comparison")
	nd.Cover([]string{"less", "equal", "greater"}[res+1])
}

// Omit: a search visits log entries in any order it chooses: to the right of
// entries whose greatest version is smaller than the target or equal to it, and to
// the left of those where it is greater. Lookups that are already answered are
// omitted, all others are made, and both sides agree.
func Omit() {
	t := version()
	var srv, cli math.VersionTracker
	left, right := uint64(0), uint64(1)<<40
	gl, gr := int64(-1), int64(1<<32-1)
	full := math.SearchBinaryLadder(t, t, nil, nil)
	known := map[uint32]int{}
	steps := nd.Param("steps")
	for i := 0; i < steps; i++ {
		x := left + (right-left)/2
		// the greatest version at x, -1 if none
		n := int64(-1)
		if nd.Choose("present", 2) == 1 {
			n = int64(nd.U32("greatest"))
			nd.Assume(nd.And(n >= gl, n <= gr))
		} else {
			nd.Assume(gl == -1)
		}
		var ladder []uint32
		omit := nd.Choose("omit", 2) == 1
		if n < 0 {
			ladder = []uint32{0}
		} else {
			li, rn := srv.SearchMaps(x, omit)
			ladder = math.SearchBinaryLadder(t, uint32(n), li, rn)
		}
		srv.AddLadder(x, omit, int(n), ladder)
		var in []bool
		for _, v := range ladder {
			in = append(in, int64(v) <= n)
		}
		li, rn := cli.SearchMaps(x, omit)
		mine := math.SearchBinaryLadder(t, t, li, rn)
		p := proof(in)
		res, err := math.InterpretSearchLadder(mine, t, p)
		nd.Assert(err == nil, "the honest answers are accepted")
		nd.Assert(res == sign(n, int64(t)), "the answers decide the comparison")
		for j, v := range ladder {
			nd.Assert(mine[j] == v, "both sides look up the same versions")
			if omit {
				_, ok := known[v]
				nd.Assert(!ok, "known answers are not repeated")
			}
		}
		// exactly the known answers are omitted
		if omit && n >= 0 {
			j := 0
			for _, v := range full {
				if _, ok := known[v]; !ok {
					nd.Assert(j < len(ladder) && ladder[j] == v, "answers that are not known are looked up")
					j++
				}
				if (int64(v) <= n) != (v <= t) {
					break
				}
			}
			nd.Assert(j == len(ladder), "answers that are not known are looked up")
		}
		if !omit {
			nd.Assert(n < 0 || len(ladder) > 0, "a complete ladder is not empty")
		}
		cli.AddResults(x, omit, mine, p.Results)
		// go on
		if omit {
			for j, v := range ladder {
				if in[j] == (res <= 0) {
					known[v] = 1
				}
			}
			if len(known) > 0 {
				nd.Cover("omitting")
			}
		}
		if res <= 0 {
			left, gl = x, n
		} else {
			right, gr = x, n
		}
	}
	nd.Cover("done")
}
