// Package c10 checks distinguished log entries, expiry and view updates against
// their recursive definitions.
package c10

import (
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/math"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/ktl"
	"github.com/Bren2010/katie/zzverif/nd"
)

func config() *structs.PublicConfig {
	return &structs.PublicConfig{Config: structs.Config{
		Suite: kt.New(2), Mode: structs.ContactMonitoring,
		MaxAhead: nd.U64("max ahead"), MaxBehind: nd.U64("max behind"),
		ReasonableMonitoringWindow: nd.U64("window"), MaximumLifetime: nd.U64("lifetime"),
	}}
}

// rightmost asserts that r is the rightmost of the distinguished entries d.
func rightmost(r *uint64, d []bool) {
	for i := range d {
		if r == nil || uint64(i) > *r {
			nd.Assert(nd.Not(d[i]), "no distinguished entry lies to the right")
		} else if uint64(i) == *r {
			nd.Assert(d[i], "the entry is distinguished")
		}
	}
	if r == nil {
		nd.Cover("none")
	} else {
		nd.Assert(*r < uint64(len(d)), "the entry exists")
		nd.Cover("some")
	}
}

// Rightmost: the rightmost distinguished entry of any log.
func Rightmost() {
	n := nd.Param("min") + nd.Choose("n", nd.Param("max")-nd.Param("min")+1)
	ts, c := ktl.Timestamps(n), config()
	h := &ktl.Handle{Ts: ts}
	r, err := algorithms.RightmostDistinguished(c, uint64(n), algorithms.NewDataProvider(c.Suite, h))
	nd.Assert(err == nil, "the rightmost distinguished entry is found")
	rightmost(r, ktl.NewTree(n).Distinguished(ts, c.ReasonableMonitoringWindow))
}

// Previous: the rightmost distinguished entry left of the last entry, which is
// being added.
func Previous() {
	n := nd.Param("min") + nd.Choose("n", nd.Param("max")-nd.Param("min")+1)
	ts, c := ktl.Timestamps(n), config()
	h := &ktl.Handle{Ts: ts}
	r, err := algorithms.PreviousRightmost(c, uint64(n), algorithms.NewDataProvider(c.Suite, h))
	nd.Assert(err == nil, "the rightmost distinguished entry is found")
	d := ktl.NewTree(n).Distinguished(ts, c.ReasonableMonitoringWindow)
	rightmost(r, d[:n-1])
}

// Retained: only the frontier's timestamps are needed for both, which is what
// the auditor and the client retain.
func Retained() {
	n := nd.Param("min") + nd.Choose("n", nd.Param("max")-nd.Param("min")+1)
	ts, c := ktl.Timestamps(n), config()
	d := ktl.NewTree(n).Distinguished(ts, c.ReasonableMonitoringWindow)
	// the retained entries are the frontier before the last entry is added
	entries := map[uint64]structs.LogEntry{uint64(n - 1): {Timestamp: ts[n-1]}}
	if n > 1 {
		for _, x := range math.Frontier(uint64(n - 1)) {
			entries[x] = structs.LogEntry{Timestamp: ts[x]}
		}
	}
	h := &ktl.Handle{} // fails if asked
	p := algorithms.NewDataProvider(c.Suite, h)
	nd.Assert(p.AddRetained(nil, entries) == nil, "timestamps that do not decrease are accepted")
	if nd.Choose("which", 2) == 0 {
		r, err := algorithms.RightmostDistinguished(c, uint64(n), p)
		nd.Assert(err == nil, "the rightmost distinguished entry is found")
		rightmost(r, d)
	} else {
		r, err := algorithms.PreviousRightmost(c, uint64(n), p)
		nd.Assert(err == nil, "the rightmost distinguished entry is found")
		rightmost(r, d[:n-1])
	}
}

// Expired: an entry expires when the last entry is at least the lifetime newer.
func Expired() {
	c := config()
	ts, last := nd.U64("timestamp"), nd.U64("rightmost")
	nd.Assume(ts <= last)
	want := nd.And(c.MaximumLifetime > 0, last-ts >= c.MaximumLifetime)
	nd.Assert(c.IsExpired(ts, last) == want, "expiry follows the lifetime")
	nd.Assert(c.IsDistinguished(ts, last) == (last-ts >= c.ReasonableMonitoringWindow), "distinguished entries are a window apart")
	if want {
		nd.Cover("expired")
	}
	nd.Cover("done")
}

// View: any timestamps, any clock. An update is accepted exactly if the
// timestamps retained and received do not decrease and the last is close to the
// clock.
func View() {
	n := nd.Param("min") + nd.Choose("n", nd.Param("max")-nd.Param("min")+1)
	c := config()
	ts := make([]uint64, n)
	for i := range ts {
		ts[i] = nd.U64("timestamp")
	}
	h := &ktl.Handle{Ts: ts}
	p := algorithms.NewDataProvider(c.Suite, h)
	seen := map[uint64]bool{uint64(n - 1): true}
	var m *uint64
	if v := uint64(nd.Choose("m", n+2)); v > 0 {
		m = &v
		entries := map[uint64]structs.LogEntry{}
		if v <= uint64(n) {
			for _, x := range math.Frontier(v) {
				entries[x] = structs.LogEntry{Timestamp: ts[x]}
				seen[x] = true
			}
		}
		ok := true
		for x := range entries {
			for y := range entries {
				if x < y {
					ok = nd.And(ok, ts[x] <= ts[y])
				}
			}
		}
		err := p.AddRetained(nil, entries)
		nd.Assert((err == nil) == ok, "retained timestamps do not decrease")
		if err != nil {
			return
		}
	}
	if m == nil || *m <= uint64(n) {
		for _, x := range math.UpdateView(uint64(n), m) {
			seen[x] = true
		}
	}
	now := nd.U64("now")
	nd.Assume(now < 1<<62)
	nd.SetNow(int64(now))
	err := algorithms.UpdateView(c, uint64(n), m, p)
	if m != nil && *m > uint64(n) {
		nd.Assert(err != nil, "the log does not shrink")
		nd.Cover("shrinks")
		return
	}
	ok, mono := true, true
	for x := range seen {
		for y := range seen {
			if x < y {
				mono = nd.And(mono, ts[x] <= ts[y])
			}
		}
	}
	last := ts[n-1]
	ok = nd.And(mono, nd.Not(nd.Or(nd.And(now < last, last-now > c.MaxAhead), nd.And(now > last, now-last > c.MaxBehind))))
	nd.Assert((err == nil) == ok, "an update is accepted exactly if its timestamps do not decrease and end close to the clock")
	if err == nil {
		nd.Cover("accepted")
	} else if mono {
		nd.Cover("clock")
	} else {
		nd.Cover("decreasing")
	}
}

// Empty: the empty log.
func Empty() {
	c := config()
	p := algorithms.NewDataProvider(c.Suite, &ktl.Handle{})
	r, err := algorithms.RightmostDistinguished(c, 0, p)
	nd.Assert(r == nil && err == nil, "nothing is distinguished in the empty log")
	r, err = algorithms.PreviousRightmost(c, 0, p)
	nd.Assert(r == nil && err == nil, "nothing is distinguished in the empty log")
	nd.Assert(algorithms.UpdateView(c, 0, nil, p) == nil, "the empty log needs no update")
	nd.Cover("empty")
}
