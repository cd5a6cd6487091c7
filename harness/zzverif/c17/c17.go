// Package c17 checks what monitoring verifies, and what it remembers.
package c17

import (
	"slices"

	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/ktl"
	"github.com/Bren2010/katie/zzverif/nd"
)

// env is a log in which the number of versions in each entry is arbitrary.
type env struct {
	c      *structs.PublicConfig
	n      int
	ts     []uint64
	cnt    []int64
	t      *ktl.Tree
	d      []bool // distinguished
	honest bool   // whether the number of versions never decreases
	h      *ktl.Handle
	m      *algorithms.Monitor
}

func setup() *env {
	e := &env{n: nd.Param("min") + nd.Choose("n", nd.Param("max")-nd.Param("min")+1)}
	e.c = &structs.PublicConfig{Config: structs.Config{
		Suite: kt.New(2), Mode: structs.ContactMonitoring, ReasonableMonitoringWindow: ktl.Time("window"),
	}}
	if nd.Param("lifetime") == 1 {
		e.c.MaximumLifetime = ktl.Time("lifetime")
	}
	e.ts = ktl.Timestamps(e.n)
	e.t = ktl.NewTree(e.n)
	e.d = e.t.Distinguished(e.ts, e.c.ReasonableMonitoringWindow)
	e.cnt = make([]int64, e.n)
	e.honest = true
	for i := range e.cnt {
		e.cnt[i] = int64(nd.U8("count"))
		if i > 0 {
			e.honest = nd.And(e.honest, e.cnt[i] >= e.cnt[i-1])
		}
	}
	e.h = &ktl.Handle{Ts: e.ts, Versions: func(x uint64) int64 { return e.cnt[x] }}
	m, err := algorithms.NewMonitor(e.c, uint64(e.n), algorithms.NewDataProvider(e.c.Suite, e.h))
	nd.Assert(err == nil, "monitoring starts")
	e.m = m
	return e
}

// right is the ancestors of x to its right, lowest first.
func (e *env) right(x int) []int {
	var out []int
	for y := e.t.Parent[x]; y >= 0; y = e.t.Parent[y] {
		if y > x {
			out = append(out, y)
		}
	}
	return out
}

// watch is a version that the user observed in an entry.
type watch struct {
	x   int
	ver uint8
}

// watches are some versions, the later ones greater.
func (e *env) watches(max int) []watch {
	var out []watch
	x := 0
	for i, k := 0, nd.Choose("watches", max+1); i < k; i++ {
		if x >= e.n {
			nd.Skip()
		}
		w := watch{x + nd.Choose("entry", e.n-x), nd.U8("version")}
		if i > 0 {
			nd.Assume(w.ver > out[i-1].ver)
		}
		out = append(out, w)
		x = w.x + 1
	}
	return out
}

// contact checks the outcome of contact monitoring. Up to the first
// distinguished entry to the right of each observation, the version is there
// (except in a distinguished entry that owner monitoring will look at).
func (e *env) contact(ws []watch, got *algorithms.ContactState, owned func(x, y int) bool) {
	want := make([]uint64, e.n) // the version to watch from each entry, plus one
	for _, w := range ws {
		v := int64(w.ver)
		done := e.d[w.x]
		last := w.x
		for _, y := range e.right(w.x) {
			ok := nd.Or(done, e.cnt[y] > v)
			if owned(w.x, y) {
				ok = nd.Or(ok, e.d[y])
			}
			nd.Assert(ok, "a version that was observed is still there, up to the first distinguished entry to the right")
			done = nd.Or(done, e.d[y])
			last = y
		}
		want[last] = nd.IteU64(nd.And(nd.Not(done), uint64(v)+1 > want[last]), uint64(v)+1, want[last])
	}
	for x := range want {
		var ver uint32
		ok := false
		if got != nil {
			ver, ok = got.Ptrs[uint64(x)]
		}
		nd.Assert(ok == (want[x] != 0), "exactly the versions without a distinguished entry to their right are watched on")
		if ok {
			nd.Assert(uint64(ver)+1 == want[x], "the greatest version that was observed is watched on")
			nd.Cover("watched")
		}
	}
}

func nobody(x, y int) bool { return false }

// Contact: contact monitoring of any observations.
func Contact() {
	e := setup()
	ws := e.watches(nd.Param("watches"))
	ptrs := map[uint64]uint32{}
	ok := e.honest
	for _, w := range ws {
		ptrs[uint64(w.x)] = uint32(w.ver)
		ok = nd.And(ok, e.cnt[w.x] > int64(w.ver))
	}
	e.m.Contact = &algorithms.ContactState{Ptrs: ptrs}
	err := e.m.ContactMonitor()
	if err != nil {
		nd.Assert(nd.Not(ok), "monitoring of an honest log succeeds")
		nd.Cover("detected")
		return
	}
	nd.Cover("accepted")
	e.contact(ws, e.m.Contact, nobody)
	for _, l := range e.h.Ladders {
		nd.Assert(l.Monitor, "only monitoring ladders are needed")
	}
}

// owner is what the owner of a label knows: the greatest version in entry
// `start`, and the entries of later versions.
type owner struct {
	start int
	ver   int64 // in entry start
	pos   []uint64
}

func (e *env) owner() *owner {
	o := &owner{start: nd.Choose("start", e.n), ver: int64(nd.U8("owned")) - 1}
	for i, k := 0, nd.Choose("upcoming", nd.Param("upcoming")+1); i < k; i++ {
		p := nd.U64("upcoming")
		nd.Assume(p > uint64(o.start))
		nd.Assume(p < uint64(e.n))
		if i > 0 {
			nd.Assume(p >= o.pos[i-1])
		}
		o.pos = append(o.pos, p)
	}
	e.m.Owner = &algorithms.OwnerState{Starting: uint64(o.start), VerAtStarting: int(o.ver), UpcomingVers: slices.Clone(o.pos)}
	return o
}

// at is the greatest version that the owner expects at x.
func (o *owner) at(x uint64) int64 {
	v := uint64(o.ver)
	for _, p := range o.pos {
		v += nd.IteU64(p <= x, 1, 0)
	}
	return int64(v)
}

// state checks what the owner remembers after verifying up to entry `start`.
func (o *owner) state(got *algorithms.OwnerState, start uint64) {
	nd.Assert(got.Starting == start, "the owner continues at the last distinguished entry that was verified")
	nd.Assert(int64(got.VerAtStarting) == o.at(start), "the owner remembers the version there")
	nd.Assert(got.GreatestVersion() == int(o.ver)+len(o.pos), "the owner remembers every version")
	k := len(o.pos) - len(got.UpcomingVers)
	nd.Assert(k >= 0, "the owner remembers no other version")
	for i, p := range o.pos {
		nd.Assert((p > start) == (i >= k), "the owner remembers exactly the later versions")
		if i >= k {
			nd.Assert(got.UpcomingVers[i-k] == p, "the owner remembers the entry of every later version")
		}
	}
}

// Owner: owner monitoring detects every unexpected version in a distinguished
// entry, and every version that is missing.
func Owner() {
	e := setup()
	o := e.owner()
	e.h.MaxLadders = nd.Choose("pages", nd.Param("pages")+1)
	ws := e.watches(nd.Param("watches"))
	ptrs := map[uint64]uint32{}
	ok := e.honest
	for _, w := range ws { // versions that the owner knows of
		ptrs[uint64(w.x)] = uint32(w.ver)
		ok = nd.And(ok, e.cnt[w.x] > int64(w.ver))
		nd.Assume(o.at(uint64(w.x)) >= int64(w.ver))
	}
	for x := o.start; x < e.n; x++ {
		ok = nd.And(ok, e.cnt[x] == o.at(uint64(x))+1)
	}
	e.m.Contact = &algorithms.ContactState{Ptrs: ptrs}
	pages := e.h.MaxLadders
	e.h.MaxLadders = 0
	err := e.m.ContactMonitor()
	if err == nil {
		e.h.Ladders = nil
		e.h.MaxLadders = pages
		err = e.m.OwnerMonitor()
	}
	if err != nil {
		nd.Assert(nd.Not(ok), "monitoring of an honest log succeeds")
		nd.Cover("detected")
		o.unchanged(e.m.Owner)
		return
	}
	nd.Cover("accepted")
	start := uint64(o.start)
	k := 0
	for x := o.start + 1; x < e.n; x++ {
		if !e.d[x] {
			continue
		}
		if pages > 0 && k == pages {
			nd.Cover("paged")
			break
		}
		k++
		nd.Assert(e.cnt[x] == o.at(uint64(x))+1, "in a distinguished entry, the label has exactly the versions that its owner made")
		start = uint64(x)
	}
	o.state(e.m.Owner, start)
	e.contact(ws, e.m.Contact, func(x, y int) bool { return x >= o.start })
}

func (o *owner) unchanged(got *algorithms.OwnerState) {
	nd.Assert(got.Starting == uint64(o.start) && int64(got.VerAtStarting) == o.ver && len(got.UpcomingVers) == len(o.pos), "the owner's state is unchanged")
	for i, p := range o.pos {
		nd.Assert(got.UpcomingVers[i] == p, "the owner's state is unchanged")
	}
}

// Init: ownership starts at an unexpired distinguished entry, with the version
// that the label has there.
func Init() {
	e := setup()
	x := nd.Choose("start", e.n)
	expired := func(y int) bool {
		return nd.And(e.c.MaximumLifetime > 0, e.ts[e.n-1]-e.ts[y] >= e.c.MaximumLifetime)
	}
	// the entries that are looked at
	ok := nd.And(e.d[x], nd.Not(expired(x)))
	var look []int
	for y := x; y >= 0; y = e.t.Parent[y] {
		if y > x {
			ok = nd.And(ok, nd.Not(expired(y)))
		} else if !expired(y) {
			look = append(look, y)
		}
	}
	xs, err := e.m.InitEntries(uint64(x))
	nd.Assert((err == nil) == ok, "ownership can start in an unexpired distinguished entry")
	if err != nil {
		nd.Cover("refused")
		_, err := e.m.OwnerInit(uint64(x), nil)
		nd.Assert(err != nil && e.m.Owner == nil, "ownership does not start elsewhere")
		return
	}
	nd.Assert(len(xs) == len(look), "the entry and its unexpired ancestors to the left are looked at")
	for i := range look {
		nd.Assert(xs[i] == uint64(look[i]), "the entry and its unexpired ancestors to the left are looked at")
	}
	// any claim about the versions in them
	var vers []uint32
	k := nd.Choose("claims", len(xs)+1)
	right := true
	for i, y := range look {
		if i < k {
			v := uint32(nd.U8("claim"))
			vers = append(vers, v)
			right = nd.And(right, e.cnt[y] == int64(v)+1)
		} else {
			right = nd.And(right, e.cnt[y] == 0)
		}
	}
	_, err = e.m.OwnerInit(uint64(x), vers)
	if err != nil {
		nd.Assert(nd.Not(nd.And(right, e.honest)), "ownership of a label in an honest log starts")
		nd.Assert(e.m.Owner == nil, "ownership does not start")
		nd.Cover("detected")
		return
	}
	nd.Assert(right, "ownership starts only if the versions are as claimed")
	for i := 1; i < len(look); i++ {
		nd.Assert(e.cnt[look[i]] <= e.cnt[look[i-1]], "versions do not disappear")
	}
	nd.Assert(e.m.Owner.Starting == uint64(x) && int64(e.m.Owner.VerAtStarting) == e.cnt[x]-1 && len(e.m.Owner.UpcomingVers) == 0, "the owner remembers where ownership starts")
	nd.Cover("accepted")
}

// Update: an update is accepted only if there were no other versions before.
func Update() {
	e := setup()
	o := e.owner()
	pos := nd.Choose("position", e.n)
	count := nd.Choose("versions", nd.Param("versions")+1)
	last := uint64(o.start)
	if len(o.pos) > 0 {
		last = o.pos[len(o.pos)-1]
	}
	// the label as its owner thinks it is, with the update
	before := o.ver + int64(len(o.pos))
	end := before + int64(count)
	ok := nd.And(count > 0, uint64(pos) > last)
	for x := o.start; x < e.n; x++ {
		v := o.at(uint64(x))
		if x >= pos {
			v = end
		}
		ok = nd.And(ok, e.cnt[x] == v+1)
	}
	ok = nd.And(ok, e.honest)
	err := e.m.Update(uint64(pos), count)
	if err != nil {
		nd.Assert(nd.Not(ok), "an honest update is accepted")
		nd.Cover("detected")
		return
	}
	nd.Cover("accepted")
	nd.Assert(count > 0 && pos > 0, "an update adds versions")
	nd.Assert(uint64(pos) > last, "an update is after the last one")
	// the frontier of the log before the update
	p := ktl.NewTree(pos)
	for x := pos - 1; x >= 0; x = p.Parent[x] {
		if onFrontier(p, x, pos) {
			nd.Assert(nd.Or(e.d[x], nd.Or(uint64(x) <= last, e.cnt[x] == before+1)), "there are no other versions before the update, where owner monitoring doesn't look")
		}
	}
	if e.d[pos] {
		nd.Assert(e.cnt[pos] >= 0, "owner monitoring looks at a distinguished entry")
		nd.Assert(e.m.Contact == nil, "a distinguished entry need not be watched")
		nd.Cover("distinguished")
	} else {
		nd.Assert(e.cnt[pos] == end+1, "the new versions are in the entry")
		nd.Assert(e.m.Contact != nil && len(e.m.Contact.Ptrs) == 1, "the new version is watched")
		v, in := e.m.Contact.Ptrs[uint64(pos)]
		nd.Assert(in && int64(v) == end, "the new version is watched")
		nd.Cover("watched")
	}
	o.added(e.m.Owner, pos, count)
}

// onFrontier is whether x is on the way from the root to the last entry of t.
func onFrontier(t *ktl.Tree, x, n int) bool { return slices.Contains(t.Path(n-1), x) }

func (o *owner) added(got *algorithms.OwnerState, pos, count int) {
	for i := 0; i < count; i++ {
		o.pos = append(o.pos, uint64(pos))
	}
	o.unchanged(got)
}
