package c17

import (
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/ktl"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
)

// user is a client and what it has observed.
type user struct {
	*world.Client
	seen map[string][]int // versions that were searched
}

var labels = []string{"a", "b"}

// view is the client's tree and its distinguished entries.
func (u *user) view() (*ktl.Tree, []bool) {
	n := int(u.State().TreeHead.TreeSize)
	t := ktl.NewTree(n)
	return t, t.Distinguished(u.W.Ts[:n], u.W.Pub.ReasonableMonitoringWindow)
}

// check that what was observed is watched, until a distinguished entry shows
// it, and that nothing else is.
func (u *user) check() {
	if u.State() == nil {
		return
	}
	t, d := u.view()
	for _, l := range labels {
		st := u.LabelState(l)
		for _, m := range st.Contact {
			nd.Assert(m.Position < uint64(len(t.Parent)) && int(m.Version) < len(u.W.Hist[l]) && u.W.Hist[l][m.Version].Pos <= m.Position, "a version is watched where it is")
		}
		for _, v := range u.seen[l] {
			done := false
			for x := int(u.W.Hist[l][v].Pos); x >= 0; x = t.Parent[x] {
				if uint64(x) < u.W.Hist[l][v].Pos {
					continue
				}
				done = nd.Or(done, d[x])
				for _, m := range st.Contact {
					if m.Position == uint64(x) && int(m.Version) >= v {
						done = true
					}
				}
			}
			nd.Assert(done, "a version that was observed is watched, until it is in a distinguished entry")
		}
	}
}

// round monitors one label.
func (u *user) round() bool {
	req, verify, err := u.C.Monitor()
	nd.Assert(err == nil, "monitoring is possible once there is a distinguished entry")
	switch req := req.(type) {
	case *structs.ContactMonitorRequest:
		err = verify(u.W.ContactMonitor(req))
		nd.Cover("contact")
	case *structs.OwnerMonitorRequest:
		err = verify(u.W.OwnerMonitor(req))
		nd.Cover("owner")
	default:
		return false
	}
	nd.Assert(err == nil, "the client accepts an honest response to monitoring")
	u.check()
	return true
}

// rounds monitors until there is nothing to do.
func (u *user) rounds() {
	if u.State() == nil {
		return
	}
	t, d := u.view()
	if !d[t.Root] {
		return
	}
	if o := u.LabelState("a").Owner; o != nil && o.VerAtStarting+len(o.UpcomingVers)+1 < len(u.W.Hist["a"]) {
		nd.Skip() // the owner has to learn about others' versions with an update
	}
	for i := 0; u.round(); i++ {
		nd.Assert(i < len(labels), "monitoring every label once is enough")
	}
	// every label is up to date
	t, d = u.view()
	last := -1
	for x := range d {
		if d[x] {
			last = x
		}
	}
	for _, l := range labels {
		st := u.LabelState(l)
		for _, m := range st.Contact {
			nd.Assert(int64(m.Position) > int64(last), "every label is monitored up to the last distinguished entry")
		}
		if st.Owner != nil {
			nd.Assert(int64(st.Owner.Starting) == int64(last), "every owned label is monitored up to the last distinguished entry")
		}
	}
	nd.Cover("finished")
}

// grow adds an entry with a version of label a, of label b, or of both.
func grow(w *world.World) {
	k := nd.Choose("labels", nd.Param("grow"))
	var add = w.Additions("a", 1)
	if k == 1 {
		add = w.Additions("b", 1)
	} else if k == 2 {
		add = append(add, w.Additions("b", 1)...)
	}
	w.Mutate(add)
	w.Publish()
}

// Watch: a client searches any labels of a growing log, owns them and monitors
// them. What it observed stays watched, and monitoring gets to every label.
func Watch() {
	w := world.New(structs.ContactMonitoring)
	u := &user{w.NewClient(), map[string][]int{}}
	u.S.Any = true
	grow(w)
	for i := 0; i < nd.Param("steps"); i++ {
		op := nd.Choose("op", nd.Param("ops"))
		if op == 0 && w.N() >= uint64(nd.Param("n")) {
			nd.Skip()
		}
		switch op {
		case 0:
			grow(w)
		case 1, 2: // the greatest version
			l := labels[op-1]
			if len(w.Hist[l]) == 0 {
				nd.Skip()
			}
			u.Greatest(l)
			u.seen[l] = append(u.seen[l], len(w.Hist[l])-1)
		case 3:
			if u.State() == nil {
				nd.Skip()
			}
			if t, d := u.view(); !d[t.Root] || !u.round() {
				nd.Skip()
			}
		case 4:
			if len(w.Hist["a"]) == 0 {
				nd.Skip()
			}
			v := nd.Choose("version", len(w.Hist["a"]))
			u.Fixed("a", v)
			u.seen["a"] = append(u.seen["a"], v)
		case 5:
			if !u.Own("a") {
				nd.Skip()
			}
		}
		u.check()
	}
	u.rounds()
}
