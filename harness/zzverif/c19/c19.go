// Package c19 checks which versions a label has.
package c19

import (
	"bytes"
	"context"
	"errors"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/managed"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
)

var labels = []string{"a", "b", "c"}

// check compares what is stored about the labels to the history.
func check(w *world.World, gone map[string]int) {
	var ls [][]byte
	for _, l := range labels {
		ls = append(ls, []byte(l))
	}
	got, err := transparency.ZzIndex(w.Tree, ls)
	nd.Assert(err == nil && len(got) == len(ls), "the indices are read")
	for i, l := range labels {
		hist := w.Hist[l]
		nd.Assert(len(got[i]) == len(hist), "the index has an entry for every version of the label")
		for j := range hist {
			nd.Assert(got[i][j] == hist[j].Pos, "the index lists the log entry at which the version was added")
			raw, err := w.Store.GetVersion(ls[i], uint32(j))
			nd.Assert(err == nil && raw != nil, "the version is stored")
			buf := bytes.NewBuffer(raw)
			v, err := structs.NewOpeningAndValue(w.Pub, buf)
			nd.Assert(err == nil && buf.Len() == 0, "the version is decoded")
			nd.Assert(nd.EqBytes(v.Value.Value, hist[j].Value), "the version has the value it was added with")
		}
		for j := len(hist); j < max(len(hist)+1, gone[l]); j++ {
			raw, err := w.Store.GetVersion(ls[i], uint32(j))
			nd.Assert(err == nil && raw == nil, "no other version is stored")
		}
		if gone[l] == 0 && len(hist) > 0 {
			nd.SetNow(int64(w.Ts[w.N()-1]))
			res := w.Search(&structs.SearchRequest{Label: ls[i]})
			nd.Assert(res.Version != nil && int(*res.Version) == len(hist)-1, "the greatest version of a label is the number of additions minus one")
		}
	}
}

// Batches: any sequence of updates of two labels, with several versions at once
// and removals.
func Batches() {
	w := world.New(structs.ContactMonitoring)
	gone := map[string]int{}
	for i := 0; i < nd.Param("steps"); i++ {
		op := nd.Choose("op", nd.Param("ops"))
		var add []transparency.LabelValue
		var remove [][]byte
		switch op {
		case 0:
			add = w.Additions("a", 1)
		case 1: // versions of two labels, in turn
			add = w.Additions("a", 2)
			add = []transparency.LabelValue{add[0], w.Additions("b", 1)[0], add[1]}
		case 2:
			remove = [][]byte{[]byte("a")}
		case 3:
			add = w.Additions("a", nd.Param("many"))
			remove = [][]byte{[]byte("a"), []byte("c")}
		case 4:
			add = w.Additions("b", 1)
		case 5:
			remove = [][]byte{[]byte("b"), []byte("a"), []byte("a")}
			add = w.Additions("b", 2)
		}
		ts := w.Tick()
		upd, err := w.Tree.Mutate(add, remove)
		if err != nil {
			nd.Assert(len(remove) > 0, "an update that only adds versions is accepted")
			nd.Cover("refused")
		} else {
			for _, l := range remove {
				l := string(l)
				if len(w.Hist[l]) > 0 {
					gone[l] = max(gone[l], len(w.Hist[l]))
					w.Hist[l] = nil
					nd.Cover("removed")
				}
			}
			for _, a := range add {
				l := string(a.Label)
				w.Hist[l] = append(w.Hist[l], world.Version{Pos: w.N(), Value: a.Value.Value})
			}
			w.Ts = append(w.Ts, ts)
			w.Upd = upd
		}
		if nd.Choose("restart", 2) == 1 {
			w.Load()
		}
	}
	check(w, gone)
}

// manager records the updates that it is given.
type manager struct {
	wire.ManagerInterface
	got  *structs.ManagerUpdateRequest
	fail bool
}

func (m *manager) ManagerUpdate(ctx context.Context, req *structs.ManagerUpdateRequest) (<-chan wire.UpdateResponse, error) {
	m.got = req
	if m.fail {
		return nil, errors.New("unavailable")
	}
	ch := make(chan wire.UpdateResponse)
	close(ch)
	return ch, nil
}

// counter is a store of counters that possibly fails.
type counter struct {
	*memory.ManagedLogStore
	fail bool
}

func (c *counter) IncrementGreatestVersion(label []byte, count int) (int, error) {
	if c.fail {
		return 0, errors.New("unavailable")
	}
	return c.ManagedLogStore.IncrementGreatestVersion(label, count)
}

// Managed: the service operator of a log with a third-party manager signs every
// version once, in order.
func Managed() {
	w := world.New(structs.ThirdPartyManagement)
	m := &manager{}
	tx := &counter{ManagedLogStore: memory.NewManagedLogStore()}
	ml, err := managed.NewManagedLog(w.Pub, m, tx, w.Leaf)
	nd.Assert(err == nil, "the service operator starts")
	count := map[string]int{}
	for i := 0; i < nd.Param("steps"); i++ {
		l := labels[nd.Choose("label", 2)]
		req := &structs.UpdateRequest{Label: []byte(l)}
		n := nd.Choose("values", nd.Param("values")+1)
		for j := 0; j < n; j++ {
			req.Values = append(req.Values, structs.LabelValue{Value: nd.Bytes("value", 1)})
		}
		if nd.Choose("last", 2) == 1 {
			last, greatest := nd.U64("last"), nd.U32("greatest")
			req.Last, req.GreatestVersion = &last, &greatest
		}
		tx.fail = nd.Choose("fail", 2) == 1
		m.got = nil
		ch, err := ml.Update(world.Ctx, req)
		if tx.fail {
			nd.Assert(err != nil && m.got == nil, "nothing is signed if the versions cannot be counted")
			nd.Cover("failed")
			continue
		}
		nd.Assert(err == nil && ch != nil && m.got != nil, "the update is passed to the manager")
		got := m.got
		nd.Assert(bytes.Equal(got.Label, req.Label), "the update is for the label")
		nd.Assert((got.Last == nil) == (req.Last == nil) && (got.GreatestVersion == nil) == (req.GreatestVersion == nil), "what the user knows is passed on")
		if req.Last != nil {
			nd.Assert(nd.And(*got.Last == *req.Last, *got.GreatestVersion == *req.GreatestVersion), "what the user knows is passed on")
		}
		nd.Assert(len(got.Values) == n, "every value is passed on")
		nd.Assert(n == 0 || int(got.SignedVersion) == count[l], "the first version is the number of versions that were added before")
		for j, v := range got.Values {
			nd.Assert(nd.EqBytes(v.Value, req.Values[j].Value), "every value is passed on")
			tbs, err := structs.Marshal(&structs.UpdateTBS{Config: w.Pub, Label: req.Label, Version: uint32(count[l] + j), Value: v.Value})
			nd.Assert(err == nil, "the update is encoded")
			nd.Assert(w.Leaf.Public().Verify(tbs, v.Signature), "each value is signed with the version it gets")
		}
		count[l] += n

		// the manager accepts what was signed
		t, err := transparency.NewTree(w.Config, w.Store, nil)
		nd.Assert(err == nil, "the log is opened")
		out, err := t.ManagerUpdate(world.Ctx, world.Same(got, func(b *bytes.Buffer) (*structs.ManagerUpdateRequest, error) {
			return structs.NewManagerUpdateRequest(w.Pub, b)
		}))
		nd.Assert(err == nil, "the manager accepts the signatures")
		for range out {
		}
		nd.Cover("signed")
	}
}
