package c24

import (
	"bytes"

	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
	"github.com/syndtr/goleveldb/leveldb"
)

// Updates: an owner updates a label while others' updates, of the same label or
// another, are committed at any points in between. The update is applied once,
// and answered with proofs that its owner accepts.
func Updates() {
	e := start()
	e.Mutate(append(e.Additions("a", 1), e.Additions("b", 1)...))
	e.Audit()
	e.Countersign()
	e.signed = e.N()
	e.c.Greatest("a")
	if !e.c.Own("a") {
		nd.Skip()
	}
	for i, n := 0, nd.Choose("n", nd.Param("n")); i < n; i++ {
		e.grow()
		e.Audit()
		e.Countersign()
		e.signed = e.N()
	}
	count := 1 + nd.Choose("count", nd.Param("values"))
	var values [][]byte
	for i := 0; i < count; i++ {
		values = append(values, nd.Bytes("value", 1))
	}
	base := e.Ts[len(e.Ts)-1]

	// others' updates
	left := nd.Param("changes")
	var hook func()
	hook = func() {
		if left > 0 && nd.Choose("now", 2) == 1 {
			left--
			leveldb.OnRead = nil
			e.commit()
			leveldb.OnRead = hook
		}
	}

	// the inserter
	reqs := make(chan transparency.UpdateRequest)
	applied, at := 0, 0
	go func() {
		for r := range reqs {
			nd.Assert(cap(r.Response) > 0, "the response of the inserter does not block")
			nd.Assert(bytes.Equal(r.Label, []byte("a")) && len(r.Values) == count, "the update is passed on")
			leveldb.OnRead = nil
			var add []transparency.LabelValue
			for i, v := range r.Values {
				nd.Assert(nd.EqBytes(v.Value, values[i]), "the update is passed on")
				add = append(add, transparency.LabelValue{Label: r.Label, Value: e.Value(r.Label, len(e.Hist["a"])+i, v.Value)})
			}
			pos := e.N()
			at = len(e.Hist["a"])
			e.Mutate(add)
			e.Audit()
			e.Countersign()
			e.signed = e.N()
			applied++
			leveldb.OnRead = hook
			r.Response <- pos
		}
	}()

	req, sv, err := e.c.C.Update([]byte("a"), values)
	nd.Assert(err == nil, "the owner can update the label")
	store := e.Store.Clone()
	leveldb.OnRead = hook
	t, err := transparency.NewTree(e.Config, store, reqs)
	nd.Assert(err == nil, "the log is opened")
	ch, err := t.Update(world.Ctx, world.Same(req, structs.NewUpdateRequest))
	nd.Assert(err == nil, "the log accepts the update")
	mine := 0
	for r := range ch {
		d := e.Ts[len(e.Ts)-1] - base
		nd.Assume(d <= e.Pub.MaxAhead)
		nd.Assume(d <= e.Pub.MaxBehind)
		nd.Log("response %v", r.Err)
		nd.Assert(r.Err == nil, "the log answers an update, whatever else is updated at the same time")
		out := world.Same(r.Out, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
			return structs.NewUpdateResponse(e.Pub, b)
		})
		if len(out.Values) == 0 {
			mine++
		}
		err := sv.Verify(out)
		nd.Log("verify %v", err)
		nd.Assert(err == nil, "the owner accepts the answer to an update, whatever else is updated at the same time")
	}
	leveldb.OnRead = nil
	nd.Assert(applied == 1, "an update is applied once")
	nd.Assert(mine == 1, "an update is answered once")
	st := e.c.LabelState("a").Owner
	known := st.VerAtStarting + len(st.UpcomingVers) + 1
	nd.Assert(known >= at+count, "the owner knows the new versions")
	for j, pos := range st.UpcomingVers {
		nd.Assert(pos == e.Hist["a"][st.VerAtStarting+1+j].Pos, "the owner knows where every version was added")
	}
	for i := range values {
		nd.Assert(nd.EqBytes(e.Hist["a"][at+i].Value, values[i]), "the new versions have their values")
	}
	if at > 1 {
		nd.Cover("others")
	}
	nd.Cover("updated")
}
