// Package c13 checks that clients accept nothing but what the log can prove.
package c13

import (
	"bytes"
	"slices"

	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/gen"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
)

// answer is a response, and how the client verifies it. What the user is told
// is returned by verify.
type answer struct {
	edits  []edit
	verify func() ([]byte, error)
}

func answered[T any](res *T, edits []edit, verify func(*T) error, told func(*T) []byte) *answer {
	return &answer{edits, func() ([]byte, error) {
		if err := verify(res); err != nil {
			return nil, err
		}
		return told(res), nil
	}}
}

func none[T any](*T) []byte { return nil }

// ask sends one of the requests that the client can make now about label a.
func ask(w *world.World, c *world.Client, op, ver int) *answer {
	label := []byte("a")
	switch op {
	case 0, 1:
		req, verify, err := c.C.GreatestVersionSearch(label)
		if op == 1 {
			req, verify, err = c.C.FixedVersionSearch(label, uint32(ver))
		}
		nd.Assert(err == nil, "a search is requested")
		res, err := w.Tree.Search(world.Ctx, req)
		if err != nil {
			return nil
		}
		res = world.Same(res, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
			return structs.NewSearchResponse(w.Pub, req, b)
		})
		return answered(res, searchEdits(w, res), verify, func(r *structs.SearchResponse) []byte {
			out := append([]byte{}, r.Value.Value...)
			if r.Version != nil {
				out = append(out, byte(*r.Version), byte(*r.Version>>8), byte(*r.Version>>16), byte(*r.Version>>24))
			}
			return out
		})
	case 2, 4:
		req, verify, err := c.C.Monitor()
		if err != nil {
			return nil
		}
		switch req := req.(type) {
		case *structs.ContactMonitorRequest:
			res, err := w.Tree.ContactMonitor(world.Ctx, req)
			if err != nil {
				return nil
			}
			res = world.Same(res, func(b *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
				return structs.NewContactMonitorResponse(w.Pub, b)
			})
			return answered(res, monitorEdits(w, &res.FullTreeHead, &res.Monitor), func(r *structs.ContactMonitorResponse) error { return verify(r) }, none)
		case *structs.OwnerMonitorRequest:
			res, err := w.Tree.OwnerMonitor(world.Ctx, req)
			if err != nil {
				return nil
			}
			res = world.Same(res, func(b *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
				return structs.NewOwnerMonitorResponse(w.Pub, b)
			})
			return answered(res, monitorEdits(w, &res.FullTreeHead, &res.Monitor), func(r *structs.OwnerMonitorResponse) error { return verify(r) }, none)
		}
		return nil
	case 3:
		req, verify, err := c.C.OwnerInit(label)
		if err != nil {
			return nil
		}
		res, err := w.Tree.OwnerInit(world.Ctx, req)
		if err != nil {
			return nil
		}
		res = world.Same(res, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
			return structs.NewOwnerInitResponse(w.Pub, b)
		})
		return answered(res, initEdits(w, res), verify, none)
	default:
		req, sv, err := c.C.Update(label, nil)
		if err != nil {
			return nil
		}
		ch, err := w.Tree.Update(world.Ctx, req)
		nd.Assert(err == nil, "the log accepts the update")
		var first *structs.UpdateResponse
		for r := range ch {
			nd.Assert(r.Err == nil, "the log answers an update")
			if first == nil {
				first = r.Out
			}
		}
		if first == nil {
			return nil
		}
		first = world.Same(first, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
			return structs.NewUpdateResponse(w.Pub, b)
		})
		return answered(first, updateEdits(w, first), sv.Verify, func(r *structs.UpdateResponse) []byte {
			var out []byte
			for _, v := range r.Values {
				out = append(append(out, byte(len(v.Value))), v.Value...)
			}
			return out
		})
	}
}

// sameLabel compares what is remembered of a label, in any order.
func sameLabel(a, b *structs.ClientLabelState) bool {
	if len(a.Versions) != len(b.Versions) {
		return false
	}
	x, y := *a, *b
	x.Versions, y.Versions = nil, nil
	ok := gen.EqClientLabelState(&x, &y)
	for _, v := range a.Versions {
		found := false
		for _, u := range b.Versions {
			found = nd.Or(found, gen.EqRetained(v, u))
		}
		ok = nd.And(ok, found)
	}
	return ok
}

// halfway says that what is remembered after monitoring an owned label is the
// truth about a part of the log that is between the two given: owner monitoring
// may stop at any distinguished entry.
func halfway(w *world.World, from, to, got *structs.ClientLabelState) bool {
	if from.Owner == nil || to.Owner == nil || got.Owner == nil {
		return false
	}
	x, y := *got, *to
	x.Owner, x.Versions, y.Owner, y.Versions = nil, nil, nil, nil
	ok := gen.EqClientLabelState(&x, &y)
	for _, v := range got.Versions {
		found := false
		for _, u := range slices.Concat(from.Versions, to.Versions) {
			found = nd.Or(found, gen.EqRetained(v, u))
		}
		ok = nd.And(ok, found)
	}
	o := got.Owner
	if o.Starting < from.Owner.Starting || o.Starting > to.Owner.Starting {
		return false
	}
	known := from.Owner.VerAtStarting + 1 + len(from.Owner.UpcomingVers)
	at := -1
	var upcoming []uint64
	for _, h := range w.Hist["a"][:known] {
		if h.Pos <= o.Starting {
			at++
		} else {
			upcoming = append(upcoming, h.Pos)
		}
	}
	return nd.And(ok, o.VerAtStarting == at && slices.Equal(o.UpcomingVers, upcoming))
}

// setup runs a log and a client that has some earlier state and is about to
// make request op.
func setup(op int) (*world.World, *world.Client, int) {
	w := world.New(world.Mode())
	c := w.NewClient()
	n := nd.Param("n")
	add := func(label string, k int) {
		w.Mutate(w.Additions(label, k))
		w.Audit()
	}
	known := n - 1
	if op < 2 {
		known = nd.Choose("known", n)
	}
	at := nd.Choose("at", n)
	for i := 0; i < n; i++ {
		if i == at {
			add("a", 1+nd.Choose("versions", nd.Param("batch")))
		} else {
			add("b", 1)
		}
		if i+1 == known || i+1 == n && op >= 2 {
			w.Publish()
			label := "b"
			if op == 2 || len(w.Hist["b"]) == 0 {
				label = "a"
			}
			if len(w.Hist[label]) > 0 {
				c.Greatest(label)
			}
		}
	}
	if op < 2 {
		w.Publish()
	}
	ver := 0
	switch op {
	case 1:
		ver = nd.Choose("version", len(w.Hist["a"]))
	case 2:
		add("b", 1)
		w.Publish()
		c.Greatest("b")
		if nd.Choose("more", 2) == 1 {
			add("b", 1)
			w.Publish()
		}
	case 3:
		if nd.Choose("more", 2) == 1 {
			add("b", 1)
			w.Publish()
		}
	case 4, 5:
		if !c.Own("a") {
			nd.Skip()
		}
		if op == 4 {
			add("b", 1)
		} else {
			add("a", 1+nd.Choose("new", nd.Param("batch")))
		}
		w.Publish()
		if op == 4 {
			c.Greatest("b")
		}
	}
	return w, c, ver
}

// start runs a log up to a request and returns the client, about to verify the
// honest response, and its twin, that has done so.
func start(ops []int) (op int, c, twin *world.Client, got *answer, said []byte) {
	op = ops[nd.Choose("op", len(ops))]
	w, c, ver := setup(op)
	twin = c.Twin()
	honest := ask(w, twin, op, ver)
	if honest == nil {
		nd.Skip()
	}
	said, err := honest.verify()
	nd.Assert(err == nil, "the client accepts an honest response")
	nd.Cover("honest")
	got = ask(w, c, op, ver)
	nd.Assert(got != nil, "the log answers again")
	return op, c, twin, got, said
}

// altered: one field of an honest response is replaced by an arbitrary one, or
// removed, or repeated.
func altered(ops ...int) {
	op, c, twin, got, said := start(ops)
	got.edits[nd.Choose("edit", len(got.edits))].do()
	check(op, c, twin, got, said)
}

// forged: all fields of an honest response are replaced by arbitrary ones.
func forged(ops ...int) {
	op, c, twin, got, said := start(ops)
	for _, e := range got.edits {
		if e.all {
			e.do()
		}
	}
	check(op, c, twin, got, said)
}

func AlteredSearch()  { altered(0, 1) }
func AlteredMonitor() { altered(2, 3, 4) }
func AlteredUpdate()  { altered(5) }
func ForgedSearch()   { forged(0, 1) }
func ForgedMonitor()  { forged(2, 3, 4) }
func ForgedUpdate()   { forged(5) }

// caught is whether monitoring of the owned label fails, as the log answers
// honestly or not at all.
func caught(c *world.Client) bool {
	for i := 0; i < 4; i++ {
		req, _, err := c.C.Monitor()
		nd.Assert(err == nil && req != nil, "the owned label is monitored")
		a := ask(c.W, c, 4, 0)
		if a == nil { // the log cannot answer
			return true
		} else if _, err := a.verify(); err != nil {
			return true
		}
	}
	return false
}

// check checks that the client accepts the response only if that is as good as
// the honest one that its twin has accepted.
func check(op int, c, twin *world.Client, got *answer, said []byte) {
	before, labelBefore, writes := c.S.State, c.LabelState("a"), c.S.Writes
	told, err := got.verify()
	if err != nil {
		nd.Cover("rejected")
		nd.Assert(c.S.Writes == writes && bytes.Equal(c.S.State, before) && sameLabel(c.LabelState("a"), labelBefore), "a rejected response changes nothing")
		return
	}
	if op == 5 {
		lie := nd.Not(nd.And(nd.EqBytes(told, said), sameLabel(c.LabelState("a"), twin.LabelState("a"))))
		if lie {
			nd.Assert(c.W.Distinguished(c.W.N()-1), "only what is in a distinguished entry is left for owner monitoring to verify")
			nd.Assert(caught(c), "owner monitoring detects a false response to an update")
			nd.Cover("caught")
			return
		}
	}
	nd.Cover("accepted")
	nd.Assert(nd.EqBytes(told, said), "the user is told nothing but the truth")
	nd.Assert(gen.EqClientState(c.State(), twin.State()), "the client's view of the log is the true one")
	now, want := c.LabelState("a"), twin.LabelState("a")
	nd.Assert(nd.Or(sameLabel(now, want), halfway(c.W, labelBefore, want, now)), "what the client remembers of the label is true")
}

// Fork: a client that has one log's tree gets a response of another log that
// has the same keys.
func Fork() {
	mode := world.Mode()
	w := world.New(mode)
	v := w.Fork()
	c := w.NewClient()
	m := 1 + nd.Choose("m", nd.Param("m"))
	n := 1 + nd.Choose("n", nd.Param("n"))
	grow := func(w *world.World, n int) {
		for i := 0; i < n; i++ {
			add := w.Additions("b", 1)
			if i == 0 {
				add = w.Additions("a", 1)
			}
			w.Mutate(add)
			w.Audit()
		}
		w.Publish()
	}
	grow(w, m)
	c.Greatest("a")
	grow(v, n)
	v.Drift()
	req, verify, err := c.C.GreatestVersionSearch([]byte("a"))
	nd.Assert(err == nil, "a search is requested")
	ask := *req
	switch last := nd.Choose("last", n+1); last {
	case 0:
		ask.Last = nil
	default:
		l := uint64(last)
		ask.Last = &l
	}
	res, err := v.Tree.Search(world.Ctx, &ask)
	nd.Assert(err == nil, "the other log answers")
	before, writes := c.S.State, c.S.Writes
	err = verify(res)
	if err != nil {
		nd.Cover("rejected")
		nd.Assert(c.S.Writes == writes && bytes.Equal(c.S.State, before), "a rejected response changes nothing")
		return
	}
	nd.Cover("accepted")
	same := true
	for i := uint64(0); i < uint64(m) && i < uint64(n); i++ {
		same = nd.And(same, nd.EqBytes(entry(w, i), entry(v, i)))
	}
	size := c.State().TreeHead.TreeSize
	nd.Assert(size >= uint64(m), "the client doesn't roll back")
	if size > uint64(m) {
		nd.Assert(size == uint64(n), "the client's tree is the one of the response")
		nd.Assert(same, "the client's new tree extends the one it had")
		nd.Cover("extended")
	} else {
		nd.Assert(nd.EqBytes(res.Value.Value, w.Hist["a"][0].Value), "a response about the client's tree tells the truth about it")
	}
}

// Stale: the log serves a tree head of the auditor that may be too old.
func Stale() {
	w := world.New(structs.ThirdPartyAuditing)
	c := w.NewClient()
	m := 1 + nd.Choose("m", nd.Param("m"))
	n := m + nd.Choose("n", nd.Param("n"))
	known := nd.Choose("known", 2)
	for i := 0; i < n; i++ {
		w.Mutate(w.Additions("a", 1))
		w.Audit()
		if i < m {
			w.Countersign()
		}
		if i == 0 && known == 1 && n > 1 {
			c.Greatest("a")
		}
	}
	req, verify, err := c.C.GreatestVersionSearch([]byte("a"))
	nd.Assert(err == nil, "a search is requested")
	res := w.Search(req)
	before, writes := c.S.State, c.S.Writes
	err = verify(res)
	fresh := w.Ts[n-1]-w.Ts[m-1] <= w.Pub.MaxAuditorLag
	nd.Assert((err == nil) == fresh, "the auditor's tree head is accepted exactly if it is recent enough")
	if err != nil {
		nd.Cover("rejected")
		nd.Assert(c.S.Writes == writes && bytes.Equal(c.S.State, before), "a rejected response changes nothing")
	} else {
		nd.Cover("accepted")
		nd.Assert(gen.EqAuditorTreeHead(c.State().AuditorTreeHead, w.AuditorHead()), "the client keeps the auditor's tree head")
	}
}

// Unsigned: the log has a version with an arbitrary signature of the service
// operator.
func Unsigned() {
	w := world.New(structs.ThirdPartyManagement)
	c := w.NewClient()
	n := 1 + nd.Choose("n", nd.Param("n"))
	bad := nd.Choose("bad", n)
	var signed bool
	for i := 0; i < n; i++ {
		add := w.Additions("a", 1)
		if i == bad {
			add[0].Value = w.Value([]byte("a"), i, nd.Bytes("value", nd.Choose("size", 3)))
			good := add[0].Value.Signature
			add[0].Value.Signature = nd.Bytes("leaf signature", nd.Choose("length", 4))
			signed = len(good) == len(add[0].Value.Signature) && nd.EqBytes(good, add[0].Value.Signature)
		}
		w.Mutate(add)
	}
	ver := nd.Choose("version", n)
	req, verify, err := c.C.FixedVersionSearch([]byte("a"), uint32(ver))
	if ver == n-1 && nd.Choose("greatest", 2) == 1 {
		req, verify, err = c.C.GreatestVersionSearch([]byte("a"))
	}
	nd.Assert(err == nil, "a search is requested")
	res := w.Search(req)
	err = verify(res)
	nd.Assert((err == nil) == nd.Or(ver != bad, signed), "a value is accepted exactly if the service operator has signed it")
	if err != nil {
		nd.Cover("rejected")
		nd.Assert(c.S.Writes == 0, "a rejected response changes nothing")
	} else {
		nd.Cover("accepted")
	}
}

// entry is the stored log entry.
func entry(w *world.World, i uint64) []byte {
	out, err := w.Store.BatchGet([]uint64{i})
	nd.Assert(err == nil && out[i] != nil, "the log entry is stored")
	return out[i]
}
