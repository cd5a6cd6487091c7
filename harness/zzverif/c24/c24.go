// Package c24 checks that requests and updates that happen at the same time do
// not interfere.
package c24

import (
	"bytes"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
	"github.com/syndtr/goleveldb/leveldb"
)

// env is a log in a database, its inserter, and requests to it.
type env struct {
	*world.World
	c      *world.Client
	signed uint64 // size of the auditor's tree head
	gone   bool   // label a was removed during the request
	from   uint64 // size of the log before the request
}

func start() *env {
	leveldb.Disks, leveldb.OnWrite, leveldb.OnRead = map[string]*leveldb.Disk{}, nil, nil
	s, err := db.NewLDBTransparencyStore("/nonexistent/katie")
	nd.Assert(err == nil, "the database is opened")
	w := world.NewOn(world.Mode(), s)
	return &env{World: w, c: w.NewClient()}
}

// grow adds an entry with some versions.
func (e *env) grow() {
	k := nd.Choose("versions", nd.Param("grow"))
	add := e.Additions("a", k)
	if k == 0 {
		add = e.Additions("b", 1)
	}
	e.Mutate(add)
}

// commit is a change by the inserter, or by the auditor.
func (e *env) commit() {
	last := e.Ts[len(e.Ts)-1]
	signed := e.signed
	if nd.Param("remove") == 1 && !e.gone && len(e.Hist["a"]) > 0 && nd.Choose("remove", 2) == 1 {
		ts := e.Tick()
		upd, err := e.Tree.Mutate(e.Additions("b", 1), [][]byte{[]byte("a")})
		if err != nil { // too early
			nd.Skip()
		}
		b := e.Hist["b"]
		e.Hist["b"] = append(b, world.Version{Pos: e.N(), Value: []byte{0}})
		e.Ts, e.Upd, e.gone = append(e.Ts, ts), upd, true
		e.Load()
		nd.Cover("removed")
	} else {
		e.grow()
	}
	e.Audit()
	nd.Cover("grown")
	if e.Pub.Mode == structs.ThirdPartyAuditing && nd.Choose("countersign", 2) == 1 {
		e.Countersign()
		e.signed = e.N()
		nd.Cover("countersigned")
	}
	// the clock fits any of the log's heads
	d := e.Ts[len(e.Ts)-1] - last
	nd.Assume(d <= e.Pub.MaxAhead)
	nd.Assume(d <= e.Pub.MaxBehind)
	if e.Pub.Mode == structs.ThirdPartyAuditing {
		nd.Assume(e.Ts[len(e.Ts)-1]-e.Ts[signed-1] <= e.Pub.MaxAuditorLag)
	}
}

// race serves a request, while there are changes at any points in between.
func (e *env) race(serve func(t *transparency.Tree) error) (uint64, uint64) {
	e.from = e.N()
	left := nd.Param("changes")
	reader := e.Store.Clone()
	var hook func()
	hook = func() {
		if left > 0 && nd.Choose("now", 2) == 1 {
			left--
			leveldb.OnRead = nil
			e.commit()
			leveldb.OnRead = hook
		}
	}
	leveldb.OnRead = hook
	t, err := transparency.NewTree(e.Config, reader, nil)
	nd.Assert(err == nil, "the log is opened")
	err = serve(t)
	leveldb.OnRead = nil
	nd.Log("served: %v", err)
	nd.AssertKnown(err == nil, "a request is answered while the log is updated", "removed-meanwhile", e.gone)
	if err != nil {
		nd.Skip()
	}
	if left == nd.Param("changes") {
		nd.Cover("undisturbed")
	}
	return e.from, e.N()
}

// accepted checks that the client accepted the answer.
func (e *env) accepted(err error) {
	nd.AssertKnown(err == nil, "the client accepts what is answered while the log is updated", "removed-meanwhile", e.gone)
	if err != nil {
		nd.Skip()
	}
}

// at is the number of versions in a log of n entries.
func (e *env) at(label string, n uint64) int {
	k := 0
	if e.gone && label == "a" && n > e.from {
		return 0
	}
	for _, v := range e.Hist[label] {
		if v.Pos < n {
			k++
		}
	}
	return k
}

// size is the tree size that the client has now seen.
func (e *env) size(from, to uint64) uint64 {
	n := e.c.State().TreeHead.TreeSize
	nd.Assert(n >= from && n <= to, "the answer is about a tree that was current during the request")
	return n
}

// Reads: requests that are served while the log is updated are about one of its
// trees.
func Reads() {
	e := start()
	n := 1 + nd.Choose("n", nd.Param("n"))
	op := nd.Choose("op", nd.Param("ops"))
	known := 1
	if op < 2 {
		known = nd.Choose("known", 2)
	}
	for i := 0; i < n; i++ {
		e.grow()
		e.Audit()
		e.Countersign()
		e.signed = e.N()
		if i == 0 && known == 1 {
			e.see("a", "b")
		}
	}
	switch op {
	case 0:
		e.search(nil)
	case 1:
		v := uint32(nd.Choose("version", len(e.Hist["a"])+1))
		e.search(&v)
	case 2: // contact monitoring of what was seen first
		e.see("b", "a")
		e.monitor()
	case 3:
		e.own()
	case 4:
		if !e.c.Own("a") {
			nd.Skip()
		}
		e.grow()
		e.Audit()
		e.Countersign()
		e.signed = e.N()
		e.monitor()
	}
}

// see searches one of two labels that exists.
func (e *env) see(l, m string) {
	if len(e.Hist[l]) == 0 {
		l = m
	}
	e.c.Greatest(l)
}

// own takes ownership of label a.
func (e *env) own() {
	req, verify, err := e.c.C.OwnerInit([]byte("a"))
	if err != nil {
		nd.Skip()
	}
	var res *structs.OwnerInitResponse
	from, to := e.race(func(t *transparency.Tree) error {
		res, err = t.OwnerInit(world.Ctx, world.Same(req, structs.NewOwnerInitRequest))
		return err
	})
	err = verify(world.Same(res, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(e.Pub, b)
	}))
	nd.Log("own: %v", err)
	e.accepted(err)
	e.size(from, to)
	st := e.c.LabelState("a").Owner
	nd.Assert(st.VerAtStarting == e.at("a", st.Starting+1)-1, "the owner knows the label's version")
	nd.Cover("own")
}

// search asks for a version of label a.
func (e *env) search(v *uint32) {
	var (
		req    *structs.SearchRequest
		verify transparency.VerifyFunc[*structs.SearchResponse]
		err    error
		res    *structs.SearchResponse
	)
	if v == nil {
		req, verify, err = e.c.C.GreatestVersionSearch([]byte("a"))
	} else {
		req, verify, err = e.c.C.FixedVersionSearch([]byte("a"), *v)
	}
	nd.Assert(err == nil, "a search is requested")
	from, to := e.race(func(t *transparency.Tree) error {
		res, err = t.Search(world.Ctx, world.Same(req, structs.NewSearchRequest))
		return err
	})
	n := to
	if h := res.FullTreeHead.TreeHead; h != nil {
		n = h.TreeSize
	} else if req.Last != nil {
		n = *req.Last
	}
	nd.Assert(n >= from && n <= to, "the answer is about a tree that was current during the request")
	count := e.at("a", n)
	res = world.Same(res, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
		return structs.NewSearchResponse(e.Pub, req, b)
	})
	err = verify(res)
	nd.Log("verify: %v", err)
	want := count - 1
	if v != nil {
		want = int(*v)
	}
	if want < 0 || want >= count {
		ok := err != nil && (err == algorithms.ErrLabelNotFound || e.Pub.Mode == structs.ThirdPartyManagement)
		nd.Assert(err != nil, "a version that does not exist is not found")
		nd.AssertKnown(ok, "a version that does not exist is not found", "removed-meanwhile", e.gone)
		nd.Cover("missing")
		return
	}
	e.accepted(err)
	nd.Assert(e.size(from, to) == n, "the client has seen the tree")
	if v == nil {
		nd.Assert(int(*res.Version) == want, "the version is the greatest of the tree")
	}
	nd.Assert(nd.EqBytes(res.Value.Value, e.Hist["a"][want].Value), "the value is the one of the version")
	nd.Cover("found")
}

// monitor monitors a label.
func (e *env) monitor() {
	req, verify, err := e.c.C.Monitor()
	if err != nil || req == nil {
		nd.Skip()
	}
	var out structs.Marshaller
	from, to := e.race(func(t *transparency.Tree) error {
		switch req := req.(type) {
		case *structs.ContactMonitorRequest:
			res, err := t.ContactMonitor(world.Ctx, world.Same(req, structs.NewContactMonitorRequest))
			if err != nil {
				return err
			}
			out = world.Same(res, func(b *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
				return structs.NewContactMonitorResponse(e.Pub, b)
			})
			nd.Cover("contact")
		case *structs.OwnerMonitorRequest:
			res, err := t.OwnerMonitor(world.Ctx, world.Same(req, structs.NewOwnerMonitorRequest))
			if err != nil {
				return err
			}
			out = world.Same(res, func(b *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
				return structs.NewOwnerMonitorResponse(e.Pub, b)
			})
			nd.Cover("owner")
		}
		return nil
	})
	err = verify(out)
	nd.Log("verify: %v", err)
	e.accepted(err)
	e.size(from, to)
}
