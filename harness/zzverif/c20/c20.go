// Package c20 checks that a log survives arbitrary requests.
package c20

import (
	"bytes"
	"time"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/tree/transparency/wire"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
)

// guard is a store that requests must not change.
type guard struct{ db.TransparencyStore }

func written() error {
	nd.Assert(false, "a request does not change what the log has stored")
	return nil
}

func (g guard) Clone() db.TransparencyStore             { return g }
func (g guard) PutTreeHead([]byte) error                { return written() }
func (g guard) PutAuditorTreeHead([]byte) error         { return written() }
func (g guard) PutIndex(_, _ []byte) error              { return written() }
func (g guard) DeleteIndex([]byte) error                { return written() }
func (g guard) PutVersion([]byte, uint32, []byte) error { return written() }
func (g guard) DeleteVersion(_ []byte, _ uint32) error  { return written() }
func (g guard) Put(uint64, []byte) error                { return written() }
func (g guard) Delete(uint64) error                     { return written() }
func (g guard) Commit() error                           { return written() }
func (g guard) LogStore() db.LogStore                   { return logGuard{g.TransparencyStore.LogStore()} }
func (g guard) PrefixStore() db.PrefixStore             { return prefixGuard{g.TransparencyStore.PrefixStore()} }

type logGuard struct{ db.LogStore }

func (logGuard) Put(uint64, []byte) error { return written() }
func (logGuard) Delete(uint64) error      { return written() }

type prefixGuard struct{ db.PrefixStore }

func (prefixGuard) Put(string, []byte) error { return written() }
func (prefixGuard) Delete(string) error      { return written() }

// ctx is a context that can be cancelled.
type ctx struct{ done chan struct{} }

func (c ctx) Deadline() (t time.Time, ok bool) { return }
func (c ctx) Done() <-chan struct{}            { return c.done }
func (c ctx) Err() error                       { return nil }
func (c ctx) Value(any) any                    { return nil }

// env is a log that requests are sent to.
type env struct {
	*world.World
	tree      *transparency.Tree
	reqs      chan transparency.UpdateRequest
	published bool // whether clients can use the log
}

// setup makes a log with up to n entries, which have versions of labels a and c.
func setup() *env {
	w := world.New(world.Mode())
	e := &env{World: w, published: true}
	n := nd.Choose("n", nd.Param("n")+1)
	for i := 0; i < n; i++ {
		k := nd.Choose("versions", nd.Param("batch")+1)
		add := w.Additions("a", k)
		if k == 0 || i == 0 {
			add = append(add, w.Additions("c", 1)...)
		}
		w.Mutate(add)
		w.Audit()
		if i+2 == n {
			w.Publish()
		}
	}
	if n == 0 {
		e.published = false
	} else if w.Auditor != nil && n == 1 && nd.Choose("unpublished", 2) == 1 {
		e.published = false
		nd.Cover("unpublished")
	} else {
		w.Publish()
	}
	if nd.Param("values") > 0 && nd.Choose("updater", 2) == 1 {
		e.reqs = make(chan transparency.UpdateRequest)
	}
	t, err := transparency.NewTree(w.Config, guard{w.Store}, e.reqs)
	nd.Assert(err == nil, "the log is opened")
	e.tree = t
	nd.StepLimit(nd.Param("work") * 1000)
	return e
}

// usable checks that the log is still there for everyone else.
func (e *env) usable() {
	if !e.published {
		return
	}
	w := e.World
	w.Load()
	if n := e.tree.TreeHead(); n != nil && n.TreeSize == w.N() {
		w.Tree = e.tree // the very server
	}
	w.Drift()
	w.NewClient().Greatest("c")
}

func last() *uint64 {
	if nd.Choose("last", 2) == 0 {
		return nil
	}
	x := nd.U64("last")
	return &x
}

func label() []byte {
	return [][]byte{[]byte("a"), []byte("b"), {}}[nd.Choose("label", nd.Param("labels"))]
}

// version is one of the first versions, or a large one.
func version() uint32 {
	small := nd.Param("small")
	large := []uint32{1<<32 - 1, 1 << 31, 1<<31 - 1, 1<<32 - 2}[:nd.Param("large")]
	k := nd.Choose("version", small+len(large))
	if k < small {
		return uint32(k)
	}
	return large[k-small]
}

func optVersion() *uint32 {
	if nd.Choose("no version", 2) == 1 {
		return nil
	}
	v := version()
	return &v
}

func entries() []structs.MonitorMapEntry {
	out := make([]structs.MonitorMapEntry, nd.Choose("entries", nd.Param("entries")+1))
	for i := range out {
		out[i] = structs.MonitorMapEntry{Position: nd.U64("position"), Version: nd.U32("entry version")}
	}
	return out
}

// done checks a response: there is either one that can be sent, or an error.
func done[T any](e *env, err error, res *T, m structs.Marshaller, parse func(*bytes.Buffer) (*T, error)) {
	nd.Log("%v", err)
	if err != nil {
		nd.Cover("error")
		return
	}
	nd.Assert(res != nil, "there is a response or an error")
	world.Same(m, parse)
	nd.Cover("response")
}

// Search sends an arbitrary search request.
func Search() {
	e := setup()
	req := &structs.SearchRequest{Last: last(), Label: label(), Version: optVersion()}
	res, err := e.tree.Search(world.Ctx, req)
	done(e, err, res, res, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
		return structs.NewSearchResponse(e.Pub, req, b)
	})
	e.usable()
}

// Contact sends an arbitrary contact monitoring request.
func Contact() {
	e := setup()
	req := &structs.ContactMonitorRequest{Last: last(), Label: label(), Entries: entries()}
	res, err := e.tree.ContactMonitor(world.Ctx, req)
	done(e, err, res, res, func(b *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
		return structs.NewContactMonitorResponse(e.Pub, b)
	})
	e.usable()
}

// Init sends an arbitrary request to own a label.
func Init() {
	e := setup()
	req := &structs.OwnerInitRequest{Last: last(), Label: label(), Start: nd.U64("start")}
	res, err := e.tree.OwnerInit(world.Ctx, req)
	done(e, err, res, res, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(e.Pub, b)
	})
	e.usable()
}

// Monitor sends an arbitrary owner monitoring request.
func Monitor() {
	e := setup()
	req := &structs.OwnerMonitorRequest{
		Last: last(), Label: label(), Entries: entries(),
		Start: nd.U64("start"), GreatestVersion: optVersion(),
	}
	res, err := e.tree.OwnerMonitor(world.Ctx, req)
	done(e, err, res, res, func(b *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
		return structs.NewOwnerMonitorResponse(e.Pub, b)
	})
	e.usable()
}

// insert handles the updates that the log is asked for.
func (e *env) insert(c ctx, values bool) {
	if e.reqs == nil {
		return
	}
	if !values {
		return
	} else if nd.Choose("nobody", 2) == 1 { // nobody handles updates
		close(c.done)
		nd.Cover("cancelled")
		return
	}
	go func() {
		r, ok := <-e.reqs
		if !ok {
			return
		}
		switch nd.Choose("inserter", 3) {
		case 0:
			w := e.World
			var add []transparency.LabelValue
			for _, v := range r.Values {
				add = append(add, transparency.LabelValue{Label: r.Label, Value: v})
			}
			pos := w.N()
			w.Mutate(add)
			w.Audit()
			if w.Auditor != nil {
				w.Countersign()
			}
			e.published = true
			nd.Cover("inserted")
			r.Response <- pos
		case 1:
			nd.Cover("refused")
			close(r.Response)
		case 2:
			nd.Cover("abandoned")
			close(c.done)
		}
	}()
}

// drain reads the responses to an update.
func (e *env) drain(ch <-chan wire.UpdateResponse, err error) {
	nd.Log("%v", err)
	if err != nil {
		nd.Cover("error")
	} else {
		for r := range ch {
			done(e, r.Err, r.Out, r.Out, func(b *bytes.Buffer) (*structs.UpdateResponse, error) {
				return structs.NewUpdateResponse(e.Pub, b)
			})
		}
	}
	if e.reqs != nil {
		close(e.reqs)
	}
	e.usable()
}

// Update sends an arbitrary update request.
func Update() {
	e := setup()
	req := &structs.UpdateRequest{
		Last: last(), Label: label(), GreatestVersion: optVersion(),
		Values: make([]structs.LabelValue, nd.Choose("values", nd.Param("values")+1)),
	}
	for i := range req.Values {
		req.Values[i].Value = nd.Bytes("new value", 1)
	}
	if e.Config.Mode == structs.ThirdPartyManagement && len(req.Values) > 0 {
		nd.Skip() // not offered to users
	}
	c := ctx{make(chan struct{})}
	e.insert(c, len(req.Values) > 0)
	ch, err := e.tree.Update(c, req)
	e.drain(ch, err)
}

// Manager sends an arbitrary update request from a service operator.
func Manager() {
	e := setup()
	l := label()
	req := &structs.ManagerUpdateRequest{
		Last: last(), Label: l,
		Values: make([]structs.UpdateValue, nd.Choose("values", nd.Param("values")+1)),
	}
	signed := len(req.Values) == 0 || nd.Choose("signed", 2) == 1
	if e.Config.Mode == structs.ThirdPartyManagement && signed {
		req.GreatestVersion, req.SignedVersion = optVersion(), version()
	}
	for i := range req.Values {
		v := nd.Bytes("new value", 1)
		if signed {
			req.Values[i] = e.Value(l, int(req.SignedVersion)+i, v)
		} else {
			req.Values[i] = structs.UpdateValue{Value: v}
			req.Values[i].Signature = nd.Bytes("signature", 2*nd.Choose("signature size", 2))
		}
	}
	c := ctx{make(chan struct{})}
	e.insert(c, len(req.Values) > 0)
	ch, err := e.tree.ManagerUpdate(c, req)
	e.drain(ch, err)
}
