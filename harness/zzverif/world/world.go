// Package world runs a transparency log, its auditor and its clients.
package world

import (
	"bytes"
	"context"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/algorithms"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/ktl"
	"github.com/Bren2010/katie/zzverif/nd"
)

// Version is a version of a label: the entry it was added at and its value.
type Version struct {
	Pos   uint64
	Value []byte
}

// World is a log and what it should contain.
type World struct {
	Suite   kt.Suite
	Leaf    kt.SigKey
	AudKey  kt.SigKey
	Config  structs.PrivateConfig
	Pub     *structs.PublicConfig
	Store   db.TransparencyStore
	Tree    *transparency.Tree
	Auditor *auditor.Auditor

	Ts     []uint64
	Signed uint64 // size of the auditor's tree head
	Hist   map[string][]Version
	Upd    *structs.AuditorUpdate // the last one
}

// Mode is one of the modes that the parameter "modes" has as bits.
func Mode() structs.DeploymentMode {
	var ms []structs.DeploymentMode
	for i, m := range []structs.DeploymentMode{structs.ContactMonitoring, structs.ThirdPartyManagement, structs.ThirdPartyAuditing} {
		if nd.Param("modes")&(1<<i) != 0 {
			ms = append(ms, m)
		}
	}
	return ms[nd.Choose("mode", len(ms))]
}

// New returns an empty log with arbitrary windows.
func New(mode structs.DeploymentMode) *World { return NewOn(mode, memory.NewTransparencyStore()) }

// NewOn returns a log, with arbitrary windows, in an empty store.
func NewOn(mode structs.DeploymentMode, store db.TransparencyStore) *World {
	w := &World{Suite: kt.New(2), Hist: map[string][]Version{}}
	w.Leaf, w.AudKey = kt.SigKey{S: w.Suite, Id: 3}, kt.SigKey{S: w.Suite, Id: 4}
	c := structs.Config{
		Suite: w.Suite, Mode: mode,
		MaxAhead: ktl.Time("ahead"), MaxBehind: ktl.Time("behind"),
		ReasonableMonitoringWindow: ktl.Time("window"),
	}
	if nd.Param("lifetime") == 1 {
		c.MaximumLifetime = ktl.Time("lifetime")
		nd.Assume(nd.Or(c.MaximumLifetime == 0, c.MaximumLifetime > c.ReasonableMonitoringWindow))
	}
	switch mode {
	case structs.ThirdPartyManagement:
		c.LeafPublicKey = w.Leaf.Public()
	case structs.ThirdPartyAuditing:
		c.AuditorPublicKey = w.AudKey.Public()
		c.MaxAuditorLag = ktl.Time("lag")
	}
	w.Config = structs.PrivateConfig{
		SignatureKey: kt.SigKey{S: w.Suite, Id: 1}, VrfKey: kt.VrfKey{S: w.Suite, Id: 2}, Config: c,
	}
	w.Pub = w.Config.Public()
	w.Store = store
	w.Load()
	if mode == structs.ThirdPartyAuditing {
		a, err := auditor.NewAuditor(w.Pub, w.AudKey, memory.NewAuditorStore())
		nd.Assert(err == nil, "the auditor starts")
		w.Auditor = a
	}
	return w
}

// Fork returns another empty log with the same keys and configuration.
func (w *World) Fork() *World {
	v := *w
	v.Hist = map[string][]Version{}
	v.Ts, v.Signed, v.Upd = nil, 0, nil
	v.Store = memory.NewTransparencyStore()
	v.Load()
	if v.Auditor != nil {
		a, err := auditor.NewAuditor(v.Pub, v.AudKey, memory.NewAuditorStore())
		nd.Assert(err == nil, "the auditor starts")
		v.Auditor = a
	}
	return &v
}

// Load opens the stored log.
func (w *World) Load() {
	t, err := transparency.NewTree(w.Config, w.Store, nil)
	nd.Assert(err == nil, "the log is opened")
	w.Tree = t
}

// N is the size of the log.
func (w *World) N() uint64 { return uint64(len(w.Ts)) }

// Tick moves the clock to an arbitrary later time.
func (w *World) Tick() uint64 {
	ts := ktl.Time("timestamp")
	nd.Assume(ts < 1<<62)
	if len(w.Ts) > 0 {
		nd.Assume(ts >= w.Ts[len(w.Ts)-1])
	}
	nd.SetNow(int64(ts))
	return ts
}

// Value is the update value of version ver of the label.
func (w *World) Value(label []byte, ver int, value []byte) structs.UpdateValue {
	out := structs.UpdateValue{Value: value}
	if w.Config.Mode == structs.ThirdPartyManagement {
		tbs, err := structs.Marshal(&structs.UpdateTBS{Config: w.Pub, Label: label, Version: uint32(ver), Value: value})
		nd.Assert(err == nil, "the update is encoded")
		out.Signature, err = w.Leaf.Sign(tbs)
		nd.Assert(err == nil, "the update is signed")
	}
	return out
}

// Additions are `count` new versions of the label, with arbitrary values.
func (w *World) Additions(label string, count int) []transparency.LabelValue {
	var out []transparency.LabelValue
	l := []byte(label)
	for i := 0; i < count; i++ {
		v := nd.Bytes("value", 1)
		out = append(out, transparency.LabelValue{Label: l, Value: w.Value(l, len(w.Hist[label])+i, v)})
	}
	return out
}

// Mutate adds an entry with these additions at an arbitrary later time.
func (w *World) Mutate(add []transparency.LabelValue) {
	ts := w.Tick()
	upd, err := w.Tree.Mutate(add, nil)
	nd.Assert(err == nil, "the update is accepted")
	for _, a := range add {
		l := string(a.Label)
		w.Hist[l] = append(w.Hist[l], Version{w.N(), a.Value.Value})
	}
	w.Ts = append(w.Ts, ts)
	w.Upd = upd
	w.Load()
}

// Audit passes the last update to the auditor.
func (w *World) Audit() {
	if w.Auditor == nil {
		return
	}
	raw, err := structs.Marshal(w.Upd)
	nd.Assert(err == nil, "the auditor update is encoded")
	buf := bytes.NewBuffer(raw)
	upd, err := structs.NewAuditorUpdate(w.Suite, buf)
	nd.Assert(err == nil && buf.Len() == 0, "the auditor update is decoded")
	nd.Assert(w.Auditor.Process(upd) == nil, "the auditor accepts the update")
}

// AuditorHead is the published auditor tree head, if any.
func (w *World) AuditorHead() *structs.AuditorTreeHead {
	_, raw, _ := w.Store.GetTreeHead()
	if raw == nil {
		return nil
	}
	head, err := structs.NewAuditorTreeHead(bytes.NewBuffer(raw))
	nd.Assert(err == nil, "the auditor head is decoded")
	return head
}

// Countersign publishes the auditor's tree head.
func (w *World) Countersign() {
	if w.Auditor == nil {
		return
	}
	head, err := w.Auditor.Commit()
	nd.Assert(err == nil, "the auditor signs")
	raw, err := structs.Marshal(head)
	nd.Assert(err == nil && w.Store.PutAuditorTreeHead(raw) == nil && w.Store.Commit() == nil, "the auditor head is stored")
	w.Load()
}

// Publish countersigns the log, unless there is an older auditor tree head that
// is still recent enough.
func (w *World) Publish() {
	if w.Auditor == nil {
		return
	}
	if w.Signed > 0 && nd.Param("lag") == 1 && nd.Choose("lag", 2) == 1 {
		nd.Assume(w.Ts[w.N()-1]-w.Ts[w.Signed-1] <= w.Pub.MaxAuditorLag)
		nd.Cover("lagging")
		return
	}
	w.Countersign()
	w.Signed = w.N()
}

// Drift sets the clock to any time close enough to the last timestamp.
func (w *World) Drift() {
	now, ts := ktl.Time("now"), w.Ts[w.N()-1]
	nd.Assume(now < 1<<62)
	nd.Assume(nd.Or(now >= ts, ts-now <= w.Pub.MaxAhead))
	nd.Assume(nd.Or(now <= ts, now-ts <= w.Pub.MaxBehind))
	nd.SetNow(int64(now))
}

// Distinguished is whether entry x is distinguished.
func (w *World) Distinguished(x uint64) bool {
	return ktl.NewTree(int(w.N())).Distinguished(w.Ts, w.Pub.ReasonableMonitoringWindow)[x]
}

// Ctx is the context of requests.
var Ctx = context.Background()

// Same passes the message over the wire.
func Same[T any](m structs.Marshaller, parse func(*bytes.Buffer) (*T, error)) *T {
	raw, err := structs.Marshal(m)
	nd.Assert(err == nil, "the message is encoded")
	buf := bytes.NewBuffer(raw)
	out, err := parse(buf)
	nd.Assert(err == nil && buf.Len() == 0, "the message is decoded")
	return out
}

// Search sends the request to the log.
func (w *World) Search(req *structs.SearchRequest) *structs.SearchResponse {
	got := Same(req, structs.NewSearchRequest)
	res, err := w.Tree.Search(Ctx, got)
	if req.Version != nil && err == algorithms.ErrLabelExpired {
		return nil
	}
	nd.Assert(err == nil, "the log answers a search")
	return Same(res, func(b *bytes.Buffer) (*structs.SearchResponse, error) {
		return structs.NewSearchResponse(w.Pub, req, b)
	})
}

// ContactMonitor sends the request to the log.
func (w *World) ContactMonitor(req *structs.ContactMonitorRequest) *structs.ContactMonitorResponse {
	res, err := w.Tree.ContactMonitor(Ctx, Same(req, structs.NewContactMonitorRequest))
	nd.Assert(err == nil, "the log answers a contact monitoring request")
	return Same(res, func(b *bytes.Buffer) (*structs.ContactMonitorResponse, error) {
		return structs.NewContactMonitorResponse(w.Pub, b)
	})
}

// OwnerInit sends the request to the log.
func (w *World) OwnerInit(req *structs.OwnerInitRequest) *structs.OwnerInitResponse {
	res, err := w.Tree.OwnerInit(Ctx, Same(req, structs.NewOwnerInitRequest))
	nd.Assert(err == nil, "the log answers an owner initialization request")
	return Same(res, func(b *bytes.Buffer) (*structs.OwnerInitResponse, error) {
		return structs.NewOwnerInitResponse(w.Pub, b)
	})
}

// OwnerMonitor sends the request to the log.
func (w *World) OwnerMonitor(req *structs.OwnerMonitorRequest) *structs.OwnerMonitorResponse {
	res, err := w.Tree.OwnerMonitor(Ctx, Same(req, structs.NewOwnerMonitorRequest))
	nd.Assert(err == nil, "the log answers an owner monitoring request")
	return Same(res, func(b *bytes.Buffer) (*structs.OwnerMonitorResponse, error) {
		return structs.NewOwnerMonitorResponse(w.Pub, b)
	})
}
