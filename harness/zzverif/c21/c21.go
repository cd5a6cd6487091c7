// Package c21 checks batches of updates: they are applied entirely, or not at all.
package c21

import (
	"bytes"
	"errors"

	"github.com/Bren2010/katie/crypto/suites"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/ktl"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
)

// history makes a log of up to n entries with versions of labels a and c.
func history() *world.World {
	w := world.New(world.Mode())
	n := nd.Choose("n", nd.Param("n")+1)
	for i := 0; i < n; i++ {
		var add []transparency.LabelValue
		k := nd.Choose("history", nd.Param("hist"))
		if k != 1 {
			add = append(add, w.Additions("a", 1+k/3)...)
		}
		if k == 1 || k == 2 {
			add = append(add, w.Additions("c", 1)...)
		}
		w.Mutate(add)
		w.Audit()
	}
	if n > 0 {
		w.Publish()
	}
	return w
}

var all = []string{"a", "b", "c"}

// answers are the responses to every search.
func answers(w *world.World) [][]byte {
	var out [][]byte
	if w.N() == 0 {
		_, err := w.Tree.Search(world.Ctx, &structs.SearchRequest{Label: []byte("a")})
		nd.Assert(err != nil, "an empty log has no answers")
		return nil
	}
	nd.SetNow(int64(w.Ts[w.N()-1]))
	for _, l := range all {
		for v := -1; v < max(1, min(len(w.Hist[l]), nd.Param("versions"))); v++ {
			req := &structs.SearchRequest{Label: []byte(l)}
			if v >= 0 {
				ver := uint32(v)
				req.Version = &ver
			}
			res, err := w.Tree.Search(world.Ctx, req)
			if err != nil {
				out = append(out, nil)
				continue
			}
			raw, err := structs.Marshal(res)
			nd.Assert(err == nil, "the response is encoded")
			out = append(out, raw)
		}
	}
	return out
}

func same(a, b [][]byte) {
	nd.Assert(len(a) == len(b), "the log gives the same answers as before")
	for i := range a {
		nd.Assert((a[i] == nil) == (b[i] == nil) && len(a[i]) == len(b[i]), "the log gives the same answers as before")
		nd.Assert(nd.EqBytes(a[i], b[i]), "the log gives the same answers as before")
	}
}

// removed checks that the label is gone from the log, except for the versions
// that were added since.
func removed(w *world.World, label string, versions int) {
	l := []byte(label)
	hist := w.Hist[label]
	raw, err := w.Store.BatchGetIndex([][]byte{l})
	nd.Assert(err == nil && (len(raw[0]) == 0) == (len(hist) == 0), "a removed label has no versions")
	var outs [][]byte
	for v := 0; v < versions; v++ {
		in, err := structs.Marshal(&structs.VrfInput{Label: l, Version: uint32(v)})
		nd.Assert(err == nil, "the VRF input is encoded")
		out, _ := w.Config.VrfKey.Prove(in)
		outs = append(outs, out)
		raw, err := w.Store.GetVersion(l, uint32(v))
		nd.Assert(err == nil, "versions can be looked up")
		if v >= len(hist) {
			nd.Assert(raw == nil, "the value of a removed version is gone")
			continue
		}
		buf := bytes.NewBuffer(raw)
		got, err := structs.NewOpeningAndValue(w.Pub, buf)
		nd.Assert(err == nil && buf.Len() == 0, "the value of a version is decoded")
		nd.Assert(nd.EqBytes(got.Value.Value, hist[v].Value), "the value of a version is the one added last")
	}
	res, err := prefix.NewTree(w.Suite, w.Store.PrefixStore()).Search([]prefix.PrefixSearch{{Version: w.N(), VrfOutputs: outs}})
	nd.Assert(err == nil, "the prefix tree can be searched")
	for v := range outs {
		nd.Assert(res[0].Proof.Results[v].Inclusion() == (v < len(hist)), "exactly the removed versions are gone from the prefix tree")
	}
}

// searchable checks that a client finds every version of the labels.
func searchable(w *world.World, gone map[string]int, versions bool) {
	w.Publish()
	nd.SetNow(int64(w.Ts[w.N()-1]))
	for _, l := range all {
		if n, ok := gone[l]; ok {
			removed(w, l, n)
			continue
		}
		w.NewClient().Greatest(l)
		for v := 0; versions && v < len(w.Hist[l]); v++ {
			w.NewClient().Fixed(l, v)
		}
	}
}

// flaky is a signature key that may fail.
type flaky struct {
	suites.SigningPrivateKey
	fail *bool
}

func (k flaky) Sign(m []byte) ([]byte, error) {
	if *k.fail {
		return nil, errors.New("unable to sign")
	}
	return k.SigningPrivateKey.Sign(m)
}

// Batch applies an arbitrary batch and then a valid one.
func Batch() {
	w := history()
	fail := nd.Param("fail") == 1
	if fail {
		w.Config.SignatureKey = flaky{w.Config.SignatureKey, &fail}
		w.Load()
		nd.Cover("fault")
	}
	before := answers(w)

	var add []transparency.LabelValue
	valid, added := true, map[string]int{}
	for i, k, n := 0, 0, nd.Choose("adds", nd.Param("adds")+1); i < n; i++ {
		k += nd.Choose("add", nd.Param("labels")-k)
		l := []string{"a", "b", "long"}[k]
		label, ver := []byte(l), 0
		if l == "long" {
			label, valid = make([]byte, 256), false
			nd.Cover("invalid")
		} else {
			ver = added[l]
			added[l]++
		}
		add = append(add, transparency.LabelValue{Label: label, Value: w.Value(label, len(w.Hist[l])+ver, nd.Bytes("new value", 1))})
	}
	ts := ktl.Time("clock")
	nd.SetNow(int64(ts))
	n := w.N()
	if n > 0 {
		valid = nd.And(valid, ts >= w.Ts[n-1])
	}
	dist := ktl.NewTree(int(n)+1).Distinguished(append(append([]uint64{}, w.Ts...), ts), w.Pub.ReasonableMonitoringWindow)
	var remove [][]byte
	gone := map[string]int{}
	for i, k, m := 0, 0, nd.Choose("removals", nd.Param("removals")+1); i < m; i++ {
		k += nd.Choose("remove", 3-k)
		l := []string{"a", "c", "z"}[k]
		remove = append(remove, []byte(l))
		hist := w.Hist[l]
		if len(hist) == 0 {
			continue
		}
		old := false
		for x := hist[len(hist)-1].Pos; x < n; x++ {
			old = nd.Or(old, dist[x])
		}
		valid = nd.And(valid, old)
		gone[l] = len(hist)
	}

	nd.MapOrders(2)
	upd, err := w.Tree.Mutate(add, remove)
	nd.MapOrders(0)
	nd.Log("%v", err)
	if err != nil {
		nd.Assert(nd.Or(fail, nd.Not(valid)), "a valid batch is accepted")
		nd.Cover("rejected")
		if nd.Choose("reload", 2) == 1 {
			w.Load()
		}
		same(before, answers(w))
		gone, fail = nil, false
	} else {
		nd.Assert(valid, "only a valid batch is accepted: time does not go back, and what is removed is old enough")
		for l := range gone {
			delete(w.Hist, l)
			nd.Cover("removed")
		}
		for _, a := range add {
			l := string(a.Label)
			w.Hist[l] = append(w.Hist[l], world.Version{Pos: n, Value: a.Value.Value})
		}
		w.Ts = append(w.Ts, ts)
		w.Upd = upd
		w.Audit()
		for l, n := range gone {
			if k := len(w.Hist[l]); k > n {
				gone[l] = k
			}
		}
		searchable(w, gone, true)
		nd.Cover("accepted")
	}
	n = w.N()
	if n > 0 {
		nd.SetNow(int64(w.Ts[n-1]))
	} else {
		nd.SetNow(0)
	}
	next := append(w.Additions("b", 1), w.Additions("a", 1)...)
	upd, err = w.Tree.Mutate(next, nil)
	nd.Assert(err == nil, "the next valid batch is accepted")
	for _, a := range next {
		l := string(a.Label)
		w.Hist[l] = append(w.Hist[l], world.Version{Pos: n, Value: a.Value.Value})
	}
	if n > 0 {
		w.Ts = append(w.Ts, w.Ts[n-1])
	} else {
		w.Ts = append(w.Ts, 0)
	}
	w.Upd = upd
	w.Load()
	w.Audit()
	searchable(w, gone, false)
	nd.Cover("next")
}

// Long is Batch with longer histories.
func Long() { Batch() }

// Fault is Batch where the log cannot sign its new head.
func Fault() { Batch() }

// Old is Batch where a version somewhere in a longer log is removed.
func Old() { Batch() }
