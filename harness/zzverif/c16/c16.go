// Package c16 checks what an auditor signs.
package c16

import (
	"bytes"
	"errors"
	"slices"

	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/forge"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/ktl"
	"github.com/Bren2010/katie/zzverif/nd"
)

const known = "hidden-sibling"

// none is an update that changes nothing.
const none = -1

// diskStore is the auditor's storage; writing to it may fail.
type diskStore struct {
	memory.AuditorStore
	full bool
}

var errFull = errors.New("disk full")

func (s *diskStore) PutState(raw []byte) error {
	if s.full {
		return errFull
	}
	return s.AuditorStore.PutState(raw)
}

// added is an entry of the prefix tree and where it was added.
type added struct {
	kt.Entry
	pos int
}

// env is an auditor, and the log that it should be following.
type env struct {
	s     kt.Suite
	key   kt.SigKey
	pub   *structs.PublicConfig
	store *diskStore
	a     *auditor.Auditor

	tiles  *memory.PrefixStore
	set    []added
	ts     []uint64
	leaves [][]byte
	vrfs   [][]byte // of the entries to add next
	coms   byte
	gone   [][]byte // VRF outputs that were removed
}

func setup() *env {
	s := kt.New(2)
	e := &env{s: s, key: kt.SigKey{S: s, Id: 4}, store: &diskStore{}, tiles: memory.NewPrefixStore(), coms: 0xa0}
	c := structs.Config{
		Suite: s, Mode: structs.ThirdPartyAuditing,
		ReasonableMonitoringWindow: ktl.Time("window"),
		AuditorPublicKey:           e.key.Public(),
	}
	p := structs.PrivateConfig{SignatureKey: kt.SigKey{S: s, Id: 1}, VrfKey: kt.VrfKey{S: s, Id: 2}, Config: c}
	e.pub = p.Public()
	order := [][]byte{{0x00, 0xc0, 0x40, 0x80, 0x20, 0xe0}, {0x80, 0x40, 0xc0, 0x00, 0xe0, 0x20}}[nd.Choose("layout", nd.Param("layouts"))]
	for _, b := range order {
		e.vrfs = append(e.vrfs, []byte{b, 0})
	}
	e.open()
	return e
}

func (e *env) open() {
	a, err := auditor.NewAuditor(e.pub, e.key, e.store)
	nd.Assert(err == nil, "the auditor starts")
	e.a = a
}

func (e *env) entries() []kt.Entry {
	var out []kt.Entry
	for _, x := range e.set {
		out = append(out, x.Entry)
	}
	return out
}

func find(set []added, vrf []byte) int {
	for i, x := range set {
		if nd.EqBytes(x.Vrf, vrf) {
			return i
		}
	}
	return -1
}

// head checks that the auditor signs the log it has followed.
func (e *env) head() {
	n := len(e.ts)
	h, err := e.a.Commit()
	if n == 0 {
		nd.Assert(err != nil, "nothing is signed before the first update")
		return
	}
	nd.Assert(err == nil, "the auditor signs")
	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{
		Config: e.pub, Timestamp: e.ts[n-1], TreeSize: uint64(n), Root: kt.LogRoot(e.s, e.leaves).Value,
	})
	nd.Assert(err == nil, "the tree head is encoded")
	nd.Assert(nd.And(h.TreeSize == uint64(n), h.Timestamp == e.ts[n-1]), "the auditor signs the size and last timestamp of the log")
	nd.Assert(e.key.Public().Verify(tbs, h.Signature), "the auditor signs the root of the log it was shown")
	raw, err := structs.Marshal(h)
	nd.Assert(err == nil, "the tree head is encoded")
	buf := bytes.NewBuffer(raw)
	_, err = structs.NewAuditorTreeHead(buf)
	nd.Assert(err == nil && buf.Len() == 0, "the tree head is decoded")
}

// eligible is whether the entry added at pos is in a distinguished entry of the
// log, before the one that is added at time ts.
func (e *env) eligible(pos int, ts uint64) bool {
	n := len(e.ts)
	d := ktl.NewTree(n+1).Distinguished(append(slices.Clone(e.ts), ts), e.pub.ReasonableMonitoringWindow)
	ok := false
	for x := pos; x < n; x++ {
		ok = nd.Or(ok, d[x])
	}
	return ok
}

// apply makes the changes in the reference contents. It says whether they are
// allowed, and whether the proof cannot show the new root.
func (e *env) apply(ts uint64, add, remove []prefix.Entry) (ok, hidden bool, next []added) {
	n := len(e.ts)
	ok = n == 0
	if n > 0 {
		ok = ts >= e.ts[n-1]
	}
	next = slices.Clone(e.set)
	for i, r := range remove {
		j := find(next, r.VrfOutput)
		if j < 0 {
			return false, false, nil
		}
		ok = nd.And(ok, nd.And(nd.EqBytes(next[j].Com, r.Commitment), e.eligible(next[j].pos, ts)))
		next = slices.Delete(next, j, j+1)
		if i > 0 && bytes.Compare(remove[i-1].VrfOutput, r.VrfOutput) >= 0 {
			return false, false, nil
		}
	}
	var fresh []kt.Entry
	for i, a := range add {
		if find(next, a.VrfOutput) >= 0 {
			return false, false, nil
		}
		next = append(next, added{kt.Entry{Vrf: a.VrfOutput, Com: a.Commitment}, n})
		fresh = append(fresh, kt.Entry{Vrf: a.VrfOutput, Com: a.Commitment})
		if i > 0 && bytes.Compare(add[i-1].VrfOutput, a.VrfOutput) >= 0 {
			return false, false, nil
		}
	}
	var after []kt.Entry
	for _, x := range next {
		after = append(after, x.Entry)
	}
	return ok, hiddenSibling(e.entries(), after, fresh), next
}

// advance is what an accepted update does to the log.
func (e *env) advance(ts uint64, next []added) {
	e.set = next
	var after []kt.Entry
	for _, x := range next {
		after = append(after, x.Entry)
	}
	leaf, err := (&structs.LogEntry{Timestamp: ts, PrefixTree: kt.PrefixRoot(e.s, after, 0)}).Hash(e.s)
	nd.Assert(err == nil, "the log entry is hashed")
	e.leaves = append(e.leaves, leaf)
	e.ts = append(e.ts, ts)
}

// fresh is an entry to add.
func (e *env) fresh() prefix.Entry {
	if len(e.vrfs) == 0 {
		nd.Skip()
	}
	vrf := e.vrfs[0]
	e.vrfs = e.vrfs[1:]
	e.coms++
	return prefix.Entry{VrfOutput: vrf, Commitment: kt.Fill(e.coms, e.s.H)}
}

// honest offers an update of the real prefix tree to the auditor; it may not be
// allowed at this time. It says whether it is.
func (e *env) honest(ops int) bool { return e.update(nd.Choose("op", ops)) }

func (e *env) update(op int) bool {
	n := len(e.ts)
	var add, remove []prefix.Entry
	if op == 0 || op == 3 || op == 4 {
		add = append(add, e.fresh())
	}
	if op == 3 {
		add = append(add, e.fresh())
	}
	if op == 1 || op == 2 || op == 4 {
		if len(e.set) == 0 {
			nd.Skip()
		}
		x := e.set[nd.Choose("remove", len(e.set))]
		remove = append(remove, prefix.Entry{VrfOutput: x.Vrf, Commitment: x.Com})
		if op == 2 {
			e.coms++
			add = append(add, prefix.Entry{VrfOutput: x.Vrf, Commitment: kt.Fill(e.coms, e.s.H)})
		}
		if op == 1 {
			e.gone = append(e.gone, x.Vrf)
		}
	}
	if op == 5 { // add a removed entry again
		if len(e.gone) == 0 || find(e.set, e.gone[0]) >= 0 {
			nd.Skip()
		}
		e.coms++
		add = append(add, prefix.Entry{VrfOutput: e.gone[0], Commitment: kt.Fill(e.coms, e.s.H)})
	}
	slices.SortFunc(add, func(a, b prefix.Entry) int { return bytes.Compare(a.VrfOutput, b.VrfOutput) })
	ts := ktl.Time("timestamp")

	var rem [][]byte
	for _, r := range remove {
		rem = append(rem, r.VrfOutput)
	}
	_, proof, _, err := prefix.NewTree(e.s, e.tiles).Mutate(uint64(n), add, rem)
	nd.Assert(err == nil, "the prefix tree is changed")
	ok, hidden, next := e.apply(ts, add, remove)

	err = e.process(&structs.AuditorUpdate{Timestamp: ts, Added: add, Removed: remove, Proof: *proof})
	nd.Log("op %v: %v", op, err)
	if err != nil {
		nd.Assert(nd.Not(ok), "the auditor accepts an allowed update")
		nd.Cover("refused")
		return false
	}
	nd.Assert(ok, "the auditor accepts only allowed updates: time does not go back, and what is removed is old enough")
	if len(remove) > 0 {
		nd.Cover("removed")
	}
	e.advance(ts, next)
	if hidden {
		nd.AssertKnown(e.follows(), "the auditor follows the log", known, hidden)
		nd.Skip()
	}
	return true
}

// follows is whether the auditor's next signature is for the true log.
func (e *env) follows() bool {
	h, err := e.a.Commit()
	nd.Assert(err == nil, "the auditor signs")
	tbs, err := structs.Marshal(&structs.AuditorTreeHeadTBS{
		Config: e.pub, Timestamp: e.ts[len(e.ts)-1], TreeSize: uint64(len(e.ts)), Root: kt.LogRoot(e.s, e.leaves).Value,
	})
	nd.Assert(err == nil, "the tree head is encoded")
	return e.key.Public().Verify(tbs, h.Signature)
}

// process passes the update over the wire.
func (e *env) process(u *structs.AuditorUpdate) error {
	raw, err := structs.Marshal(u)
	nd.Assert(err == nil, "the update is encoded")
	buf := bytes.NewBuffer(raw)
	u, err = structs.NewAuditorUpdate(e.s, buf)
	nd.Assert(err == nil && buf.Len() == 0, "the update is decoded")
	before := slices.Clone(e.store.Data)
	err = e.a.Process(u)
	nd.Assert(len(before) == len(e.store.Data) && nd.EqBytes(before, e.store.Data), "updates are not persisted before they are signed")
	return err
}

// Follow: the auditor follows an honest log, and refuses what is not allowed.
// The log starts with some entries that change nothing. The auditor possibly
// stops once, after it signed.
func Follow() {
	e := setup()
	steps := nd.Param("steps")
	lead := []int{0, 4, 2}[nd.Choose("lead", nd.Param("leads"))]
	if lead == 2 {
		steps = nd.Param("short")
	}
	for i := 0; i < lead; i++ {
		if !e.update(none) {
			nd.Skip()
		}
	}
	restart := nd.Choose("restart", steps)
	for i, refused := 0, 0; i < steps; i++ {
		if !e.honest(nd.Param("ops")) {
			refused++
		}
		if refused > nd.Param("refused") {
			nd.Skip()
		}
		if restart == i && i+1 < steps {
			if nd.Choose("full", nd.Param("full")) == 1 {
				e.store.full = true
				_, err := e.a.Commit()
				nd.Assert(err != nil, "no tree head is signed that the auditor fails to remember")
				e.store.full = false
				nd.Cover("full")
			}
			e.head()
			e.open()
			nd.Cover("restarted")
		}
	}
	e.head()
}

// Hostile: after some honest updates there is any other update. If the auditor
// accepts it then it describes the change of the tree; if not, nothing changes.
func Hostile() {
	e := setup()
	for i, n := 0, nd.Choose("n", nd.Param("n")+1); i < n; i++ {
		if !e.honest(nd.Param("ops")) {
			nd.Skip()
		}
	}
	var add, remove []prefix.Entry
	bits := nd.Param("bits")
	for i, n := 0, nd.Choose("additions", nd.Param("additions")+1); i < n; i++ {
		e.coms++
		add = append(add, prefix.Entry{VrfOutput: kt.SymVrf("add", e.s, bits), Commitment: kt.Fill(e.coms, e.s.H)})
	}
	for i, n := 0, nd.Choose("removals", nd.Param("removals")+1); i < n; i++ {
		remove = append(remove, prefix.Entry{VrfOutput: kt.SymVrf("rem", e.s, bits), Commitment: nd.Bytes("remcom", e.s.H)})
	}
	proof, _ := forge.Proof(e.s, len(add)+len(remove), nd.Param("depth"), nd.Param("elems"), bits)
	ts := ktl.Time("timestamp")
	err := e.process(&structs.AuditorUpdate{Timestamp: ts, Added: add, Removed: remove, Proof: *proof})
	nd.Log("hostile: %v", err)
	if err != nil {
		nd.Cover("refused")
		e.head()
		if !e.honest(1) {
			nd.Skip()
		}
		e.head()
		return
	}
	nd.Cover("accepted")
	ok, hidden, next := e.apply(ts, add, remove)
	nd.Assert(ok, "the auditor accepts only updates of the tree it has committed to")
	e.advance(ts, next)
	if hidden {
		nd.AssertKnown(e.follows(), "the auditor follows the log", known, hidden)
		nd.Skip()
	}
	e.head()
}
