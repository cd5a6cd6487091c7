// Package c18 checks that a log in a LevelDB database survives crashes.
package c18

import (
	"errors"

	"github.com/Bren2010/katie/db"
	"github.com/Bren2010/katie/tree/transparency"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
	"github.com/syndtr/goleveldb/leveldb"
)

const file = "/nonexistent/katie"

var labels = []string{"a", "b"}

func open() db.TransparencyStore {
	s, err := db.NewLDBTransparencyStore(file)
	nd.Assert(err == nil, "the database is opened")
	return s
}

func start() *world.World {
	leveldb.Disks, leveldb.OnWrite = map[string]*leveldb.Disk{}, nil
	return world.NewOn(world.Mode(), open())
}

// size is the number of entries according to the stored tree head.
func size(w *world.World) uint64 {
	raw, _, err := w.Store.GetTreeHead()
	nd.Assert(err == nil, "the tree head is read")
	if raw == nil {
		return 0
	}
	return w.Tree.TreeHead().TreeSize
}

// state is a log and its answers.
type state struct {
	n    uint64
	ts   []uint64
	hist map[string][]world.Version
	out  [][]byte
}

// capture asks the log everything.
func capture(w *world.World) *state {
	s := &state{n: w.N(), ts: w.Ts, hist: map[string][]world.Version{}}
	for k, v := range w.Hist {
		s.hist[k] = v
	}
	nd.Assert(size(w) == s.n, "the log has the entries that were added")
	for _, l := range labels {
		raw, err := w.Store.BatchGetIndex([][]byte{[]byte(l)})
		nd.Assert(err == nil && len(raw) == 1, "indices are read")
		s.out = append(s.out, raw[0])
		for v := uint32(0); v < 3; v++ {
			raw, err := w.Store.GetVersion([]byte(l), v)
			nd.Assert(err == nil, "versions are read")
			s.out = append(s.out, raw)
		}
		if s.n == 0 {
			continue
		}
		nd.SetNow(int64(w.Ts[s.n-1]))
		zero := uint32(0)
		for _, v := range []*uint32{nil, &zero} {
			res, err := w.Tree.Search(world.Ctx, &structs.SearchRequest{Label: []byte(l), Version: v})
			if err != nil {
				s.out = append(s.out, nil)
				continue
			}
			raw, err := structs.Marshal(res)
			nd.Assert(err == nil, "the response is encoded")
			s.out = append(s.out, raw)
		}
	}
	return s
}

// restore makes this the state that the log should be in.
func (s *state) restore(w *world.World) {
	w.Ts, w.Hist = s.ts[:len(s.ts):len(s.ts)], map[string][]world.Version{}
	for k, v := range s.hist {
		w.Hist[k] = v[:len(v):len(v)]
	}
	got := capture(w)
	nd.Assert(len(got.out) == len(s.out), "the log gives the same answers as before")
	for i := range s.out {
		nd.Assert((got.out[i] == nil) == (s.out[i] == nil) && len(got.out[i]) == len(s.out[i]), "the log gives the same answers as before")
		nd.Assert(nd.EqBytes(got.out[i], s.out[i]), "the log gives the same answers as before")
	}
}

// change updates the log in some way, and says whether it was accepted.
func change(w *world.World) bool {
	var add []transparency.LabelValue
	var remove [][]byte
	switch nd.Choose("op", nd.Param("ops")) {
	case 0:
		add = w.Additions("a", 1)
	case 1:
		add = append(w.Additions("a", 2), w.Additions("b", 1)...)
	case 2:
		remove = [][]byte{[]byte("a")}
		add = w.Additions("b", 1)
	case 3:
	}
	ts := w.Tick()
	t, err := transparency.NewTree(w.Config, w.Store, nil)
	nd.Assert(err == nil, "the log is opened")
	upd, err := t.Mutate(add, remove)
	if err != nil {
		w.Load()
		return false
	}
	for _, l := range remove {
		w.Hist[string(l)] = nil
	}
	for _, a := range add {
		l := string(a.Label)
		w.Hist[l] = append(w.Hist[l], world.Version{Pos: w.N(), Value: a.Value.Value})
	}
	w.Ts, w.Upd = append(w.Ts, ts), upd
	w.Load()
	return true
}

// history makes a log of some entries, and a client of it.
func history() (*world.World, *world.Client) {
	w := start()
	for i, n := 0, nd.Choose("n", nd.Param("n")+1); i < n; i++ {
		w.Mutate(append(w.Additions("a", 1+i%2), w.Additions("b", i)...))
	}
	c := w.NewClient()
	if w.N() > 0 {
		c.Greatest("b")
	}
	return w, c
}

// further checks that the log works.
func further(w *world.World, c *world.Client) {
	w.Mutate(w.Additions("b", 1))
	c.Greatest("b")
	if nd.Param("further") > 0 {
		w.Mutate(w.Additions("b", 1))
		c.Greatest("b")
		w.NewClient().Fixed("b", 0)
	}
}

// Crash: the process stops at any point of an update. When it starts again, it
// serves the log from before or after the update, and works.
func Crash() {
	w, c := history()
	for i := 0; i < nd.Param("rounds"); i++ {
		before := capture(w)
		from := len(leveldb.Disks[file].Writes)
		ok := change(w)
		to := len(leveldb.Disks[file].Writes)
		after := before
		if ok {
			after = capture(w)
		}
		at := from + nd.Choose("crash", to-from+1)
		leveldb.Crash(file, at)
		w.Store = open()
		w.Load()
		n := size(w)
		nd.Log("crash after %v of %v writes: %v entries of %v", at-from, to-from, n, after.n)
		nd.Assert(n == before.n || n == after.n, "after a crash, the log is the one before or after the update")
		if n == after.n {
			nd.Cover("after")
			after.restore(w)
		} else {
			nd.Cover("before")
			before.restore(w)
		}
		nd.Assert(at < to || n == after.n, "an update that was completely written is there after a crash")
	}
	further(w, c)
}

var errWrite = errors.New("write failed")

// Fail: a write of an update fails. The running process serves the log from
// before the update, and so does one that starts again.
func Fail() {
	w, c := history()
	before := capture(w)
	k := nd.Choose("write", nd.Param("writes"))
	failed := false
	leveldb.OnWrite = func() error {
		k--
		if k == -1 {
			failed = true
			return errWrite
		}
		return nil
	}
	ok := change(w)
	leveldb.OnWrite = nil
	nd.Assert(!(ok && failed), "an update is not accepted if it cannot be written")
	if nd.Choose("restart", 2) == 1 {
		leveldb.Crash(file, len(leveldb.Disks[file].Writes))
		w.Store = open()
		w.Load()
	}
	if !ok {
		before.restore(w)
		nd.Cover("failed")
	}
	further(w, c)
}

// Clone: a clone of the store shows what is committed, and cannot write.
func Clone() {
	w, _ := history()
	clone := w.Store.Clone()
	before := capture(w)
	w.Store = clone
	w.Load()
	before.restore(w)
	nd.Cover("cloned")
}
