package transparency

import (
	"github.com/Bren2010/katie/db/memory"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/kt"
	"github.com/Bren2010/katie/zzverif/nd"
)

// ZzIndex is the stored index of each label.
func ZzIndex(t *Tree, labels [][]byte) ([][]uint64, error) { return t.batchGetIndex(labels) }

// ZzCodec: an index of arbitrary positions is stored and read back, and only
// if the positions don't decrease.
func ZzCodec() {
	s := kt.New(2)
	store := memory.NewTransparencyStore()
	t, err := NewTree(structs.PrivateConfig{
		SignatureKey: kt.SigKey{S: s, Id: 1}, VrfKey: kt.VrfKey{S: s, Id: 2},
		Config: structs.Config{Suite: s, Mode: structs.ContactMonitoring},
	}, store, nil)
	nd.Assert(err == nil, "the log is opened")

	labels := [][]byte{[]byte("a"), {}, []byte("ab")}
	var want [][]uint64
	other := nd.U64("other")
	nd.Assert(t.putIndex(labels[2], []uint64{other}) == nil, "one position is stored")
	want = append(want, nil, nil, []uint64{other})

	for i := 0; i < nd.Param("puts"); i++ {
		n := 1 + nd.Choose("versions", nd.Param("versions"))
		index := make([]uint64, n)
		ok := true
		for j := range index {
			index[j] = nd.U64("position")
			if b := nd.Param("bits"); b < 64 {
				nd.Assume(index[j] < 1<<b)
			}
			if j > 0 {
				ok = nd.And(ok, index[j] >= index[j-1])
			}
		}
		given := append([]uint64{}, index...)
		err := t.putIndex(labels[i], index)
		for j := range index {
			nd.Assert(index[j] == given[j], "storing an index does not change it")
		}
		if err != nil {
			nd.Assert(nd.Not(ok), "an index is stored if the positions don't decrease")
			nd.Cover("refused")
		} else {
			nd.Assert(ok, "an index is stored only if the positions don't decrease")
			want[i] = given
			nd.Cover("stored")
		}
	}

	got, err := t.batchGetIndex([][]byte{labels[1], labels[2], []byte("b"), labels[0]})
	nd.Assert(err == nil && len(got) == 4, "indices are read")
	for i, w := range [][]uint64{want[1], want[2], nil, want[0]} {
		nd.Assert(len(got[i]) == len(w), "the index has every position")
		for j := range w {
			nd.Assert(got[i][j] == w[j], "the index lists exactly the positions that were stored")
		}
	}
}

// ZzBytes: arbitrary stored bytes are read as an index, or refused.
func ZzBytes() {
	s := kt.New(2)
	store := memory.NewTransparencyStore()
	t, err := NewTree(structs.PrivateConfig{
		SignatureKey: kt.SigKey{S: s, Id: 1}, VrfKey: kt.VrfKey{S: s, Id: 2},
		Config: structs.Config{Suite: s, Mode: structs.ContactMonitoring},
	}, store, nil)
	nd.Assert(err == nil, "the log is opened")
	// an index that was stored, and then cut
	index := []uint64{nd.U64("position"), nd.U64("position")}
	nd.Assume(index[0] <= index[1])
	l := []byte("a")
	nd.Assert(t.putIndex(l, index) == nil, "an index is stored")
	raw, err := store.BatchGetIndex([][]byte{l})
	nd.Assert(err == nil && len(raw) == 1, "the stored index is found")
	cut := raw[0][:nd.Choose("cut", len(raw[0])+1)]
	nd.Assert(store.PutIndex(l, cut) == nil, "the cut index is stored")
	got, err := t.batchGetIndex([][]byte{l})
	if err != nil {
		nd.Cover("refused")
		return
	}
	nd.Cover("read")
	nd.Assert(len(got[0]) <= 2 && (len(cut) != len(raw[0]) || len(got[0]) == 2), "a cut index has no more positions")
	for i := range got[0] {
		nd.Assert(got[0][i] == index[i], "a cut index is refused, or what is left of it is right")
	}
}
