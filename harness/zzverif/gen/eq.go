package gen

import (
	"bytes"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/structs"
	"github.com/Bren2010/katie/zzverif/nd"
)

// Bytes compares, telling absent from empty only if strict.
func Bytes(a, b []byte) bool { return nd.EqBytes(a, b) }

// OptBytes compares, telling absent from present.
func OptBytes(a, b []byte) bool { return (a == nil) == (b == nil) && nd.EqBytes(a, b) }

// Lists compares element by element.
func Lists[T any](a, b []T, eq func(a, b T) bool) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, eq(a[i], b[i]))
	}
	return ok
}

func optEq[T comparable](a, b *T) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func all(x ...bool) bool {
	ok := true
	for _, y := range x {
		ok = nd.And(ok, y)
	}
	return ok
}

func EqTreeHead(a, b *structs.TreeHead) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return all(a.TreeSize == b.TreeSize, Bytes(a.Signature, b.Signature))
}

func EqAuditorTreeHead(a, b *structs.AuditorTreeHead) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return all(a.Timestamp == b.Timestamp, a.TreeSize == b.TreeSize, Bytes(a.Signature, b.Signature))
}

func EqFullTreeHead(a, b *structs.FullTreeHead) bool {
	return all(EqTreeHead(a.TreeHead, b.TreeHead), EqAuditorTreeHead(a.AuditorTreeHead, b.AuditorTreeHead))
}

func EqUpdateSuffix(a, b structs.UpdateSuffix) bool { return OptBytes(a.Signature, b.Signature) }

func EqUpdateValue(a, b *structs.UpdateValue) bool {
	return all(Bytes(a.Value, b.Value), EqUpdateSuffix(a.UpdateSuffix, b.UpdateSuffix))
}

func EqLogEntry(a, b *structs.LogEntry) bool {
	return all(a.Timestamp == b.Timestamp, Bytes(a.PrefixTree, b.PrefixTree))
}

func EqLabelValue(a, b *structs.LabelValue) bool { return Bytes(a.Value, b.Value) }

func EqStep(a, b *structs.BinaryLadderStep) bool {
	return all(Bytes(a.Proof, b.Proof), OptBytes(a.Commitment, b.Commitment))
}

func EqOpeningAndValue(a, b *structs.OpeningAndValue) bool {
	return all(Bytes(a.Opening, b.Opening), EqUpdateValue(&a.Value, &b.Value))
}

func EqUpdateInfo(a, b *structs.UpdateInfo) bool {
	return all(Bytes(a.Opening, b.Opening), EqUpdateSuffix(a.UpdateSuffix, b.UpdateSuffix))
}

func EqHashes(a, b [][]byte) bool { return Lists(a, b, Bytes) }

func EqEntry(a, b prefix.Entry) bool {
	return all(Bytes(a.VrfOutput, b.VrfOutput), Bytes(a.Commitment, b.Commitment))
}

func eqResult(a, b prefix.PrefixSearchResult) bool {
	if a == nil || b == nil {
		return false
	}
	x, y := &bytes.Buffer{}, &bytes.Buffer{}
	a.Marshal(x)
	b.Marshal(y)
	return all(a.Inclusion() == b.Inclusion(), a.Depth() == b.Depth(), Bytes(x.Bytes(), y.Bytes()))
}

func EqPrefixProof(a, b prefix.PrefixProof) bool {
	return all(Lists(a.Results, b.Results, eqResult), EqHashes(a.Elements, b.Elements))
}

func eqU64(a, b uint64) bool { return a == b }
func eqU32(a, b uint32) bool { return a == b }

func EqCombined(a, b *structs.CombinedTreeProof) bool {
	return all(Lists(a.Timestamps, b.Timestamps, eqU64), Lists(a.PrefixProofs, b.PrefixProofs, EqPrefixProof),
		EqHashes(a.PrefixRoots, b.PrefixRoots), EqHashes(a.Inclusion.Elements, b.Inclusion.Elements))
}

func EqAuditorUpdate(a, b *structs.AuditorUpdate) bool {
	return all(a.Timestamp == b.Timestamp, Lists(a.Added, b.Added, EqEntry), Lists(a.Removed, b.Removed, EqEntry), EqPrefixProof(a.Proof, b.Proof))
}

func EqSearchRequest(a, b *structs.SearchRequest) bool {
	return all(optEq(a.Last, b.Last), Bytes(a.Label, b.Label), optEq(a.Version, b.Version))
}

func eqSteps(a, b []structs.BinaryLadderStep) bool {
	return Lists(a, b, func(a, b structs.BinaryLadderStep) bool { return EqStep(&a, &b) })
}

func EqSearchResponse(a, b *structs.SearchResponse) bool {
	return all(EqFullTreeHead(&a.FullTreeHead, &b.FullTreeHead), optEq(a.Version, b.Version), Bytes(a.Opening, b.Opening),
		EqUpdateValue(&a.Value, &b.Value), eqSteps(a.BinaryLadder, b.BinaryLadder), EqCombined(&a.Search, &b.Search))
}

func eqMapEntry(a, b structs.MonitorMapEntry) bool {
	return all(a.Position == b.Position, a.Version == b.Version)
}

func EqContactMonitorRequest(a, b *structs.ContactMonitorRequest) bool {
	return all(optEq(a.Last, b.Last), Bytes(a.Label, b.Label), Lists(a.Entries, b.Entries, eqMapEntry))
}

func EqContactMonitorResponse(a, b *structs.ContactMonitorResponse) bool {
	return all(EqFullTreeHead(&a.FullTreeHead, &b.FullTreeHead), EqCombined(&a.Monitor, &b.Monitor))
}

func EqOwnerInitRequest(a, b *structs.OwnerInitRequest) bool {
	return all(optEq(a.Last, b.Last), Bytes(a.Label, b.Label), a.Start == b.Start)
}

func EqOwnerInitResponse(a, b *structs.OwnerInitResponse) bool {
	return all(EqFullTreeHead(&a.FullTreeHead, &b.FullTreeHead), Lists(a.GreatestVersions, b.GreatestVersions, eqU32),
		eqSteps(a.BinaryLadder, b.BinaryLadder), EqCombined(&a.Init, &b.Init))
}

func EqOwnerMonitorRequest(a, b *structs.OwnerMonitorRequest) bool {
	return all(optEq(a.Last, b.Last), Bytes(a.Label, b.Label), Lists(a.Entries, b.Entries, eqMapEntry), a.Start == b.Start, optEq(a.GreatestVersion, b.GreatestVersion))
}

func EqOwnerMonitorResponse(a, b *structs.OwnerMonitorResponse) bool {
	return all(EqFullTreeHead(&a.FullTreeHead, &b.FullTreeHead), EqCombined(&a.Monitor, &b.Monitor))
}

func EqUpdateRequest(a, b *structs.UpdateRequest) bool {
	return all(optEq(a.Last, b.Last), Bytes(a.Label, b.Label), optEq(a.GreatestVersion, b.GreatestVersion),
		Lists(a.Values, b.Values, func(a, b structs.LabelValue) bool { return EqLabelValue(&a, &b) }))
}

func EqManagerUpdateRequest(a, b *structs.ManagerUpdateRequest) bool {
	return all(optEq(a.Last, b.Last), Bytes(a.Label, b.Label), optEq(a.GreatestVersion, b.GreatestVersion), a.SignedVersion == b.SignedVersion,
		Lists(a.Values, b.Values, func(a, b structs.UpdateValue) bool { return EqUpdateValue(&a, &b) }))
}

func EqUpdateResponse(a, b *structs.UpdateResponse) bool {
	return all(EqFullTreeHead(&a.FullTreeHead, &b.FullTreeHead), a.Position == b.Position,
		Lists(a.Values, b.Values, func(a, b structs.LabelValue) bool { return EqLabelValue(&a, &b) }),
		Lists(a.Info, b.Info, func(a, b structs.UpdateInfo) bool { return EqUpdateInfo(&a, &b) }),
		eqSteps(a.BinaryLadder, b.BinaryLadder), EqCombined(&a.Update, &b.Update))
}

func EqClientState(a, b *structs.ClientState) bool {
	if len(a.LogEntries) != len(b.LogEntries) {
		return false
	}
	ok := all(EqTreeHead(&a.TreeHead, &b.TreeHead), EqAuditorTreeHead(a.AuditorTreeHead, b.AuditorTreeHead), EqHashes(a.FullSubtrees, b.FullSubtrees))
	for x, e := range a.LogEntries {
		f, found := b.LogEntries[x]
		if !found {
			return false
		}
		ok = nd.And(ok, EqLogEntry(&e, &f))
	}
	return ok
}

func EqLabelOwnerState(a, b *structs.LabelOwnerState) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return all(a.Starting == b.Starting, a.VerAtStarting == b.VerAtStarting, Lists(a.UpcomingVers, b.UpcomingVers, eqU64))
}

func EqRetained(a, b structs.RetainedVersion) bool {
	return all(a.Version == b.Version, Bytes(a.VrfOutput, b.VrfOutput), OptBytes(a.Commitment, b.Commitment))
}

func EqClientLabelState(a, b *structs.ClientLabelState) bool {
	return all(Lists(a.Contact, b.Contact, eqMapEntry), EqLabelOwnerState(a.Owner, b.Owner), Lists(a.Versions, b.Versions, EqRetained))
}
