package c16

import (
	"github.com/Bren2010/katie/zzverif/kt"
)

// depth of e in the tree of set.
func depth(set []kt.Entry, e kt.Entry) int {
	d := 0
	for _, f := range set {
		if string(e.Vrf) == string(f.Vrf) {
			continue
		}
		i := 0
		for i < 8*len(e.Vrf) && kt.Bit(e.Vrf, i) == kt.Bit(f.Vrf, i) {
			i++
		}
		d = max(d, i+1)
	}
	return d
}

// hiddenSibling: removing entries moves a leaf up that is not part of the
// proof, so the auditor cannot know that it is a leaf.
func hiddenSibling(set, next, add []kt.Entry) bool {
	for _, e := range set {
		i := kt.FindEntry(next, e.Vrf)
		if i < 0 || kt.FindEntry(add, e.Vrf) >= 0 {
			continue
		}
		d := depth(set, e)
		if depth(next, e) >= d {
			continue
		}
		shown := false
		for _, a := range add {
			same := true
			for j := 0; j < d; j++ {
				if kt.Bit(a.Vrf, j) != kt.Bit(e.Vrf, j) {
					same = false
				}
			}
			shown = shown || same
		}
		if !shown {
			return true
		}
	}
	return false
}
