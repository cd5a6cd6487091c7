// Package c12 checks that clients accept what an honest log tells them.
package c12

import (
	"github.com/Bren2010/katie/zzverif/nd"
	"github.com/Bren2010/katie/zzverif/world"
)

// grow adds an entry with up to `batch` versions of label a, and possibly one
// of label b.
func grow(w *world.World) {
	k := nd.Choose("versions", nd.Param("batch")+1)
	add := w.Additions("a", k)
	if k == 0 {
		add = append(add, w.Additions("b", 1)...)
	}
	w.Mutate(add)
	w.Audit()
}

// Search: a client that may know an earlier tree searches.
func Search() {
	w := world.New(world.Mode())
	c := w.NewClient()
	n := 1 + nd.Choose("n", nd.Param("n"))
	known := nd.Choose("known", n+1)
	for i := 0; i < n; i++ {
		grow(w)
		if i+1 == known {
			w.Publish()
			label := "a"
			if len(w.Hist["a"]) == 0 {
				label = "b"
			}
			c.Greatest(label)
			nd.Cover("first")
		}
	}
	if known < n {
		w.Publish()
	}
	w.Drift()
	ver := nd.Choose("search", len(w.Hist["a"])+2)
	if ver == 0 {
		c.Greatest("a")
		nd.Cover("greatest")
	} else {
		ok := c.Fixed("a", ver-1)
		if ver <= len(w.Hist["a"]) && nd.Param("lifetime") == 0 {
			nd.Assert(ok, "the client accepts an honest response to a search for a version")
		}
		if ok {
			nd.Cover("fixed")
		}
	}
}

// History: a client searches and monitors a growing log.
func History() {
	w := world.New(world.Mode())
	c := w.NewClient()
	grow(w)
	w.Publish()
	for i := 0; i < nd.Param("steps"); i++ {
		if w.N() < uint64(nd.Param("n")) && nd.Choose("grow", 2) == 1 {
			grow(w)
			w.Publish()
			continue
		}
		switch nd.Choose("op", nd.Param("ops")) {
		case 0:
			c.Greatest("a")
			nd.Cover("greatest")
		case 1:
			v := len(w.Hist["a"])
			if v == 0 {
				nd.Skip()
			}
			c.Fixed("a", nd.Choose("version", v))
			nd.Cover("fixed")
		case 2:
			if c.Monitor() {
				nd.Cover("monitor")
			}
		case 3:
			if c.Own("a") {
				nd.Cover("own")
			}
		}
	}
}

// place adds n entries, with `versions` versions of label a among them.
func place(w *world.World, n, versions int) { placeBatch(w, n, versions, 1) }

// placeBatch does so with this many versions at a time.
func placeBatch(w *world.World, n, versions, batch int) {
	at := make([]int, n)
	lo := 0
	for i := 0; i < versions; i++ {
		lo += nd.Choose("place", n-lo)
		at[lo] += batch
	}
	for i := 0; i < n; i++ {
		add := w.Additions("a", at[i])
		if at[i] == 0 {
			add = w.Additions("b", 1)
		}
		w.Mutate(add)
		w.Audit()
	}
}

// Long: a client that may know an earlier tree searches a longer log.
func Long() {
	w := world.New(world.Mode())
	c := w.NewClient()
	n, versions := nd.Param("n"), nd.Param("versions")
	known := nd.Choose("known", n)
	if known > 0 {
		place(w, known, 0)
		w.Publish()
		c.Greatest("b")
	}
	place(w, n-known, versions)
	w.Publish()
	ver := nd.Choose("search", versions+1)
	if ver == 0 {
		c.Greatest("a")
		nd.Cover("greatest")
	} else if c.Fixed("a", ver-1) {
		nd.Cover("fixed")
	}
}

// Contact: a client that searched a label monitors it while the log grows.
func Contact() {
	w := world.New(world.Mode())
	c := w.NewClient()
	n, versions := nd.Param("n"), nd.Param("versions")
	at := 1 + nd.Choose("at", n)
	batch := 1 + 2*nd.Choose("batch", nd.Param("batch"))
	placeBatch(w, at, versions, batch)
	w.Publish()
	if ver := nd.Choose("search", versions+1); ver == 0 {
		c.Greatest("a")
	} else if !c.Fixed("a", ver*batch-1) {
		return
	}
	for i := 0; i < nd.Param("more"); i++ {
		placeBatch(w, 1, nd.Choose("newer", 2), (batch+1)/2)
		w.Publish()
		c.Greatest([]string{"a", "b"}[nd.Choose("again", 2)])
		if c.Monitor() {
			nd.Cover("monitor")
			if len(c.LabelState("a").Contact) == 0 {
				nd.Cover("done")
			}
		}
	}
}

// Two: a client that searched a label twice, with newer versions in between,
// monitors both versions.
func Two() {
	w := world.New(world.Mode())
	c := w.NewClient()
	for _, p := range []string{"first", "second"} {
		for i := nd.Choose(p, nd.Param(p)); i > 0; i-- {
			place(w, 1, 0)
		}
		placeBatch(w, 1, 1, nd.Param("batch"))
		w.Publish()
		c.Greatest("a")
	}
	for i := 0; i < nd.Param("rounds"); i++ {
		for j := nd.Choose("more", nd.Param("more")); j >= 0; j-- {
			place(w, 1, 0)
		}
		w.Publish()
		c.Greatest("b")
		if c.Monitor() {
			nd.Cover("monitor")
			if len(c.LabelState("a").Contact) == 0 {
				nd.Cover("done")
			}
		}
	}
}

// Owner: the owner of a label that never changes monitors it.
func Owner() {
	w := world.New(world.Mode())
	c := w.NewClient()
	n, versions := nd.Param("n"), nd.Param("versions")
	at := 1 + nd.Choose("at", n)
	place(w, at, nd.Choose("versions", versions+1))
	w.Publish()
	label := "a"
	if len(w.Hist["a"]) == 0 {
		label = "b"
	}
	c.Greatest(label)
	if !c.Own("a") {
		return
	}
	nd.Cover("own")
	for i := 0; i < nd.Param("more"); i++ {
		place(w, 1, 0)
		w.Publish()
		if nd.Choose("search", 2) == 1 {
			c.Greatest("b")
		}
		if c.Monitor() {
			nd.Cover("monitor")
		}
	}
}

// Update: the owner of a label updates it and monitors it.
func Update() {
	w := world.New(world.Mode())
	c := w.NewClient()
	n, versions := nd.Param("n"), nd.Param("versions")
	at := 1 + nd.Choose("at", n)
	place(w, at, nd.Choose("versions", versions+1))
	w.Publish()
	label := "a"
	if len(w.Hist["a"]) == 0 {
		label = "b"
	}
	c.Greatest(label)
	if !c.Own("a") {
		return
	}
	nd.Cover("own")
	for i := 0; i < nd.Param("more"); i++ {
		if nd.Choose("someone else", 2) == 1 {
			place(w, 1, nd.Choose("newer", 2))
			w.Publish()
		}
		if i > 0 && nd.Choose("monitor", 2) == 1 {
			if c.Monitor() {
				nd.Cover("monitor")
			}
		} else {
			c.Update("a", nd.Choose("new", nd.Param("batch")+1))
			nd.Cover("update")
		}
	}
}
