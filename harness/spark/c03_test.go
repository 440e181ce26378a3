package spark

import (
	"fmt"
	"sort"
	"testing"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// genIdentities adds many statements about identical names
func genIdentities(t *rapid.T, w *lib.World) {
	var nodes []lib.Term
	seen := map[string]bool{}
	addNode := func(x lib.Term) {
		if x.K != "l" && !seen[x.Label()] {
			seen[x.Label()] = true
			nodes = append(nodes, x)
		}
	}
	for _, q := range w.Quads {
		if q.P == lib.RDFType {
			addNode(q.S)
		}
	}
	for i := 0; i < 5; i++ {
		addNode(lib.IRI(fmt.Sprintf("http://alias.example/%d", i)))
	}
	n := rapid.IntRange(0, 10).Draw(t, "identities")
	preds := w.SameAs
	ins := func(q lib.Quad) {
		i := rapid.IntRange(0, len(w.Quads)).Draw(t, "at")
		w.Quads = append(w.Quads, lib.Quad{})
		copy(w.Quads[i+1:], w.Quads[i:])
		w.Quads[i] = q
	}
	var last lib.Term
	for i := 0; i < n; i++ {
		q := lib.Quad{S: lib.Pick(t, "s", nodes), P: lib.Pick(t, "p", preds), O: lib.Pick(t, "o", nodes)}
		if i > 0 && lib.Chance(t, "chain", 40) {
			q.S = last
			if lib.Chance(t, "flip", 50) {
				q.S, q.O = q.O, q.S
			}
		}
		last = q.O
		ins(q)
	}
	for i := rapid.IntRange(0, 4).Draw(t, "classes"); i > 0; i-- {
		pool := append([]string{"http://alias.example/C0", "http://alias.example/C1", "http://alias.example/C2"}, lib.Classes...)
		ins(lib.Quad{S: lib.IRI(lib.Pick(t, "c1", pool)), P: lib.Pick(t, "p", preds), O: lib.IRI(lib.Pick(t, "c2", pool))})
	}
	if lib.Chance(t, "props", 50) {
		pool := append([]string{"http://alias.example/q0", "http://alias.example/q1", "http://alias.example/q2"}, lib.Props...)
		dpool := append([]string{"http://alias.example/e0", "http://alias.example/e1"}, lib.DataProps...)
		for i := rapid.IntRange(0, 4).Draw(t, "nprops"); i > 0; i-- {
			from := pool
			if lib.Chance(t, "data", 40) {
				from = dpool
			}
			ins(lib.Quad{S: lib.IRI(lib.Pick(t, "p1", from)), P: lib.Pick(t, "p", preds), O: lib.IRI(lib.Pick(t, "p2", from))})
		}
		// and use them
		for i := rapid.IntRange(0, 4).Draw(t, "uses"); i > 0; i-- {
			if lib.Chance(t, "data", 40) {
				ins(lib.Quad{S: lib.Pick(t, "s", nodes), P: lib.Pick(t, "dp", dpool), O: lib.GenLiteral(t, lib.GenOpts{})})
			} else {
				ins(lib.Quad{S: lib.Pick(t, "s", nodes), P: lib.Pick(t, "op", pool), O: lib.Pick(t, "o", nodes)})
			}
		}
	}
	// say something about the other names
	for i := rapid.IntRange(0, 6).Draw(t, "about"); i > 0; i-- {
		q := w.Quads[rapid.IntRange(0, len(w.Quads)-1).Draw(t, "which")]
		special := false
		for _, p := range append(append([]string{}, w.SameAs...), w.Inverses...) {
			special = special || p == q.P
		}
		if special {
			continue
		}
		q.S = lib.Pick(t, "s", nodes)
		ins(q)
	}
	w.Tame()
}

func without(quads []lib.Quad, preds []string) (res []lib.Quad) {
	drop := map[string]bool{}
	for _, p := range preds {
		drop[p] = true
	}
	for _, q := range quads {
		if !drop[q.P] {
			res = append(res, q)
		}
	}
	return
}

// C03: identical names
func TestC03_names(t *testing.T) {
	lib.Run(t, lib.Prop[lib.World]{
		Name:  "C03.names",
		Rule:  "as C01, with additional chains, cycles and merges of identity statements over resources, classes and properties at random positions; compared with the extraction of the same data in which every name is replaced by a representative found by union-find, and with lookups in the cache; non-trivial when a class has at least three names and an entity is in a class",
		Quick: 1000, Thorough: 50000,
		Gen: func(t *rapid.T) lib.World {
			// properties with an inverse must have only one: no identities between them
			w := lib.GenWorld(t, lib.GenOpts{MaxQuads: 16, NoInverse: true})
			genIdentities(t, &w)
			return w
		},
		Check: checkNames,
	})
}

func checkNames(w lib.World, r *lib.Rec) error {
	for _, disk := range []bool{false} {
		rep, members := lib.SameAsClasses(w.Quads, w.SameAs)
		repOf := func(x string) string {
			if c, ok := rep[x]; ok {
				return c
			}
			return x
		}
		var ids map[string]string
		var cache sparkl.Cache
		var ents map[string][]wisski.Entity
		var err error
		ents, err = ExtractEntities(w, Options{Disk: disk, After: func(index *igraph.Index) (err error) {
			ids, err = identities(index)
			return err
		}})
		if err != nil {
			return err
		}
		js, err := toJSON(ents)
		if err != nil {
			return err
		}

		// metamorphic: replace all names by the representative
		w2 := lib.RenameWorld(lib.World{Paths: w.Paths, Quads: without(w.Quads, w.SameAs)}, repOf)
		want, err := Extract(w2, Options{})
		if err != nil {
			return fmt.Errorf("after replacing names: %w", err)
		}
		got := lib.REntities(js)
		uriField := lib.URIField(w.Paths)
		if err := diffR(want, lib.MapREntities(got, repOf, uriField)); err != nil {
			return fmt.Errorf("replacing all names by one of them changes the result: %w", err)
		}

		// the identity map holds exactly the classes
		canon := map[string]string{} // representative -> the name chosen
		for _, alias := range lib.SortedKeys(ids) {
			c := ids[alias]
			if repOf(alias) != repOf(c) {
				return fmt.Errorf("%q is said to be identical to %q, but nothing says so", alias, c)
			}
			if alias == c {
				return fmt.Errorf("%q is listed as its own alias", alias)
			}
			if old, ok := canon[repOf(c)]; ok && old != c {
				return fmt.Errorf("identical names %q and %q are both used as the canonical name", old, c)
			}
			canon[repOf(c)] = c
		}
		big := false
		for rp, ms := range members {
			if len(ms) == 1 {
				continue
			}
			big = big || len(ms) > 2
			c, ok := canon[rp]
			if !ok {
				return fmt.Errorf("the names %q are identical, but are not in the identity map", ms)
			}
			for _, m := range ms {
				if m != c && ids[m] != c {
					return fmt.Errorf("%q should be identical to %q, but is identical to %q", m, c, ids[m])
				}
			}
		}
		nameOf := func(x string) string { // canonical name of x
			if c, ok := canon[repOf(x)]; ok {
				return c
			}
			return x
		}

		// everything is returned under the canonical name only
		var bad error
		var walk func(e lib.JSONEntity)
		walk = func(e lib.JSONEntity) {
			for _, x := range append([]string{e.URI}, e.Path...) {
				if nameOf(x) != x {
					bad = fmt.Errorf("an entity is returned under the name %q instead of %q", x, nameOf(x))
				}
			}
			for f, vs := range e.Fields {
				for _, v := range vs {
					for _, x := range v.Path {
						if nameOf(x) != x {
							bad = fmt.Errorf("a value names the resource %q instead of %q", x, nameOf(x))
						}
					}
					if uriField(f) && nameOf(v.Value) != v.Value {
						bad = fmt.Errorf("a value is %q instead of %q", v.Value, nameOf(v.Value))
					}
				}
			}
			for _, cs := range e.Children {
				for _, c := range cs {
					walk(c)
				}
			}
		}
		inClass := false
		for _, es := range js {
			for _, e := range es {
				walk(e)
				inClass = inClass || len(members[repOf(e.URI)]) > 1
			}
		}
		if bad != nil {
			return bad
		}
		r.ClassIf(big, "three-names")
		r.ClassIf(inClass, "entity-with-alias")
		r.NontrivialIf(big && inClass)

		// the cache
		im := imap.MakeMemory[impl.Label, impl.Label](0)
		for _, a := range lib.SortedKeys(ids) {
			lib.Must(im.Set(impl.Label(a), impl.Label(ids[a])))
		}
		cache, err = sparkl.NewCache(ents, &im, nil)
		if err != nil {
			return fmt.Errorf("cache: %w", err)
		}
		defer cache.Close()
		all := map[string]bool{}
		for x := range rep {
			all[x] = true
		}
		inBundle := map[string]map[string]bool{}
		for b, es := range js {
			for _, e := range es {
				all[e.URI] = true
				if inBundle[e.URI] == nil {
					inBundle[e.URI] = map[string]bool{}
				}
				inBundle[e.URI][b] = true
			}
		}
		for _, x := range lib.SortedKeys(all) {
			c := nameOf(x)
			// (the cache does not know names which are neither those of an entity, nor have an alias)
			known := len(members[repOf(x)]) > 1 || len(inBundle[c]) > 0
			if got := string(cache.Canonical(impl.Label(x))); known && got != c {
				return fmt.Errorf("the canonical name of %q is %q, but should be %q", x, got, c)
			}
			b, ok := cache.Bundle(impl.Label(x))
			if ok != (len(inBundle[c]) > 0) || ok && !inBundle[c][b] {
				return fmt.Errorf("%q is found in bundle %q (%v), but is in %v", x, b, ok, inBundle[c])
			}
			for bundle := range js {
				e, ok := cache.Entity(impl.Label(x), bundle)
				if ok != inBundle[c][bundle] {
					return fmt.Errorf("looking up %q in bundle %q: found=%v, want %v", x, bundle, ok, inBundle[c][bundle])
				}
				if ok && string(e.URI) != c {
					return fmt.Errorf("looking up %q finds %q instead of %q", x, e.URI, c)
				}
			}
			if x == c {
				var got, want []string
				for _, a := range cache.Aliases(impl.Label(x)) {
					got = append(got, string(a))
				}
				for _, m := range members[repOf(x)] {
					if m != x {
						want = append(want, m)
					}
				}
				sort.Strings(got)
				sort.Strings(want)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("the aliases of %q are %q, but should be %q", x, got, want)
				}
			}
		}
		for _, x := range []string{"http://unknown.example/x", "", "_:unknown"} {
			if all[x] {
				continue
			}
			if b, ok := cache.Bundle(impl.Label(x)); ok {
				return fmt.Errorf("unknown uri %q is found in bundle %q", x, b)
			}
			for bundle := range js {
				if _, ok := cache.Entity(impl.Label(x), bundle); ok {
					return fmt.Errorf("unknown uri %q is found in bundle %q", x, bundle)
				}
			}
		}
	}
	return nil
}

// C03: identities at the level of the label storage: any sequence of additions and identifications
type LabelOp struct {
	Op   string `json:"op"` // add, same, compact
	A, B int
}

type LabelHistory struct {
	Ops  []LabelOp `json:"ops"`
	Disk bool      `json:"disk,omitempty"`
}

func TestC03_labels(t *testing.T) {
	lib.Run(t, lib.Prop[LabelHistory]{
		Name:  "C03.labels",
		Rule:  "random histories of adding and identifying up to 12 labels in the label storage (in memory and on disk), compared with union-find after the history; non-trivial when at least two classes of several labels are merged",
		Quick: 1600, Thorough: 60000,
		Gen: func(t *rapid.T) (h LabelHistory) {
			n := rapid.IntRange(1, 30).Draw(t, "n")
			labels := rapid.IntRange(2, 12).Draw(t, "labels")
			for i := 0; i < n; i++ {
				op := LabelOp{A: rapid.IntRange(0, labels-1).Draw(t, "a"), B: rapid.IntRange(0, labels-1).Draw(t, "b")}
				op.Op = lib.Pick(t, "op", []string{"same", "same", "same", "add", "compact"})
				h.Ops = append(h.Ops, op)
			}
			h.Disk = lib.Chance(t, "disk", 8)
			return
		},
		Check: func(h LabelHistory, r *lib.Rec) error {
			var engine imap.Map = &imap.MemoryMap{}
			if h.Disk {
				dir, cleanup := lib.TempDir()
				defer cleanup()
				engine = imap.DiskMap{Path: dir}
			}
			var m imap.IMap
			if err := m.Reset(engine); err != nil {
				return err
			}
			defer m.Close()
			lab := func(i int) impl.Label { return impl.Label(fmt.Sprintf("l%d", i)) }
			parent := map[int]int{}
			size := map[int]int{}
			find := func(x int) int {
				for parent[x] != x {
					x = parent[x]
				}
				return x
			}
			known := func(x int) {
				if _, ok := parent[x]; !ok {
					parent[x] = x
					size[x] = 1
				}
			}
			merges := 0
			for _, op := range h.Ops {
				switch op.Op {
				case "add":
					if _, err := m.Add(lab(op.A)); err != nil {
						return err
					}
					known(op.A)
				case "same":
					if _, err := m.MarkIdentical(lab(op.A), lab(op.B)); err != nil {
						return err
					}
					known(op.A)
					known(op.B)
					a, b := find(op.A), find(op.B)
					if a != b {
						if size[a] > 1 && size[b] > 1 {
							merges++
						}
						parent[b] = a
						size[a] += size[b]
					}
				case "compact":
					if err := m.Compact(); err != nil {
						return err
					}
				}
			}
			r.NontrivialIf(merges > 0)
			r.ClassIf(h.Disk, "disk")
			if err := m.Finalize(); err != nil {
				return err
			}
			ids := map[int]impl.ID{}
			literal := map[impl.ID]int{}
			canonical := map[int]impl.ID{}
			for x := range parent {
				id, err := m.Forward(lab(x))
				if err != nil {
					return err
				}
				ids[x] = id
				tid, ok, err := m.Get(lab(x))
				if err != nil || !ok {
					return fmt.Errorf("label %d is not found: %v", x, err)
				}
				if tid.Canonical != id {
					return fmt.Errorf("label %d: Forward and Get disagree", x)
				}
				if old, ok := literal[tid.Literal]; ok {
					return fmt.Errorf("labels %d and %d share an id", x, old)
				}
				literal[tid.Literal] = x
				if l, err := m.Reverse(tid.Literal); err != nil || l != lab(x) {
					return fmt.Errorf("the id of label %d means %q (%v)", x, l, err)
				}
				rep, err := m.Reverse(id)
				if err != nil {
					return err
				}
				var rx int
				fmt.Sscanf(string(rep), "l%d", &rx)
				if find(rx) != find(x) {
					return fmt.Errorf("label %d is identified with %q, which it is not connected to", x, rep)
				}
				if c, ok := canonical[find(x)]; ok && c != id {
					return fmt.Errorf("label %d has a different canonical id than its class", x)
				}
				canonical[find(x)] = id
			}
			for a := range canonical {
				for b := range canonical {
					if a != b && canonical[a] == canonical[b] {
						return fmt.Errorf("labels %d and %d are not connected, but identified", a, b)
					}
				}
			}
			im := imap.MakeMemory[impl.Label, impl.Label](0)
			if err := m.IdentityMap(&im); err != nil {
				return err
			}
			n := 0
			err := im.Iterate(func(a, c impl.Label) error {
				n++
				var ax, cx int
				fmt.Sscanf(string(a), "l%d", &ax)
				fmt.Sscanf(string(c), "l%d", &cx)
				if _, ok := ids[ax]; !ok || ax == cx || ids[ax] != ids[cx] {
					return fmt.Errorf("the identity map says %s = %s", a, c)
				}
				if l, _ := m.Reverse(ids[ax]); l != c {
					return fmt.Errorf("the identity map says %s = %s, but the canonical label is %s", a, c, l)
				}
				return nil
			})
			if err != nil {
				return err
			}
			if want := len(ids) - len(canonical); n != want {
				return fmt.Errorf("the identity map has %d entries, want %d", n, want)
			}
			return nil
		},
	})
}
