package spark

import (
	"fmt"
	"testing"

	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// Swapped is a world in which some statements are replaced by their inverse
type Swapped struct {
	W    lib.World `json:"w"`
	Swap []bool    `json:"swap"` // by statement
	Both bool      `json:"both"` // add instead of replacing
	Disk bool      `json:"disk,omitempty"`
}

// props which are inverse of each other, under all of their names
func inverseNames(w lib.World) map[string][]string {
	g := lib.NewRefGraph(w.Quads, w.SameAs, w.Inverses)
	names := map[string][]string{} // canonical -> names
	for x, c := range g.Canon {
		names[c] = append(names[c], x)
	}
	res := map[string][]string{}
	for p, q := range g.Inv {
		qn := names[q]
		if len(qn) == 0 {
			qn = []string{q}
		}
		pn := names[p]
		if len(pn) == 0 {
			pn = []string{p}
		}
		for _, x := range pn {
			res[x] = append([]string{}, qn...)
		}
	}
	return res
}

func (c Swapped) swapped() (w lib.World, n int) {
	w = c.W
	w.Quads = nil
	inv := inverseNames(c.W)
	for i, q := range c.W.Quads {
		names := inv[q.P]
		if q.O.K == "l" || len(names) == 0 || i >= len(c.Swap) || !c.Swap[i] {
			w.Quads = append(w.Quads, q)
			continue
		}
		n++
		best := names[0]
		for _, x := range names {
			if x < best {
				best = x
			}
		}
		s := lib.Quad{S: q.O, P: best, O: q.S, G: q.G}
		if c.Both {
			w.Quads = append(w.Quads, q)
		}
		w.Quads = append(w.Quads, s)
	}
	return
}

func genInverse(t *rapid.T) (c Swapped) {
	w := lib.GenWorld(t, lib.GenOpts{MaxQuads: 24, NoInverse: true})
	w.Inverses = []string{lib.OWLInverse, "http://x.example/inverse"}
	// properties may already be identified: a class of properties has at most one inverse class
	rep, _ := lib.SameAsClasses(w.Quads, w.SameAs)
	cls := func(p string) string {
		if r, ok := rep[p]; ok {
			return r
		}
		return p
	}
	var nodes []lib.Term
	for _, q := range w.Quads {
		if q.P == lib.RDFType {
			nodes = append(nodes, q.S)
		}
	}
	if len(nodes) == 0 {
		nodes = []lib.Term{lib.IRI("http://i.example/a"), lib.IRI("http://i.example/b")}
	}
	used := map[string]bool{}
	all := append([]string{"http://alias.example/p", "http://inv.example/0", "http://inv.example/1", "http://inv.example/2"}, lib.Props...)
	for i := rapid.IntRange(0, 4).Draw(t, "pairs"); i > 0; i-- {
		a, b := lib.Pick(t, "pa", lib.Props), lib.Pick(t, "pb", all)
		if cls(a) == cls(b) || used[cls(a)] || used[cls(b)] {
			continue
		}
		used[cls(a)], used[cls(b)] = true, true
		if lib.Chance(t, "turn", 50) {
			a, b = b, a
		}
		at := rapid.IntRange(0, len(w.Quads)).Draw(t, "at")
		q := lib.Quad{S: lib.IRI(a), P: lib.Pick(t, "pred", w.Inverses), O: lib.IRI(b)}
		w.Quads = append(w.Quads[:at], append([]lib.Quad{q}, w.Quads[at:]...)...)
		if lib.Chance(t, "again", 20) {
			w.Quads = append(w.Quads, lib.Quad{S: lib.IRI(b), P: lib.OWLInverse, O: lib.IRI(a)})
		}
		for k := rapid.IntRange(0, 4).Draw(t, "uses"); k > 0; k-- {
			p := a
			if lib.Chance(t, "side", 50) {
				p = b
			}
			o := lib.Pick(t, "o", nodes)
			if lib.Chance(t, "literal", 6) {
				o = lib.GenLiteral(t, lib.GenOpts{})
			}
			w.Quads = append(w.Quads, lib.Quad{S: lib.Pick(t, "s", nodes), P: p, O: o})
		}
	}
	w.Tame()
	c.W = w
	for range w.Quads {
		c.Swap = append(c.Swap, lib.Chance(t, "swap", 50))
	}
	c.Both = lib.Chance(t, "both", 20)
	c.Disk = lib.Chance(t, "disk", 6)
	return c
}

// eachTriple calls f for every triple shown anywhere
func eachTriple(js map[string][]lib.JSONEntity, f func(tr lib.JSONTriple) error) error {
	var walk func(e lib.JSONEntity) error
	walk = func(e lib.JSONEntity) error {
		for _, tr := range e.Triples {
			if err := f(tr); err != nil {
				return err
			}
		}
		for _, vs := range e.Fields {
			for _, v := range vs {
				for _, tr := range v.Triples {
					if err := f(tr); err != nil {
						return err
					}
				}
			}
		}
		for _, cs := range e.Children {
			for _, c := range cs {
				if err := walk(c); err != nil {
					return err
				}
			}
		}
		return nil
	}
	for _, es := range js {
		for _, e := range es {
			if err := walk(e); err != nil {
				return err
			}
		}
	}
	return nil
}

const (
	roleRegular = 0
	roleInverse = 1
	roleData    = 2
)

// C04: statements may be swapped with their inverse
func TestC04_swap(t *testing.T) {
	lib.Run(t, lib.Prop[Swapped]{
		Name:  "C04.swap",
		Rule:  "as C01, with up to four pairs of inverse properties (also named by aliases); some statements are replaced or accompanied by their inverse; non-trivial when at least one statement was swapped and an entity has a child or value",
		Quick: 900, Thorough: 45000,
		Gen: genInverse,
		Check: func(c Swapped, r *lib.Rec) error {
			w2, n := c.swapped()
			g := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses)
			want := g.Evaluate(c.W.Paths)
			js1, err := ExtractJSON(c.W, Options{Disk: c.Disk})
			if err != nil {
				return err
			}
			js2, err := ExtractJSON(w2, Options{Disk: c.Disk})
			if err != nil {
				return err
			}
			if err := want.Diff(lib.REntities(js1)); err != nil {
				return err
			}
			if err := diffR(lib.REntities(js1), lib.REntities(js2)); err != nil {
				return fmt.Errorf("replacing statements by their inverse changes the result: %w", err)
			}
			inferred := 0
			for i, js := range []map[string][]lib.JSONEntity{js1, js2} {
				quads, g := quadSet(c.W.Quads), g
				if i == 1 {
					quads, g = quadSet(w2.Quads), lib.NewRefGraph(w2.Quads, w2.SameAs, w2.Inverses)
				}
				if err := eachTriple(js, func(tr lib.JSONTriple) error {
					if tr.Role == roleInverse {
						inferred++
					}
					return checkTriple(g, quads, tr)
				}); err != nil {
					return err
				}
			}
			r.ClassIf(inferred > 0, "inferred")
			r.ClassIf(n > 0, "swapped")
			r.ClassIf(want.NChildren > 0, "children")
			r.NontrivialIf(n > 0 && want.NChildren+want.NValues > 0)
			return nil
		},
	})
}

// C04: without declaration nothing is inferred
func TestC04_none(t *testing.T) {
	lib.Run(t, lib.Prop[Swapped]{
		Name:  "C04.none",
		Rule:  "the same data, with inverse declarations that use a predicate that was not asked for: nothing may be inferred; non-trivial when there are such declarations",
		Quick: 400, Thorough: 15000,
		Gen: genInverse,
		Check: func(c Swapped, r *lib.Rec) error {
			w := c.W
			w.Inverses = []string{"http://x.example/other"}
			for _, q := range w.Quads {
				r.NontrivialIf(q.P == lib.OWLInverse)
			}
			want := lib.NewRefGraph(w.Quads, w.SameAs, w.Inverses).Evaluate(w.Paths)
			js, err := ExtractJSON(w, Options{Disk: c.Disk})
			if err != nil {
				return err
			}
			if err := eachTriple(js, func(tr lib.JSONTriple) error {
				if tr.Role == roleInverse {
					return fmt.Errorf("%+v was inferred, but nothing is declared to be inverse", tr)
				}
				return nil
			}); err != nil {
				return err
			}
			return want.Diff(lib.REntities(js))
		},
	})
}
