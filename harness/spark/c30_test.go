package spark

import (
	"fmt"
	"testing"

	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// C30: evidence
func TestC30_evidence(t *testing.T) {
	lib.Run(t, lib.Prop[Swapped]{
		Name:  "C30.evidence",
		Rule:  "as C04 and C03 (with inverse and identical properties); the triples shown for every entity are checked one by one, and the reference evaluator is run on them alone; non-trivial when an entity has a value or child",
		Quick: 900, Thorough: 40000,
		Gen: func(t *rapid.T) Swapped {
			c := genInverse(t)
			if lib.Chance(t, "identities", 30) {
				c.W = lib.GenWorld(t, lib.GenOpts{MaxQuads: 20, NoInverse: true})
				genIdentities(t, &c.W)
			}
			c.Swap = nil
			return c
		},
		Check: func(c Swapped, r *lib.Rec) error {
			w := c.W
			g := lib.NewRefGraph(w.Quads, w.SameAs, w.Inverses)
			want := g.Evaluate(w.Paths)
			classify(w, want, r)
			quads := quadSet(w.Quads)
			ents, err := ExtractEntities(w, Options{Disk: c.Disk})
			if err != nil {
				return err
			}
			js, err := toJSON(ents)
			if err != nil {
				return err
			}
			if err := eachTriple(js, func(tr lib.JSONTriple) error { return checkTriple(g, quads, tr) }); err != nil {
				return err
			}
			for b, es := range ents {
				for i, e := range es {
					if err := checkEvidence(w, g, want, b, e, js[b][i]); err != nil {
						return fmt.Errorf("bundle %q, entity %q: %w", b, e.URI, err)
					}
				}
			}
			return nil
		},
	})
}

func collect(e wisski.Entity, f func(id string)) {
	for _, t := range e.Triples {
		f(t.ID.String())
	}
	for _, vs := range e.Fields {
		for _, v := range vs {
			for _, t := range v.Triples {
				f(t.ID.String())
			}
		}
	}
	for _, cs := range e.Children {
		for _, c := range cs {
			collect(c, f)
		}
	}
}

func checkEvidence(w lib.World, g *lib.RefGraph, want *lib.RefResult, bundle string, e wisski.Entity, j lib.JSONEntity) error {
	all := e.AllTriples()
	again := e.AllTriples()
	if fmt.Sprint(all) != fmt.Sprint(again) {
		return fmt.Errorf("the triples of the entity are not in a stable order")
	}
	seen := map[string]bool{}
	for i, t := range all {
		if seen[t.ID.String()] {
			return fmt.Errorf("triple %v is repeated", t)
		}
		seen[t.ID.String()] = true
		if i > 0 && all[i-1].ID.Compare(t.ID) >= 0 {
			return fmt.Errorf("triples are not ordered: %v before %v", all[i-1].ID, t.ID)
		}
	}
	missing := ""
	n := map[string]bool{}
	collect(e, func(id string) {
		n[id] = true
		if !seen[id] {
			missing = id
		}
	})
	if missing != "" || len(n) != len(seen) {
		return fmt.Errorf("the list of all triples has %d entries, but %d are used (missing %q)", len(seen), len(n), missing)
	}

	// statements between resources are not repeated either
	facts := map[string]bool{}
	var qs []lib.Quad
	node := func(l string) lib.Term {
		if len(l) > 2 && l[:2] == "_:" {
			return lib.Term{K: "b", V: l[2:]}
		}
		return lib.IRI(l)
	}
	for _, t := range all {
		q := lib.Quad{S: node(string(t.SSubject)), P: string(t.SPredicate)}
		if int(t.Role) == roleData {
			q.O = lib.Lit(string(t.Datum), string(t.Language))
		} else {
			q.O = node(string(t.SObject))
			k := quadKey(q.S.Label(), q.P, q.O)
			if facts[k] {
				return fmt.Errorf("the statement %s is listed twice", k)
			}
			facts[k] = true
		}
		qs = append(qs, q)
	}

	// and suffice to derive everything
	paths := []lib.PathDef{}
	for _, p := range w.Paths {
		arr := []string{}
		for _, a := range p.Arr {
			arr = append(arr, g.Canonical(a))
		}
		p.Arr = arr
		if p.DT != "" {
			p.DT = g.Canonical(p.DT)
		}
		paths = append(paths, p)
	}
	// rdf:type itself may have another name
	sub := lib.NewRefGraph(qs, nil, nil)
	if c := g.Canonical(lib.RDFType); c != lib.RDFType {
		return nil
	}
	res := sub.Evaluate(paths)
	derived, ok := res.Bundles[bundle][string(e.URI)]
	if !ok {
		return fmt.Errorf("the triples %v do not suffice to derive the entity", qs)
	}
	return covers(want, res, bundle, derived, j)
}

// covers checks that everything in e is also in the derived entity
func covers(want, res *lib.RefResult, bundle string, derived lib.REntity, e lib.JSONEntity) error {
	// the path and triples of the entity are those of one of its matches
	okPath := false
	for _, m := range want.Matches[bundle+"\x00"+e.URI] {
		okPath = okPath || fmt.Sprint(m.Nodes) == fmt.Sprint(e.Path)
	}
	if !okPath {
		return fmt.Errorf("entity %q names the path %q, which does not lead to it", e.URI, e.Path)
	}
	for f, vs := range e.Fields {
		have := map[string]int{}
		for _, k := range derived.Fields[f] {
			have[k]++
		}
		for _, v := range vs {
			k := lib.FieldKey(v.Value, v.Language, v.Path)
			if have[k]--; have[k] < 0 {
				return fmt.Errorf("the triples do not suffice to derive value %s of field %q of %q (have %q)", k, f, e.URI, derived.Fields[f])
			}
		}
	}
	for b, cs := range e.Children {
		for _, c := range cs {
			if len(want.Matches[b+"\x00"+c.URI]) != 1 {
				continue // shared between several parents: only one of the paths to it is kept
			}
			found := false
			for _, d := range derived.Children[b] {
				if d.URI == c.URI {
					found = true
					if err := covers(want, res, b, d, c); err != nil {
						return err
					}
				}
			}
			if !found {
				return fmt.Errorf("the triples do not suffice to derive child %q of %q", c.URI, e.URI)
			}
		}
	}
	return nil
}
