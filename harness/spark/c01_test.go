package spark

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"

	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// C01: extraction agrees with the reference evaluator.
func TestC01_inproc(t *testing.T) {
	lib.Run(t, lib.Prop[lib.World]{
		Name:  "C01.inproc",
		Rule:  "random pathbuilder (nested bundles, fields, disabled paths) and N-Quads with literals, languages, graphs, blank nodes, sameAs/equivalent and inverse statements; loaded like n2j does; non-trivial when at least one entity has a value or child",
		Quick: 1800, Thorough: 80000,
		Gen: func(t *rapid.T) lib.World { return lib.GenWorld(t, lib.GenOpts{}) },
		Check: func(w lib.World, r *lib.Rec) error {
			ref := lib.NewRefGraph(w.Quads, w.SameAs, w.Inverses)
			want := ref.Evaluate(w.Paths)
			classify(w, want, r)
			got, err := Extract(w, Options{})
			if err != nil {
				return err
			}
			return want.Diff(got)
		},
	})
}

// runN2J runs the n2j binary, and parses the output
func runN2J(w lib.World, extra ...string) (map[string][]lib.JSONEntity, error) {
	return runN2JData(w, nil, extra...)
}

// runN2JData is like runN2J, but uses different data
func runN2JData(w lib.World, data []byte, extra ...string) (map[string][]lib.JSONEntity, error) {
	dir, cleanup := lib.TempDir()
	defer cleanup()
	xml, nq := lib.WriteWorld(dir, w)
	if data != nil {
		lib.Must(os.WriteFile(nq, data, 0o644))
	}
	args := append(lib.PredicateArgs(w), extra...)
	args = append(args, xml, nq)
	res, err := lib.RunProg(lib.RunOpts{Dir: dir}, lib.Bin("n2j"), args...)
	if err != nil {
		return nil, err
	}
	if res.Code != 0 {
		return nil, fmt.Errorf("n2j failed with status %d: %s", res.Code, lib.Trim(string(res.Stderr), 3000))
	}
	var js map[string][]lib.JSONEntity
	if err := json.Unmarshal(res.Stdout, &js); err != nil {
		return nil, fmt.Errorf("n2j wrote invalid json: %w", err)
	}
	return js, nil
}

// C01: the json written by n2j is what the reference evaluator says
func TestC01_n2j(t *testing.T) {
	lib.Run(t, lib.Prop[lib.World]{
		Name:  "C01.n2j",
		Rule:  "as C01.inproc, with the files given to the n2j binary, and its standard output parsed",
		Quick: 48, Thorough: 1600,
		Gen: func(t *rapid.T) lib.World { return lib.GenWorld(t, lib.GenOpts{MaxQuads: 40}) },
		Check: func(w lib.World, r *lib.Rec) error {
			ref := lib.NewRefGraph(w.Quads, w.SameAs, w.Inverses)
			want := ref.Evaluate(w.Paths)
			classify(w, want, r)
			got, err := runN2J(w)
			if err != nil {
				return err
			}
			return want.Diff(lib.REntities(got))
		},
	})
}

// GenBig generates a world with many entities, so that batches, compaction and iteration over many elements matter.
type Big struct {
	Entities int   `json:"entities"`
	Values   int   `json:"values"`
	Children int   `json:"children"`
	Seed     int64 `json:"seed"`
	Langs    bool  `json:"langs"`
}

// World makes the world
func (b Big) World() (w lib.World) {
	w.Paths = []lib.PathDef{
		{ID: "top", IsGroup: true, Arr: []string{"http://o.example/C0"}},
		{ID: "name", Group: "top", Arr: []string{"http://o.example/C0"}, DT: "http://o.example/d0"},
		{ID: "part", Group: "top", IsGroup: true, Arr: []string{"http://o.example/C0", "http://o.example/p0", "http://o.example/C1"}},
		{ID: "title", Group: "part", Arr: []string{"http://o.example/C0", "http://o.example/p0", "http://o.example/C1"}, DT: "http://o.example/d1"},
		{ID: "rel", Group: "top", Arr: []string{"http://o.example/C0", "http://o.example/p1", "http://o.example/C0"}},
	}
	w.SameAs = []string{lib.OWLSameAs}
	x := uint64(b.Seed)*2862933555777941757 + 3037000493
	rnd := func(n int) int {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int(x>>33) % n
	}
	id := func(kind string, i int) lib.Term { return lib.IRI(fmt.Sprintf("http://i.example/%s/%d", kind, i)) }
	lang := func() string {
		if b.Langs {
			return lib.Langs[rnd(len(lib.Langs))]
		}
		return ""
	}
	for i := 0; i < b.Entities; i++ {
		e := id("e", i)
		w.Quads = append(w.Quads, lib.Quad{S: e, P: lib.RDFType, O: lib.IRI("http://o.example/C0")})
		for k := rnd(b.Values + 1); k > 0; k-- {
			w.Quads = append(w.Quads, lib.Quad{S: e, P: "http://o.example/d0", O: lib.Lit(fmt.Sprintf("v%d,%d", i, k), lang())})
		}
		for k := rnd(b.Children + 1); k > 0; k-- {
			c := id("c", rnd(b.Entities*2))
			w.Quads = append(w.Quads,
				lib.Quad{S: e, P: "http://o.example/p0", O: c},
				lib.Quad{S: c, P: lib.RDFType, O: lib.IRI("http://o.example/C1")},
			)
			if rnd(3) == 0 {
				w.Quads = append(w.Quads, lib.Quad{S: c, P: "http://o.example/d1", O: lib.Lit(fmt.Sprintf("t%d", rnd(50)), lang())})
			}
		}
		if rnd(4) == 0 {
			w.Quads = append(w.Quads, lib.Quad{S: e, P: "http://o.example/p1", O: id("e", rnd(b.Entities))})
		}
		if rnd(40) == 0 {
			w.Quads = append(w.Quads, lib.Quad{S: e, P: lib.OWLSameAs, O: id("alias", rnd(b.Entities))})
		}
	}
	return w
}

// GenBig draws a big world
func GenBig(t *rapid.T, max int) Big {
	var n int
	switch rapid.IntRange(0, 3).Draw(t, "size") {
	case 0:
		n = rapid.IntRange(1, 100).Draw(t, "entities")
	case 1, 2:
		n = rapid.IntRange(101, max/2).Draw(t, "entities")
	case 3:
		n = rapid.IntRange(max/2, max).Draw(t, "entities")
	}
	return Big{
		Entities: n,
		Values:   rapid.IntRange(0, 4).Draw(t, "values"),
		Children: rapid.IntRange(0, 4).Draw(t, "children"),
		Seed:     rapid.Int64Range(1, 1<<40).Draw(t, "seed"),
		Langs:    rapid.Bool().Draw(t, "langs"),
	}
}

// C01: many entities
func TestC01_big(t *testing.T) {
	lib.Run(t, lib.Prop[Big]{
		Name:  "C01.big",
		Rule:  "up to 2500 entities with values, shared children and relations, made from a seed; non-trivial when there are more than 100 entities",
		Quick: 32, Thorough: 800,
		Gen: func(t *rapid.T) Big { return GenBig(t, 2500) },
		Check: func(b Big, r *lib.Rec) error {
			w := b.World()
			ref := lib.NewRefGraph(w.Quads, w.SameAs, w.Inverses)
			want := ref.Evaluate(w.Paths)
			r.NontrivialIf(b.Entities > 100)
			got, err := Extract(w, Options{})
			if err != nil {
				return err
			}
			return want.Diff(got)
		},
	})
}
