package graph

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

const (
	same = "urn:same"
	inv  = "urn:inverse"
)

// Step is a step of a query. The first step of a query, and those with an Object, restrict.
type Step struct {
	P string `json:"p"`
	O string `json:"o,omitempty"`
}

// Round is a history on an index
type Round struct {
	Quads   []lib.Quad `json:"quads"`             // identifications, inverses, and then everything else
	Compact []int      `json:"compact,omitempty"` // compact before these statements
	Mask    []string   `json:"mask,omitempty"`    // names of properties
	Disk    bool       `json:"disk,omitempty"`
	Queries [][]Step   `json:"queries"`
	Sized   []int      `json:"sized"`         // bit j is set: ask for the size of the result after step j
	Pad     int        `json:"pad,omitempty"` // number of labels which are added first
}

// Graph are several histories on the same index, which is reset in between
type Graph struct {
	Rounds []Round `json:"rounds"`
}

var (
	nodes = []string{"n0", "n1", "n2", "n3", "n4", "n5", "_:b", "http://x/é☃", "p0", "http://x/\x00"}
	preds = []string{"p0", "p1", "p2", "p3", "p4", "p5", "n0"}
)

func genRound(t *rapid.T) (c Round) {
	c.Disk = lib.Chance(t, "disk", 30)
	if lib.Chance(t, "pad", 25) {
		// identifiers that need more bytes
		c.Pad = rapid.IntRange(225, 256).Draw(t, "npad")
		if lib.Chance(t, "large", 2) {
			c.Pad = rapid.IntRange(65505, 65536).Draw(t, "npad")
		}
	}
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "nsame"); i < n && lib.Chance(t, "same", 60); i++ {
		from := nodes
		if lib.Chance(t, "samepred", 50) {
			from = preds
		}
		c.Quads = append(c.Quads, lib.Quad{S: lib.IRI(lib.Pick(t, "s", from)), P: same, O: lib.IRI(lib.Pick(t, "o", from))})
	}
	g := lib.NewRefGraph(c.Quads, []string{same}, nil)
	used := map[string]string{}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "ninv"); i < n; i++ {
		l, r := lib.Pick(t, "l", preds), lib.Pick(t, "r", preds)
		cl, cr := g.Canonical(l), g.Canonical(r)
		if cl == cr || used[cl] != "" && used[cl] != cr || used[cr] != "" && used[cr] != cl {
			continue
		}
		used[cl], used[cr] = cr, cl
		c.Quads = append(c.Quads, lib.Quad{S: lib.IRI(l), P: inv, O: lib.IRI(r)})
	}
	marks := len(c.Quads)
	n := rapid.IntRange(0, 25).Draw(t, "n")
	np := rapid.IntRange(1, len(preds)).Draw(t, "np")
	for i := 0; i < n; i++ {
		if len(c.Quads) > marks && lib.Chance(t, "repeat", 10) {
			c.Quads = append(c.Quads, c.Quads[rapid.IntRange(marks, len(c.Quads)-1).Draw(t, "of")])
			continue
		}
		q := lib.Quad{S: lib.IRI(lib.Pick(t, "s", nodes)), P: lib.Pick(t, "p", preds[:np])}
		if lib.Chance(t, "lit", 25) {
			q.O = lib.Lit(lib.Pick(t, "v", lib.Values), lib.Pick(t, "lang", lib.Langs))
		} else {
			q.O = lib.IRI(lib.Pick(t, "o", nodes))
		}
		c.Quads = append(c.Quads, q)
	}
	if lib.Chance(t, "compact", 20) {
		c.Compact = rapid.SliceOfN(rapid.IntRange(0, len(c.Quads)), 1, 3).Draw(t, "at")
	}
	if lib.Chance(t, "mask", 25) {
		c.Mask = rapid.SliceOfN(rapid.SampledFrom(preds), 1, 4).Draw(t, "preds")
	}
	ask := preds[:np]
	if c.Mask != nil {
		ask = c.Mask
	} else if lib.Chance(t, "unknown", 20) {
		ask = append([]string{"unknown"}, preds...)
	}
	full := lib.NewRefGraph(c.Quads, []string{same}, []string{inv})
	nq := rapid.IntRange(1, 5).Draw(t, "nq")
	for i := 0; i < nq; i++ {
		var q []Step
		steps := rapid.IntRange(1, 5).Draw(t, "steps")
		// walk along existing statements if possible
		at := ""
		for j := 0; j < steps; j++ {
			s := Step{P: lib.Pick(t, "qp", ask)}
			if j == 0 || lib.Chance(t, "restrict", 35) {
				s.O = lib.Pick(t, "qo", nodes)
			}
			if lib.Chance(t, "along", 80) {
				var fs []lib.Fact
				for f := range full.Facts {
					if f.O.Lit > 0 && (j == 0 || s.O != "") {
						continue
					}
					for _, p := range ask {
						if f.P == full.Canonical(p) && (at == "" || f.S == at) {
							fs = append(fs, f)
							break
						}
					}
				}
				if len(fs) > 0 {
					sort.Slice(fs, func(i, j int) bool { return fmt.Sprint(fs[i]) < fmt.Sprint(fs[j]) })
					f := fs[rapid.IntRange(0, len(fs)-1).Draw(t, "fact")]
					s.P = f.P
					if s.O != "" {
						s.O = f.O.Label
					}
					if j == 0 {
						at = f.S
					} else if s.O == "" {
						at = f.O.Label
					}
				}
			}
			q = append(q, s)
		}
		c.Queries = append(c.Queries, q)
		sized := 0
		if lib.Chance(t, "sized", 40) {
			sized = rapid.IntRange(1, 1<<steps-1).Draw(t, "when")
		}
		c.Sized = append(c.Sized, sized)
	}
	return c
}

func factKey(g *lib.RefGraph, f lib.Fact) string {
	if f.O.Lit > 0 {
		q := g.Quads[f.O.Lit-1]
		return lib.QuadKey(f.S, f.P, q.O)
	}
	return lib.QuadKey(f.S, f.P, lib.IRI(f.O.Label))
}

type refPath struct {
	nodes []string
	lit   *lib.Term
	edges []string
	facts []string
}

func (r refPath) key() string {
	sort.Strings(r.facts)
	lit := "-"
	if r.lit != nil {
		lit = fmt.Sprintf("%q@%q", r.lit.V, r.lit.L)
	}
	return fmt.Sprintf("%q %s %q %q", r.nodes, lit, r.edges, r.facts)
}

func answer(g *lib.RefGraph, facts []lib.Fact, q []Step) (res []refPath) {
	add := func(s []string, x string) []string { return append(append([]string{}, s...), x) }
	for i, s := range q {
		p, o := g.Canonical(s.P), g.Canonical(s.O)
		if i == 0 {
			for _, f := range facts {
				if f.P == p && f.O.Lit == 0 && f.O.Label == o {
					res = append(res, refPath{nodes: []string{f.S}, facts: []string{factKey(g, f)}})
				}
			}
			continue
		}
		var next []refPath
		for _, m := range res {
			if s.O == "" {
				m.edges = add(m.edges, p)
			}
			for _, f := range facts {
				if m.lit != nil || f.S != m.nodes[len(m.nodes)-1] || f.P != p {
					continue
				}
				n := m
				n.facts = add(m.facts, factKey(g, f))
				if s.O != "" {
					if f.O.Lit == 0 && f.O.Label == o {
						next = append(next, n)
					}
					continue
				}
				if f.O.Lit > 0 {
					t := g.Quads[f.O.Lit-1].O
					n.lit = &t
				} else {
					n.nodes = add(m.nodes, f.O.Label)
				}
				next = append(next, n)
			}
		}
		res = next
	}
	return
}

// predicates of the mask, and what is contained because of it
func build(index *igraph.Index, c Round) error {
	var mask map[impl.Label]struct{}
	if c.Mask != nil {
		mask = map[impl.Label]struct{}{}
		for _, p := range c.Mask {
			mask[impl.Label(p)] = struct{}{}
		}
	}
	for i := 0; i < c.Pad; i++ {
		label := impl.Label(fmt.Sprintf("pad%d", i))
		if err := index.MarkIdentical(label, label); err != nil {
			return err
		}
	}
	masked := false
	for i, q := range c.Quads {
		for _, at := range c.Compact {
			if at == i {
				if err := index.Compact(); err != nil {
					return fmt.Errorf("compact: %w", err)
				}
			}
		}
		if !masked && q.P != same && q.P != inv && mask != nil {
			masked = true
			if err := index.SetPredicateMask(mask); err != nil {
				return err
			}
			if err := index.SetDataMask(mask); err != nil {
				return err
			}
		}
		s, p, o := impl.Label(q.S.V), impl.Label(q.P), impl.Label(q.O.V)
		var err error
		switch {
		case q.P == same:
			err = index.MarkIdentical(s, o)
		case q.P == inv:
			err = index.MarkInverse(s, o)
		case q.O.K == "l" && q.O.L == "":
			err = index.AddData(s, p, impl.Datum(q.O.V))
		case q.O.K == "l":
			err = index.AddLangData(s, p, impl.Datum(q.O.V), impl.Language(q.O.L))
		default:
			err = index.AddTriple(s, p, o)
		}
		if err != nil {
			return fmt.Errorf("statement %d: %w", i, err)
		}
	}
	return index.Finalize()
}

func query(index *igraph.Index, q []Step, sized int, want func(steps int) int) ([]igraph.Path, error) {
	ps, err := index.PathsStarting(impl.Label(q[0].P), impl.Label(q[0].O))
	if err != nil {
		return nil, err
	}
	for i, s := range q {
		switch {
		case i == 0:
		case s.O == "":
			err = ps.Connected(impl.Label(s.P))
		default:
			err = ps.Ending(impl.Label(s.P), impl.Label(s.O))
		}
		if err != nil {
			return nil, err
		}
		if sized&(1<<i) == 0 {
			continue
		}
		for _, what := range []string{"", " when asking again"} {
			size, err := ps.Size()
			if err != nil {
				return nil, err
			}
			if w := want(i + 1); size != w {
				return nil, fmt.Errorf("after %d steps, there are %d paths, but the size is %d%s", i+1, w, size, what)
			}
		}
	}
	var res []igraph.Path
	it := ps.Paths()
	for it.Next() {
		res = append(res, it.Datum())
	}
	if err := it.Err(); err != nil {
		return nil, err
	}
	return res, nil
}

func asTriple(t igraph.Triple) lib.JSONTriple {
	return lib.JSONTriple{
		Subject: string(t.Subject), Predicate: string(t.Predicate), Object: string(t.Object),
		SSubject: string(t.SSubject), SPredicate: string(t.SPredicate), SObject: string(t.SObject),
		Datum: string(t.Datum), Language: string(t.Language), Role: int(t.Role),
	}
}

func TestC06_paths(t *testing.T) {
	lib.Run(t, lib.Prop[Graph]{
		Name:  "C06.paths",
		Rule:  "one or two histories (the index is reset in between) of identifications, inverses, statements, repetitions, compactions and masks on the memory and disk engine (with up to 65536 other labels before), then queries of up to 5 steps (asking for the number of paths in between), 80% of which follow existing edges; all paths with their evidence are compared with a nested-loop join over the set of edges; non-trivial when a query of at least two steps has a result",
		Quick: 6000, Thorough: 500000,
		Gen: func(t *rapid.T) (c Graph) {
			c.Rounds = append(c.Rounds, genRound(t))
			if lib.Chance(t, "again", 20) {
				c.Rounds = append(c.Rounds, genRound(t))
			}
			return
		},
		Check: func(c Graph, r *lib.Rec) error {
			dir, cleanup := lib.TempDir()
			defer cleanup()
			var index igraph.Index
			defer index.Close()
			for i, round := range c.Rounds {
				d := ""
				if round.Disk {
					d = dir
				}
				if err := index.Reset(sparkl.NewEngine(d)); err != nil {
					return fmt.Errorf("reset %d: %w", i, err)
				}
				if err := checkRound(&index, round, r); err != nil {
					return fmt.Errorf("round %d: %w", i, err)
				}
			}
			r.ClassIf(len(c.Rounds) > 1, "reset")
			return index.Close()
		},
	})
}

func checkRound(index *igraph.Index, c Round, r *lib.Rec) error {
	if err := build(index, c); err != nil {
		return err
	}
	g := lib.NewRefGraph(c.Quads, []string{same}, []string{inv})
	quads := lib.QuadSet(c.Quads)
	var facts []lib.Fact
	for f := range g.Facts {
		if f.P == g.Canonical(same) || f.P == g.Canonical(inv) {
			continue
		}
		facts = append(facts, f)
	}
	sort.Slice(facts, func(i, j int) bool { return fmt.Sprint(facts[i]) < fmt.Sprint(facts[j]) })
	r.ClassIf(c.Disk, "disk")
	r.ClassIf(c.Mask != nil, "mask")
	r.ClassIf(c.Pad > 0, "large-ids")
	for i, q := range c.Queries {
		got, err := query(index, q, c.Sized[i], func(steps int) int { return len(answer(g, facts, q[:steps])) })
		if err != nil {
			return fmt.Errorf("query %v: %w", q, err)
		}
		want := answer(g, facts, q)
		var wk, gk []string
		for _, w := range want {
			wk = append(wk, w.key())
		}
		for _, p := range got {
			rp := refPath{}
			for _, n := range p.Nodes {
				rp.nodes = append(rp.nodes, string(n))
			}
			for _, e := range p.Edges {
				rp.edges = append(rp.edges, string(e))
			}
			if p.HasDatum {
				lit := lib.Lit(string(p.Datum), string(p.Language))
				rp.lit = &lit
			} else if p.Datum != "" || p.Language != "" {
				return fmt.Errorf("query %v: path %v has text without a literal", q, p)
			}
			value := ""
			if rp.lit != nil {
				value = rp.lit.V
			} else if len(rp.nodes) > 0 {
				value = rp.nodes[len(rp.nodes)-1]
			}
			if string(p.Value()) != value {
				return fmt.Errorf("query %v: the value of path %v is %q", q, p, p.Value())
			}
			for _, tr := range p.Triples {
				jt := asTriple(tr)
				if err := lib.CheckTriple(g, quads, jt); err != nil {
					return fmt.Errorf("query %v: %w", q, err)
				}
				if tr.Role == igraph.Data {
					rp.facts = append(rp.facts, lib.QuadKey(jt.SSubject, jt.SPredicate, lib.Lit(jt.Datum, jt.Language)))
				} else {
					rp.facts = append(rp.facts, lib.QuadKey(jt.SSubject, jt.SPredicate, lib.IRI(jt.SObject)))
				}
			}
			gk = append(gk, rp.key())
		}
		sort.Strings(wk)
		sort.Strings(gk)
		if strings.Join(wk, "\n") != strings.Join(gk, "\n") {
			return fmt.Errorf("query %v: expected %d paths\n%s\nbut got %d\n%s", q, len(wk), strings.Join(wk, "\n"), len(gk), strings.Join(gk, "\n"))
		}
		if len(want) > 0 {
			r.Class(fmt.Sprintf("results-%d-steps", len(q)))
			r.NontrivialIf(len(q) > 1)
			for _, w := range want {
				r.ClassIf(w.lit != nil, "literal-result")
			}
		}
		for _, f := range facts {
			r.ClassIf(g.Inferred[f], "inferred")
		}
	}
	return nil
}
