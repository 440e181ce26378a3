package lib

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// This file holds the reference model: a naive evaluator for pathbuilders.
// It shares no code with the code under test.

// Label returns the label of a (non-literal) node.
func (t Term) Label() string {
	if t.K == "b" {
		return "_:" + t.V
	}
	return t.V
}

// Node is a node in the reference graph: a resource, or a literal of a specific statement.
type Node struct {
	Label string // resources
	Lit   int    // literals: index of the statement + 1
}

// Fact is an edge of the reference graph.
type Fact struct {
	S string
	P string
	O Node
}

// RefGraph is the graph described by a set of statements,
// after identifying labels and adding inverse statements.
type RefGraph struct {
	Canon map[string]string // canonical label of every label known to be identified
	Inv   map[string]string // inverses (of canonical labels)
	Quads []Quad

	Facts    map[Fact]bool              // all (canonical) facts
	Inferred map[Fact]bool              // facts only known because of an inverse
	out      map[[2]string][]Node       // (s, p) -> o
	in       map[string]map[string]bool // type -> subjects
}

// Canonical returns the canonical label of l
func (g *RefGraph) Canonical(l string) string {
	if c, ok := g.Canon[l]; ok {
		return c
	}
	return l
}

func stringSet(s []string) map[string]bool {
	m := make(map[string]bool, len(s))
	for _, k := range s {
		m[k] = true
	}
	return m
}

// NewRefGraph builds the reference graph.
func NewRefGraph(quads []Quad, sameAs, inverses []string) *RefGraph {
	g := &RefGraph{
		Canon: map[string]string{}, Inv: map[string]string{}, Quads: quads,
		Facts: map[Fact]bool{}, Inferred: map[Fact]bool{},
		out: map[[2]string][]Node{}, in: map[string]map[string]bool{},
	}
	same, inv := stringSet(sameAs), stringSet(inverses)
	// identify labels: the label on the left of the statement wins
	for _, q := range quads {
		if q.O.K == "l" || !same[q.P] {
			continue
		}
		s, o := q.S.Label(), q.O.Label()
		if _, ok := g.Canon[s]; !ok {
			g.Canon[s] = s
		}
		if _, ok := g.Canon[o]; !ok {
			g.Canon[o] = o
		}
		cs, co := g.Canon[s], g.Canon[o]
		if cs == co {
			continue
		}
		for l, c := range g.Canon {
			if c == co {
				g.Canon[l] = cs
			}
		}
	}
	for _, q := range quads {
		if q.O.K == "l" || !inv[q.P] {
			continue
		}
		l, r := g.Canonical(q.S.Label()), g.Canonical(q.O.Label())
		if l == r {
			continue
		}
		g.Inv[l] = r
		g.Inv[r] = l
	}
	direct := map[Fact]bool{}
	for i, q := range quads {
		f := Fact{S: g.Canonical(q.S.Label()), P: g.Canonical(q.P)}
		if q.O.K == "l" {
			f.O = Node{Lit: i + 1}
			g.add(f)
			continue
		}
		f.O = Node{Label: g.Canonical(q.O.Label())}
		g.add(f)
		direct[f] = true
		if ip, ok := g.Inv[f.P]; ok {
			g.add(Fact{S: f.O.Label, P: ip, O: Node{Label: f.S}})
		}
	}
	for f := range g.Facts {
		if f.O.Lit == 0 && !direct[f] {
			g.Inferred[f] = true
		}
	}
	return g
}

func (g *RefGraph) add(f Fact) {
	if g.Facts[f] {
		return
	}
	g.Facts[f] = true
	g.out[[2]string{f.S, f.P}] = append(g.out[[2]string{f.S, f.P}], f.O)
	if f.P == g.Canonical(RDFType) && f.O.Lit == 0 {
		if g.in[f.O.Label] == nil {
			g.in[f.O.Label] = map[string]bool{}
		}
		g.in[f.O.Label][f.S] = true
	}
}

// Match is a match of a path: the resources on it, and the literal at the end (if any).
type Match struct {
	Nodes []string
	Lit   *Term
	Facts []Fact
}

// Value returns the value of a match
func (m Match) Value() (value, lang string) {
	if m.Lit != nil {
		return m.Lit.V, m.Lit.L
	}
	return m.Nodes[len(m.Nodes)-1], ""
}

// Paths returns all matches of the given path: elements alternate between classes and properties.
func (g *RefGraph) Paths(uris []string) (res []Match) {
	if len(uris) == 0 {
		return nil
	}
	root := g.Canonical(uris[0])
	for _, s := range SortedKeys(g.in[root]) {
		res = append(res, Match{Nodes: []string{s}, Facts: []Fact{{S: s, P: g.Canonical(RDFType), O: Node{Label: root}}}})
	}
	for i := 1; i < len(uris); i++ {
		var next []Match
		u := g.Canonical(uris[i])
		for _, m := range res {
			if i%2 == 1 {
				if m.Lit != nil {
					continue
				}
				last := m.Nodes[len(m.Nodes)-1]
				for _, o := range g.out[[2]string{last, u}] {
					n := Match{
						Nodes: append([]string{}, m.Nodes...),
						Facts: append(append([]Fact{}, m.Facts...), Fact{S: last, P: u, O: o}),
					}
					if o.Lit > 0 {
						t := g.Quads[o.Lit-1].O
						n.Lit = &t
					} else {
						n.Nodes = append(n.Nodes, o.Label)
					}
					next = append(next, n)
				}
			} else {
				if m.Lit != nil {
					continue
				}
				last := m.Nodes[len(m.Nodes)-1]
				if g.in[u][last] {
					m.Facts = append(append([]Fact{}, m.Facts...), Fact{S: last, P: g.Canonical(RDFType), O: Node{Label: u}})
					next = append(next, m)
				}
			}
		}
		res = next
	}
	return res
}

// Count counts the matches of all paths (up to repeated triples), without listing them.
func (g *RefGraph) Count(paths []PathDef) (total int) {
	for _, p := range paths {
		uris := FieldPath(p)
		if p.Off || len(uris) == 0 {
			continue
		}
		const limit = 1 << 40
		cur := map[string]int{}
		for s := range g.in[g.Canonical(uris[0])] {
			cur[s] = 1
		}
		n := len(cur)
		for i := 1; i < len(uris); i++ {
			u := g.Canonical(uris[i])
			next := map[string]int{}
			n = 0
			for s, k := range cur {
				if i%2 == 0 {
					if g.in[u][s] {
						next[s] = k
						n += k
					}
					continue
				}
				for _, o := range g.out[[2]string{s, u}] {
					n = min(n+k, limit)
					if o.Lit == 0 {
						next[o.Label] = min(next[o.Label]+k, limit)
					}
				}
			}
			cur = next
		}
		total = min(total+n, limit)
	}
	return
}

// MaxMatches is the number of matches a generated world has at most
const MaxMatches = 800

// Tame removes statements from the end until there are not too many matches.
func (w *World) Tame(limit ...int) {
	most := MaxMatches
	if len(limit) > 0 && limit[0] > 0 {
		most = limit[0]
	}
	for len(w.Quads) > 0 && NewRefGraph(w.Quads, w.SameAs, w.Inverses).Count(w.Paths) > most {
		w.Quads = w.Quads[:len(w.Quads)-(len(w.Quads)+7)/8]
	}
}

// REntity is the expected (or observed) state of an entity, in a comparable form.
type REntity struct {
	URI      string               `json:"uri"`
	Fields   map[string][]string  `json:"fields,omitempty"`   // sorted values
	Children map[string][]REntity `json:"children,omitempty"` // sorted by encoded form
}

// Key is a canonical encoding
func (e REntity) Key() string {
	b, err := json.Marshal(e)
	Must(err)
	return string(b)
}

// FieldKey encodes a value of a field
func FieldKey(value, lang string, nodes []string) string {
	b, err := json.Marshal([]any{value, lang, nodes})
	Must(err)
	return string(b)
}

// Normalize sorts everything, and drops empty lists.
func (e *REntity) Normalize() {
	for f, vs := range e.Fields {
		if len(vs) == 0 {
			delete(e.Fields, f)
			continue
		}
		sort.Strings(vs)
	}
	if len(e.Fields) == 0 {
		e.Fields = nil
	}
	for b, cs := range e.Children {
		if len(cs) == 0 {
			delete(e.Children, b)
			continue
		}
		keys := make([]string, len(cs))
		idx := make([]int, len(cs))
		for i := range cs {
			cs[i].Normalize()
			keys[i] = cs[i].Key()
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return keys[idx[i]] < keys[idx[j]] })
		sorted := make([]REntity, len(cs))
		for i, j := range idx {
			sorted[i] = cs[j]
		}
		e.Children[b] = sorted
	}
	if len(e.Children) == 0 {
		e.Children = nil
	}
}

// RefBundle is a node in the tree of bundles
type RefBundle struct {
	Def      PathDef
	Parent   *RefBundle
	Children []*RefBundle
	Fields   []PathDef
}

// Tree builds the tree of (enabled) bundles.
func Tree(paths []PathDef) (roots []*RefBundle, byID map[string]*RefBundle) {
	byID = map[string]*RefBundle{}
	for _, p := range paths {
		if p.Off || !p.IsGroup {
			continue
		}
		b := &RefBundle{Def: p}
		byID[p.ID] = b
		if p.Group == "" {
			roots = append(roots, b)
		} else if pa := byID[p.Group]; pa != nil {
			b.Parent = pa
			pa.Children = append(pa.Children, b)
		}
	}
	for _, p := range paths {
		if p.Off || p.IsGroup {
			continue
		}
		if b := byID[p.Group]; b != nil {
			b.Fields = append(b.Fields, p)
		}
	}
	return
}

func (b *RefBundle) uriIndex() int {
	if b.Parent == nil {
		return 0
	}
	return len(b.Def.Arr) / 2
}

// FieldPath is the complete path of a field
func FieldPath(f PathDef) []string {
	uris := append([]string{}, f.Arr...)
	if f.DT != "" && f.DT != "empty" && !f.IsGroup && len(uris) > 0 {
		uris = append(uris, f.DT)
	}
	return uris
}

// RefResult is the expected content of the top-level bundles
type RefResult struct {
	Bundles map[string]map[string]REntity // bundle -> uri -> entity
	// Stats about the result
	NEntities, NValues, NChildren, NShared, NDepth int
	// Allowed holds the facts that may be used to justify an entity: bundle id + uri -> match
	Matches map[string][]Match
}

// Evaluate evaluates the pathbuilder on the graph.
func (g *RefGraph) Evaluate(paths []PathDef) *RefResult {
	roots, _ := Tree(paths)
	res := &RefResult{Bundles: map[string]map[string]REntity{}, Matches: map[string][]Match{}}

	type flat struct {
		fields   map[string][]string
		children map[string][]string // child bundle -> uris
	}
	all := map[string]map[string]*flat{} // bundle -> uri -> entity
	var walk func(b *RefBundle)
	walk = func(b *RefBundle) {
		ents := map[string]*flat{}
		all[b.Def.ID] = ents
		i := b.uriIndex()
		for _, m := range g.Paths(b.Def.Arr) {
			u := m.Nodes[i]
			if ents[u] == nil {
				ents[u] = &flat{fields: map[string][]string{}, children: map[string][]string{}}
			}
			res.Matches[b.Def.ID+"\x00"+u] = append(res.Matches[b.Def.ID+"\x00"+u], m)
			if b.Parent != nil {
				pi := b.Parent.uriIndex()
				if p := all[b.Parent.Def.ID][m.Nodes[pi]]; p != nil {
					p.children[b.Def.ID] = append(p.children[b.Def.ID], u)
				}
			}
		}
		for _, f := range b.Fields {
			for _, m := range g.Paths(FieldPath(f)) {
				e := ents[m.Nodes[i]]
				if e == nil {
					continue
				}
				v, l := m.Value()
				e.fields[f.ID] = append(e.fields[f.ID], FieldKey(v, l, m.Nodes))
			}
		}
		for _, c := range b.Children {
			walk(c)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	var build func(b *RefBundle, u string, depth int) REntity
	build = func(b *RefBundle, u string, depth int) REntity {
		e := REntity{URI: u, Fields: map[string][]string{}, Children: map[string][]REntity{}}
		f := all[b.Def.ID][u]
		res.NDepth = max(res.NDepth, depth)
		for name, vs := range f.fields {
			res.NValues += len(vs)
			e.Fields[name] = append([]string{}, vs...)
		}
		for _, c := range b.Children {
			for _, cu := range f.children[c.Def.ID] {
				res.NChildren++
				if len(res.Matches[c.Def.ID+"\x00"+cu]) > 1 {
					res.NShared++
				}
				e.Children[c.Def.ID] = append(e.Children[c.Def.ID], build(c, cu, depth+1))
			}
		}
		return e
	}
	for _, r := range roots {
		m := map[string]REntity{}
		res.Bundles[r.Def.ID] = m
		for u := range all[r.Def.ID] {
			e := build(r, u, 0)
			e.Normalize()
			m[u] = e
			res.NEntities++
		}
	}
	return res
}

// Diff compares expected and observed bundles. The observed entities come as a list.
func (r *RefResult) Diff(got map[string][]REntity) error {
	for b := range got {
		if _, ok := r.Bundles[b]; !ok {
			return fmt.Errorf("unexpected bundle %q", b)
		}
	}
	for _, b := range SortedKeys(r.Bundles) {
		if _, ok := got[b]; !ok {
			return fmt.Errorf("bundle %q is missing", b)
		}
		seen := map[string]bool{}
		for _, e := range got[b] {
			e.Normalize()
			want, ok := r.Bundles[b][e.URI]
			if !ok {
				return fmt.Errorf("bundle %q: unexpected entity %q", b, e.URI)
			}
			if seen[e.URI] {
				return fmt.Errorf("bundle %q: entity %q is listed more than once", b, e.URI)
			}
			seen[e.URI] = true
			if w, g := want.Key(), e.Key(); w != g {
				return fmt.Errorf("bundle %q entity %q differs\nwant %s\ngot  %s", b, e.URI, w, g)
			}
		}
		for u := range r.Bundles[b] {
			if !seen[u] {
				return fmt.Errorf("bundle %q: entity %q is missing", b, u)
			}
		}
	}
	return nil
}

// JSONEntity is an entity as encoded by the json api
type JSONEntity struct {
	URI      string
	Path     []string
	Fields   map[string][]JSONValue
	Children map[string][]JSONEntity
	Triples  []JSONTriple
}

// JSONValue is a field value as encoded by the json api
type JSONValue struct {
	Value    string
	Language string
	Path     []string
	Triples  []JSONTriple
}

// JSONTriple is a triple as encoded by the json api
type JSONTriple struct {
	Subject, Predicate, Object    string
	SSubject, SPredicate, SObject string
	Datum, Language               string
	Role                          int
}

// REntity turns an entity into comparable form
func (j JSONEntity) REntity() (e REntity) {
	e.URI = j.URI
	e.Fields = map[string][]string{}
	e.Children = map[string][]REntity{}
	for f, vs := range j.Fields {
		for _, v := range vs {
			e.Fields[f] = append(e.Fields[f], FieldKey(v.Value, v.Language, v.Path))
		}
	}
	for b, cs := range j.Children {
		for _, c := range cs {
			e.Children[b] = append(e.Children[b], c.REntity())
		}
	}
	return e
}

// REntities turns bundles into comparable form
func REntities(bundles map[string][]JSONEntity) map[string][]REntity {
	res := make(map[string][]REntity, len(bundles))
	for b, es := range bundles {
		res[b] = []REntity{}
		for _, e := range es {
			res[b] = append(res[b], e.REntity())
		}
	}
	return res
}

// Trim shortens long text
func Trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Lines joins text
func Lines(s ...string) string { return strings.Join(s, "\n") }

// MapREntities renames uris. value tells if values of a field are uris.
func MapREntities(m map[string][]REntity, rename func(string) string, uriField func(field string) bool) map[string][]REntity {
	var conv func(e REntity) REntity
	conv = func(e REntity) (r REntity) {
		r.URI = rename(e.URI)
		r.Fields = map[string][]string{}
		for f, vs := range e.Fields {
			for _, k := range vs {
				var parts []any
				Must(json.Unmarshal([]byte(k), &parts))
				value := parts[0].(string)
				if uriField(f) {
					value = rename(value)
				}
				var nodes []string
				if parts[2] != nil {
					for _, n := range parts[2].([]any) {
						nodes = append(nodes, rename(n.(string)))
					}
				}
				r.Fields[f] = append(r.Fields[f], FieldKey(value, parts[1].(string), nodes))
			}
		}
		r.Children = map[string][]REntity{}
		for b, cs := range e.Children {
			for _, c := range cs {
				r.Children[b] = append(r.Children[b], conv(c))
			}
		}
		return r
	}
	res := map[string][]REntity{}
	for b, es := range m {
		res[b] = []REntity{}
		for _, e := range es {
			res[b] = append(res[b], conv(e))
		}
	}
	return res
}

// URIField tells if values of the given field are uris
func URIField(paths []PathDef) func(string) bool {
	m := map[string]bool{}
	for _, p := range paths {
		if !p.IsGroup && (p.DT == "" || p.DT == "empty") {
			m[p.ID] = true
		}
	}
	return func(f string) bool { return m[f] }
}

// DiffREntities compares two extractions: first is what is wanted.
func DiffREntities(want, got map[string][]REntity) error {
	if fmt.Sprint(SortedKeys(want)) != fmt.Sprint(SortedKeys(got)) {
		return fmt.Errorf("bundles differ: %v and %v", SortedKeys(want), SortedKeys(got))
	}
	for _, b := range SortedKeys(want) {
		keys := func(es []REntity) (k []string) {
			for _, e := range es {
				e.Normalize()
				k = append(k, e.Key())
			}
			sort.Strings(k)
			return
		}
		a, c := keys(want[b]), keys(got[b])
		if len(a) != len(c) {
			return fmt.Errorf("bundle %q: %d and %d entities\nfirst  %v\nsecond %v", b, len(a), len(c), a, c)
		}
		for i := range a {
			if a[i] != c[i] {
				return fmt.Errorf("bundle %q differs\nfirst  %s\nsecond %s", b, a[i], c[i])
			}
		}
	}
	return nil
}

// Classes of identified labels: maps every label to the smallest member of its class.
func SameAsClasses(quads []Quad, sameAs []string) (rep map[string]string, members map[string][]string) {
	same := stringSet(sameAs)
	parent := map[string]string{}
	var find func(string) string
	find = func(x string) string {
		p, ok := parent[x]
		if !ok || p == x {
			return x
		}
		r := find(p)
		parent[x] = r
		return r
	}
	for _, q := range quads {
		if q.O.K == "l" || !same[q.P] {
			continue
		}
		a, b := q.S.Label(), q.O.Label()
		if _, ok := parent[a]; !ok {
			parent[a] = a
		}
		if _, ok := parent[b]; !ok {
			parent[b] = b
		}
		ra, rb := find(a), find(b)
		if ra == rb {
			continue
		}
		if ra < rb {
			parent[rb] = ra
		} else {
			parent[ra] = rb
		}
	}
	rep, members = map[string]string{}, map[string][]string{}
	for _, x := range SortedKeys(parent) {
		r := find(x)
		rep[x] = r
		members[r] = append(members[r], x)
	}
	return
}

// RenameWorld renames all labels, in data and pathbuilder
func RenameWorld(w World, rename func(string) string) World {
	res := w
	term := func(t Term) Term {
		if t.K == "l" {
			return t
		}
		n := rename(t.Label())
		if strings.HasPrefix(n, "_:") {
			return Term{K: "b", V: n[2:]}
		}
		return IRI(n)
	}
	res.Quads = nil
	for _, q := range w.Quads {
		q.S, q.P, q.O = term(q.S), rename(q.P), term(q.O)
		res.Quads = append(res.Quads, q)
	}
	res.Paths = nil
	for _, p := range w.Paths {
		arr := []string{}
		for _, a := range p.Arr {
			arr = append(arr, rename(a))
		}
		p.Arr = arr
		if p.DT != "" {
			p.DT = rename(p.DT)
		}
		res.Paths = append(res.Paths, p)
	}
	return res
}
