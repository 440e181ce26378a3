package lib

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Well-known predicates
const (
	RDFType    = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
	OWLSameAs  = "http://www.w3.org/2002/07/owl#sameAs"
	OWLEqClass = "http://www.w3.org/2002/07/owl#equivalentClass"
	OWLEqProp  = "http://www.w3.org/2002/07/owl#equivalentProperty"
	OWLInverse = "http://www.w3.org/2002/07/owl#inverseOf"
)

// Term is a node of a statement.
type Term struct {
	K  string `json:"k"`            // "i" (iri), "b" (blank node) or "l" (literal)
	V  string `json:"v"`            // iri, label or lexical form
	L  string `json:"l,omitempty"`  // language
	DT string `json:"dt,omitempty"` // datatype
}

// IRI makes an iri term
func IRI(v string) Term { return Term{K: "i", V: v} }

// Lit makes a literal term
func Lit(v, lang string) Term { return Term{K: "l", V: v, L: lang} }

// Quad is a statement
type Quad struct {
	S Term   `json:"s"`
	P string `json:"p"`
	O Term   `json:"o"`
	G string `json:"g,omitempty"` // graph
}

// PathDef is a path of a pathbuilder
type PathDef struct {
	ID      string   `json:"id"`
	Group   string   `json:"group,omitempty"`
	Bundle  string   `json:"bundle,omitempty"`
	Arr     []string `json:"arr"`
	IsGroup bool     `json:"g,omitempty"`
	DT      string   `json:"dt,omitempty"`
	Off     bool     `json:"off,omitempty"` // disabled
	Weight  int      `json:"w,omitempty"`
	Card    int      `json:"c,omitempty"`
	Name    string   `json:"n,omitempty"`
	FType   string   `json:"ft,omitempty"`

	Extra map[string]string `json:"x,omitempty"` // other elements: field, displaywidget, formatterwidget, field_type_informative, short_name, description, uuid
}

func (p PathDef) extra(key, def string) string {
	if v, ok := p.Extra[key]; ok {
		return xmlText(v)
	}
	return xmlText(def)
}

// World is a pathbuilder together with data.
type World struct {
	Paths    []PathDef `json:"paths"`
	Quads    []Quad    `json:"quads"`
	SameAs   []string  `json:"sameas,omitempty"`
	Inverses []string  `json:"inverses,omitempty"`
}

func xmlText(s string) string {
	var b bytes.Buffer
	Must(xml.EscapeText(&b, []byte(s)))
	return b.String()
}

// XML writes the pathbuilder in the format exported by WissKI.
func (w World) XML() []byte {
	var b bytes.Buffer
	b.WriteString("<?xml version=\"1.0\"?>\n<pathbuilderinterface>")
	bool01 := func(v bool) string {
		if v {
			return "1"
		}
		return "0"
	}
	for i, p := range w.Paths {
		group := p.Group
		if group == "" {
			group = "0"
		}
		dt := p.DT
		if dt == "" {
			dt = "empty"
		}
		name := p.Name
		if name == "" {
			name = p.ID
		}
		ftype := p.FType
		if ftype == "" {
			ftype = "string"
		}
		fmt.Fprintf(&b, "<path><id>%s</id><weight>%d</weight><enabled>%s</enabled><group_id>%s</group_id><bundle>%s</bundle>",
			xmlText(p.ID), p.Weight, bool01(!p.Off), xmlText(group), xmlText(p.Bundle))
		fmt.Fprintf(&b, "<field>%s</field><fieldtype>%s</fieldtype><displaywidget>%s</displaywidget><formatterwidget>%s</formatterwidget><cardinality>%d</cardinality><field_type_informative>%s</field_type_informative>",
			p.extra("field", fmt.Sprintf("f%d", i)), xmlText(ftype), p.extra("displaywidget", "w"), p.extra("formatterwidget", "w"), p.Card, p.extra("field_type_informative", ftype))
		b.WriteString("<path_array>")
		for j, a := range p.Arr {
			tag := "x"
			if j%2 == 1 {
				tag = "y"
			}
			fmt.Fprintf(&b, "<%s>%s</%s>", tag, xmlText(a), tag)
		}
		b.WriteString("</path_array>")
		fmt.Fprintf(&b, "<datatype_property>%s</datatype_property><short_name>%s</short_name><disamb>0</disamb><description>%s</description><uuid>%s</uuid><is_group>%s</is_group><name>%s</name></path>\n",
			xmlText(dt), p.extra("short_name", ""), p.extra("description", ""), p.extra("uuid", fmt.Sprintf("u%d", i)), bool01(p.IsGroup), xmlText(name))
	}
	b.WriteString("</pathbuilderinterface>\n")
	return b.Bytes()
}

func nqTerm(b *strings.Builder, t Term) {
	switch t.K {
	case "i":
		b.WriteString("<")
		b.WriteString(t.V)
		b.WriteString(">")
	case "b":
		b.WriteString("_:")
		b.WriteString(t.V)
	case "l":
		b.WriteByte('"')
		for _, r := range t.V {
			switch r {
			case '"':
				b.WriteString(`\"`)
			case '\\':
				b.WriteString(`\\`)
			case '\n':
				b.WriteString(`\n`)
			case '\r':
				b.WriteString(`\r`)
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
		if t.L != "" {
			b.WriteString("@" + t.L)
		} else if t.DT != "" {
			b.WriteString("^^<" + t.DT + ">")
		}
	default:
		panic(HarnessError{fmt.Errorf("bad term %v", t)})
	}
}

// NQ writes the data as n-quads.
func (w World) NQ() []byte { return NQ(w.Quads) }

// NQ writes quads as n-quads
func NQ(quads []Quad) []byte {
	var b strings.Builder
	for _, q := range quads {
		nqTerm(&b, q.S)
		b.WriteByte(' ')
		nqTerm(&b, IRI(q.P))
		b.WriteByte(' ')
		nqTerm(&b, q.O)
		if q.G != "" {
			b.WriteString(" <" + q.G + ">")
		}
		b.WriteString(" .\n")
	}
	return []byte(b.String())
}

// GenOpts control GenWorld
type GenOpts struct {
	NoSameAs, NoInverse bool // don't generate sameAs / inverse statements
	NoBlank             bool // no blank nodes
	MaxQuads            int  // default 40
	ForceChild          bool // always have a child bundle
	LangTags            []string
	Values              *rapid.Generator[string]
	Instances           []string // instance uris to pick from
	DistinctValues      bool
	OneTypePerNode      bool
	SimpleIDs           bool     // ids usable as sql identifiers
	Types               []string // datatypes for literals
	Blanks              []string // labels of blank nodes
	Matches             int      // maximal number of matches, default MaxMatches
}

// Pools used for generating worlds
var (
	Classes   = []string{"http://o.example/C0", "http://o.example/C1", "http://o.example/C2", "http://o.example/C3_x%20y"}
	Props     = []string{"http://o.example/p0", "http://o.example/p1", "http://o.example/p2", "http://o.example/p3_i", "http://o.example/ns#p4"}
	DataProps = []string{"http://o.example/d0", "http://o.example/d1", "http://o.example/ns#d2"}
	Noise     = []string{"http://x.example/n0", "http://www.w3.org/2000/01/rdf-schema#label"}
	Instances = []string{
		"http://i.example/a", "http://i.example/b", "http://i.example/c", "http://i.example/d",
		"https://i.example/wisski/navigate/1/view", "https://i.example/wisski/navigate/12/view",
		"http://i.example/e?x=1&y=2", "http://i.example/f#frag+plus", "http://i.example/ü/é", "urn:uuid:6e8bc430-9c3a",
		"http://i.example/a%2Fb", "http://i.example/a%20b",
	}
	Langs  = []string{"", "", "", "de", "en", "en-GB"}
	Values = []string{
		"", "x", "y", "Alice", "Bob & Co", "<b>bold</b>", "a,b", "line1\nline2", "tab\there", `quote"quote`, `back\slash`, "ünï☃😀",
		"http://i.example/a", "0", "007", "1.50", " padded ", "'; DROP TABLE x; --", "a\"@b", "a\"^^<b", "\u200b", "<script>alert(1)</script>", "true",
		"http://o.example/C0", "_:b0", "%20+&=",
	}
)

func pick[T any](t *rapid.T, name string, from []T) T {
	return from[rapid.IntRange(0, len(from)-1).Draw(t, name)]
}

// Pick draws an element of from
func Pick[T any](t *rapid.T, name string, from []T) T { return pick(t, name, from) }

// Chance draws true with a probability of about percent
func Chance(t *rapid.T, name string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, name) >= 100-percent
}

// GenPaths generates a pathbuilder.
func GenPaths(t *rapid.T, o GenOpts) (paths []PathDef) {
	n := rapid.IntRange(1, 3).Draw(t, "bundles")
	id := 0
	newID := func(kind string) string {
		id++
		if !o.SimpleIDs && Chance(t, "oddid", 5) {
			return fmt.Sprintf("%s %d-ö", kind, id)
		}
		return fmt.Sprintf("%s%d", kind, id)
	}

	extend := func(arr []string, min, max int) []string {
		arr = append([]string{}, arr...)
		steps := rapid.IntRange(min, max).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			arr = append(arr, pick(t, "prop", Props), pick(t, "class", Classes))
		}
		return arr
	}

	var bundle func(parent string, parr []string, depth int)
	bundle = func(parent string, parr []string, depth int) {
		b := PathDef{ID: newID("b"), Group: parent, IsGroup: true}
		if parent == "" {
			b.Arr = extend([]string{pick(t, "root", Classes)}, 0, 0)
			if Chance(t, "longroot", 8) {
				b.Arr = extend(b.Arr, 1, 1)
			}
		} else {
			b.Arr = extend(parr, 1, 1)
			if Chance(t, "longchild", 10) {
				b.Arr = extend(b.Arr, 1, 1)
			}
		}
		b.Weight = rapid.IntRange(-3, 10).Draw(t, "weight")
		b.Card = pick(t, "card", []int{-1, 0, 1, 3})
		// drupal's bundle ids are hashes
		b.Bundle = fmt.Sprintf("b%032x", id*7919)
		paths = append(paths, b)

		fields := rapid.IntRange(0, 3).Draw(t, "fields")
		for i := 0; i < fields; i++ {
			f := PathDef{ID: newID("f"), Group: b.ID, Bundle: b.Bundle}
			f.Arr = extend(b.Arr, 0, 2)
			switch {
			case Chance(t, "nodt", 20):
			default:
				f.DT = pick(t, "dt", DataProps)
			}
			f.Weight = rapid.IntRange(-3, 10).Draw(t, "weight")
			f.Card = pick(t, "card", []int{-1, 0, 1, 3})
			f.Off = Chance(t, "off", 7)
			f.FType = pick(t, "ftype", []string{"string", "string", "text_long", "entity_reference", "image", "link", "uri", "datetime"})
			paths = append(paths, f)
		}
		if depth < 3 {
			children := rapid.IntRange(0, 2).Draw(t, "children")
			if depth > 0 && children > 1 {
				children = 1
			}
			if o.ForceChild && depth == 0 && children == 0 {
				children = 1
			}
			for i := 0; i < children; i++ {
				bundle(b.ID, b.Arr, depth+1)
			}
		}
	}
	for i := 0; i < n; i++ {
		bundle("", nil, 0)
	}
	return paths
}

// UsedProps returns the predicates and datatype properties used by paths.
func UsedProps(paths []PathDef) (props, dts map[string]bool) {
	props, dts = map[string]bool{}, map[string]bool{}
	for _, p := range paths {
		if p.Off {
			continue
		}
		for i, a := range p.Arr {
			if i%2 == 1 {
				props[a] = true
			}
		}
		if !p.IsGroup && p.DT != "" {
			dts[p.DT] = true
		}
	}
	return
}

// GenWorld generates a pathbuilder and data which is likely to match it.
func GenWorld(t *rapid.T, o GenOpts) (w World) {
	w.Paths = GenPaths(t, o)
	GenData(t, o, &w)
	w.Tame(o.Matches)
	return w
}

// GenLiteral draws a literal
func GenLiteral(t *rapid.T, o GenOpts) Term {
	langs := o.LangTags
	if langs == nil {
		langs = Langs
	}
	var v string
	if o.Values != nil {
		v = o.Values.Draw(t, "value")
	} else if Chance(t, "freevalue", 10) {
		v = rapid.StringN(0, 12, -1).Draw(t, "value")
		v = strings.Map(func(r rune) rune {
			if r == 0xFFFD {
				return 'x'
			}
			return r
		}, v)
	} else {
		v = pick(t, "value", Values)
	}
	l := Lit(v, pick(t, "lang", langs))
	if l.L == "" && len(o.Types) > 0 && Chance(t, "typed", 25) {
		l.DT = pick(t, "datatype", o.Types)
	}
	return l
}

// GenData fills in the data of a world.
func GenData(t *rapid.T, o GenOpts, w *World) {
	insts := o.Instances
	if insts == nil {
		insts = Instances
	}
	ni := rapid.IntRange(1, min(8, len(insts))).Draw(t, "instances")
	// pick a window of the instance pool
	off := rapid.IntRange(0, len(insts)-1).Draw(t, "offset")
	var nodes []Term
	for i := 0; i < ni; i++ {
		nodes = append(nodes, IRI(insts[(off+i)%len(insts)]))
	}
	if !o.NoBlank && Chance(t, "blank", 15) {
		blanks := o.Blanks
		if blanks == nil {
			blanks = []string{"b0", "node1"}
		}
		for _, b := range blanks {
			nodes = append(nodes, Term{K: "b", V: b})
		}
	}

	graph := func() string {
		if Chance(t, "graph", 25) {
			return pick(t, "g", []string{"http://g.example/1", "http://g.example/2"})
		}
		return ""
	}
	add := func(s Term, p string, ob Term) {
		w.Quads = append(w.Quads, Quad{S: s, P: p, O: ob, G: graph()})
	}

	// instantiate paths, so that the pathbuilder matches something
	inst := rapid.IntRange(0, 6).Draw(t, "instantiations")
	for i := 0; i < inst; i++ {
		p := pick(t, "path", w.Paths)
		cur := pick(t, "node", nodes)
		for j, a := range p.Arr {
			if j%2 == 0 {
				if !Chance(t, "omit", 4) {
					add(cur, RDFType, IRI(a))
				}
			} else {
				next := pick(t, "node", nodes)
				add(cur, a, next)
				cur = next
			}
		}
		if !p.IsGroup && p.DT != "" {
			for k := rapid.IntRange(1, 2).Draw(t, "values"); k > 0; k-- {
				add(cur, p.DT, GenLiteral(t, o))
			}
		}
	}

	// random data
	mx := o.MaxQuads
	if mx == 0 {
		mx = 24
	}
	k := rapid.IntRange(0, mx).Draw(t, "random")
	for i := 0; i < k; i++ {
		s := pick(t, "s", nodes)
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1, 2:
			add(s, RDFType, IRI(pick(t, "class", Classes)))
		case 3, 4, 5:
			add(s, pick(t, "prop", Props), pick(t, "o", nodes))
		case 6, 7:
			add(s, pick(t, "dt", DataProps), GenLiteral(t, o))
		case 8:
			// noise
			if Chance(t, "noiselit", 50) {
				add(s, pick(t, "noise", Noise), GenLiteral(t, o))
			} else {
				add(s, pick(t, "noise", Noise), pick(t, "o", nodes))
			}
		case 9:
			// repeat a statement, or a literal where a resource is expected
			if len(w.Quads) > 0 && Chance(t, "repeat", 60) {
				q := w.Quads[rapid.IntRange(0, len(w.Quads)-1).Draw(t, "which")]
				q.G = graph()
				w.Quads = append(w.Quads, q)
			} else {
				add(s, pick(t, "prop", Props), GenLiteral(t, o))
			}
		}
	}

	if !o.NoSameAs {
		w.SameAs = []string{OWLSameAs, OWLEqClass, OWLEqProp}
		for k := rapid.IntRange(0, 3).Draw(t, "sameas"); k > 0; k-- {
			w.Quads = insertAt(t, w.Quads, Quad{S: pick(t, "s", nodes), P: OWLSameAs, O: pick(t, "o", nodes)})
		}
		if Chance(t, "eqclass", 12) {
			a, b := pick(t, "class", Classes), pick(t, "class", Classes)
			if Chance(t, "alias", 60) {
				b = "http://alias.example/C"
				for k := rapid.IntRange(0, 3).Draw(t, "uses"); k > 0; k-- {
					add(pick(t, "s", nodes), RDFType, IRI(b))
				}
				if Chance(t, "swap", 50) {
					a, b = b, a
				}
			}
			w.Quads = insertAt(t, w.Quads, Quad{S: IRI(a), P: OWLEqClass, O: IRI(b)})
		}
		if Chance(t, "eqprop", 20) {
			pool := Props
			lit := Chance(t, "dataprop", 30)
			if lit {
				pool = DataProps
			}
			a, b := pick(t, "prop", pool), "http://alias.example/p"
			for k := rapid.IntRange(0, 3).Draw(t, "uses"); k > 0; k-- {
				if lit {
					add(pick(t, "s", nodes), b, GenLiteral(t, o))
				} else {
					add(pick(t, "s", nodes), b, pick(t, "o", nodes))
				}
			}
			if Chance(t, "swap", 50) {
				a, b = b, a
			}
			w.Quads = insertAt(t, w.Quads, Quad{S: IRI(a), P: OWLEqProp, O: IRI(b)})
		}
	}
	if !o.NoInverse && Chance(t, "inverse", 35) {
		w.Inverses = []string{OWLInverse}
		// a matching of properties, so that every property has at most one inverse
		pairs := [][2]string{{Props[0], Props[1]}, {Props[2], "http://alias.example/p2_inv"}, {"http://alias.example/p3_inv", Props[3]}}
		for i, pr := range pairs {
			if !Chance(t, fmt.Sprintf("pair%d", i), 50) {
				continue
			}
			for k := rapid.IntRange(0, 3).Draw(t, "uses"); k > 0; k-- {
				add(pick(t, "s", nodes), pr[rapid.IntRange(0, 1).Draw(t, "side")], pick(t, "o", nodes))
			}
			w.Quads = insertAt(t, w.Quads, Quad{S: IRI(pr[0]), P: OWLInverse, O: IRI(pr[1])})
		}
	} else if !o.NoInverse {
		w.Inverses = []string{OWLInverse}
	}
}

func insertAt(t *rapid.T, quads []Quad, q Quad) []Quad {
	i := rapid.IntRange(0, len(quads)).Draw(t, "at")
	quads = append(quads, Quad{})
	copy(quads[i+1:], quads[i:])
	quads[i] = q
	return quads
}

// SortedKeys returns the keys of m in order
func SortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// SQLNames are machine names which need quoting in an sql query or in the name of a file
var SQLNames = []string{
	"a b", "a-b", "a`b", "``", "`; --", "a\"b", "\"", "a;b", "a'b", "'", "select", "order", "table", "a.b", "a$b", "$1", "$?", "$$", "?", ":x", "@x", "%s", "%", "%2F", "%2f", "ä", "日本", "a/b", "/", "../x", "..", "../../x", "a\\b", "A", "a", "B1", "f1", "F1", "b1__c", "c", "a__b", "b__c", "__", "f__x", "[a]", "a,b", ",", "--", "/*", "*/", "1", "a(b)", "(", ")", "uri", "parent", "value",
	"x (y); ATTACH DATABASE 'TOKEN.db' AS t; CREATE TABLE t.x(y); --", "x; DROP TABLE bundle__b1; --", "x AS SELECT 1; --", "x` (y); DROP TABLE bundle__b1; --", "\\", "a\\", "\\`", "<b>", "&amp;", "a\tb", "a=b", "#", "~", "*", "NULL", "rowid", "sqlite_master", "main.x", "temp",
}

// GenNames gives other machine names to some bundles and fields
func GenNames(t *rapid.T, w *World, names []string, percent int) {
	used := make(map[string]bool)
	for _, p := range w.Paths {
		used[p.ID] = true
	}
	renamed := make(map[string]string)
	for i, p := range w.Paths {
		if !Chance(t, "rename", percent) {
			continue
		}
		n := pick(t, "machine name", names)
		if Chance(t, "longer name", 25) {
			n += pick(t, "machine name", names)
		}
		if used[n] {
			n += fmt.Sprint(i)
		}
		if used[n] || n == "0" {
			continue
		}
		used[n] = true
		renamed[p.ID] = n
	}
	for i := range w.Paths {
		p := &w.Paths[i]
		if n, ok := renamed[p.ID]; ok {
			if p.Name == "" {
				p.Name = p.ID
			}
			p.ID = n
		}
		if n, ok := renamed[p.Group]; ok {
			p.Group = n
		}
	}
}
