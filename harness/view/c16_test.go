package view

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// turtle is a reader for (the parts that are needed of) turtle, and for n-triples
type turtle struct {
	s        string
	i        int
	nt       bool
	prefixes map[string]string
	out      []lib.Quad
}

type syntaxError string

func (t *turtle) fail(format string, args ...any) {
	rest := t.s[min(t.i, len(t.s)):]
	panic(syntaxError(fmt.Sprintf(format, args...) + fmt.Sprintf(" at offset %d: %q", t.i, lib.Trim(rest, 80))))
}

func readTriples(s string, nt bool) (out []lib.Quad, err error) {
	t := &turtle{s: s, nt: nt, prefixes: map[string]string{}}
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(syntaxError)
			if !ok {
				panic(p)
			}
			err = fmt.Errorf("invalid syntax: %s", string(e))
		}
	}()
	if !utf8.ValidString(s) {
		t.fail("invalid utf-8")
	}
	if nt {
		t.ntriples()
	} else {
		t.document()
	}
	return t.out, nil
}

func (t *turtle) peek() byte {
	if t.i < len(t.s) {
		return t.s[t.i]
	}
	return 0
}

func (t *turtle) space() {
	for t.i < len(t.s) {
		switch c := t.s[t.i]; {
		case c == ' ' || c == '\t' || !t.nt && (c == '\n' || c == '\r'):
			t.i++
		case c == '#' && !t.nt:
			for t.i < len(t.s) && t.s[t.i] != '\n' && t.s[t.i] != '\r' {
				t.i++
			}
		default:
			return
		}
	}
}

func (t *turtle) accept(s string) bool {
	if strings.HasPrefix(t.s[t.i:], s) {
		t.i += len(s)
		return true
	}
	return false
}

func (t *turtle) expect(s string) {
	if !t.accept(s) {
		t.fail("expected %q", s)
	}
}

func (t *turtle) ntriples() {
	for t.i < len(t.s) {
		t.space()
		if t.peek() == '\n' || t.peek() == '\r' {
			t.i++
			continue
		}
		if t.peek() == '#' {
			for t.i < len(t.s) && t.peek() != '\n' {
				t.i++
			}
			continue
		}
		if t.i >= len(t.s) {
			return
		}
		s := t.resource()
		t.space()
		p := t.resource()
		if p.K != "i" {
			t.fail("a predicate is not an iri")
		}
		t.space()
		o := t.object()
		t.space()
		t.expect(".")
		t.space()
		t.out = append(t.out, lib.Quad{S: s, P: p.V, O: o})
		if t.i < len(t.s) && t.peek() != '\n' && t.peek() != '\r' && t.peek() != '#' {
			t.fail("expected the end of a line")
		}
	}
}

func (t *turtle) document() {
	for {
		t.space()
		if t.i >= len(t.s) {
			return
		}
		if t.accept("@prefix") {
			t.space()
			j := strings.IndexByte(t.s[t.i:], ':')
			if j < 0 {
				t.fail("invalid prefix")
			}
			name := t.s[t.i : t.i+j]
			t.i += j + 1
			t.space()
			t.prefixes[name] = t.iri()
			t.space()
			t.expect(".")
			continue
		}
		s := t.resource()
		for {
			t.space()
			p := t.verb()
			for {
				t.space()
				o := t.object()
				t.out = append(t.out, lib.Quad{S: s, P: p, O: o})
				t.space()
				if !t.accept(",") {
					break
				}
			}
			t.space()
			if !t.accept(";") {
				break
			}
			for t.space(); t.accept(";"); t.space() {
			}
			if t.peek() == '.' {
				break
			}
		}
		t.space()
		t.expect(".")
	}
}

func (t *turtle) verb() string {
	if t.peek() == 'a' && t.i+1 < len(t.s) && strings.ContainsRune(" \t\r\n<", rune(t.s[t.i+1])) {
		t.i++
		return lib.RDFType
	}
	r := t.resource()
	if r.K != "i" {
		t.fail("a predicate is not an iri")
	}
	return r.V
}

func (t *turtle) uchar(n int) string {
	if t.i+n > len(t.s) {
		t.fail("incomplete escape")
	}
	v, err := strconv.ParseUint(t.s[t.i:t.i+n], 16, 32)
	if err != nil || !utf8.ValidRune(rune(v)) {
		t.fail("invalid escape")
	}
	t.i += n
	return string(rune(v))
}

func (t *turtle) iri() string {
	t.expect("<")
	var b strings.Builder
	for {
		if t.i >= len(t.s) {
			t.fail("iri does not end")
		}
		c := t.s[t.i]
		switch {
		case c == '>':
			t.i++
			v := b.String()
			scheme, _, ok := strings.Cut(v, ":")
			if !ok || scheme == "" {
				t.fail("iri <%s> is relative", v)
			}
			return v
		case c <= 0x20 || strings.IndexByte(`<"{}|^`+"`", c) >= 0:
			t.fail("iri contains %q", c)
		case c == '\\':
			t.i++
			if t.accept("u") {
				b.WriteString(t.uchar(4))
			} else if t.accept("U") {
				b.WriteString(t.uchar(8))
			} else {
				t.fail("invalid escape in iri")
			}
		default:
			b.WriteByte(c)
			t.i++
		}
	}
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"

func (t *turtle) resource() lib.Term {
	switch {
	case t.peek() == '<':
		return lib.IRI(t.iri())
	case t.accept("_:"):
		return lib.Term{K: "b", V: t.name(true)}
	case !t.nt:
		// prefixed name
		start := t.i
		j := strings.IndexByte(t.s[t.i:], ':')
		if j < 0 {
			t.fail("expected a resource")
		}
		ns, ok := t.prefixes[t.s[start:start+j]]
		if !ok {
			t.fail("unknown prefix %q", lib.Trim(t.s[start:start+j], 30))
		}
		t.i += j + 1
		return lib.IRI(ns + t.name(false))
	}
	t.fail("expected a resource")
	panic("not reached")
}

// name reads a blank node label, or the local part of a name
func (t *turtle) name(blank bool) string {
	start := t.i
	for t.i < len(t.s) {
		r, n := utf8.DecodeRuneInString(t.s[t.i:])
		if r < 0x80 && !strings.ContainsRune(nameChars+".", r) && !(!blank && r == ':') {
			break
		}
		t.i += n
	}
	for t.i > start && t.s[t.i-1] == '.' {
		t.i--
	}
	if blank && (t.i == start || t.s[start] == '-' || t.s[start] == '.') {
		t.fail("invalid blank node")
	}
	return t.s[start:t.i]
}

func (t *turtle) object() lib.Term {
	if t.peek() != '"' && (t.nt || t.peek() != '\'') {
		if !t.nt && strings.IndexByte("+-0123456789.tf", t.peek()) >= 0 {
			start := t.i
			for t.i < len(t.s) && (strings.IndexByte(nameChars+"+", t.peek()) >= 0 || t.peek() == '.' && t.i+1 < len(t.s) && strings.IndexByte("0123456789", t.s[t.i+1]) >= 0) {
				t.i++
			}
			v := t.s[start:t.i]
			if v == "true" || v == "false" {
				return lib.Term{K: "l", V: v, DT: "bool"}
			}
			if _, err := strconv.ParseFloat(v, 64); err == nil {
				return lib.Term{K: "l", V: v, DT: "number"}
			}
			t.i = start
		}
		return t.resource()
	}
	quote := t.s[t.i : t.i+1]
	long := !t.nt && strings.HasPrefix(t.s[t.i:], strings.Repeat(quote, 3))
	if long {
		quote = strings.Repeat(quote, 3)
	}
	t.i += len(quote)
	var b strings.Builder
	for !t.accept(quote) {
		if t.i >= len(t.s) {
			t.fail("text does not end")
		}
		c := t.s[t.i]
		switch {
		case c == '\\':
			t.i++
			esc := t.peek()
			t.i++
			switch esc {
			case 't', 'b', 'n', 'r', 'f', '"', '\'', '\\':
				b.WriteByte(map[byte]byte{'t': '\t', 'b': '\b', 'n': '\n', 'r': '\r', 'f': '\f', '"': '"', '\'': '\'', '\\': '\\'}[esc])
			case 'u':
				b.WriteString(t.uchar(4))
			case 'U':
				b.WriteString(t.uchar(8))
			default:
				t.fail("invalid escape")
			}
		case (c == '\n' || c == '\r') && !long:
			t.fail("line break in text")
		default:
			b.WriteByte(c)
			t.i++
		}
	}
	o := lib.Term{K: "l", V: b.String()}
	switch {
	case t.accept("@"):
		start := t.i
		for t.i < len(t.s) && strings.IndexByte(strings.ReplaceAll(nameChars, "_", ""), t.peek()) >= 0 {
			t.i++
		}
		o.L = t.s[start:t.i]
		for i, p := range strings.Split(o.L, "-") {
			if p == "" || i == 0 && strings.ContainsAny(p, "0123456789") {
				t.fail("invalid language %q", o.L)
			}
		}
	case t.accept("^^"):
		dt := t.resource()
		if dt.K != "i" {
			t.fail("datatype is not an iri")
		}
		o.DT = dt.V
	}
	return o
}

// Download is a case
type Download struct {
	W lib.World `json:"w"`
	F Flags     `json:"f"`
}

var downloadLangs = []string{"", "", "", "de", "en-GB", "EN", "zh-Hant-TW", "de-1996", "de-CH-1901", "x-klingon", "sl-rozaj-biske-1994"}

var downloadInstances = append([]string{lib.RDFType, "http://i.example/" + strings.Repeat("long/", 60), "http://i.example/x#", "http://i.example/a.b.", "http://i.example/a,b;c", "http://i.example/(x)~!$&'*", "tag:x@y,2000:z", "http://i.example/日本\u200d", "http://i.example/x\u00a0y", "http://i.example/x\u2028y"}, viewInstances...)

var downloadValues = rapid.OneOf(
	rapid.SampledFrom(lib.Values),
	rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]string{"\\", "\"", "'", "\n", "\r", "\t", "\x01", "\b", "\f", "\x7f", "\u0085", "\u2028", "\U0001f600", "@en", "^^<x>", " .", " ;", ",", "#", "\\u0041", "\\n", "%", "a", "<b>", "\"\"\"", "_:b", "\ufffd", "\ufeff"}), 0, 8), func(s []string) string { return strings.Join(s, "") }),
)

// statement is a statement in comparable form
func statement(s lib.Quad) string { return lib.QuadKey(s.S.Label(), s.P, s.O) }

func collectJSON(e lib.JSONEntity, f func(t lib.JSONTriple)) {
	for _, t := range e.Triples {
		f(t)
	}
	for _, vs := range e.Fields {
		for _, v := range vs {
			for _, t := range v.Triples {
				f(t)
			}
		}
	}
	for _, cs := range e.Children {
		for _, c := range cs {
			collectJSON(c, f)
		}
	}
}

func labelTerm(l string) lib.Term {
	if b, ok := strings.CutPrefix(l, "_:"); ok {
		return lib.Term{K: "b", V: b}
	}
	return lib.IRI(l)
}

func checkDownload(c Download, r *lib.Rec) error {
	g, err := create(c.W, c.F, false)
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}
	v := newViewer(g)
	ref := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses)
	result := ref.Evaluate(c.W.Paths)
	_, members := lib.SameAsClasses(c.W.Quads, c.W.SameAs)
	class := map[string][]string{}
	for _, m := range members {
		for _, l := range m {
			class[l] = m
		}
	}
	literals := map[string]int{} // number of times each literal statement is in the data
	for _, q := range c.W.Quads {
		if q.O.K == "l" {
			o := q.O
			o.DT = ""
			literals[lib.QuadKey(ref.Canonical(q.S.Label()), ref.Canonical(q.P), o)]++
		}
	}

	for _, b := range lib.SortedKeys(result.Bundles) {
		if _, ok := findRoot(c.W, b); !ok {
			continue
		}
		for _, u := range lib.SortedKeys(result.Bundles[b]) {
			res, err := page(v, "/api/v1/entity/"+p(b)+"?uri="+q(u))
			if err != nil {
				return err
			}
			var e lib.JSONEntity
			if err := json.Unmarshal(res.Body, &e); err != nil {
				return err
			}
			want := map[string]bool{}
			multi := false
			collectJSON(e, func(t lib.JSONTriple) {
				s := lib.Quad{S: labelTerm(t.SSubject), P: t.SPredicate, O: labelTerm(t.SObject)}
				if t.Role == 2 {
					s.O = lib.Lit(t.Datum, t.Language)
				}
				want[statement(s)] = true
				multi = multi || t.Role == 2
			})
			if len(want) == 0 {
				return fmt.Errorf("no statements define %q", u)
			}
			names := []string{u}
			if a := class[u]; len(a) > 1 {
				names = append(names, a[0], a[len(a)-1])
				r.Class("alias")
			}
			r.NontrivialIf(multi)
			for _, name := range names {
				for _, format := range []string{"ntriples", "turtle"} {
					target := "/api/v1/" + format + "/" + p(b) + "?uri=" + q(name)
					res, err := page(v, target)
					if err != nil {
						return err
					}
					got, err := readTriples(string(res.Body), format == "ntriples")
					if err != nil {
						return fmt.Errorf("%q: %w", target, err)
					}
					have := map[string]int{}
					for _, s := range got {
						if s.O.K == "l" && s.O.DT == "http://www.w3.org/2001/XMLSchema#string" {
							s.O.DT = ""
						}
						if s.O.DT != "" {
							return fmt.Errorf("%q: contains %+v, but there are no other datatypes", target, s)
						}
						k := statement(s)
						have[k]++
						if !want[k] {
							return fmt.Errorf("%q: contains %s, which does not define the entity (%q)", target, k, lib.SortedKeys(want))
						}
						if s.O.K == "l" {
							if have[k] > literals[k] {
								return fmt.Errorf("%q: contains %s %d times, but it is in the data %d times", target, k, have[k], literals[k])
							}
						} else {
							if have[k] > 1 {
								return fmt.Errorf("%q: repeats %s", target, k)
							}
							if !ref.Facts[lib.Fact{S: s.S.Label(), P: s.P, O: lib.Node{Label: s.O.Label()}}] {
								return fmt.Errorf("%q: contains %s, which does not hold", target, k)
							}
						}
						r.ClassIf(s.S.K == "b" || s.O.K == "b", "blank node")
						r.ClassIf(strings.Count(s.O.L, "-") > 1, "several subtags")
						r.ClassIf(s.S.V == lib.RDFType || s.O.V == lib.RDFType, "rdf:type as resource")
					}
					for _, k := range lib.SortedKeys(want) {
						if have[k] == 0 {
							return fmt.Errorf("%q: %s is missing", target, k)
						}
					}
				}
			}
		}
	}
	return nil
}

func findRoot(w lib.World, id string) (*lib.RefBundle, bool) {
	roots, _ := lib.Tree(w.Paths)
	for _, b := range roots {
		if b.Def.ID == id {
			return b, true
		}
	}
	return nil, false
}

func TestC16_download(t *testing.T) {
	lib.Run(t, lib.Prop[Download]{
		Name:  "C16.download",
		Rule:  "random worlds with odd iris, texts (control characters, quotes, escapes), languages with several subtags, blank nodes, identities and inverses; both downloads of every entity, under several of its names, are read by an independent parser and compared with the statements that define the entity (from the JSON interface and the reference graph); non-trivial when an entity has a literal statement",
		Quick: 1600, Thorough: 60000,
		Gen: func(t *rapid.T) (c Download) {
			c.W = lib.GenWorld(t, lib.GenOpts{Matches: 200, MaxQuads: 30, Instances: downloadInstances, LangTags: downloadLangs, Values: downloadValues, Blanks: lib.Pick(t, "blanks", [][]string{{"b0", "node1"}, {"a.b", "0", "ü-1"}, {"A_b", "x.y.z-1"}})})
			c.F = Flags{}
			return
		},
		Check: checkDownload,
	})
}
