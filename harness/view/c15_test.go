package view

import (
	"encoding/json"
	"fmt"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// Nasty is a case: a pathbuilder and entities with texts that look like markup
type Nasty struct {
	F      Flags                      `json:"f"`
	Paths  []lib.PathDef              `json:"paths"`
	Data   map[string][]wisski.Entity `json:"data"`
	SameAs map[string]string          `json:"same"`
}

var nastyTexts = []string{
	`"><script>alert(1)</script>`, `'><img src=x onerror=alert(1)>`, `" onmouseover="alert(1)`, `' onmouseover='alert(1)`, ` onclick=alert(1) `, `</script><script>alert(1)</script>`,
	`<!--`, `-->`, `<!-- x -->`, `]]>`, `<![CDATA[`, `{{.}}`, `{{ template "x" }}`, `</title><b>`, `</td></tr></table>`, `</textarea>`, `</style><style>`, "`", "${x}", `\`, `\"`, `\u003c`, `&lt;script&gt;`, `&#60;b&#62;`, `&amp;`, `&`,
	`<b>bold</b>`, `<a href="javascript:alert(1)">x</a>`, `<svg/onload=alert(1)>`, `<p>text</p>`, `</div>`, `</main>`, `</code>`, `<script`, `<`, `>`, `"`, `'`, `=`, `#`, `?`, `%`, `%3C`, `%zz`, `+`, `;`, "\u2028", "\u2029", "日本", "\U0001f600", "a\tb", "a\nb", "a\r\nb", "\x00", "\x7f", "\u0085", "\ufeff", "\ufffd",
	`</SCRIPT>`, `<SCRIPT>`, `x`, `zq`, ``, ` `, `0`, `null`, `{"a":1}`, `[1]`, `//evil.example/x`, `/\evil.example`,
}

var nastyURLs = []string{
	`javascript:alert(1)`, `JaVaScRiPt:alert(1)`, ` javascript:alert(1)`, "java\tscript:alert(1)", "java\nscript:alert(1)", "\x01javascript:alert(1)", "javascript\t:alert(1)", `javascript&colon;alert(1)`, `javascript://https://x/%0aalert(1)`, `vbscript:x`, `VBScript:x`, `data:text/html,<script>alert(1)</script>`, `data:image/svg+xml,<svg onload=alert(1)>`,
	`http://i.example/x`, `https://i.example/"><script>alert(1)</script>`, `https://i.example/?a=b&c=d#e`, `http://i.example/%41%zz`, `mailto:x@i.example`, `/local`, `x y`, `https://i.example/wisski/"><b>`, `https://i.example/wisski/navigate/1/view`, `ftp://x`, `feed:javascript:alert(1)`, `view-source:x`, `blob:x`, `https:javascript:alert(1)`, `http://i.example/wisskijavascript:x`, `://`, `:`, `javascript`,
}

var nastyTypes = []string{"entity_reference", "link", "image", "text_long", "string", "text", "<b>type</b>", "text_long ", "uri", "html", "formatted_text", "text_with_summary", "file", "list_string"}

const keptHTML = "<p>kept <i>text</i></p>"

func genNasty(t *rapid.T) (c Nasty) {
	c.F = genFlags(t)
	c.F.Tipsy = lib.Pick(t, "tipsy", []string{"", "https://tipsy.example/"})
	xmlSafe := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r < 0x20 && r != '\t' && r != '\n' || r == 0xfffe || r == 0xffff {
				return -1
			}
			return r
		}, s)
	}
	text := func(name string) string {
		n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, name+"n")
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(lib.Pick(t, name, nastyTexts))
		}
		return b.String()
	}
	label := func(name string) string { // names in the pathbuilder
		return xmlSafe(text(name))
	}
	var ids []string
	id := func(name string) string { // machine names: part of paths of pages
		for {
			s := strings.TrimSpace(strings.NewReplacer("/", "-", "\n", "", "\r", "", "\t", "").Replace(label(name)))
			if s == "" || s == "." || s == ".." || s == "0" {
				s = "id"
			}
			for i := 0; ; i++ {
				if i > 0 {
					s = fmt.Sprintf("%s%d", s, i)
				}
				dup := false
				for _, o := range ids {
					dup = dup || o == s
				}
				if !dup {
					ids = append(ids, s)
					return s
				}
			}
		}
	}
	uri := func(name string) string {
		s := lib.Pick(t, name+"p", []string{"http://i.example/", "urn:", "_:", "", "https://i.example/wisski/navigate/", "javascript:"}) + text(name)
		s = strings.TrimSpace(strings.NewReplacer("\n", "", "\r", "", "\x00", "", "\u0085", "").Replace(s))
		if s == "" {
			s = "http://i.example/"
		}
		return s
	}
	extra := func() map[string]string {
		m := map[string]string{}
		for _, k := range []string{"field", "displaywidget", "formatterwidget", "short_name", "description", "uuid"} {
			if rapid.Bool().Draw(t, "x"+k) {
				m[k] = label(k)
			}
		}
		if rapid.Bool().Draw(t, "xi") {
			m["field_type_informative"] = lib.Pick(t, "xit", nastyTypes)
		}
		return m
	}
	same := func() string { return lib.Pick(t, "arr", []string{"http://o.example/C", xmlSafe(uri("arr"))}) }

	var bundle func(parent string, depth int)
	bundle = func(parent string, depth int) {
		b := id("bundle")
		c.Paths = append(c.Paths, lib.PathDef{ID: b, Group: parent, Arr: []string{same()}, IsGroup: true, Name: label("name"), Weight: rapid.IntRange(0, 2).Draw(t, "w"), Extra: extra()})
		for i := rapid.IntRange(0, 3).Draw(t, "fields"); i > 0; i-- {
			c.Paths = append(c.Paths, lib.PathDef{ID: id("field"), Group: b, Arr: []string{same()}, DT: xmlSafe(uri("dt")), Name: label("fname"), FType: lib.Pick(t, "ft", nastyTypes), Card: rapid.IntRange(-1, 3).Draw(t, "card"), Extra: extra()})
		}
		if depth > 0 {
			for i := rapid.IntRange(0, 2).Draw(t, "children"); i > 0; i-- {
				bundle(b, depth-1)
			}
		}
	}
	for i := rapid.IntRange(1, 2).Draw(t, "bundles"); i > 0; i-- {
		bundle("", 1)
	}

	tid := impl.ID{}
	triples := func(u string) (ts []igraph.Triple) {
		for i := rapid.IntRange(0, 2).Draw(t, "triples"); i > 0; i-- {
			tid = tid.Inc()
			lab := func() impl.Label { return impl.Label(uri("t")) }
			tr := igraph.Triple{ID: tid, Subject: impl.Label(u), SSubject: impl.Label(u), Predicate: lab(), Role: igraph.Role(rapid.IntRange(0, 2).Draw(t, "role"))}
			tr.SPredicate = tr.Predicate
			if lib.Chance(t, "alias", 30) {
				tr.SSubject, tr.SPredicate = lab(), lab()
			}
			if tr.Role == igraph.Data {
				tr.Datum, tr.Language = impl.Datum(text("td")), impl.Language(text("tl"))
			} else {
				tr.Object = lab()
				tr.SObject = lib.Pick(t, "so", []impl.Label{tr.Object, lab()})
			}
			ts = append(ts, tr)
		}
		return
	}
	roots, _ := lib.Tree(c.Paths)
	var seen []string
	var entity func(b *lib.RefBundle) wisski.Entity
	entity = func(b *lib.RefBundle) wisski.Entity {
		u := uri("uri")
		for _, o := range seen {
			if o == u {
				u += fmt.Sprint(len(seen))
			}
		}
		seen = append(seen, u)
		e := wisski.Entity{URI: impl.Label(u), Path: []impl.Label{impl.Label(u)}, Triples: triples(u), Fields: map[string][]wisski.FieldValue{}, Children: map[string][]wisski.Entity{}}
		for _, f := range b.Fields {
			for i := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "values"); i > 0; i-- {
				v := wisski.FieldValue{Path: e.Path, Triples: triples(u)}
				if f.FType == "text_long" && c.F.HTML {
					v.Value = keptHTML
				} else if rapid.Bool().Draw(t, "isurl") {
					v.Value = impl.Datum(lib.Pick(t, "url", nastyURLs))
				} else {
					v.Value = impl.Datum(text("value"))
				}
				if lib.Chance(t, "haslang", 30) {
					v.Language = impl.Language(text("lang"))
				}
				e.Fields[f.ID] = append(e.Fields[f.ID], v)
			}
		}
		for _, cb := range b.Children {
			for i := rapid.IntRange(0, 2).Draw(t, "nchildren"); i > 0; i-- {
				e.Children[cb.Def.ID] = append(e.Children[cb.Def.ID], entity(cb))
			}
		}
		return e
	}
	c.Data = map[string][]wisski.Entity{}
	c.SameAs = map[string]string{}
	for _, b := range roots {
		for i := rapid.IntRange(0, 2).Draw(t, "entities"); i > 0; i-- {
			e := entity(b)
			c.Data[b.Def.ID] = append(c.Data[b.Def.ID], e)
			if lib.Chance(t, "hasalias", 40) {
				if a := uri("alias"); a != string(e.URI) {
					c.SameAs[a] = string(e.URI)
				}
			}
		}
	}
	return
}

// rename replaces every text
func (c Nasty) rename(f func(string) string) (d Nasty) {
	d.F = c.F
	for _, p := range c.Paths {
		p.ID, p.Group, p.Bundle, p.DT, p.Name = f(p.ID), f(p.Group), f(p.Bundle), f(p.DT), f(p.Name)
		p.FType = f(p.FType)
		arr := make([]string, len(p.Arr))
		for i, a := range p.Arr {
			arr[i] = f(a)
		}
		p.Arr = arr
		x := map[string]string{}
		for _, k := range lib.SortedKeys(p.Extra) {
			x[k] = f(p.Extra[k])
		}
		p.Extra = x
		d.Paths = append(d.Paths, p)
	}
	labels := func(l []impl.Label) (res []impl.Label) {
		for _, x := range l {
			res = append(res, impl.Label(f(string(x))))
		}
		return
	}
	l := func(l impl.Label) impl.Label { return impl.Label(f(string(l))) }
	triples := func(ts []igraph.Triple) (res []igraph.Triple) {
		for _, t := range ts {
			t.Subject, t.Predicate, t.Object, t.SSubject, t.SPredicate, t.SObject = l(t.Subject), l(t.Predicate), l(t.Object), l(t.SSubject), l(t.SPredicate), l(t.SObject)
			t.Datum, t.Language = impl.Datum(f(string(t.Datum))), impl.Language(f(string(t.Language)))
			res = append(res, t)
		}
		return
	}
	var entities func(es []wisski.Entity) []wisski.Entity
	entities = func(es []wisski.Entity) (res []wisski.Entity) {
		for _, e := range es {
			n := wisski.Entity{URI: l(e.URI), Path: labels(e.Path), Triples: triples(e.Triples), Fields: map[string][]wisski.FieldValue{}, Children: map[string][]wisski.Entity{}}
			for _, k := range lib.SortedKeys(e.Fields) {
				for _, v := range e.Fields[k] {
					n.Fields[f(k)] = append(n.Fields[f(k)], wisski.FieldValue{Value: impl.Datum(f(string(v.Value))), Language: impl.Language(f(string(v.Language))), Path: labels(v.Path), Triples: triples(v.Triples)})
				}
			}
			for _, k := range lib.SortedKeys(e.Children) {
				n.Children[f(k)] = entities(e.Children[k])
			}
			res = append(res, n)
		}
		return
	}
	d.Data, d.SameAs = map[string][]wisski.Entity{}, map[string]string{}
	for _, k := range lib.SortedKeys(c.Data) {
		d.Data[f(k)] = entities(c.Data[k])
	}
	for _, k := range lib.SortedKeys(c.SameAs) {
		d.SameAs[f(k)] = f(c.SameAs[k])
	}
	return
}

func (c Nasty) glass() glass.Glass {
	w := lib.World{Paths: c.Paths}
	return glass.Glass{Pathbuilder: loadPB(w), Cache: newCache(c.Data, c.SameAs), Flags: c.F.Render(w)}
}

// targets are the pages to look at, the same for all renamings
func (c Nasty) targets() (res []string) {
	res = []string{"/", "/pathbuilder", "/tipsy", "/api/v1"}
	roots, _ := lib.Tree(c.Paths)
	for _, b := range roots {
		res = append(res, "/bundle/"+p(b.Def.ID), "/bundle/"+p(b.Def.ID)+"?limit=1&skip=0", "/api/v1/bundle/"+p(b.Def.ID))
		for _, e := range c.Data[b.Def.ID] {
			u := q(string(e.URI))
			for _, pre := range []string{"/entity/", "/api/v1/entity/", "/api/v1/ntriples/", "/api/v1/turtle/"} {
				res = append(res, pre+p(b.Def.ID)+"?uri="+u)
			}
			res = append(res, "/wisski/get?uri="+u)
		}
	}
	for _, p := range c.Paths {
		for _, k := range lib.SortedKeys(p.Extra) {
			if x := url.PathEscape(p.Extra[k]); strings.ContainsAny(p.Extra[k], "/.") {
				res = append(res, "", "") // leads elsewhere
			} else {
				res = append(res, "/bundle/"+x, "/entity/"+x+"?uri="+q(p.Extra[k]))
			}
			res = append(res, "/wisski/get?uri="+q(p.Extra[k]))
		}
		break
	}
	for _, k := range lib.SortedKeys(c.SameAs) {
		res = append(res, "/wisski/get?uri="+q(k))
	}
	for i, target := range res {
		// spaces around a uri do not count, so that it may turn into another text
		if _, query, ok := strings.Cut(target, "?uri="); ok {
			if u, err := url.QueryUnescape(query); err == nil && strings.TrimSpace(u) != u {
				res[i] = ""
			}
		}
	}
	return
}

var tokenOf = regexp.MustCompile(`zq\d{5}q`)

var badSchemes = regexp.MustCompile(`(?i)^(javascript|vbscript|data):`)

// scheme returns what a browser makes of the start of a link
func badScheme(link string) bool {
	link = strings.TrimLeftFunc(link, func(r rune) bool { return r <= 0x20 })
	link = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(link)
	return badSchemes.MatchString(link)
}

// lenient unescapes everything in a link that looks like an escape, until there is nothing left
func lenient(s string) string {
	for {
		next := lenientStep(s)
		if next == s {
			return s
		}
		s = next
	}
}

func lenientStep(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if d, err := url.PathUnescape(s[i : i+3]); err == nil {
				b.WriteString(d)
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

var linkAttrs = map[string]bool{"href": true, "src": true, "action": true}

// sameStructure checks that the second document is the first one, with each token replaced
func sameStructure(want, got *html.Node, subst func(string) string, f Flags, where string) error {
	if want.Type != got.Type {
		return fmt.Errorf("in %s: found %q instead of %q", where, nodeString(got), nodeString(want))
	}
	collapse := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	switch want.Type {
	case html.TextNode:
		if where != "script" {
			if w, g := collapse(normalize(subst(want.Data))), collapse(got.Data); w != g {
				return fmt.Errorf("in %s: shows %q instead of %q", where, g, w)
			}
			break
		}
		var w, g any
		if err := json.Unmarshal([]byte(want.Data), &w); err != nil {
			return fmt.Errorf("script is not valid: %w", err)
		}
		if err := json.Unmarshal([]byte(got.Data), &g); err != nil {
			return fmt.Errorf("script is not valid with these texts: %w: %s", err, got.Data)
		}
		ws, gs := fmt.Sprintf("%q", mapJSON(w, subst)), fmt.Sprintf("%q", g)
		if ws != gs {
			return fmt.Errorf("the graph is %s instead of %s", gs, ws)
		}
	case html.ElementNode:
		if want.Data != got.Data || len(want.Attr) != len(got.Attr) {
			return fmt.Errorf("in %s: found %q instead of %q", where, nodeString(got), nodeString(want))
		}
		for i, a := range want.Attr {
			b := got.Attr[i]
			if a.Key != b.Key || a.Namespace != b.Namespace {
				return fmt.Errorf("in %s: found %q instead of %q", where, nodeString(got), nodeString(want))
			}
			if err := sameAttr(want, a, b.Val, subst, f); err != nil {
				return fmt.Errorf("attribute %s of %q: %w", a.Key, nodeString(got), err)
			}
		}
	default:
		if want.Data != got.Data {
			return fmt.Errorf("in %s: found %q instead of %q", where, nodeString(got), nodeString(want))
		}
	}
	ws, gs := significant(want), significant(got)
	for i := 0; i < len(ws) || i < len(gs); i++ {
		if i >= len(ws) {
			return fmt.Errorf("in %s: there is %q", want.Data, nodeString(gs[i]))
		}
		if i >= len(gs) {
			return fmt.Errorf("in %s: %q is missing", want.Data, nodeString(ws[i]))
		}
		if err := sameStructure(ws[i], gs[i], subst, f, want.Data); err != nil {
			return err
		}
	}
	return nil
}

// significant returns the children of a node, with texts between elements merged to one (also if there is none)
func significant(n *html.Node) (res []*html.Node) {
	if n.Type != html.ElementNode && n.Type != html.DocumentNode {
		return nil
	}
	if n.Data == "script" {
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			res = append(res, c)
		}
		return
	}
	text := func() *html.Node { return &html.Node{Type: html.TextNode} }
	res = append(res, text())
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.TextNode {
			res[len(res)-1].Data += c.Data
			continue
		}
		res = append(res, c, text())
	}
	return
}

func nodeString(n *html.Node) string {
	if n.Type == html.ElementNode {
		return fmt.Sprintf("<%s %q>", n.Data, n.Attr)
	}
	return lib.Trim(n.Data, 200)
}

func mapJSON(v any, f func(string) string) any {
	switch v := v.(type) {
	case string:
		return f(v)
	case []any:
		for i := range v {
			v[i] = mapJSON(v[i], f)
		}
	case map[string]any:
		for k := range v {
			v[k] = mapJSON(v[k], f)
		}
	}
	return v
}

func sameAttr(n *html.Node, a html.Attribute, got string, subst func(string) string, f Flags) error {
	want := normalize(subst(a.Val))
	if !linkAttrs[a.Key] {
		if n.Data == "div" && a.Key == "data-data" && attr(n, "id") == "tipsy" {
			return nil // compared separately
		}
		if want != got {
			return fmt.Errorf("is %q instead of %q", got, want)
		}
		return nil
	}
	if n.Data == "img" && tokenOf.MatchString(a.Val) && !f.Image {
		return fmt.Errorf("an image is embedded: %q", got)
	}
	if badScheme(got) {
		return fmt.Errorf("%q is a link to a script", got)
	}
	switch {
	case !tokenOf.MatchString(a.Val):
		if a.Val != got {
			return fmt.Errorf("is %q instead of %q", got, a.Val)
		}
	case strings.HasPrefix(a.Val, "/"):
		// (whether it leads to the right page is decided elsewhere)
		space := strings.NewReplacer("+", " ")
		if w, g := space.Replace(lenient(subst(a.Val))), space.Replace(lenient(got)); w != g || strings.HasPrefix(got, "//") || strings.HasPrefix(got, "/\\") {
			return fmt.Errorf("is %q instead of a link to %q", got, subst(a.Val))
		}
	default:
		v := subst(a.Val)
		if strings.HasPrefix(v, "http://") || strings.HasPrefix(v, "https://") {
			rewritten := f.Image && f.Public != "" && (n.Data == "img" || len(find(n, "img")) > 0)
			if !rewritten && lenient(v) != lenient(got) {
				return fmt.Errorf("is %q instead of a link to %q", got, v)
			}
		}
	}
	return nil
}

func checkNasty(c Nasty, r *lib.Rec) error {
	// texts with a meaning of their own stay as they are
	keep := map[string]bool{"": true, "0": true, "empty": true, keptHTML: true}
	for _, ft := range []string{"entity_reference", "link", "image", "text_long"} {
		keep[ft] = true
	}
	all := map[string]bool{}
	c.rename(func(s string) string {
		if !keep[s] {
			all[s] = true
		}
		return s
	})
	sorted := lib.SortedKeys(all)
	token := map[string]string{}
	back := map[string]string{}
	for i, s := range sorted {
		t := fmt.Sprintf("zq%05dq", i)
		token[s], back[t] = t, s
	}
	rename := func(s string) string {
		if t, ok := token[s]; ok {
			return t
		}
		return s
	}
	subst := func(s string) string {
		return tokenOf.ReplaceAllStringFunc(s, func(t string) string { return back[t] })
	}
	plain := c.rename(rename)

	gc := c.glass()
	vc, vp := newViewer(gc), newViewer(plain.glass())
	tc, tp := c.targets(), plain.targets()
	if len(tc) != len(tp) {
		return lib.HarnessError{Err: fmt.Errorf("different targets")}
	}
	markup := false
	for i, target := range tc {
		if target == "" || tp[i] == "" {
			continue
		}
		got, want := get(vc, target), get(vp, tp[i])
		for _, res := range []struct {
			r Resp
			t string
		}{{got, target}, {want, tp[i]}} {
			if err := res.r.sane(res.t); err != nil {
				return err
			}
		}
		if got.Code != want.Code {
			return fmt.Errorf("%q: status %d, but with harmless texts (%q) it is %d", target, got.Code, tp[i], want.Code)
		}
		ct := got.Header.Get("Content-Type")
		isHTML := strings.HasPrefix(ct, "text/html")
		switch {
		case strings.HasPrefix(target, "/api/v1/ntriples"), strings.HasPrefix(target, "/api/v1/turtle"):
			if ct == "" || isHTML || strings.Contains(ct, "xml") {
				return fmt.Errorf("%q: answers with type %q", target, ct)
			}
			continue
		case strings.HasPrefix(target, "/api/"):
			if ct == "" || isHTML || strings.Contains(ct, "xml") {
				return fmt.Errorf("%q: answers with type %q", target, ct)
			}
			if got.Code == 200 && !json.Valid(got.Body) {
				return fmt.Errorf("%q: invalid JSON", target)
			}
			continue
		}
		if loc := got.Header.Get("Location"); loc != "" {
			if err := sameAttr(&html.Node{}, html.Attribute{Key: "href", Val: want.Header.Get("Location")}, loc, subst, c.F); err != nil {
				return fmt.Errorf("%q: redirect: %w", target, err)
			}
			r.Class("redirect")
		}
		if len(got.Body) > 0 && !isHTML && !strings.HasPrefix(ct, "text/plain") {
			return fmt.Errorf("%q: answers with type %q", target, ct)
		}
		if !isHTML {
			continue
		}
		doc := parse(got.Body)
		if err := sameStructure(parse(want.Body), doc, subst, c.F, "document"); err != nil {
			return fmt.Errorf("%q: %w", target, err)
		}
		var bad error
		each(doc, func(n *html.Node) {
			if n.Type != html.ElementNode {
				return
			}
			for _, a := range n.Attr {
				if strings.HasPrefix(strings.ToLower(a.Key), "on") {
					bad = fmt.Errorf("%q: contains a handler", target)
				}
				if n.Data == "div" && a.Key == "data-data" {
					want := normalize(string(lib.Must1(pbxml.Marshal(gc.Pathbuilder))))
					if a.Val != want {
						bad = fmt.Errorf("%q: contains another pathbuilder: %q instead of %q", target, a.Val, want)
					}
					r.Class("tipsy")
				}
			}
		})
		if bad != nil {
			return bad
		}
		if strings.HasPrefix(target, "/entity/") && got.Code == 200 {
			markup = true
		}
	}
	sort.Strings(sorted)
	hasMarkup := false
	for _, s := range sorted {
		hasMarkup = hasMarkup || strings.ContainsAny(s, `<>"'&`)
	}
	r.NontrivialIf(markup && hasMarkup)
	r.ClassIf(c.F.HTML, "html rendering")
	r.ClassIf(c.F.Image, "image rendering")
	return nil
}

func TestC15_text(t *testing.T) {
	lib.Run(t, lib.Prop[Nasty]{
		Name:  "C15.text",
		Rule:  "pathbuilders and entities whose every text (machine names, names, types, widgets, uris, values, languages, statements, aliases) is put together from markup, script, escapes, control characters and links with schemes; every page is compared element by element, attribute by attribute and text by text with that of the same data with harmless texts, links are checked as a browser would read them; non-trivial when there is a page of an entity and a text with markup",
		Quick: 6000, Thorough: 200000,
		Gen:   genNasty,
		Check: checkNasty,
	})
}
