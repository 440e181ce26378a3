package view

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

var viewInstances = append([]string{
	"http://i.example/wisski/navigate/1/view", "http://x.example/sub/wisski/navigate/12/view", "https://i.example/wisski/navigate/7/view", "http://other.example/wisski/navigate/7/view",
	"http://i.example/a;b", "http://i.example/q?x=a+b%26c#%23", "http://i.example/'q'(x)", "http://i.example/日本", "http://i.example/a//b/../c", "https://i.example:8443/wisski/navigate/1/view",
	"http://i.example/wisski/navigate/1/view?x=1", "urn:x:a%zz",
}, lib.Instances...)

// refPublics are the public urls that are configured, with both schemes and without a trailing slash
func refPublics(public string) (res []string) {
	for _, s := range strings.FieldsFunc(public, func(r rune) bool { return r == ',' || r == '\n' }) {
		s = strings.TrimSpace(s)
		_, rest, ok := strings.Cut(s, "://")
		if !ok {
			continue
		}
		rest = strings.TrimSuffix(rest, "/")
		res = append(res, "http://"+rest, "https://"+rest)
	}
	return
}

// shown is a value on a page
type shown struct {
	Field, Value, Lang string
	Kind               string // what it is shown as
}

// tableValues returns the values in the table of an entity
func tableValues(table *html.Node) (res []shown, err error) {
	bodies := childElements(table, "tbody")
	if len(bodies) != 2 {
		return nil, fmt.Errorf("a table of an entity has %d parts", len(bodies))
	}
	field, left := "", 0
	for _, tr := range childElements(bodies[1], "tr") {
		tds := childElements(tr, "td")
		if len(tds) >= 4 && left == 0 {
			field = strings.TrimSpace(text(tds[0]))
			count := strings.Fields(text(tds[2]))
			if len(count) == 0 {
				return nil, fmt.Errorf("no count for field %q", field)
			}
			if _, err := fmt.Sscan(count[0], &left); err != nil {
				return nil, fmt.Errorf("invalid count for field %q", field)
			}
			tds = tds[3:]
		}
		if left == 0 {
			continue
		}
		if len(tds) == 0 {
			return nil, fmt.Errorf("a row of field %q is empty", field)
		}
		left--
		s := shown{Field: field}
		cell := tds[0]
		if len(tds) > 1 {
			s.Lang = strings.TrimSpace(text(tds[1]))
			if attr(cell, "lang") != s.Lang {
				return nil, fmt.Errorf("the language of a value is shown as %q, but set to %q", s.Lang, attr(cell, "lang"))
			}
		}
		var inner *html.Node
		for c := cell.FirstChild; c != nil; c = c.NextSibling {
			if c.Type == html.ElementNode && inner == nil {
				inner = c
			}
		}
		switch {
		case inner == nil:
			s.Kind = "raw"
		case inner.Data == "a" && len(find(inner, "img")) > 0:
			s.Kind = "img"
		case inner.Data == "a":
			s.Kind = strings.TrimSpace("a " + attr(inner, "class"))
			s.Value = text(inner)
		case inner.Data == "span" && attr(inner, "class") == "text":
			s.Kind = "text"
			s.Value = text(inner)
		default:
			s.Kind = "raw"
		}
		res = append(res, s)
	}
	if left != 0 {
		return nil, fmt.Errorf("%d values of field %q are missing", left, field)
	}
	return res, nil
}

// wantValues are the values that should be shown for an entity
func wantValues(fields []lib.PathDef, e lib.JSONEntity) (res []shown) {
	for _, f := range fields {
		name := f.Name
		if name == "" {
			name = f.ID
		}
		for _, v := range e.Fields[f.ID] {
			res = append(res, shown{Field: strings.TrimSpace(name), Value: normalize(v.Value), Lang: v.Language, Kind: f.FType})
		}
	}
	return
}

func compareValues(f Flags, fields []lib.PathDef, e lib.JSONEntity, table *html.Node) error {
	got, err := tableValues(table)
	if err != nil {
		return err
	}
	want := wantValues(fields, e)
	// compared as a multiset: the order of fields is that of their weights
	left := map[shown]int{}
	key := func(s shown) shown {
		hidden := s.Kind == "text_long" && f.HTML || s.Kind == "image" && f.Image || s.Kind == "raw" || s.Kind == "img"
		if hidden {
			s.Value = ""
		}
		s.Kind = ""
		return s
	}
	for _, w := range want {
		left[key(w)]++
	}
	for _, g := range got {
		if left[key(g)]--; left[key(g)] < 0 {
			return fmt.Errorf("the page shows %+v, but the entity %q has the values %+v", g, e.URI, want)
		}
	}
	for w, n := range left {
		if n > 0 {
			return fmt.Errorf("the page of %q does not show %+v (it shows %+v)", e.URI, w, got)
		}
	}
	return nil
}

// section returns the elements behind a given heading
func section(main *html.Node, title string) (res []*html.Node) {
	in := false
	for c := main.FirstChild; c != nil; c = c.NextSibling {
		if c.Type != html.ElementNode {
			continue
		}
		if c.Data == "h2" {
			in = strings.TrimSpace(text(c)) == title
			continue
		}
		if in {
			res = append(res, c)
		}
	}
	return
}

// checkEntityPage checks everything on the page of an entity
func checkEntityPage(f Flags, b *lib.RefBundle, e lib.JSONEntity, aliases []string, body []byte) error {
	doc := parse(body)
	if h := strings.TrimSpace(text(first(doc, "h1"))); h != e.URI {
		return fmt.Errorf("the page is about %q instead of %q", h, e.URI)
	}
	main := first(doc, "main")
	var tables []*html.Node
	for _, n := range section(main, "Fields") {
		if n.Data == "table" {
			tables = append(tables, n)
		}
	}
	if len(tables) != 1 {
		return fmt.Errorf("the page of %q has %d tables for its fields", e.URI, len(tables))
	}
	if err := compareValues(f, b.Fields, e, tables[0]); err != nil {
		return err
	}
	// children of the first level
	defs := map[string]*lib.RefBundle{}
	for _, c := range b.Children {
		defs[c.Def.ID] = c
	}
	type child struct {
		bundle string
		e      lib.JSONEntity
	}
	var want []child
	for _, id := range lib.SortedKeys(e.Children) {
		for _, ce := range e.Children[id] {
			want = append(want, child{id, ce})
		}
	}
	i := 0
	heading := ""
	for _, n := range section(main, "Sub Bundles") {
		switch n.Data {
		case "h3":
			heading = strings.TrimSpace(text(n))
		case "table":
			if i >= len(want) {
				return fmt.Errorf("the page of %q shows too many sub bundles", e.URI)
			}
			d := defs[want[i].bundle]
			if d == nil {
				return fmt.Errorf("unknown sub bundle %q", want[i].bundle)
			}
			name := d.Def.Name
			if name == "" {
				name = d.Def.ID
			}
			if heading != strings.TrimSpace(name) {
				return fmt.Errorf("a sub bundle %q is shown as %q", name, heading)
			}
			if err := compareValues(f, d.Fields, want[i].e, n); err != nil {
				return fmt.Errorf("sub bundle %q: %w", heading, err)
			}
			i++
		}
	}
	if i != len(want) {
		return fmt.Errorf("the page of %q shows %d of its %d sub bundles", e.URI, i, len(want))
	}
	var got []string
	for _, n := range section(main, "Aliases") {
		for _, li := range find(n, "code") {
			got = append(got, text(li))
		}
	}
	if !sameSet(got, aliases) {
		return fmt.Errorf("the page of %q shows aliases %q instead of %q", e.URI, got, aliases)
	}
	return nil
}

// heading returns the uri a page is about
func heading(r Resp) string {
	return strings.TrimSpace(text(first(parse(r.Body), "h1")))
}

// Nav is a case
type Nav struct {
	W     lib.World `json:"w"`
	F     Flags     `json:"f"`
	Extra []string  `json:"extra"` // more uris to look for
}

func TestC13_reach(t *testing.T) {
	lib.Run(t, lib.Prop[Nav]{
		Name:  "C13.reach",
		Rule:  "generated pathbuilder, data and display options; from the index all links to bundles and entities are followed, every entity page is compared with the data field by field, every name of the data is resolved and requested in every bundle, navigation links and unknown names are tried, and the JSON interface is compared with the reference evaluator; non-trivial when an entity has another name and a value or child",
		Quick: 560, Thorough: 40000,
		Gen: func(t *rapid.T) (c Nav) {
			c.W = lib.GenWorld(t, lib.GenOpts{Matches: 120, MaxQuads: 30, Instances: viewInstances})
			c.F = genFlags(t)
			c.Extra = rapid.SliceOfN(rapid.SampledFrom(append([]string{"http://unknown.example/", "x", "_:zz", "http://i.example/", " "}, viewInstances...)), 0, 4).Draw(t, "extra")
			if lib.Chance(t, "names", 50) {
				for i := range c.W.Paths {
					c.W.Paths[i].Name = lib.Pick(t, "name", []string{"Person", "A & B", "<i>x</i>", "Größe", `"q"`, "x  y"})
				}
			}
			return
		},
		Check: checkNav,
	})
}

func checkNav(c Nav, r *lib.Rec) error {
	g, err := create(c.W, c.F, false)
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}
	v := newViewer(g)
	ref := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses)
	want := ref.Evaluate(c.W.Paths)
	roots, _ := lib.Tree(c.W.Paths)
	_, members := lib.SameAsClasses(c.W.Quads, c.W.SameAs)
	byRoot := map[string]*lib.RefBundle{}
	var rootNames []string
	for _, b := range roots {
		byRoot[b.Def.ID] = b
		rootNames = append(rootNames, b.Def.ID)
	}
	class := map[string][]string{}
	for _, m := range members {
		for _, l := range m {
			class[l] = m
		}
	}
	aliasesOf := func(canon string) (res []string) {
		for _, l := range class[canon] {
			if l != canon {
				res = append(res, l)
			}
		}
		return
	}
	in := map[string][]string{} // canonical uri -> bundles
	for b, es := range want.Bundles {
		for u, e := range es {
			in[u] = append(in[u], b)
			if len(aliasesOf(u)) > 0 && len(e.Fields)+len(e.Children) > 0 {
				r.Nontrivial()
			}
			r.ClassIf(len(aliasesOf(u)) > 0, "alias")
			r.ClassIf(len(e.Children) > 0, "child")
			r.ClassIf(len(in[u]) > 1, "several bundles")
		}
	}

	// the json interface
	res, err := page(v, "/api/v1")
	if err != nil {
		return err
	}
	var list []string
	if err := json.Unmarshal(res.Body, &list); err != nil {
		return fmt.Errorf("/api/v1: %w", err)
	}
	if !sameSet(list, rootNames) {
		return fmt.Errorf("/api/v1 lists the bundles %q instead of %q", list, rootNames)
	}
	order := map[string][]string{}
	all := map[string][]lib.REntity{}
	ents := map[string]map[string]lib.JSONEntity{}
	for _, b := range list {
		res, err := page(v, "/api/v1/bundle/"+p(b))
		if err != nil {
			return err
		}
		var uris []string
		if err := json.Unmarshal(res.Body, &uris); err != nil {
			return fmt.Errorf("/api/v1/bundle: %w", err)
		}
		order[b] = uris
		all[b] = []lib.REntity{}
		ents[b] = map[string]lib.JSONEntity{}
		for _, u := range uris {
			res, err := page(v, "/api/v1/entity/"+p(b)+"?uri="+q(u))
			if err != nil {
				return err
			}
			var e lib.JSONEntity
			if err := json.Unmarshal(res.Body, &e); err != nil {
				return fmt.Errorf("/api/v1/entity: %w", err)
			}
			all[b] = append(all[b], e.REntity())
			ents[b][u] = e
			// exactly the loaded data
			loaded, ok := g.Cache.Entity(impl.Label(u), b)
			if !ok {
				return fmt.Errorf("%q is not in the cache", u)
			}
			x, err := cleanJSON(res.Body)
			lib.Must(err)
			y, err := cleanJSON(lib.Must1(json.Marshal(loaded)))
			lib.Must(err)
			if x != y {
				return fmt.Errorf("/api/v1/entity shows %s, but loaded was %s", lib.Trim(x, 1000), lib.Trim(y, 1000))
			}
		}
	}
	if err := want.Diff(all); err != nil {
		return fmt.Errorf("json interface: %w", err)
	}

	// follow the links
	res, err = page(v, "/")
	if err != nil {
		return err
	}
	var linked []string
	for _, a := range find(first(parse(res.Body), "main"), "a") {
		href := attr(a, "href")
		linked = append(linked, href)
		u, err := url.Parse(href)
		if err != nil || !strings.HasPrefix(u.Path, "/bundle/") {
			return fmt.Errorf("the index links to %q", href)
		}
		b := strings.TrimPrefix(u.Path, "/bundle/")
		if byRoot[b] == nil {
			return fmt.Errorf("the index links to unknown bundle %q", b)
		}
		name := byRoot[b].Def.Name
		if name == "" {
			name = b
		}
		if got := strings.TrimSpace(text(a)); got != strings.TrimSpace(name) {
			return fmt.Errorf("bundle %q is listed as %q instead of %q", b, got, name)
		}
		res, _, err := follow(v, u.RequestURI())
		if err != nil {
			return err
		}
		if res.Code != 200 {
			return fmt.Errorf("the link to bundle %q (%q) leads to status %d", b, href, res.Code)
		}
		if got := heading(res); got != strings.TrimSpace(name) {
			return fmt.Errorf("the link to bundle %q leads to %q", b, got)
		}
		var uris []string
		for _, a := range find(first(first(parse(res.Body), "main"), "ul"), "a") {
			shown := strings.TrimSpace(text(a))
			uris = append(uris, shown)
			u, err := url.Parse(attr(a, "href"))
			if err != nil {
				return fmt.Errorf("link to %q: %w", shown, err)
			}
			res, _, err := follow(v, u.RequestURI())
			if err != nil {
				return err
			}
			if res.Code != 200 {
				return fmt.Errorf("the link to entity %q (%q) leads to status %d", shown, attr(a, "href"), res.Code)
			}
			e, ok := ents[b][shown]
			if !ok {
				return fmt.Errorf("bundle %q lists unknown entity %q", b, shown)
			}
			if err := checkEntityPage(c.F, byRoot[b], e, aliasesOf(shown), res.Body); err != nil {
				return err
			}
		}
		if fmt.Sprintf("%q", uris) != fmt.Sprintf("%q", order[b]) {
			return fmt.Errorf("the page of bundle %q lists %q instead of %q", b, uris, order[b])
		}
	}
	if len(linked) != len(rootNames) {
		return fmt.Errorf("the index links to %q, but the bundles are %q", linked, rootNames)
	}

	// every name
	tried := append(names(c.W), c.Extra...)
	for _, l := range tried {
		if strings.TrimSpace(l) == "" {
			continue
		}
		canon := ref.Canonical(l)
		bundles := in[canon]
		target := "/wisski/get?uri=" + q(l)
		res, last, err := follow(v, target)
		if err != nil {
			return err
		}
		if len(bundles) == 0 {
			if res.Code != http.StatusNotFound {
				return fmt.Errorf("%q is not an entity, but %q leads to %d at %q", l, target, res.Code, last)
			}
		} else {
			if res.Code != 200 {
				return fmt.Errorf("%q is an entity in %q, but %q leads to %d at %q", l, bundles, target, res.Code, last)
			}
			if h := heading(res); h != canon {
				return fmt.Errorf("%q is a name of %q, but it leads to %q", l, canon, h)
			}
			u, _ := url.Parse(last)
			at := strings.TrimPrefix(u.Path, "/entity/")
			ok := false
			for _, b := range bundles {
				ok = ok || b == at
			}
			if !ok {
				return fmt.Errorf("%q is in %q, but it leads to %q", l, bundles, last)
			}
			if l != canon {
				r.Class("resolved other name")
			}
		}
		for _, b := range append([]string{"unknown", ""}, rootNames...) {
			_, has := want.Bundles[b][canon]
			for _, pre := range []string{"/entity/", "/api/v1/entity/", "/api/v1/ntriples/", "/api/v1/turtle/"} {
				target := pre + p(b) + "?uri=" + q(l)
				res := get(v, target)
				if err := res.sane(target); err != nil {
					return err
				}
				switch {
				case has && res.Code != 200:
					return fmt.Errorf("%q is in bundle %q, but %q gives status %d", l, b, target, res.Code)
				case !has && res.Code != http.StatusNotFound:
					return fmt.Errorf("%q is not in bundle %q, but %q gives status %d", l, b, target, res.Code)
				case has && pre == "/entity/":
					if h := heading(res); h != canon {
						return fmt.Errorf("%q shows %q instead of %q", target, h, canon)
					}
				case has && pre == "/api/v1/entity/":
					var e lib.JSONEntity
					if err := json.Unmarshal(res.Body, &e); err != nil || e.URI != canon {
						return fmt.Errorf("%q shows %q instead of %q", target, e.URI, canon)
					}
				}
			}
		}
	}

	// navigation links
	for _, id := range []string{"1", "7", "12", "99"} {
		var candidates []string
		for _, pub := range refPublics(c.F.Public) {
			canon := ref.Canonical(pub + "/wisski/navigate/" + id + "/view")
			if len(in[canon]) > 0 {
				candidates = append(candidates, canon)
			}
		}
		target := "/wisski/navigate/" + id + "/view"
		res, last, err := follow(v, target)
		if err != nil {
			return err
		}
		if len(candidates) == 0 {
			if res.Code != http.StatusNotFound {
				return fmt.Errorf("nothing is known about %q, but it leads to %d at %q", target, res.Code, last)
			}
			continue
		}
		r.Class("navigation link")
		if res.Code != 200 {
			return fmt.Errorf("%q is one of %q, but leads to %d at %q", target, candidates, res.Code, last)
		}
		ok := false
		for _, x := range candidates {
			ok = ok || x == heading(res)
		}
		if !ok {
			return fmt.Errorf("%q is one of %q, but leads to %q", target, candidates, heading(res))
		}
	}

	// unknown pages
	for _, target := range []string{"/bundle/unknown", "/bundle/", "/entity/" + p(rootNames[0]), "/entity/unknown?uri=x", "/wisski/get", "/wisski/navigate/1", "/wisski/navigate//view", "/nothing", "/api/v1/bundle/unknown", "/api/v1/nothing", "/api/v1/entity/" + p(rootNames[0]), "/api", "/assets/nothing.js"} {
		res, last, err := follow(v, target)
		if err != nil {
			return err
		}
		if res.Code != http.StatusNotFound {
			return fmt.Errorf("%q should not exist, but leads to %d at %q", target, res.Code, last)
		}
	}
	return nil
}
