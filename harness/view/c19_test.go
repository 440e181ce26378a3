package view

import (
	"fmt"
	"net/url"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// Links is a case: entities with html texts and images
type Links struct {
	F      Flags    `json:"f"`
	URIs   []string `json:"uris"`   // names of entities
	Htmls  []string `json:"htmls"`  // texts of the first entity
	Images []string `json:"images"` // images of the first entity
}

// site joins a public url and a path below it
func siteURL(public, rest string) string { return strings.TrimSuffix(public, "/") + rest }

// base returns the rest of a link that leads to the 'wisski' path of a public url
func (c Links) rest(link string) (rest string, ok bool) {
	for _, s := range sites(c.F.Public) {
		for _, scheme := range []string{"http://", "https://"} {
			rest, ok := strings.CutPrefix(link, scheme+siteURL(s, "/wisski"))
			if ok && (rest == "" || rest[0] == '/' || rest[0] == '?' || rest[0] == '#') {
				if _, err := url.Parse(rest); err == nil {
					return rest, true
				}
			}
		}
	}
	return "", false
}

var someSites = []string{"i.example", "i.example/sub", "x.example", "other.example/a/b", "i.example:8443"}

func (c Links) genSite(t *rapid.T) string {
	all := append([]string{}, someSites...)
	for _, s := range sites(c.F.Public) {
		all = append(all, s, s, s, s)
	}
	return lib.Pick(t, "scheme", []string{"http://", "https://"}) + lib.Pick(t, "site", all)
}

func (c Links) genLink(t *rapid.T) string {
	switch rapid.IntRange(0, 11).Draw(t, "link") {
	case 0, 1, 2:
		return siteURL(c.genSite(t), "/wisski"+lib.Pick(t, "rest", []string{
			"", "/", "/navigate/1/view", "/navigate/12/view", "/navigate/12/view?wisski_bundle=b1", "/navigate/7/view#top", "?x=y", "#x", "/get", "/sub/a%20b", "/ä", "/a+b", "/a%2fb/c", "/x?a=b&c=%26", "/x?q=a+b%2Bc", "/navigate/1/view?a=1&amp;b=2",
			"/y?z=http://x.example/wisski/get", "/img/styles/a.png", "/x?y#z?w", "/a:b", "/Navigate/ABC", "/X?Y=Z#W", "/;x=1", "/x%", "/%zz", "//double", "/a//b",
		}))
	case 3, 4:
		return siteURL(c.genSite(t), "/wisski/get?uri="+q(lib.Pick(t, "uri", append([]string{"http://unknown.example/x", "https://i.example/wisski/navigate/1/view"}, c.URIs...))))
	case 5, 6:
		if len(c.URIs) == 0 {
			return ""
		}
		return lib.Pick(t, "uri", c.URIs)
	case 7:
		return siteURL(c.genSite(t), lib.Pick(t, "near", []string{"", "/", "/wisskidata/1", "/wisski-x", "/wisski.png", "/WISSKI/get", "/sites/default/files/a.png", "/xwisski/", "/wiss/ki", "/a/wisski/navigate/1/view", "wisski/get", "/wisskinavigate/1/view", "?wisski", "#wisski"}))
	case 8:
		return lib.Pick(t, "other", []string{
			"", "#top", "mailto:x@i.example", "javascript:void(0)", "data:image/png;base64,AAAA", "http://", "/wisski/get?uri=x", "//i.example/wisski/get", "https:/i.example/wisski/", "https://i.example.evil.example/wisski/get", "https://user@i.example/wisski/get", "ftp://i.example/wisski/x", " https://elsewhere.example/wisski",
			"http://elsewhere.example/?u=https://i.example/wisski/get", "x", "?", "wisski/navigate/1/view", "../wisski",
		})
	default:
		return lib.Pick(t, "far", []string{"http://", "https://"}) + lib.Pick(t, "farhost", []string{"elsewhere.example", "i.example.org", "ii.example", "example"}) + lib.Pick(t, "farpath", []string{"", "/", "/wisski", "/wisski/get?uri=x", "/a b?c=d e", "/%C3%A4"})
	}
}

var inlineText = []string{"text", " ", "a & b", "x < y", "\"q\"", "ä€𝄞", "\n", "&nbsp;", "&lt;b&gt;", "https://i.example/wisski/get?uri=x", "&", "&amp;amp;", "  two  ", "a;b", "\u200b", "'", "{{ . }}", "%s", "\\"}

// genHTML generates a balanced fragment
func (c Links) genHTML(t *rapid.T, depth int, block, link bool) string {
	var b strings.Builder
	for n := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3}).Draw(t, "nodes"); n > 0; n-- {
		k := rapid.IntRange(0, 20).Draw(t, "node")
		if depth <= 0 && k > 9 {
			k = 1
		}
		attrs := c.genAttrs(t)
		el := func(tag string, block, link bool) {
			end := "</" + tag + ">"
			if lib.Chance(t, "upper", 10) {
				tag = strings.ToUpper(tag)
			}
			b.WriteString("<" + tag + attrs + ">" + c.genHTML(t, depth-1, block, link) + end)
		}
		switch k {
		case 0, 1, 2:
			b.WriteString(strings.NewReplacer("<", "&lt;").Replace(lib.Pick(t, "text", inlineText)))
		case 3:
			b.WriteString("<!--" + lib.Pick(t, "comment", []string{"", " c ", "<a href=\"https://i.example/wisski/x\">", "if"}) + "-->")
		case 4:
			b.WriteString(lib.Pick(t, "void", []string{"<br>", "<br/>", "<wbr>", "<input type=\"text\" value=\"https://i.example/wisski/x\">"}))
		case 5, 6, 7:
			b.WriteString("<img" + attrs + c.attr(t, lib.Pick(t, "at", []string{"src", "src", "SRC", "data-src", "srcset", "longdesc"}), c.genLink(t)) + c.genAttrs(t) + lib.Pick(t, "close", []string{">", " />", "/>"}))
		case 8:
			l := c.genLink(t)
			b.WriteString(lib.Pick(t, "raw", []string{
				"<script>var x = \"" + strings.ReplaceAll(l, "<", "") + "\"; if (1<2&&3>2) {}</script>", "<style>a > b { background: url('" + strings.ReplaceAll(l, "<", "") + "') }</style>",
				"<textarea>\n\n&lt;a href='" + html.EscapeString(l) + "'></textarea>", "<noscript>&lt;x</noscript>", "<iframe" + c.attr(t, "src", l) + "></iframe>", "<video" + c.attr(t, "src", l) + "><source" + c.attr(t, "src", l) + "></video>",
				"<svg width=\"1\"><circle r=\"1\"></circle><title>t</title><path d=\"M0 0\"/></svg>", "<form" + c.attr(t, "action", l) + "><button" + c.attr(t, "formaction", l) + ">x</button></form>", "<object" + c.attr(t, "data", l) + "></object>",
			}))
		case 9, 10, 11, 12:
			if !link {
				b.WriteString("no link")
				continue
			}
			b.WriteString("<" + lib.Pick(t, "tag", []string{"a", "a", "A"}) + attrs + c.attr(t, lib.Pick(t, "at", []string{"href", "href", "href", "HREF", "data-href", "title", "src"}), c.genLink(t)) + c.genAttrs(t) + ">" + c.genHTML(t, depth-1, false, false) + "</a>")
		case 13, 14:
			el(lib.Pick(t, "inline", []string{"b", "i", "span", "em", "code", "sub", "u", "font", "label", "q", "custom-element", "blink"}), false, link)
		default:
			if !block {
				el("span", false, link)
				continue
			}
			switch k {
			case 15:
				el(lib.Pick(t, "para", []string{"p", "h2", "pre", "h5", "dt"}), false, link)
			case 16:
				b.WriteString("<ul" + attrs + "><li>" + c.genHTML(t, depth-1, true, link) + "</li><li>" + c.genHTML(t, depth-1, true, link) + "</li></ul>")
			case 17:
				b.WriteString("<table" + attrs + "><thead><tr><th>x</th></tr></thead><tbody><tr><td>" + c.genHTML(t, depth-1, true, link) + "</td></tr></tbody></table>")
			default:
				el(lib.Pick(t, "block", []string{"div", "blockquote", "section", "figure", "details", "center", "main"}), true, link)
			}
		}
	}
	return b.String()
}

// attr writes an attribute in one of many ways
func (c Links) attr(t *rapid.T, key, value string) string {
	esc := strings.NewReplacer("&", "&amp;", "\"", "&quot;", "'", "&#39;", "<", "&lt;", ">", "&gt;").Replace(value)
	switch rapid.IntRange(0, 5).Draw(t, "quote") {
	case 0:
		return " " + key + " = '" + esc + "'"
	case 1:
		if value != "" && !strings.ContainsAny(value, " \t\n\"'=<>`/") {
			return " " + key + "=" + esc
		}
	case 2:
		if !strings.ContainsAny(value, "\"") && !strings.Contains(value, "&") {
			return " " + key + "=\"" + value + "\""
		}
	case 3:
		return "\n" + key + "=\"" + strings.ReplaceAll(strings.ReplaceAll(esc, "/", "&#x2F;"), ":", "&colon;") + "\""
	}
	return " " + key + "=\"" + esc + "\""
}

func (c Links) genAttrs(t *rapid.T) string {
	if !lib.Chance(t, "attrs", 30) {
		return ""
	}
	return lib.Pick(t, "other attrs", []string{" class=\"a b\"", " title='x &amp; y'", " hidden", " style=\"color: red\"", " data-x=\"&lt;&quot;\"", " alt=\"https://i.example/wisski/\"", " target=_blank rel=\"noopener\"", " loading=lazy", " onclick=\"x('&amp;')\"", " lang=\"de-x\"", " xml:lang=de", " ä=1"})
}

func genLinks(t *rapid.T) (c Links) {
	c.F = Flags{Public: genPublic(t), Strict: rapid.Bool().Draw(t, "strict"), HTML: lib.Chance(t, "html", 85), Image: lib.Chance(t, "image", 85)}
	for i := rapid.IntRange(1, 4).Draw(t, "entities"); i > 0; i-- {
		c.URIs = append(c.URIs, lib.Pick(t, "uri", []string{
			siteURL(c.genSite(t), "/wisski/navigate/"+lib.Pick(t, "n", []string{"1", "7", "12"})+"/view"), siteURL(c.genSite(t), "/"+lib.Pick(t, "id", []string{"1", "content/5C3f", "x?y=z", "ä"})), "http://elsewhere.example/E",
		}))
	}
	for i := rapid.IntRange(0, 3).Draw(t, "texts"); i > 0; i-- {
		c.Htmls = append(c.Htmls, c.genHTML(t, 4, true, true))
	}
	for i := rapid.IntRange(0, 3).Draw(t, "images"); i > 0; i-- {
		c.Images = append(c.Images, c.genLink(t))
	}
	return
}

const markS, markE = `<i id="zq-start"></i>`, `<i id="zq-end"></i>`

// viewer makes a viewer with the texts. The first entity has them.
func (c Links) viewer(htmls []string) *viewer.Viewer {
	w := lib.World{Paths: []lib.PathDef{
		{ID: "b1", Bundle: "x1", IsGroup: true, Arr: []string{"http://o.example/C"}},
		{ID: "f1", Group: "b1", Arr: []string{"http://o.example/C"}, DT: "http://o.example/d", FType: "text_long", Weight: 1},
		{ID: "f2", Group: "b1", Arr: []string{"http://o.example/C"}, DT: "http://o.example/d", FType: "image", Weight: 2},
	}}
	var es []wisski.Entity
	seen := make(map[string]bool)
	for i, u := range c.URIs {
		if seen[u] {
			continue
		}
		seen[u] = true
		e := wisski.Entity{URI: impl.Label(u), Path: []impl.Label{impl.Label(u)}, Fields: map[string][]wisski.FieldValue{}, Children: map[string][]wisski.Entity{}}
		if i == 0 {
			for _, h := range htmls {
				e.Fields["f1"] = append(e.Fields["f1"], wisski.FieldValue{Value: impl.Datum(markS + h + markE), Path: e.Path})
			}
			for _, h := range c.Images {
				e.Fields["f2"] = append(e.Fields["f2"], wisski.FieldValue{Value: impl.Datum(h), Path: e.Path})
			}
		}
		es = append(es, e)
	}
	return newViewer(glass.Glass{Pathbuilder: loadPB(w), Cache: newCache(map[string][]wisski.Entity{"b1": es}, nil), Flags: c.F.Render(w)})
}

// marked returns the nodes between each two marks of a document
func marked(doc *html.Node) (res [][]*html.Node) {
	each(doc, func(n *html.Node) {
		if n.Type != html.ElementNode || attr(n, "id") != "zq-start" {
			return
		}
		list := []*html.Node{}
		for s := n.NextSibling; s != nil && attr(s, "id") != "zq-end"; s = s.NextSibling {
			list = append(list, s)
		}
		res = append(res, list)
	})
	return
}

// sameLink checks one link
func (c Links) sameLink(v *viewer.Viewer, link, got string, r *lib.Rec) error {
	rest, ok := c.rest(link)
	if !ok {
		if got != link {
			return fmt.Errorf("the link %q should be kept, but is %q", link, got)
		}
		r.Class("kept")
		return nil
	}
	base := lib.Must1(url.Parse("http://localhost/entity/b1?uri=x"))
	g, err := base.Parse(got)
	if err != nil {
		return fmt.Errorf("link %q is replaced by the invalid %q", link, got)
	}
	if g.Host != "localhost" || g.Scheme != "http" {
		return fmt.Errorf("link %q should lead to this server, but is %q", link, got)
	}
	want, err := url.Parse("http://localhost/wisski" + rest)
	if err != nil {
		return nil
	}
	if g.Path != want.Path || g.Query().Encode() != want.Query().Encode() || g.Fragment != want.Fragment {
		return fmt.Errorf("link %q should lead to %q, but is %q", link, want.RequestURI()+"#"+want.Fragment, got)
	}
	r.Nontrivial()
	r.Class("replaced")
	// which entities the link may stand for
	names := make(map[string]bool)
	if u := want.Query().Get("uri"); strings.HasPrefix(rest, "/get?uri=") {
		names[u] = true
	} else if parts := strings.Split(want.Path, "/"); len(parts) == 5 && parts[2] == "navigate" && parts[4] == "view" {
		for _, s := range sites(c.F.Public) {
			for _, scheme := range []string{"http://", "https://"} {
				names[scheme+siteURL(s, want.Path)] = true
			}
		}
	} else {
		return nil
	}
	var exist []string
	seen := make(map[string]bool)
	for _, u := range c.URIs {
		if names[u] && !seen[u] {
			exist = append(exist, u)
		}
		seen[u] = true
	}
	if len(exist) != 1 {
		return nil
	}
	res, last, err := follow(v, g.RequestURI())
	if err != nil {
		return fmt.Errorf("link %q, replaced by %q: %w", link, got, err)
	}
	if res.Code != 200 || strings.TrimSpace(text(first(parse(res.Body), "h1"))) != normalize(exist[0]) {
		return fmt.Errorf("link %q, replaced by %q, leads to %q, and not to the entity %q: %s", link, got, last, exist[0], res)
	}
	r.Class("leads to entity")
	return nil
}

// sameNodes compares lists of nodes, except for links
func (c Links) sameNodes(v *viewer.Viewer, want, got []*html.Node, links bool, r *lib.Rec) error {
	if len(want) != len(got) {
		return fmt.Errorf("should show %q, but shows %q", renderNodes(want), renderNodes(got))
	}
	for i := range want {
		w, g := want[i], got[i]
		if w.Type != g.Type || w.Data != g.Data || w.Namespace != g.Namespace || len(w.Attr) != len(g.Attr) {
			return fmt.Errorf("should show %q, but shows %q", renderNodes(want[i:i+1]), renderNodes(got[i:i+1]))
		}
		for j, a := range w.Attr {
			b := g.Attr[j]
			if a.Key != b.Key || a.Namespace != b.Namespace {
				return fmt.Errorf("should show %q, but shows %q", renderNodes(want[i:i+1]), renderNodes(got[i:i+1]))
			}
			if links && w.Namespace == "" && (w.Data == "a" && a.Key == "href" || w.Data == "img" && a.Key == "src") {
				if err := c.sameLink(v, a.Val, b.Val, r); err != nil {
					return err
				}
				continue
			}
			if a.Val != b.Val {
				return fmt.Errorf("attribute %q of <%s> should be %q, but is %q", a.Key, w.Data, a.Val, b.Val)
			}
		}
		if err := c.sameNodes(v, children(w), children(g), links, r); err != nil {
			return err
		}
	}
	return nil
}

func children(n *html.Node) (res []*html.Node) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		res = append(res, c)
	}
	return
}

func renderNodes(ns []*html.Node) string {
	var b strings.Builder
	for _, n := range ns {
		lib.Must(html.Render(&b, n))
	}
	return b.String()
}

func checkLinks(c Links, r *lib.Rec) error {
	v := c.viewer(c.Htmls)
	target := "/entity/b1?uri=" + q(c.URIs[0])
	res, err := page(v, target)
	if err != nil {
		return err
	}
	doc := parse(res.Body)
	values := marked(doc)
	if !c.F.HTML {
		if len(values) > 0 {
			return fmt.Errorf("html is rendered although it should not be")
		}
	} else {
		if len(values) != len(c.Htmls) {
			return fmt.Errorf("shows %d of %d texts", len(values), len(c.Htmls))
		}
		var again []string
		for i, h := range c.Htmls {
			want := marked(parse([]byte(markS + h + markE)))
			if len(want) != 1 {
				return lib.HarnessError{Err: fmt.Errorf("unbalanced %q", h)}
			}
			if err := c.sameNodes(v, want[0], values[i], true, r); err != nil {
				return fmt.Errorf("text %q: %w", h, err)
			}
			again = append(again, renderNodes(values[i]))
		}
		// once more
		res, err := page(c.viewer(again), target)
		if err != nil {
			return err
		}
		twice := marked(parse(res.Body))
		if len(twice) != len(values) {
			return fmt.Errorf("rewriting %q again shows %d of %d texts", again, len(twice), len(values))
		}
		for i := range values {
			if err := c.sameNodes(v, values[i], twice[i], false, r); err != nil {
				return fmt.Errorf("rewriting %q a second time: %w", again[i], err)
			}
		}
	}
	// images
	var imgs []*html.Node
	inText := make(map[*html.Node]bool)
	for _, list := range values {
		for _, n := range list {
			each(n, func(n *html.Node) { inText[n] = true })
		}
	}
	for _, img := range find(doc, "img") {
		if !inText[img] {
			imgs = append(imgs, img)
		}
	}
	if !c.F.Image {
		if len(imgs) > 0 {
			return fmt.Errorf("images are shown although they should not be")
		}
		return nil
	}
	var plain []string // images with urls that need no change to be written in html
	for _, l := range c.Images {
		if u, err := url.Parse(l); err == nil && (u.Scheme == "http" || u.Scheme == "https") && u.String() == l && !strings.ContainsAny(l, "&'(); ") {
			plain = append(plain, l)
		}
	}
	if len(imgs) != len(c.Images) {
		return fmt.Errorf("shows %d of %d images", len(imgs), len(c.Images))
	}
	if len(plain) != len(c.Images) {
		return nil
	}
	for i, img := range imgs {
		links := []string{attr(img, "src")}
		if a := img.Parent; a != nil && a.Data == "a" {
			links = append(links, attr(a, "href"))
		}
		for _, l := range links {
			if err := c.sameLink(v, c.Images[i], l, r); err != nil {
				return fmt.Errorf("image: %w", err)
			}
		}
		r.Class("image")
	}
	return nil
}

func TestC19_links(t *testing.T) {
	lib.Run(t, lib.Prop[Links]{
		Name:  "C19.links",
		Rule:  "generated balanced html (nested elements, raw text, comments, quoting and escaping styles) and image values with links into, near and outside the generated public urls; non-trivial when a link is replaced",
		Quick: 40000, Thorough: 2000000,
		Gen:   genLinks,
		Check: checkLinks,
	})
}
