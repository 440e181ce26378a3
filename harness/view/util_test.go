package view

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// Flags are display options
type Flags struct {
	Public string `json:"public,omitempty"`
	Tipsy  string `json:"tipsy,omitempty"`
	Strict bool   `json:"strict,omitempty"`
	HTML   bool   `json:"html,omitempty"`
	Image  bool   `json:"image,omitempty"`
}

func labels(s []string) (l []impl.Label) {
	for _, x := range s {
		l = append(l, impl.Label(x))
	}
	return
}

// Render makes the flags of a viewer
func (f Flags) Render(w lib.World) viewer.RenderFlags {
	return viewer.RenderFlags{
		PublicURL: f.Public, TipsyURL: f.Tipsy, StrictCSP: f.Strict, HTMLRender: f.HTML, ImageRender: f.Image,
		Predicates: sparkl.Predicates{SameAs: labels(w.SameAs), InverseOf: labels(w.Inverses)},
	}
}

var publicURLs = []string{
	"", "https://i.example/", "http://i.example", "https://i.example", "https://i.example/\nhttp://x.example/sub/", "http://other.example",
	"http://x.example/sub,https://i.example", "https://i.example:8443/", " https://i.example ,", ",", "https://i.example/,https://i.example",
}

var tipsyURLs = []string{"", "", "https://tipsy.example/", "http://tipsy.example:8080/a", "ftp://tipsy.example/", "tipsy.example", "javascript:alert(1)"}

func genFlags(t *rapid.T) (f Flags) {
	f.Public = lib.Pick(t, "public", publicURLs)
	f.Tipsy = lib.Pick(t, "tipsy", tipsyURLs)
	f.Strict = rapid.Bool().Draw(t, "strict")
	f.HTML = rapid.Bool().Draw(t, "html")
	f.Image = rapid.Bool().Draw(t, "image")
	return
}

// create loads a world
func create(w lib.World, f Flags, disk bool) (g glass.Glass, err error) {
	dir, cleanup := lib.TempDir()
	defer cleanup()
	xml, nq := lib.WriteWorld(dir, w)
	cache := ""
	if disk {
		cache = filepath.Join(dir, "cache")
	}
	return glass.Create(xml, nq, cache, f.Render(w), nil)
}

// newViewer makes a viewer that is ready
func newViewer(g glass.Glass) *viewer.Viewer {
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = g.Flags
	v.Prepare(g.Cache, &g.Pathbuilder)
	return v
}

// newCache makes a cache from entities
func newCache(data map[string][]wisski.Entity, sameAs map[string]string) *sparkl.Cache {
	m := imap.MakeMemory[impl.Label, impl.Label](0)
	for _, k := range lib.SortedKeys(sameAs) {
		lib.Must(m.Set(impl.Label(k), impl.Label(sameAs[k])))
	}
	c, err := sparkl.NewCache(data, &m, nil)
	lib.Must(err)
	return &c
}

func loadPB(w lib.World) pathbuilder.Pathbuilder {
	return lib.Must1(pbxml.Unmarshal(w.XML()))
}

// Resp is a response
type Resp struct {
	Code   int
	Header http.Header
	Body   []byte
	Panic  string
}

func (r Resp) String() string {
	return fmt.Sprintf("%d %v %s", r.Code, r.Header, lib.Trim(string(r.Body), 2000))
}

// strictWriter complains about misuse that net/http would log or drop silently
func serve(h http.Handler, req *http.Request) (res Resp) {
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if p := recover(); p != nil {
				res.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		h.ServeHTTP(rec, req)
	}()
	res.Code = rec.Code
	res.Header = rec.Result().Header
	res.Body = rec.Body.Bytes()
	return
}

// request makes a request for a given request target, as the server would see it. ok is false if a server would refuse it.
func request(method, target string, headers ...string) (*http.Request, bool) {
	raw := method + " " + target + " HTTP/1.1\r\nHost: localhost\r\n"
	for _, h := range headers {
		raw += h + "\r\n"
	}
	raw += "\r\n"
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(raw)))
	if err != nil {
		return nil, false
	}
	return req, true
}

// get requests a page
func get(h http.Handler, target string) Resp {
	req, ok := request("GET", target)
	if !ok {
		panic(lib.HarnessError{Err: fmt.Errorf("invalid request %q", target)})
	}
	return serve(h, req)
}

// sane checks that a response is not an error of the server
func (r Resp) sane(target string) error {
	if r.Panic != "" {
		return fmt.Errorf("request for %q: panic: %s", target, r.Panic)
	}
	if r.Code >= 500 {
		return fmt.Errorf("request for %q: %s", target, r)
	}
	return nil
}

// page requests a page that must exist
func page(h http.Handler, target string) (Resp, error) {
	r := get(h, target)
	if err := r.sane(target); err != nil {
		return r, err
	}
	if r.Code != http.StatusOK {
		return r, fmt.Errorf("request for %q: status %d: %s", target, r.Code, lib.Trim(string(r.Body), 300))
	}
	return r, nil
}

// follow requests a page that must exist, following redirects
func follow(h http.Handler, target string) (r Resp, last string, err error) {
	for i := 0; i < 10; i++ {
		r = get(h, target)
		if err = r.sane(target); err != nil {
			return r, target, err
		}
		if r.Code < 300 || r.Code > 399 {
			return r, target, nil
		}
		base, err := url.Parse("http://localhost" + target)
		if err != nil {
			return r, target, err
		}
		next, err := base.Parse(r.Header.Get("Location"))
		if err != nil {
			return r, target, fmt.Errorf("invalid redirect to %q: %w", r.Header.Get("Location"), err)
		}
		if next.Host != "localhost" {
			return r, target, fmt.Errorf("%q redirects to another server: %q", target, r.Header.Get("Location"))
		}
		target = next.RequestURI()
	}
	return r, target, fmt.Errorf("too many redirects at %q", target)
}

func q(s string) string { return url.QueryEscape(s) }
func p(s string) string { return url.PathEscape(s) }

// toJSON encodes entities, and decodes them again
func toJSON(e any, to any) {
	data := lib.Must1(json.Marshal(e))
	lib.Must(json.Unmarshal(data, to))
}

//
// documents
//

func parse(body []byte) *html.Node {
	return lib.Must1(html.Parse(bytes.NewReader(body)))
}

func each(n *html.Node, f func(n *html.Node)) {
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		each(c, f)
	}
}

func find(n *html.Node, tag string) (res []*html.Node) {
	each(n, func(n *html.Node) {
		if n.Type == html.ElementNode && n.Data == tag {
			res = append(res, n)
		}
	})
	return
}

func attr(n *html.Node, key string) string {
	v, _ := attrOK(n, key)
	return v
}

func attrOK(n *html.Node, key string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val, true
		}
	}
	return "", false
}

func text(n *html.Node) string {
	var b strings.Builder
	each(n, func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
	})
	return b.String()
}

func first(n *html.Node, tag string) *html.Node {
	if r := find(n, tag); len(r) > 0 {
		return r[0]
	}
	return &html.Node{Type: html.ElementNode}
}

// childElements are the direct children of n with the given tag
func childElements(n *html.Node, tag string) (res []*html.Node) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.ElementNode && c.Data == tag {
			res = append(res, c)
		}
	}
	return
}

func sorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

func sameSet(a, b []string) bool {
	return fmt.Sprintf("%q", sorted(a)) == fmt.Sprintf("%q", sorted(b))
}

func strs[S ~string](in []S) []string {
	out := make([]string, len(in))
	for i, s := range in {
		out[i] = string(s)
	}
	return out
}

// normalize does what an html parser does to text
func normalize(s string) string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	s = strings.ReplaceAll(s, "\x00", "\ufffd") // cannot be written in html
	return s
}
