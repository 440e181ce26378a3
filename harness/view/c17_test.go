package view

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	pathpkg "path"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// Req is a request
type Req struct {
	Method  string   `json:"m,omitempty"`
	Target  string   `json:"t"`
	Headers []string `json:"h,omitempty"`
	Cut     int      `json:"cut,omitempty"` // the connection breaks after this number of bytes
}

func (r Req) String() string { return r.method() + " " + r.Target }

func (r Req) method() string {
	if r.Method == "" {
		return "GET"
	}
	return r.Method
}

// brokenWriter is a connection that breaks
type brokenWriter struct {
	header http.Header
	left   int
	code   int
	body   bytes.Buffer
}

func (b *brokenWriter) Header() http.Header { return b.header }
func (b *brokenWriter) WriteHeader(code int) {
	if b.code == 0 {
		b.code = code
	}
}
func (b *brokenWriter) Write(p []byte) (int, error) {
	b.WriteHeader(200)
	if len(p) > b.left {
		n := b.left
		b.left = 0
		b.body.Write(p[:n])
		return n, errors.New("connection reset by peer")
	}
	b.left -= len(p)
	b.body.Write(p)
	return len(p), nil
}

// send sends a request. ok is false if it is not one that a server would pass on.
func (r Req) send(h http.Handler) (res Resp, ok bool) {
	req, ok := request(r.method(), r.Target, r.Headers...)
	if !ok {
		return
	}
	if r.Cut == 0 {
		return serve(h, req), true
	}
	w := &brokenWriter{header: http.Header{}, left: r.Cut - 1}
	func() {
		defer func() {
			if p := recover(); p != nil && p != http.ErrAbortHandler {
				res.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		h.ServeHTTP(w, req)
	}()
	res.Code, res.Header, res.Body = w.code, w.header, w.body.Bytes()
	if res.Code == 0 {
		res.Code = 200
	}
	return res, true
}

// routes are all pages there are, with place holders
var routes = []string{
	"/", "/about", "/pathbuilder", "/tipsy", "/perf", "/bundle/B", "/bundle/B?limit=L&skip=L", "/entity/B?uri=U", "/wisski/get?uri=U", "/wisski/navigate/N/view",
	"/api/v1", "/api/v1/progress", "/api/v1/perf", "/api/v1/bundle/B", "/api/v1/entity/B?uri=U", "/api/v1/ntriples/B?uri=U", "/api/v1/turtle/B?uri=U",
	"/assets/", "/assets/A", "/favicon.ico",
}

var assetNames = []string{"hangover.15b30d0d.js", "nothing.js", "../viewer.go", "%2e%2e/x", "", "hangover.90bee0fa.css/", "index.html"}

func genTarget(t *rapid.T, bundles, uris []string, odd bool) string {
	s := lib.Pick(t, "route", routes)
	num := []string{"1", "0", "7", "12", "99999999999999999999", "-1", "x"}
	b, u := lib.Pick(t, "b", bundles), lib.Pick(t, "u", uris)
	if odd {
		b = lib.Pick(t, "ob", append([]string{"unknown", "a b", "%", "ä", "..", ".", "\x00", "a/b", "{bundle}", strings.Repeat("x", 3000)}, b))
		u = lib.Pick(t, "ou", append([]string{"", " ", "x", "http://unknown.example/", "\n", "a\nb", "%zz", "\x00", "\xff", "javascript:alert(1)", "_:b0", strings.Repeat("y", 9000)}, u))
	}
	r := strings.NewReplacer("B", p(b), "=U", "="+q(u), "N/", lib.Pick(t, "n", num)+"/", "L&", lib.Pick(t, "l1", num)+"&", "=L", "="+lib.Pick(t, "l2", num))
	if strings.HasSuffix(s, "/A") {
		s = strings.TrimSuffix(s, "A") + lib.Pick(t, "asset", assetNames)
	} else {
		s = r.Replace(s)
	}
	if !odd {
		return s
	}
	for i := rapid.IntRange(0, 2).Draw(t, "changes"); i > 0; i-- {
		switch rapid.IntRange(0, 9).Draw(t, "change") {
		case 0:
			s += lib.Pick(t, "more", []string{"/", "//", "?", "&", "#x", "%", "%00", "%2f", "/..", "/../..", ";", "?uri=", "&uri=x", "?limit=1", "&&=&", "?%zz=1", "?uri=%zz", "?uri", "?=", "+", "/view"})
		case 1:
			s = "/" + s
		case 2:
			s = strings.ToUpper(s)
		case 3:
			s = strings.Replace(s, "/", "/./", 1)
		case 4:
			s = strings.Replace(s, "/", "%2f", 1)
			if !strings.HasPrefix(s, "/") {
				s = "/" + s
			}
		case 5:
			s = "http://" + lib.Pick(t, "host", []string{"localhost", "other.example", "[::1]:80", "user@x"}) + s
		case 6:
			s = strings.Replace(s, "?", "%3f", 1)
		case 7:
			s = strings.Replace(s, "uri=", lib.Pick(t, "key", []string{"URI=", "uri[]=", "u%72i=", "uri=x&uri=", "uri=&uri=", "uri", "x="}), 1)
		case 8:
			at := rapid.IntRange(0, len(s)).Draw(t, "at")
			s = s[:at] + lib.Pick(t, "insert", []string{"%", "%0a", "%0d", "\x80", "\x7f", "é", "{", "}", "|", "\\", "'", "\"", "<", "*", "..", "//"}) + s[at:]
		case 9:
			if i := rapid.IntRange(0, len(s)).Draw(t, "trunc"); i > 0 {
				s = s[:i]
			}
		}
	}
	return lib.Pick(t, "special", []string{s, s, s, s, s, s, s, s, s, s, s, s, s, s, s, "*", "localhost:80", "", s})
}

func genReq(t *rapid.T, bundles, uris []string, odd bool) (r Req) {
	r.Target = genTarget(t, bundles, uris, odd)
	if !odd {
		return
	}
	r.Method = lib.Pick(t, "method", []string{"GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "get", "X-Y"})
	for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "headers"); i > 0; i-- {
		r.Headers = append(r.Headers, lib.Pick(t, "header", []string{
			"Range: bytes=0-10", "Range: bytes=5-2", "Range: bytes=-1,3-4", "Range: x", "If-None-Match: *", "If-Modified-Since: Thu, 01 Jan 1970 00:00:00 GMT", "If-Modified-Since: x", "Accept: text/turtle", "Accept-Encoding: gzip",
			"Cookie: a=b", "Content-Type: application/x-www-form-urlencoded", "Content-Length: 0", "X-Forwarded-Host: evil", "Referer: javascript:x", "Connection: close", "Upgrade: h2c", "If-Match: \"x\"", "If-Range: x",
		}))
	}
	if lib.Chance(t, "broken", 20) {
		r.Cut = rapid.OneOf(rapid.IntRange(1, 60), rapid.IntRange(1, 20000)).Draw(t, "cut")
	}
	return
}

// what kinds of pages there are
const (
	kindOther = iota
	kindHTML  // shows data
	kindJSON  // returns data
	kindFree  // works without data
)

func kindOf(target string, tipsy bool) int {
	path, query, _ := strings.Cut(target, "?")
	unescaped, err := url.PathUnescape(path)
	if err != nil || pathpkg.Clean(unescaped) != strings.TrimSuffix(unescaped, "/") && unescaped != "/" || strings.Count(unescaped, "/") != strings.Count(path, "/") || strings.ContainsAny(unescaped, "\x00") {
		return kindOther
	}
	uri, err := url.QueryUnescape(strings.TrimPrefix(query, "uri="))
	hasURI := err == nil && strings.HasPrefix(query, "uri=") && uri != "" && !strings.ContainsAny(uri, "\r\n") && !strings.ContainsAny(query, "&;#")
	seg := strings.Split(strings.TrimPrefix(path, "/"), "/")
	is := func(names ...string) bool {
		if len(seg) != len(names) {
			return false
		}
		for i, name := range names {
			if name != seg[i] && (name != "*" || seg[i] == "") {
				return false
			}
		}
		return true
	}
	switch {
	case is("") || is("pathbuilder") || is("tipsy") && tipsy:
		return kindHTML
	case is("bundle", "*"), is("entity", "*") && hasURI, is("wisski", "get") && hasURI, is("wisski", "navigate", "*", "view"):
		return kindHTML
	case is("about"), is("perf"), is("api", "v1", "progress"), is("api", "v1", "perf"), is("favicon.ico"), is("assets", ""), is("assets", assetNames[0]):
		return kindFree
	case is("api", "v1"), is("api", "v1", "bundle", "*"):
		return kindJSON
	case hasURI && (is("api", "v1", "entity", "*") || is("api", "v1", "ntriples", "*") || is("api", "v1", "turtle", "*")):
		return kindJSON
	}
	return kindOther
}

// isLoading tells if a response says that data is being loaded, and checks that it does so properly.
func isLoading(target string, kind int, res Resp) (bool, error) {
	retry := res.Header.Get("Retry-After")
	switch {
	case kind != kindHTML && res.Code == http.StatusServiceUnavailable && strings.HasPrefix(res.Header.Get("Content-Type"), "application/json"), kind == kindJSON && res.Code == http.StatusServiceUnavailable:
		var m viewer.ProgressMessage
		if err := json.Unmarshal(res.Body, &m); err != nil {
			return true, fmt.Errorf("%q: %w", target, err)
		}
		if !strings.HasPrefix(res.Header.Get("Content-Type"), "application/json") {
			return true, fmt.Errorf("%q: progress has type %q", target, res.Header.Get("Content-Type"))
		}
		if !strings.Contains(m.Message, "loaded") || m.Progress.Done {
			return true, fmt.Errorf("%q: is not available, but says %+v", target, m)
		}
	case kind != kindJSON && kind != kindFree && retry != "":
		if res.Code != 200 && res.Code != http.StatusServiceUnavailable {
			return true, fmt.Errorf("%q: status %d while loading", target, res.Code)
		}
		doc := parse(res.Body)
		if !strings.Contains(text(first(doc, "main")), "loading") || !strings.Contains(text(first(doc, "title")), "Loading") {
			return true, fmt.Errorf("%q: asks to retry, but shows %q", target, lib.Trim(string(res.Body), 500))
		}
		if !strings.HasPrefix(res.Header.Get("Content-Type"), "text/html") {
			return true, fmt.Errorf("%q: page has type %q", target, res.Header.Get("Content-Type"))
		}
	default:
		if retry != "" {
			return false, fmt.Errorf("%q: asks to retry: %s", target, res)
		}
		if kind == kindHTML && (strings.Contains(string(res.Body), "currently loading") || strings.Contains(text(first(parse(res.Body), "title")), "Loading")) {
			return false, fmt.Errorf("%q: claims to be loading, but does not ask to retry", target)
		}
		return false, nil
	}
	if n := 0; true {
		if _, err := fmt.Sscan(retry, &n); err != nil || n <= 0 {
			return true, fmt.Errorf("%q: asks to retry after %q", target, retry)
		}
	}
	return true, nil
}

// checkLoading checks a response that was sent before loading finished
func checkLoading(target string, kind int, res Resp) error {
	if err := res.sane(target); err != nil && !(kind != kindFree && res.Panic == "" && res.Code == http.StatusServiceUnavailable) {
		return err
	}
	loading, err := isLoading(target, kind, res)
	if err != nil {
		return err
	}
	switch {
	case (kind == kindHTML || kind == kindJSON) && !loading:
		return fmt.Errorf("%q: does not say that data is being loaded, but %s", target, res)
	case kind == kindFree && res.Code != 200:
		return fmt.Errorf("%q: status %d while loading", target, res.Code)
	}
	return nil
}

// Requests is a case
type Requests struct {
	W       lib.World `json:"w"`
	F       Flags     `json:"f"`
	Before  []Req     `json:"before"`
	After   []Req     `json:"after"`
	Loading []Req     `json:"loading"`
}

func worldNames(w lib.World) (bundles, uris []string) {
	for _, p := range w.Paths {
		if p.IsGroup && p.Group == "" {
			bundles = append(bundles, p.ID)
		}
	}
	return append(bundles, "unknown"), append([]string{"http://unknown.example/"}, names(w)...)
}

func genRequests(t *rapid.T) (c Requests) {
	c.W = lib.GenWorld(t, lib.GenOpts{Matches: 60, MaxQuads: 15, Instances: viewInstances})
	c.F = genFlags(t)
	b, u := worldNames(c.W)
	for i := rapid.IntRange(1, 12).Draw(t, "before"); i > 0; i-- {
		c.Before = append(c.Before, genReq(t, b, u, rapid.Bool().Draw(t, "odd")))
	}
	for i := rapid.IntRange(1, 25).Draw(t, "after"); i > 0; i-- {
		c.After = append(c.After, genReq(t, b, u, lib.Chance(t, "odd", 80)))
	}
	return
}

func checkRequests(c Requests, r *lib.Rec) error {
	g, err := create(c.W, c.F, false)
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = g.Flags
	tipsy := v.RenderFlags.Tipsy() != ""
	plain := func(q Req) bool { return q.method() == "GET" && len(q.Headers) == 0 && q.Cut == 0 }
	for _, q := range c.Before {
		res, ok := q.send(v)
		if !ok || !utf8.ValidString(q.Target) {
			r.Class("not a request")
			continue
		}
		if q.Cut > 0 || !plain(q) {
			if res.Panic != "" || res.Code >= 500 && res.Code != http.StatusServiceUnavailable {
				return fmt.Errorf("before loading: %s: %s %s", q, res.Panic, res)
			}
			continue
		}
		kind := kindOf(q.Target, tipsy)
		if err := checkLoading(q.Target, kind, res); err != nil {
			return fmt.Errorf("before loading: %w", err)
		}
		r.ClassIf(kind == kindHTML, "loading page")
		r.ClassIf(kind == kindJSON, "loading json")
		r.ClassIf(kind == kindFree, "page without data")
	}
	v.Prepare(g.Cache, &g.Pathbuilder)
	fresh := newViewer(g)
	for _, q := range c.After {
		res, ok := q.send(v)
		if !ok || !utf8.ValidString(q.Target) {
			r.Class("not a request")
			continue
		}
		if err := res.sane(q.String()); err != nil {
			return err
		}
		r.ClassIf(q.Cut > 0, "broken connection")
		if q.Cut > 0 {
			continue
		}
		if loading, err := isLoading(q.Target, kindOf(q.Target, tipsy), res); err != nil || loading {
			return fmt.Errorf("after loading: %q: still loading (%v): %s", q.Target, err, res)
		}
		if plain(q) {
			r.NontrivialIf(res.Code == 200)
			// what was asked for before makes no difference
			again := get(fresh, q.Target)
			if again.Code != res.Code || !bytes.Equal(again.Body, res.Body) && !strings.Contains(q.Target, "perf") {
				return fmt.Errorf("%q: answers %s, but another viewer for the same data answers %s", q.Target, res, again)
			}
		}
		r.ClassIf(res.Code == 404, "not found")
		r.ClassIf(res.Code >= 300 && res.Code < 400, "redirect")
		r.ClassIf(res.Code == 400, "bad request")
	}
	return nil
}

func TestC17_requests(t *testing.T) {
	lib.Run(t, lib.Prop[Requests]{
		Name:  "C17.requests",
		Rule:  "all pages, api calls, assets and many malformed requests (methods, escapes, queries, headers, broken connections), before and after loading; non-trivial when a page is shown after loading",
		Quick: 560, Thorough: 60000,
		Gen:   genRequests,
		Check: checkRequests,
	})
}

// Opening is a case: requests while loading finishes
type Opening struct {
	W       lib.World `json:"w"`
	F       Flags     `json:"f"`
	Clients [][]Req   `json:"clients"`
	Delay   int       `json:"delay"` // number of requests that are answered before loading finishes
}

func genOpening(t *rapid.T) (c Opening) {
	c.W = lib.GenWorld(t, lib.GenOpts{Matches: 60, MaxQuads: 15, Instances: viewInstances})
	c.F = genFlags(t)
	b, u := worldNames(c.W)
	n := 0
	for i := rapid.IntRange(2, 6).Draw(t, "clients"); i > 0; i-- {
		var rs []Req
		for j := rapid.IntRange(2, 10).Draw(t, "requests"); j > 0; j-- {
			rs = append(rs, genReq(t, b, u, false))
			n++
		}
		c.Clients = append(c.Clients, rs)
	}
	c.Delay = rapid.IntRange(0, n-1).Draw(t, "delay")
	return
}

func checkOpening(c Opening, r *lib.Rec) error {
	g, err := create(c.W, c.F, false)
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = g.Flags
	tipsy := v.RenderFlags.Tipsy() != ""
	type answer struct {
		q   Req
		res Resp
	}
	answers := make([][]answer, len(c.Clients))
	var wg sync.WaitGroup
	total := 0
	for _, rs := range c.Clients {
		total += len(rs)
	}
	answered := make(chan struct{}, total)
	for i, rs := range c.Clients {
		wg.Add(1)
		go func(i int, rs []Req) {
			defer wg.Done()
			for _, q := range rs {
				res, ok := q.send(v)
				if ok {
					answers[i] = append(answers[i], answer{q, res})
				}
				answered <- struct{}{}
			}
		}(i, rs)
	}
	for i := 0; i < c.Delay; i++ {
		<-answered
	}
	v.Stats.Log("almost done")
	v.Prepare(g.Cache, &g.Pathbuilder)
	done := Req{Target: "/api/v1/progress"}
	res, _ := done.send(v)
	var pr stats.Progress
	if err := json.Unmarshal(res.Body, &pr); err != nil || !pr.Done {
		return fmt.Errorf("after loading, the progress is %s", res)
	}
	wg.Wait()
	fresh := newViewer(g)
	before, after := 0, 0
	for i := range answers {
		ready := false
		for _, a := range answers[i] {
			kind := kindOf(a.q.Target, tipsy)
			if err := a.res.sane(a.q.Target); err != nil && !(kind == kindJSON && a.res.Panic == "" && a.res.Code == http.StatusServiceUnavailable) {
				return err
			}
			loading, err := isLoading(a.q.Target, kind, a.res)
			if err != nil {
				return err
			}
			if loading {
				before++
				if ready {
					return fmt.Errorf("%q: says that data is being loaded, although another page was already shown", a.q.Target)
				}
				continue
			}
			if kind == kindHTML || kind == kindJSON {
				ready = true
				after++
				again := get(fresh, a.q.Target)
				if again.Code != a.res.Code || !bytes.Equal(again.Body, a.res.Body) {
					return fmt.Errorf("%q: while loading finishes, answers %s instead of %s", a.q.Target, a.res, again)
				}
			}
		}
	}
	r.NontrivialIf(before > 0 && after > 0)
	return nil
}

func TestC17_opening(t *testing.T) {
	lib.Run(t, lib.Prop[Opening]{
		Name:  "C17.opening",
		Rule:  "two to six clients send requests (under the race detector) while loading finishes after a generated number of answers; each answer is the loading page or the final page, and never the loading page after a final one; non-trivial when there are answers of both kinds",
		Quick: 480, Thorough: 40000,
		Gen:   genOpening,
		Check: checkOpening,
	})
}

func newReader(r io.Reader) *bufio.Reader { return bufio.NewReader(r) }

// progress asks a running server for the progress
func progress(s *lib.Server) (pr stats.Progress, err error) {
	res, _, err := fetch(s, Req{Target: "/api/v1/progress"})
	if err != nil {
		return pr, err
	}
	if res.Code != 200 {
		return pr, fmt.Errorf("progress: %s", res)
	}
	return pr, json.Unmarshal(res.Body, &pr)
}

// waitReady waits until a server has finished loading
func waitReady(s *lib.Server) error {
	for end := time.Now().Add(90 * time.Second); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		pr, err := progress(s)
		if err != nil {
			return fmt.Errorf("%w\n%s", err, lib.Trim(s.Output(), 2000))
		}
		if pr.Done {
			return nil
		}
	}
	return fmt.Errorf("server does not finish loading: %s", lib.Trim(s.Output(), 2000))
}

// Serving is a case: the command
type Serving struct {
	W      lib.World `json:"w"`
	F      Flags     `json:"f"`
	Disk   bool      `json:"disk,omitempty"`
	Import bool      `json:"import,omitempty"`
	Before []Req     `json:"before"`
	After  []Req     `json:"after"`
}

func genServing(t *rapid.T) (c Serving) {
	c.W = lib.GenWorld(t, lib.GenOpts{Matches: 60, MaxQuads: 15, Instances: viewInstances})
	c.F = genFlags(t)
	c.Disk, c.Import = rapid.Bool().Draw(t, "disk"), lib.Chance(t, "import", 25)
	b, u := worldNames(c.W)
	for i := rapid.IntRange(1, 10).Draw(t, "before"); i > 0; i-- {
		c.Before = append(c.Before, genReq(t, b, u, false))
	}
	for i := rapid.IntRange(1, 25).Draw(t, "after"); i > 0; i-- {
		c.After = append(c.After, genReq(t, b, u, lib.Chance(t, "odd", 40)))
	}
	return
}

func checkServing(c Serving, r *lib.Rec) error {
	g, err := create(c.W, c.F, false)
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}
	v := newViewer(g)
	tipsy := g.Flags.Tipsy() != ""
	dir, cleanup := lib.TempDir()
	defer cleanup()
	args := c.F.Args(c.W)
	if c.Import {
		index := filepath.Join(dir, "x.hangover")
		if err := glass.Export(index, g, nil); err != nil {
			return fmt.Errorf("export: %w", err)
		}
		args = append(args, index)
	} else {
		if c.Disk {
			args = append(args, "-cache", filepath.Join(dir, "cache"))
		}
		xml, nq := lib.WriteWorld(dir, c.W)
		args = append(args, xml, nq)
	}
	s, err := lib.StartServer(dir, lib.Bin("hangover"), args...)
	if err != nil {
		return err
	}
	defer s.Stop()
	ready := false
	for _, q := range c.Before {
		res, ok, err := fetch(s, q)
		if err != nil {
			return fmt.Errorf("while loading: %w\n%s", err, lib.Trim(s.Output(), 2000))
		}
		if !ok {
			continue
		}
		loading, err := isLoading(q.Target, kindOf(q.Target, tipsy), res)
		if err != nil {
			return fmt.Errorf("while loading: %w", err)
		}
		if loading {
			r.Nontrivial()
			r.Class("loading")
			if ready {
				return fmt.Errorf("%q: says that data is being loaded, although another page was already shown", q.Target)
			}
		} else if k := kindOf(q.Target, tipsy); k == kindHTML || k == kindJSON {
			ready = true
			if err := sameAnswer(q, get(v, q.Target), res); err != nil {
				return fmt.Errorf("while loading: %w", err)
			}
		}
	}
	if err := waitReady(s); err != nil {
		return err
	}
	for _, q := range c.After {
		res, ok, err := fetch(s, q)
		if err != nil {
			return fmt.Errorf("%w\n%s", err, lib.Trim(s.Output(), 2000))
		}
		want, ok2 := q.send(v)
		if !ok || !ok2 || !utf8.ValidString(q.Target) || q.Cut > 0 || len(q.Headers) > 0 || q.method() != "GET" && q.method() != "HEAD" && q.method() != "POST" {
			continue
		}
		if err := sameAnswer(q, want, res); err != nil {
			return err
		}
	}
	if !s.Running() {
		return fmt.Errorf("the server stopped: %s", lib.Trim(s.Output(), 2000))
	}
	if out := s.Output(); strings.Contains(out, "\ngoroutine ") {
		return fmt.Errorf("panic: %s", lib.Trim(out, 3000))
	}
	r.ClassIf(c.Import, "export")
	return nil
}

// sameAnswer compares the answers of two viewers that have loaded the same data. Their order may differ.
func sameAnswer(q Req, want, got Resp) error {
	if want.Code != got.Code || want.Header.Get("Location") != got.Header.Get("Location") && !strings.Contains(q.Target, "/wisski/") { // an entity may be in several bundles
		return fmt.Errorf("%s: the server answers %s, but should answer %s", q, got, want)
	}
	a, _, _ := strings.Cut(want.Header.Get("Content-Type"), ";")
	b, _, _ := strings.Cut(got.Header.Get("Content-Type"), ";")
	if a != b {
		return fmt.Errorf("%s: the server answers with type %q, but should answer %q", q, b, a)
	}
	if strings.HasPrefix(q.Target, "/api/v1/bundle/") && got.Code == 200 && q.method() == "GET" {
		var a, b []string
		lib.Must(json.Unmarshal(want.Body, &a))
		if err := json.Unmarshal(got.Body, &b); err != nil {
			return fmt.Errorf("%s: %w", q, err)
		}
		if !sameSet(a, b) {
			return fmt.Errorf("%s: the server answers with %q, but should answer %q", q, b, a)
		}
	}
	return nil
}

func TestC17_command(t *testing.T) {
	lib.Run(t, lib.Prop[Serving]{
		Name:  "C17.command",
		Rule:  "the hangover command, with options and files on its command line, over a local connection, while it loads and afterwards; compared with a viewer in this process; non-trivial when a page was asked for while it was still loading",
		Quick: 48, Thorough: 4000,
		Gen:   genServing,
		Check: checkServing,
	})
}
