package view

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

//
// a reader of content security policies, as a browser does it
//

// Policy is a content security policy
type Policy map[string][]string

func parsePolicy(header string) Policy {
	p := make(Policy)
	for _, d := range strings.Split(header, ";") {
		f := strings.Fields(d)
		if len(f) == 0 {
			continue
		}
		name := strings.ToLower(f[0])
		if _, ok := p[name]; !ok { // the first one counts
			p[name] = f[1:]
		}
	}
	return p
}

// fallbacks are the directives that are consulted if there is none
var fallbacks = map[string][]string{
	"script-src": {"default-src"}, "style-src": {"default-src"}, "img-src": {"default-src"}, "media-src": {"default-src"}, "font-src": {"default-src"}, "connect-src": {"default-src"},
	"object-src": {"default-src"}, "manifest-src": {"default-src"}, "prefetch-src": {"default-src"},
	"child-src": {"default-src"}, "frame-src": {"child-src", "default-src"}, "worker-src": {"child-src", "script-src", "default-src"},
	"script-src-elem": {"script-src", "default-src"}, "script-src-attr": {"script-src", "default-src"}, "style-src-elem": {"style-src", "default-src"}, "style-src-attr": {"style-src", "default-src"},
}

// sources returns the sources of a directive, and if there is any limit
func (p Policy) sources(directive string) ([]string, bool) {
	for _, d := range append([]string{directive}, fallbacks[directive]...) {
		if s, ok := p[d]; ok {
			return s, true
		}
	}
	return nil, false
}

var schemeSource = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9+.\-]*:$`)
var hostSource = regexp.MustCompile(`^(?:([A-Za-z][A-Za-z0-9+.\-]*)://)?(\*|(?:\*\.)?[A-Za-z0-9\-]+(?:\.[A-Za-z0-9\-]+)*)(?::([0-9]+|\*))?(/[^;,?#\s]*)?$`)

// allows tells if a directive lets something be loaded from a url
func (p Policy) allows(directive string, self, u string) bool {
	sources, limited := p.sources(directive)
	if !limited {
		return true
	}
	target, err := url.Parse(u)
	lib.Must(err)
	origin, err := url.Parse(self)
	lib.Must(err)
	for _, s := range sources {
		l := strings.ToLower(s)
		switch {
		case l == "'self'":
			if target.Scheme == origin.Scheme && target.Host == origin.Host {
				return true
			}
		case s == "*":
			if target.Scheme == "http" || target.Scheme == "https" || target.Scheme == "ws" || target.Scheme == "wss" || target.Scheme == origin.Scheme {
				return true
			}
		case schemeSource.MatchString(s):
			if schemeMatches(strings.TrimSuffix(l, ":"), target.Scheme) {
				return true
			}
		case hostSource.MatchString(s):
			m := hostSource.FindStringSubmatch(s)
			scheme := strings.ToLower(m[1])
			if scheme == "" {
				scheme = origin.Scheme
			}
			if schemeMatches(scheme, target.Scheme) && hostMatches(strings.ToLower(m[2]), strings.ToLower(target.Hostname())) && portMatches(m[3], scheme, target) && pathMatches(m[4], target.EscapedPath()) {
				return true
			}
		}
	}
	return false
}

func schemeMatches(want, got string) bool {
	return want == got || want == "http" && got == "https" || want == "ws" && (got == "wss" || got == "http" || got == "https") || want == "wss" && got == "https"
}

func hostMatches(want, got string) bool {
	switch {
	case got == "":
		return false
	case want == "*":
		return true
	case strings.HasPrefix(want, "*."):
		return strings.HasSuffix(got, want[1:])
	}
	return want == got
}

func portMatches(want, scheme string, target *url.URL) bool {
	def := map[string]string{"http": "80", "https": "443", "ws": "80", "wss": "443"}
	got := target.Port()
	if got == "" {
		got = def[target.Scheme]
	}
	switch want {
	case "":
		return got == def[target.Scheme]
	case "*":
		return true
	}
	return want == got || want == "80" && got == "443"
}

func pathMatches(want, got string) bool {
	if want == "" || want == "/" && got == "" {
		return true
	}
	want, _ = url.PathUnescape(want)
	got, _ = url.PathUnescape(got)
	if strings.HasSuffix(want, "/") {
		return strings.HasPrefix(got, want)
	}
	return want == got
}

// allowsInline tells if inline code may be used
func (p Policy) allowsInline(directive string) bool {
	sources, limited := p.sources(directive)
	if !limited {
		return true
	}
	inline := false
	for _, s := range sources {
		l := strings.ToLower(s)
		inline = inline || l == "'unsafe-inline'"
		if strings.HasPrefix(l, "'nonce-") || strings.HasPrefix(l, "'sha") || l == "'strict-dynamic'" {
			return true // lets some through
		}
	}
	return inline
}

// wantPolicy is what the options ask for. The list contains the sites that are configured.
func wantPolicy(f Flags) Policy {
	want := Policy{"default-src": {"'none'"}, "script-src": {"'self'"}, "style-src": {"'self'"}, "font-src": {"'self'"}, "connect-src": {"'self'"}}
	if f.HTML {
		want["style-src"] = []string{"'self'", "'unsafe-inline'"}
	}
	images := []string{"*"}
	if f.Strict {
		images = nil
		for _, site := range sites(f.Public) {
			images = append(images, "http://"+site, "https://"+site)
		}
	}
	if f.HTML || f.Image {
		want["img-src"] = images
	}
	if f.HTML {
		want["media-src"] = images
	}
	if strings.HasPrefix(f.Tipsy, "http://") || strings.HasPrefix(f.Tipsy, "https://") {
		want["frame-src"] = []string{f.Tipsy}
	}
	return want
}

// sites are the configured public urls, without scheme
func sites(public string) (res []string) {
	for _, u := range strings.FieldsFunc(public, func(r rune) bool { return r == ',' || r == '\n' }) {
		if _, rest, ok := strings.Cut(strings.TrimSpace(u), "://"); ok && rest != "" {
			res = append(res, rest)
		}
	}
	return
}

// checkPolicy compares the headers of a response with the options. extra are urls to look at.
func checkPolicy(h http.Header, f Flags, extra []string) error {
	values := h.Values("Content-Security-Policy")
	if len(values) == 0 {
		return errors.New("there is no content security policy")
	}
	if h.Get("Content-Security-Policy-Report-Only") != "" {
		return errors.New("the policy is reported only")
	}
	want := wantPolicy(f)
	const self = "http://localhost:3000/"
	urls := append([]string{
		self, "http://localhost:3000/assets/x.js", "https://localhost:3000/x", "http://localhost/x", "http://evil.example/", "https://evil.example/x", "https://evil.example:8443/x", "ws://evil.example/",
		"data:text/plain,x", "blob:http://localhost:3000/x", "filesystem:http://localhost:3000/x", "ftp://i.example/x", "http:///x",
	}, extra...)
	for _, v := range values {
		if strings.ContainsAny(v, "\r\n,") {
			return fmt.Errorf("invalid header %q", v)
		}
	}
	// with several policies, all of them have to agree
	allows := func(f func(p Policy) bool) bool {
		for _, v := range values {
			if !f(parsePolicy(v)) {
				return false
			}
		}
		return true
	}
	directives := append(lib.SortedKeys(fallbacks), "default-src")
	for _, d := range directives {
		for _, u := range urls {
			w := want.allows(d, self, u)
			if g := allows(func(p Policy) bool { return p.allows(d, self, u) }); g != w {
				return fmt.Errorf("%s may load from %s: %v, but should be %v: %q", d, u, g, w, values)
			}
		}
		w := want.allowsInline(d)
		if g := allows(func(p Policy) bool { return p.allowsInline(d) }); g != w {
			return fmt.Errorf("%s may be inline: %v, but should be %v: %q", d, g, w, values)
		}
	}
	for _, v := range values {
		if strings.Contains(strings.ToLower(v), "'unsafe-eval'") || strings.Contains(strings.ToLower(v), "'wasm-unsafe-eval'") || strings.Contains(strings.ToLower(v), "'unsafe-hashes'") {
			return fmt.Errorf("allows eval: %q", values)
		}
	}
	return nil
}

//
// cases
//

// PolicyCase is a case
type PolicyCase struct {
	W      lib.World `json:"w"`
	F      Flags     `json:"f"`
	Before []Req     `json:"before,omitempty"`
	After  []Req     `json:"after,omitempty"`
}

var hosts = []string{"i.example", "x.example", "other.example", "wisski.i.example", "10.0.0.1", "i.example:8443", "localhost:3000", "i-example", "xn--bcher-kva.example"}

// genPublic generates the configuration of public urls
func genPublic(t *rapid.T) string {
	var b strings.Builder
	for i := rapid.IntRange(0, 3).Draw(t, "publics"); i > 0; i-- {
		b.WriteString(lib.Pick(t, "ws", []string{"", "", " ", "\t"}))
		if lib.Chance(t, "blank", 15) {
			b.WriteString(lib.Pick(t, "nothing", []string{"", " ", "http://", "https://", "\r"}))
		} else {
			b.WriteString(lib.Pick(t, "scheme", []string{"http", "https"}) + "://" + lib.Pick(t, "host", hosts))
			b.WriteString(lib.Pick(t, "path", []string{"", "/", "/sub", "/sub/", "/a/b/", "/drupal/web/"}))
		}
		b.WriteString(lib.Pick(t, "sep", []string{",", "\n", ",\n", " , "}))
	}
	s := b.String()
	if lib.Chance(t, "open", 60) {
		s = strings.TrimRight(s, " ,\n")
	}
	return s
}

func genPolicyFlags(t *rapid.T) (f Flags) {
	f = genFlags(t)
	f.Public = genPublic(t)
	if rapid.Bool().Draw(t, "tips") {
		f.Tipsy = lib.Pick(t, "ts", []string{"http://", "https://", "ftp://", "//", "javascript://", "https:", "data:text/html,", ""}) + lib.Pick(t, "host", hosts) + lib.Pick(t, "path", []string{"", "/", "/a", "/a/"})
	}
	return
}

// interesting are urls on which policies may differ
func interesting(f Flags) (res []string) {
	for _, h := range append([]string{"tipsy.example", "tipsy.example:8080"}, hosts...) {
		for _, p := range []string{"", "/", "/sub", "/sub/x.png", "/subx", "/a", "/a/b/c", "/drupal/web/sites/x.jpg"} {
			res = append(res, "http://"+h+p, "https://"+h+p)
		}
	}
	return
}

func genPolicy(t *rapid.T) (c PolicyCase) {
	c.W = lib.GenWorld(t, lib.GenOpts{Matches: 60, MaxQuads: 8, Instances: viewInstances})
	c.F = genPolicyFlags(t)
	b, u := worldNames(c.W)
	for i := rapid.IntRange(0, 4).Draw(t, "before"); i > 0; i-- {
		c.Before = append(c.Before, genReq(t, b, u, rapid.Bool().Draw(t, "odd")))
	}
	for i := rapid.IntRange(1, 12).Draw(t, "after"); i > 0; i-- {
		c.After = append(c.After, genReq(t, b, u, rapid.Bool().Draw(t, "odd")))
	}
	return
}

func classCode(r *lib.Rec, res Resp) {
	r.ClassIf(res.Code == 200, "200")
	r.ClassIf(res.Code >= 300 && res.Code < 400, "redirect or not modified")
	r.ClassIf(res.Code >= 400 && res.Code < 500, "error")
	r.ClassIf(res.Code == 503, "loading")
}

func checkPolicies(c PolicyCase, r *lib.Rec) error {
	g, err := create(c.W, c.F, false)
	if err != nil {
		return fmt.Errorf("load: %w", err)
	}
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = g.Flags
	urls := interesting(c.F)
	send := func(q Req) error {
		res, ok := q.send(v)
		if !ok {
			return nil
		}
		if res.Panic != "" {
			return fmt.Errorf("%s: panic: %s", q, res.Panic)
		}
		classCode(r, res)
		if err := checkPolicy(res.Header, c.F, urls); err != nil {
			return fmt.Errorf("%s (status %d): %w", q, res.Code, err)
		}
		return nil
	}
	for _, q := range c.Before {
		if err := send(q); err != nil {
			return fmt.Errorf("before loading: %w", err)
		}
	}
	v.Prepare(g.Cache, &g.Pathbuilder)
	for _, q := range c.After {
		if err := send(q); err != nil {
			return err
		}
	}
	r.ClassIf(c.F.Strict, "strict")
	r.NontrivialIf(len(sites(c.F.Public)) > 0 && c.F.Strict && (c.F.HTML || c.F.Image) || c.F.HTML || wantPolicy(c.F)["frame-src"] != nil)
	return nil
}

func TestC18_policy(t *testing.T) {
	lib.Run(t, lib.Prop[PolicyCase]{
		Name:  "C18.policy",
		Rule:  "all combinations of display options with generated public and tipsy urls, and generated requests of all kinds before and after loading; the policy of each response is evaluated for each directive on about 200 urls; non-trivial with html rendering, a frame, or images of public urls only",
		Quick: 800, Thorough: 60000,
		Gen:   genPolicy,
		Check: checkPolicies,
	})
}

//
// the command
//

// Args are the arguments that set display options
func (f Flags) Args(w lib.World) (args []string) {
	args = lib.PredicateArgs(w)
	if f.Public != "" {
		args = append(args, "-public", f.Public)
	}
	if f.Tipsy != "" {
		args = append(args, "-tipsy", f.Tipsy)
	}
	if f.Strict {
		args = append(args, "-strict-csp")
	}
	if f.HTML {
		args = append(args, "-html")
	}
	if f.Image {
		args = append(args, "-images")
	}
	return
}

var client = &http.Client{
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	Timeout:       30 * time.Second,
	Transport:     &http.Transport{DisableKeepAlives: true, DialContext: (&net.Dialer{Timeout: 10 * time.Second}).DialContext},
}

// fetch asks a running server. ok is false if the request is not one that can be sent.
func fetch(s *lib.Server, q Req) (res Resp, ok bool, err error) {
	if _, ok := request(q.method(), q.Target, q.Headers...); !ok || !strings.HasPrefix(q.Target, "/") || q.method() == "CONNECT" {
		return res, false, nil
	}
	conn, err := net.DialTimeout("tcp", s.Addr, 10*time.Second)
	if err != nil {
		return res, true, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: localhost\r\n", q.method(), q.Target)
	for _, h := range q.Headers {
		b.WriteString(h + "\r\n")
	}
	b.WriteString("Connection: close\r\n\r\n")
	if _, err := conn.Write(b.Bytes()); err != nil {
		return res, true, err
	}
	r, err := http.ReadResponse(newReader(conn), &http.Request{Method: q.method()})
	if err != nil {
		return res, true, fmt.Errorf("%s: no response: %w", q, err)
	}
	defer r.Body.Close()
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return res, true, fmt.Errorf("%s: incomplete response: %w", q, err)
	}
	return Resp{Code: r.StatusCode, Header: r.Header, Body: body}, true, nil
}

func checkPolicyCommand(c PolicyCase, r *lib.Rec) error {
	dir, cleanup := lib.TempDir()
	defer cleanup()
	xml, nq := lib.WriteWorld(dir, c.W)
	s, err := lib.StartServer(dir, lib.Bin("hangover"), append(c.F.Args(c.W), xml, nq)...)
	if err != nil {
		return err
	}
	defer s.Stop()
	urls := interesting(c.F)
	send := func(q Req) error {
		res, ok, err := fetch(s, q)
		if err != nil {
			return fmt.Errorf("%w\n%s", err, lib.Trim(s.Output(), 2000))
		}
		if !ok || res.Code == 400 && strings.Contains(string(res.Body), "400 Bad Request") || res.Code == 501 || res.Code == 417 || res.Code == 505 || res.Code == 431 {
			return nil // refused by the server before it is passed on
		}
		classCode(r, res)
		if err := checkPolicy(res.Header, c.F, urls); err != nil {
			return fmt.Errorf("%s (status %d): %w", q, res.Code, err)
		}
		return nil
	}
	for _, q := range c.Before {
		if err := send(q); err != nil {
			return fmt.Errorf("just started: %w", err)
		}
	}
	if err := waitReady(s); err != nil {
		return err
	}
	for _, q := range c.After {
		if err := send(q); err != nil {
			return err
		}
	}
	r.Nontrivial()
	return nil
}

func TestC18_command(t *testing.T) {
	lib.Run(t, lib.Prop[PolicyCase]{
		Name:  "C18.command",
		Rule:  "the same with the hangover command, its options given on the command line, over a local connection; every case is non-trivial",
		Quick: 48, Thorough: 4000,
		Gen:   genPolicy,
		Check: checkPolicyCommand,
	})
}
