package cli

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// nobody is the user that everything in this file runs as: it may write to its scratch directory, and nothing real
const nobody = 31337

// Contain is a case
type Contain struct {
	W      lib.World `json:"w"`
	Tool   string    `json:"tool"` // json, sqlite, csv, export, import or serve
	Cache  string    `json:"cache,omitempty"`
	Out    string    `json:"out"`
	Tables bool      `json:"ft,omitempty"`
	Trace  bool      `json:"trace,omitempty"`
	Decoys []string  `json:"decoys,omitempty"` // files that have nothing to do with it
}

// hostileNames are names that would lead elsewhere. TOKEN is replaced by a text that is nowhere else, DIR by the scratch directory.
var hostileNames = append([]string{
	"../TOKEN", "../../TOKEN", "../../../TOKEN", "../../../../../../../../tmp/TOKEN", "/tmp/TOKEN", "/TOKEN", "DIR/other/TOKEN", "../other/TOKEN", "../../other/TOKEN", "../in", "../in/data.nq", "../../in/data.nq", "../in/pb.xml", "DIR/in/data.nq", "DIR/in", "DIR", "DIR/other", "..", "../..", ".", "./", "../", "a/../../other/TOKEN", "a/b/c", "TOKEN/TOKEN", "~/TOKEN", "$HOME/TOKEN", "-", "-rf", "TOKEN\n", "\tTOKEN", "..\\TOKEN", "C:\\TOKEN", "//TOKEN", "file:///tmp/TOKEN", "%2e%2e%2fTOKEN", "..%2fTOKEN", "..;/TOKEN", ".. /TOKEN", "out.sqlite", "LOCK", "CURRENT", "type", "triple", "..data.nq",
	"x`(y); ATTACH DATABASE '/tmp/TOKEN' AS t; CREATE TABLE t.x(y); --", "x (y); ATTACH DATABASE 'DIR/other/TOKEN' AS t; CREATE TABLE t.x(y); --", "x; ATTACH DATABASE '/tmp/TOKEN' AS t; CREATE TABLE t.x(y); --", "x; VACUUM INTO '/tmp/TOKEN'; --", "x`; VACUUM INTO 'DIR/other/TOKEN'; --", "x(y TEXT NOT NULL); VACUUM INTO 'DIR/other/TOKEN'; --",
	strings.Repeat("n", 300), strings.Repeat("../", 40) + "tmp/TOKEN", strings.Repeat("é", 200),
}, lib.SQLNames...)

var hostileValues = []string{"/tmp/TOKEN", "../TOKEN", "DIR/other/TOKEN", "'); ATTACH DATABASE '/tmp/TOKEN' AS t; --", "'; VACUUM INTO '/tmp/TOKEN'; --", "x", "=cmd|' /C TOKEN'!A0", "file:///tmp/TOKEN", "`touch /tmp/TOKEN`", "$(touch /tmp/TOKEN)"}

var hostileInstances = []string{"file:///tmp/TOKEN", "http://i.example/../../../../../../tmp/TOKEN", "http://i.example/a", "urn:../../TOKEN", "http://i.example/%2e%2e/%2e%2e/TOKEN", "x:/../../../../tmp/TOKEN", "http://i.example/b", "file:///DIR/other/TOKEN"}

var decoys = []string{"other/keep", "work/keep", "keep", "in/keep", "out/keep", "out/keep.csv", "out/out.sqlite.bak", "work/LOCK", "other/LOCK", "out/bundle__keep.txt", "tmp/keep", "other/deep/er/keep", "home/keep"}

func genContain(t *rapid.T) (c Contain) {
	opts := lib.GenOpts{Values: rapid.SampledFrom(hostileValues), Instances: hostileInstances, Matches: 200}
	c.W = lib.GenWorld(t, opts)
	lib.GenNames(t, &c.W, hostileNames, 70)
	for i := range c.W.Paths {
		if lib.Chance(t, "odd bundle", 40) {
			c.W.Paths[i].Bundle = lib.Pick(t, "bundle", hostileNames)
		}
		if lib.Chance(t, "odd name", 20) {
			c.W.Paths[i].Name = lib.Pick(t, "name", hostileNames)
		}
	}
	c.Tool = lib.Pick(t, "tool", []string{"json", "json", "sqlite", "csv", "csv", "export", "export", "import", "serve"})
	if c.Tool != "import" {
		c.Cache = lib.Pick(t, "cache", []string{"", "DIR/cache", "DIR/cache", "cache", "../cache", "deep/er/cache", "DIR/cache/", "./cache/.", "ca che\n", "DIR/cache", "link", "ü", "new/../cache"})
	}
	c.Out = lib.Pick(t, "out", []string{"DIR/out/x", "../out/x", "x", "out x", "DIR/out/../out/x", "-x", "x.csv", "x%20y", "x?mode=memory"})
	c.Tables = rapid.Bool().Draw(t, "ft")
	c.Trace = lib.Chance(t, "trace", 50)
	for _, d := range decoys {
		if lib.Chance(t, "decoy", 60) {
			c.Decoys = append(c.Decoys, d)
		}
	}
	return
}

// replaceAll replaces a text everywhere in a world
func replaceAll(w lib.World, old ...string) (res lib.World) {
	r := strings.NewReplacer(old...)
	f := r.Replace
	l := func(s []string) (res []string) {
		for _, x := range s {
			res = append(res, f(x))
		}
		return
	}
	res.SameAs, res.Inverses = l(w.SameAs), l(w.Inverses)
	for _, p := range w.Paths {
		p.ID, p.Group, p.Bundle, p.Name, p.Arr = f(p.ID), f(p.Group), f(p.Bundle), f(p.Name), l(p.Arr)
		res.Paths = append(res.Paths, p)
	}
	for _, q := range w.Quads {
		q.S.V, q.O.V, q.P, q.G = f(q.S.V), f(q.O.V), f(q.P), f(q.G)
		res.Quads = append(res.Quads, q)
	}
	return
}

var canTraceNobody = sync.OnceValue(func() bool {
	res, err := lib.RunProg(lib.RunOpts{UID: nobody, Prefix: []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat"}}, "/bin/true")
	return err == nil && res.Code == 0
})

// changing are calls that change the file system, and in which argument to find the file.
var changing = "openat,open,creat,mkdir,mkdirat,unlink,unlinkat,rmdir,rename,renameat,renameat2,link,linkat,symlink,symlinkat,truncate,chmod,fchmodat,chown,fchownat,mknod,mknodat"

var traced = regexp.MustCompile(`^\d+\s+(\w+)\((.*)$`)
var tracedString = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
var tracedDir = regexp.MustCompile(`(?:^|, )(?:AT_FDCWD|\d+)<((?:[^>\\]|\\.)*)>$`)
var octal = regexp.MustCompile(`\\x([0-9a-f]{2})`)

// changedPaths are the files that are changed according to a log of strace -y -xx
func changedPaths(log string, cwd string) (res []string) {
	unhex := func(s string) string {
		return octal.ReplaceAllStringFunc(s, func(h string) string {
			var c byte
			lib.Must1(fmt.Sscanf(h, `\x%02x`, &c))
			return string([]byte{c})
		})
	}
	for _, line := range strings.Split(log, "\n") {
		m := traced.FindStringSubmatch(line)
		if m == nil || strings.Contains(line, " = -1 ") {
			continue
		}
		if strings.HasPrefix(m[1], "open") && !regexp.MustCompile(`O_WRONLY|O_RDWR|O_CREAT|O_TRUNC`).MatchString(m[2]) {
			continue
		}
		for _, loc := range tracedString.FindAllStringSubmatchIndex(m[2], -1) {
			path := unhex(m[2][loc[2]:loc[3]])
			before := strings.TrimSuffix(m[2][:loc[0]], ", ")
			if d := tracedDir.FindStringSubmatch(before); d != nil && !filepath.IsAbs(path) {
				path = filepath.Join(unhex(d[1]), path)
			}
			if !filepath.IsAbs(path) {
				path = filepath.Join(cwd, path)
			}
			res = append(res, filepath.Clean(path))
		}
	}
	return
}

var secret = "this file has nothing to do with it"

func checkContain(c Contain, r *lib.Rec) error {
	dir, cleanup := lib.TempDir()
	defer cleanup()
	// deep in our own directory, so that there is space above
	top := lib.Must1(filepath.EvalSymlinks(dir))
	dir = filepath.Join(top, "n", "n", "n", "n")
	lib.Must(os.MkdirAll(dir, 0o777))
	token := "zv" + strings.ReplaceAll(filepath.Base(top), "_", "x") + fmt.Sprint(time.Now().UnixNano())
	repl := strings.NewReplacer("TOKEN", token, "DIR", dir)
	w := replaceAll(c.W, "TOKEN", token, "DIR", dir)
	sub := func(p string) string { return filepath.Join(dir, p) }
	for _, d := range []string{"in", "out", "work", "other", "other/deep/er", "tmp", "home", "real", "work/new"} {
		lib.Must(os.MkdirAll(sub(d), 0o777))
	}
	lib.Must(os.Symlink(sub("real"), sub("work/link")))
	xml, nq := lib.WriteWorld(sub("in"), w)
	for _, d := range c.Decoys {
		lib.Must(os.WriteFile(sub(d), []byte(secret+d), 0o666))
	}
	index := sub("in/index.hangover")
	js, err := extract(w)
	if err != nil {
		r.Class("cannot be loaded")
		return nil
	}
	if c.Tool == "import" {
		res, err := lib.RunProg(lib.RunOpts{Dir: sub("home")}, lib.Bin("hangover"), append(lib.PredicateArgs(w), "-export", index, xml, nq)...)
		if err != nil || res.Code != 0 {
			return fmt.Errorf("export: %w: %s", err, lib.Trim(string(res.Stderr), 1000))
		}
	}
	// everything belongs to the user that runs the program, which could thus change all of it
	lib.Must(filepath.Walk(top, func(path string, info os.FileInfo, err error) error {
		lib.Must(err)
		lib.Must(os.Lchown(path, nobody, nobody))
		if info.Mode()&os.ModeSymlink == 0 {
			return os.Chmod(path, info.Mode().Perm()|0o666)
		}
		return nil
	}))

	work := sub("work")
	abs := func(p string) string {
		p = repl.Replace(p)
		if !filepath.IsAbs(p) {
			p = filepath.Join(work, p)
		}
		return filepath.Clean(p)
	}
	out := repl.Replace(c.Out)
	var allowed []string // files and directories that may be changed
	prog, args := "n2j", lib.PredicateArgs(w)
	switch c.Tool {
	case "sqlite":
		args = append(args, "-sqlite", out)
		file, _, _ := strings.Cut(abs(out), "?")
		allowed = append(allowed, file, file+"-journal", file+"-wal", file+"-shm", abs(out))
	case "csv":
		lib.Must(os.MkdirAll(abs(out), 0o777))
		lib.Must(os.Lchown(abs(out), nobody, nobody))
		lib.Must(os.WriteFile(filepath.Join(abs(out), "notes.txt"), []byte(secret), 0o666))
		args = append(args, "-csv", out)
	case "export", "import":
		prog = "hangover"
		args = append(args, "-export", out)
		allowed = append(allowed, abs(out))
	case "serve":
		prog = "hangover"
	}
	if c.Tables && prog == "n2j" {
		args = append(args, "-sql-field-tables")
	}
	if c.Cache != "" {
		args = append(args, "-cache", repl.Replace(c.Cache))
		allowed = append(allowed, abs(c.Cache))
		if c.Cache == "link" {
			allowed = append(allowed, sub("real"))
		}
		if c.Cache == "deep/er/cache" {
			allowed = append(allowed, sub("work/deep"))
		}
	}
	if c.Tool == "import" {
		args = append(args, index)
	} else {
		args = append(args, xml, nq)
	}
	isAllowed := func(path string) bool {
		for _, a := range allowed {
			if path == a || strings.HasPrefix(path, a+"/") {
				return true
			}
		}
		// files directly in the directory
		return c.Tool == "csv" && filepath.Dir(path) == abs(out) && strings.HasSuffix(path, ".csv")
	}
	// what there is outside of where things may be changed
	outside := func() map[string]string {
		res := tree(top)
		for _, name := range lib.SortedKeys(res) {
			if name != "." && isAllowed(filepath.Join(top, name)) {
				delete(res, name)
			}
		}
		return res
	}

	before := outside()
	opts := lib.RunOpts{Dir: work, UID: nobody, Prefix: []string{"env", "TMPDIR=" + sub("tmp"), "HOME=" + sub("home")}}
	trace := c.Trace && canTraceNobody() && c.Tool != "serve"
	logPath := sub("strace.log")
	if trace {
		opts.Prefix = append(opts.Prefix, "strace", "-f", "-qq", "-y", "-xx", "-o", logPath, "-s", "4096", "-e", "signal=none", "-e", "trace="+changing)
		allowed = append(allowed, logPath)
		r.Class("traced")
	}
	what := fmt.Sprintf("%s %q", prog, args)
	status := -1
	if c.Tool == "serve" {
		err := serveHostile(c, w, opts, dir, token, args, js)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	} else {
		res, err := lib.RunProg(opts, lib.Bin(prog), args...)
		if err != nil {
			return err
		}
		if res.Crashed() {
			return fmt.Errorf("%s crashed: %s", what, lib.Trim(string(res.Stderr), 2000))
		}
		status = res.Code
		r.ClassIf(status == 0, "succeeded")
		wrong := func() error {
			return fmt.Errorf("%s: status %d: %s", what, status, lib.Trim(string(res.Stderr), 1000))
		}
		switch {
		case c.Tool == "json" && status != 0, c.Tool == "export" && status != 0, c.Tool == "import" && status != 0:
			return wrong()
		case c.Tool == "json":
			var got map[string][]lib.JSONEntity
			if err := json.Unmarshal(res.Stdout, &got); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if err := lib.DiffREntities(lib.REntities(js), lib.REntities(got)); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		case c.Tool == "export", c.Tool == "import":
			got, err := readIndex(abs(out), w.Paths)
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if err := lib.DiffREntities(fill(js, w.Paths), fill(got, w.Paths)); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
	}
	if err := diffTree(before, outside()); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	for _, d := range []string{"/", "/tmp", "/var/tmp", "/dev/shm", "/root", os.Getenv("TMPDIR"), os.TempDir(), filepath.Dir(top)} {
		if m := lib.Must1(filepath.Glob(filepath.Join(d, "*"+token+"*"))); len(m) > 0 {
			for _, made := range m {
				os.RemoveAll(made) // ours alone, as it has the token in its name
			}
			return fmt.Errorf("%s: made %q", what, m)
		}
	}
	if trace {
		log := string(lib.Must1(os.ReadFile(logPath)))
		paths := changedPaths(log, work)
		for _, p := range paths {
			if !isAllowed(p) && !strings.HasPrefix(p, sub("tmp")+"/") && !strings.HasPrefix(p, "/dev/") && !strings.HasPrefix(p, "/proc/self/") && !strings.HasPrefix(p, "/etc/.sqlite") {
				return fmt.Errorf("%s: changes %q", what, p)
			}
		}
		if c.Cache != "" && len(paths) < 5 {
			return lib.HarnessError{Err: fmt.Errorf("nothing was traced: %s", lib.Trim(log, 500))}
		}
	}
	hostile := false
	n, _, _ := count(js)
	for _, p := range w.Paths {
		hostile = hostile || strings.ContainsAny(p.ID, "/.;")
	}
	r.NontrivialIf(hostile && n > 0)
	r.Class(c.Tool)
	r.ClassIf(c.Cache != "", "with a cache")
	return nil
}

func diffTree(before, after map[string]string) error {
	all := map[string]bool{}
	for k := range before {
		all[k] = true
	}
	for k := range after {
		all[k] = true
	}
	for _, k := range lib.SortedKeys(all) {
		b, okb := before[k]
		a, oka := after[k]
		switch {
		case !okb:
			return fmt.Errorf("made %q", k)
		case !oka:
			return fmt.Errorf("removed %q", k)
		case a != b:
			return fmt.Errorf("changed %q", k)
		}
	}
	return nil
}

// serveHostile serves an index, and asks for what is not part of it
func serveHostile(c Contain, w lib.World, opts lib.RunOpts, dir, token string, args []string, js map[string][]lib.JSONEntity) error {
	s, err := lib.StartServerAs(opts, lib.Bin("hangover"), args...)
	if err != nil {
		return err
	}
	defer s.Stop()
	client := &http.Client{Timeout: 30 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	defer client.CloseIdleConnections()
	fetch := func(method, path string) (int, []byte, error) {
		u := &url.URL{Scheme: "http", Host: s.Addr}
		p, query, _ := strings.Cut(path, "?")
		u.Opaque = "//" + s.Addr + p
		u.RawQuery = query
		req := &http.Request{Method: method, URL: u, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(token))}
		resp, err := client.Do(req)
		if err != nil {
			return 0, nil, err
		}
		defer resp.Body.Close()
		body, err := io.ReadAll(resp.Body)
		return resp.StatusCode, body, err
	}
	// wait until it is loaded
	for end := time.Now().Add(60 * time.Second); ; time.Sleep(10 * time.Millisecond) {
		code, body, err := fetch("GET", "/")
		if err == nil && code == 200 && !bytes.Contains(body, []byte("http-equiv=\"refresh\"")) {
			break
		}
		if time.Now().After(end) {
			if err == nil {
				err = errors.New("takes too long")
			}
			return err
		}
	}
	var targets []string
	for _, pre := range []string{"/", "/assets/", "/entity/", "/bundle/", "/api/v1/bundle/", "/api/v1/turtle/", "/static/", "/wisski/"} {
		for _, p := range []string{"../in/data.nq", "../../other/keep", "..%2f..%2fother%2fkeep", dir + "/other/keep", url.PathEscape(dir + "/other/keep"), "%2e%2e/%2e%2e/keep", "....//keep", "keep", "..%5ckeep", "work/keep", ".%00/keep"} {
			targets = append(targets, pre+p, pre+p+"?uri="+url.QueryEscape("file://"+dir+"/other/keep"))
		}
	}
	roots, _ := lib.Tree(w.Paths)
	for _, b := range roots {
		for i, e := range js[b.Def.ID] {
			if i < 2 {
				for _, pre := range []string{"/entity/", "/api/v1/entity/", "/api/v1/ntriples/", "/api/v1/turtle/"} {
					targets = append(targets, pre+url.PathEscape(b.Def.ID)+"?uri="+url.QueryEscape(e.URI))
				}
			}
		}
		targets = append(targets, "/bundle/"+url.PathEscape(b.Def.ID), "/api/v1/bundle/"+url.PathEscape(b.Def.ID))
	}
	targets = append(targets, "/perf", "/pathbuilder", "/tipsy", "/about")
	for i, target := range targets {
		method := "GET"
		if i%7 == 3 {
			method = []string{"PUT", "POST", "DELETE", "PATCH"}[i%4]
		}
		_, body, err := fetch(method, target)
		if err != nil {
			return fmt.Errorf("%s %q: %w", method, target, err)
		}
		if bytes.Contains(body, []byte(secret)) {
			return fmt.Errorf("%s %q: shows another file: %s", method, target, lib.Trim(string(body), 300))
		}
	}
	if !s.Running() {
		return fmt.Errorf("exited: %s", s.Output())
	}
	return nil
}

func TestC28_contain(t *testing.T) {
	lib.Run(t, lib.Prop[Contain]{
		Name:  "C28.contain",
		Rule:  "n2j (json, sqlite, csv) and hangover (export, import, serving hostile requests) as an unprivileged user on pathbuilders and data whose machine names, bundles, names, uris and texts are paths to elsewhere, sql statements, shell commands or long, with several cache directories and outputs among other files; everything outside of cache and output is compared with what it was, and half of the runs are traced for calls that change anything else; non-trivial when there is an entity and a name with a path or statement",
		Quick: 160, Thorough: 8000, Timeout: 200 * time.Second,
		Gen:   genContain,
		Check: checkContain,
	})
}
