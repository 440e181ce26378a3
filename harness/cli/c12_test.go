package cli

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// Fault is something that goes wrong
type Fault struct {
	Kind   string   `json:"kind"`
	Target string   `json:"target,omitempty"`
	Calls  string   `json:"calls,omitempty"`
	Errno  string   `json:"errno,omitempty"`
	When   int      `json:"when,omitempty"`
	Rest   bool     `json:"rest,omitempty"` // all calls from this one on
	N      int      `json:"n,omitempty"`
	Args   []string `json:"args,omitempty"`
}

// Status is a case: a run of one of the commands
type Status struct {
	Tool   string    `json:"tool"` // json, sqlite, csv, export, import or serve
	W      lib.World `json:"w"`
	Large  *Large    `json:"large,omitempty"`
	Tables bool      `json:"ft,omitempty"`
	Disk   bool      `json:"disk,omitempty"`
	OneDir bool      `json:"dir,omitempty"` // give a directory with both files
	Old    bool      `json:"old,omitempty"` // there is an older output
	F      Fault     `json:"f"`
}

var malformedLines = []string{
	"<http://i/a> <http://i/b> .", "<http://i/a> <http://i/b> <http://i/c>", "x", "<http://i/a> <http://i/b> \"abc .", "<http://i/a <http://i/b> <http://i/c> .", "\"a\" <http://i/b> <http://i/c> .", "<http://i/a> \"b\" <http://i/c> .",
	"<http://i/a> <http://i/b> \"\\u12\" .", "{\"not\": \"rdf\"}", "<html>",
}

var badArgs = map[string][][]string{
	"n2j": {
		{}, {"-nothing", "XML", "NQ"}, {"XML", "NQ", "NQ"}, {"XML"}, {"NQ"}, {"-sqlite", "a", "-csv", "b", "XML", "NQ"}, {"-sqlite", "a", "-mysql", "b", "XML", "NQ"}, {"-csv", "a", "-mysql", "b", "XML", "NQ"}, {"-sqlite", "a", "-csv", "b", "-mysql", "c", "XML", "NQ"},
		{"-sqlite"}, {"-sql-field-tables=maybe", "XML", "NQ"}, {"NQ", "XML"}, {"XML", "XML"}, {"DIR", "NQ"}, {"XML", "DIR"}, {"EMPTY"}, {"TWICE"}, {"", ""}, {""}, {"-mysql", "u:p@tcp(127.0.0.1:1)/x", "XML", "NQ"}, {"-mysql", "nonsense", "XML", "NQ"}, {"-csv", "XML", "XML", "NQ"}, {"-csv", "MISSING", "XML", "NQ"}, {"-sqlite", "MISSING/x", "XML", "NQ"}, {"-sqlite", "DIR", "XML", "NQ"}, {"-sqlite", "XML", "XML", "NQ"}, {"-cache", "XML", "XML", "NQ"}, {"-cache", "XML/x", "XML", "NQ"},
	},
	"hangover": {
		{}, {"-nothing", "XML", "NQ"}, {"XML", "NQ", "NQ"}, {"XML"}, {"NQ"}, {"-export"}, {"-images=maybe", "XML", "NQ"}, {"-export", "OUT", "NQ", "XML"}, {"-export", "OUT", "EMPTY"}, {"-export", "OUT", "TWICE"}, {"-export", "OUT", "MISSING"}, {"-export", "OUT", ""}, {"-export", "OUT", "NQ"}, {"-export", "MISSING/x", "XML", "NQ"}, {"-export", "DIR", "XML", "NQ"}, {"-export", "XML/x", "XML", "NQ"}, {"-export", "OUT", "-cache", "XML", "XML", "NQ"}, {"-bench", "NQ", "XML"}, {"-bench", "-cache", "XML", "XML", "NQ"}, {"-addr", "256.0.0.1:1", "XML", "NQ"}, {"-addr", "127.0.0.1:99999", "XML", "NQ"}, {"-addr", "USED", "XML", "NQ"}, {"-addr", "FREE", "NQ", "XML"}, {"-addr", "FREE", "MISSING"}, {"-addr", "FREE", "XML", "MISSING"}, {"-addr", "FREE", "NQ"},
	},
}

// goodArgs are arguments that ask for nothing but information
var goodArgs = [][]string{{"-help"}, {"-h"}, {"-legal"}, {"-legal", "x", "y", "z"}}

func genStatus(t *rapid.T) (c Status) {
	c.Tool = lib.Pick(t, "tool", []string{"json", "sqlite", "csv", "csv", "export", "export", "import"})
	if lib.Chance(t, "is large", 35) {
		c.Large = &Large{Entities: rapid.IntRange(1, 400).Draw(t, "entities"), Children: rapid.IntRange(0, 100).Draw(t, "children"), Fields: rapid.IntRange(1, 5).Draw(t, "fields"), Values: 2}
	} else {
		c.W = lib.GenWorld(t, sqlOpts())
	}
	c.Tables, c.Disk, c.OneDir, c.Old = rapid.Bool().Draw(t, "ft"), rapid.Bool().Draw(t, "disk"), lib.Chance(t, "dir", 25), lib.Chance(t, "old", 30)
	if c.Tool == "json" || c.Tool == "import" {
		c.Disk = c.Disk && c.Tool == "json"
	}
	f := &c.F
	f.Kind = lib.Pick(t, "fault", []string{"none", "call", "call", "call", "call", "call", "call", "space", "full", "pipe", "line", "truncate", "missing", "isdir", "denied", "args", "args", "info"})
	f.N = rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 100000)).Draw(t, "n")
	switch f.Kind {
	case "call":
		f.Errno = lib.Pick(t, "errno", []string{"ENOSPC", "EIO", "EDQUOT", "EACCES", "EMFILE"})
		f.When = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 30)).Draw(t, "when")
		f.Rest = rapid.Bool().Draw(t, "rest")
		targets := []string{"out", "out", "out", "nq", "xml"}
		if c.Tool == "import" {
			targets = []string{"out", "out", "index"}
		}
		if c.Disk {
			targets = append(targets, "cache", "cache")
		}
		f.Target = lib.Pick(t, "target", targets)
		switch {
		case f.Target == "nq" || f.Target == "xml" || f.Target == "index":
			f.Calls = lib.Pick(t, "calls", []string{"read", "read", "read", "openat", "lseek", "newfstatat", "close"})
			f.Errno = "EIO"
		case f.Target == "cache":
			f.Calls = lib.Pick(t, "calls", []string{"write", "write", "openat", "fsync", "pread64", "read", "unlinkat", "renameat", "mkdirat", "flock", "close", "ftruncate"})
		case c.Tool == "sqlite":
			f.Calls = lib.Pick(t, "calls", []string{"pwrite64", "pwrite64,write", "write", "openat", "fsync,fdatasync", "ftruncate", "unlink,unlinkat", "pread64,read", "fcntl", "close", "newfstatat,fstat"})
		default:
			f.Calls = lib.Pick(t, "calls", []string{"write", "write", "write", "write", "openat", "close"})
		}
	case "line":
		f.Args = []string{lib.Pick(t, "line", malformedLines)}
	case "truncate", "missing", "isdir":
		f.Target = lib.Pick(t, "target", []string{"nq", "xml"})
		if c.Tool == "import" {
			f.Target = "index"
		}
	case "denied":
		f.Target = lib.Pick(t, "target", []string{"nq", "xml", "out"})
		if c.Tool == "import" {
			f.Target = "index"
		}
	case "args":
		c.Tool = lib.Pick(t, "program", []string{"json", "serve"})
		prog := map[string]string{"json": "n2j", "serve": "hangover"}[c.Tool]
		f.Args = lib.Pick(t, "args", badArgs[prog])
	case "info":
		c.Tool = lib.Pick(t, "program", []string{"json", "serve"})
		f.Args = lib.Pick(t, "args", goodArgs)
	}
	return
}

// tools that may or may not be there
var canTrace = sync.OnceValue(func() bool {
	return exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:error=EIO:when=9999", "/bin/true").Run() == nil
})

var canMount = sync.OnceValue(func() bool {
	return exec.Command("unshare", "-Urm", "sh", "-c", "mount -t tmpfs -o size=64k none /mnt && ! head -c 100000 /dev/zero > /mnt/x").Run() == nil
})

var injectedCall = regexp.MustCompile(`(?m)^\d+\s+(\w+)\(.*\(INJECTED\)`)

// readIndex reads an exported index
func readIndex(path string, paths []lib.PathDef) (map[string][]lib.JSONEntity, error) {
	g, err := glass.Import(path, nil)
	if err != nil {
		return nil, err
	}
	defer g.Cache.Close()
	res := make(map[string][]lib.JSONEntity)
	roots, _ := lib.Tree(paths)
	for _, b := range roots {
		var es []lib.JSONEntity
		lib.Must(json.Unmarshal(lib.Must1(json.Marshal(g.Cache.Entities(b.Def.ID))), &es))
		res[b.Def.ID] = es
	}
	return res, nil
}

func fill(data map[string][]lib.JSONEntity, paths []lib.PathDef) map[string][]lib.REntity {
	res := lib.REntities(data)
	roots, _ := lib.Tree(paths)
	for _, b := range roots {
		if res[b.Def.ID] == nil {
			res[b.Def.ID] = []lib.REntity{}
		}
	}
	return res
}

func checkStatus(c Status, r *lib.Rec) error {
	w := c.W
	if c.Large != nil {
		w = c.Large.world()
	}
	dir, cleanup := lib.TempDir()
	defer cleanup()
	in, outDir := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	lib.Must(os.Mkdir(in, 0o755))
	lib.Must(os.Mkdir(outDir, 0o755))
	xml, nq := lib.WriteWorld(in, w)
	index := filepath.Join(dir, "index.hangover")
	f := c.F

	data, err := extract(w)
	if err != nil {
		return err
	}
	if c.Tool == "import" {
		g, err := glass.Create(xml, nq, "", flagsOf(w), nil)
		if err != nil {
			return err
		}
		lib.Must(glass.Export(index, g, nil))
	}

	mustFail := false
	inputs := map[string]string{"nq": nq, "xml": xml, "index": index}
	input := inputs[f.Target]
	uid := uint32(0)
	switch f.Kind {
	case "missing":
		lib.Must(os.Remove(input))
		mustFail = true
	case "isdir":
		lib.Must(os.Remove(input))
		lib.Must(os.Mkdir(input, 0o755))
		mustFail = true
	case "denied":
		uid = 31337
		lib.Must(os.Chmod(outDir, 0o777))
		lib.Must(os.Chmod(dir, 0o777))
		if f.Target == "out" {
			if c.Tool == "json" {
				return nil
			}
			lib.Must(os.Chmod(outDir, 0o555))
		} else {
			lib.Must(os.Chmod(input, 0o200))
		}
		mustFail = true
	case "line":
		if c.Tool == "import" {
			return nil
		}
		lines := strings.SplitAfter(string(w.NQ()), "\n")
		at := f.N % len(lines)
		lines = append(lines[:at:at], append([]string{f.Args[0] + "\n"}, lines[at:]...)...)
		lib.Must(os.WriteFile(nq, []byte(strings.Join(lines, "")), 0o644))
		mustFail = true
	case "truncate":
		old := lib.Must1(os.ReadFile(input))
		if len(old) == 0 {
			return nil
		}
		cut := old[:f.N%len(old)]
		lib.Must(os.WriteFile(input, cut, 0o644))
		switch f.Target {
		case "nq":
			last := strings.TrimSpace(string(cut[bytes.LastIndexByte(cut, '\n')+1:]))
			mustFail = last != "" && !strings.HasPrefix(last, "#") && !strings.HasSuffix(last, ".")
			if !mustFail {
				return nil // a shorter file
			}
		case "xml":
			mustFail = len(bytes.TrimSpace(cut)) < len(bytes.TrimSpace(old))
		default:
			mustFail = true
		}
		if !mustFail {
			return nil
		}
	}

	// the command
	prog := "n2j"
	args := lib.PredicateArgs(w)
	var stdout *os.File
	out := ""
	switch c.Tool {
	case "json":
		out = filepath.Join(outDir, "out.json")
	case "sqlite":
		out = filepath.Join(outDir, "out.sqlite")
		args = append(args, "-sqlite", out)
	case "csv":
		out = outDir
		args = append(args, "-csv", out)
	case "export", "import":
		prog = "hangover"
		out = filepath.Join(outDir, "out.hangover")
		args = append(args, "-export", out)
	case "serve":
		prog = "hangover"
	}
	if c.Old && c.Tool != "csv" && c.Tool != "sqlite" && out != "" {
		lib.Must(os.WriteFile(out, []byte(strings.Repeat("old output\n", f.N%5000)), 0o666))
		lib.Must(os.Chmod(out, 0o666))
	}
	if c.Tables && prog == "n2j" {
		args = append(args, "-sql-field-tables")
	}
	cache := filepath.Join(dir, "cache")
	if c.Disk {
		args = append(args, "-cache", cache)
		if uid != 0 {
			lib.Must(os.Mkdir(cache, 0o777))
			lib.Must(os.Chmod(cache, 0o777))
		}
	}
	switch {
	case c.Tool == "import":
		args = append(args, index)
	case c.OneDir:
		args = append(args, in)
	default:
		args = append(args, xml, nq)
	}
	if f.Kind == "args" || f.Kind == "info" {
		mustFail = f.Kind == "args"
		lib.Must(os.Mkdir(filepath.Join(dir, "empty"), 0o755))
		twice := filepath.Join(dir, "twice")
		lib.Must(os.Mkdir(twice, 0o755))
		lib.WriteWorld(twice, w)
		lib.Must(os.WriteFile(filepath.Join(twice, "other.nq"), nil, 0o644))
		l, err := net.Listen("tcp", "127.0.0.1:0")
		lib.Must(err)
		defer l.Close()
		args = nil
		for _, a := range f.Args {
			repl := strings.NewReplacer("XML", xml, "NQ", nq, "DIR", in, "EMPTY", filepath.Join(dir, "empty"), "TWICE", twice, "MISSING", filepath.Join(dir, "missing"), "OUT", filepath.Join(outDir, "out.hangover"), "USED", l.Addr().String(), "FREE", "127.0.0.1:0")
			args = append(args, repl.Replace(a))
		}
	}

	// what goes wrong while it runs
	opts := lib.RunOpts{Dir: dir, UID: uid}
	var after func() error
	logPath := filepath.Join(dir, "strace.log")
	switch f.Kind {
	case "full":
		switch c.Tool {
		case "json":
			out = "/dev/full"
		case "export", "import":
			out = "/dev/full"
			for i := range args {
				if args[i] == "-export" {
					args[i+1] = out
				}
			}
		case "csv":
			names := lib.SortedKeys(wantTables(w.Paths, data, ",", c.Tables))
			sort.Strings(names)
			lib.Must(os.Symlink("/dev/full", filepath.Join(outDir, names[f.N%len(names)]+".csv")))
		default:
			lib.Must(os.Symlink("/dev/full", out))
		}
		mustFail = true
	case "call":
		if !canTrace() {
			r.Class("cannot trace")
			return nil
		}
		var files []string
		switch f.Target {
		case "out":
			switch c.Tool {
			case "sqlite":
				files = []string{out, out, out + "-journal"}
			case "csv":
				for _, n := range lib.SortedKeys(wantTables(w.Paths, data, ",", c.Tables)) {
					files = append(files, filepath.Join(out, n+".csv"))
				}
			default:
				files = []string{out}
			}
		case "cache":
			// run once to see which files there are
			res, err := lib.RunProg(lib.RunOpts{Dir: dir}, lib.Bin(prog), args...)
			if err != nil {
				return err
			}
			if res.Code != 0 {
				return fmt.Errorf("first run of %s failed: %s", prog, lib.Trim(string(res.Stderr), 2000))
			}
			lib.Must(filepath.Walk(cache, func(path string, info os.FileInfo, err error) error {
				files = append(files, path)
				return err
			}))
			if len(files) == 0 {
				return nil
			}
			if f.N%2 == 0 {
				lib.Must(os.RemoveAll(cache))
			}
		default:
			files = []string{inputs[f.Target]}
		}
		when := strconv.Itoa(f.When)
		if f.Rest {
			when += "+"
		}
		file := files[f.N%len(files)]
		opts.Prefix = []string{"strace", "-f", "-qq", "-o", logPath, "-e", "signal=none", "-P", file, "-e", "trace=" + f.Calls, "-e", "inject=" + f.Calls + ":error=" + f.Errno + ":when=" + when}
	case "space":
		if !canMount() || c.Tool == "import" {
			r.Class("cannot mount")
			return nil
		}
		// everything is written to a small file system, and copied from there if all went well
		kb := 4 + 4*(f.N%60)
		script := `mount -t tmpfs -o size=` + strconv.Itoa(kb) + `k none "$1" || exit 99; copy=$2; mnt=$1; shift 2; "$@"; rc=$?; [ $rc = 0 ] && cp -r "$mnt" "$copy"; exit $rc`
		if c.Tool == "json" {
			script = strings.Replace(script, `"$@";`, `"$@" > "$mnt/out.json";`, 1)
		}
		opts.Prefix = []string{"unshare", "-Urm", "sh", "-c", script, "sh", outDir, filepath.Join(dir, "copy")}
		after = func() error {
			out = strings.Replace(out, outDir, filepath.Join(dir, "copy"), 1)
			return nil
		}
	case "pipe":
		if c.Tool != "json" {
			return nil
		}
		pr, pw, err := os.Pipe()
		lib.Must(err)
		stdout = pw
		defer pw.Close()
		pr.Close()
		mustFail = true
	}
	if c.Tool == "json" && stdout == nil && (f.Kind != "args" && f.Kind != "info" && f.Kind != "space") {
		stdout, err = os.OpenFile(out, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o666)
		lib.Must(err)
		defer stdout.Close()
	}
	opts.Stdout = stdout
	before := tree(in)

	res, err := lib.RunProg(opts, lib.Bin(prog), args...)
	if err != nil {
		return err
	}
	if after != nil {
		lib.Must(after())
	}
	what := fmt.Sprintf("%s %q (fault: %+v)", prog, args, f)
	if f.Kind == "space" && res.Code == 99 {
		return lib.HarnessError{Err: errors.New("mount failed")}
	}
	injected := false
	if f.Kind == "call" {
		log, _ := os.ReadFile(logPath)
		m := injectedCall.FindStringSubmatch(string(log))
		if injected = m != nil; injected {
			what += " failed call: " + lib.Trim(m[0], 300)
			r.Class("failed " + f.Target + " " + m[1])
		}
	}
	r.Class(f.Kind)
	r.Class(c.Tool)
	r.NontrivialIf(f.Kind != "none" && (f.Kind != "call" || injected))
	if res.Crashed() || strings.Contains(string(res.Stderr), "goroutine 1 [") {
		return fmt.Errorf("%s crashed: %s", what, lib.Trim(string(res.Stderr), 3000))
	}
	if fmt.Sprint(tree(in)) != fmt.Sprint(before) {
		return fmt.Errorf("%s changed its input", what)
	}
	if f.Kind == "info" {
		if res.Code != 0 || len(res.Stdout)+len(res.Stderr) == 0 {
			return fmt.Errorf("%s: status %d", what, res.Code)
		}
		return nil
	}
	if res.Code != 0 {
		if res.Signal != "" && (f.Kind != "pipe" || res.Signal != "broken pipe") {
			return fmt.Errorf("%s: killed by %s: %s", what, res.Signal, lib.Trim(string(res.Stderr), 2000))
		}
		if res.Signal == "" && len(bytes.TrimSpace(res.Stderr)) == 0 {
			return fmt.Errorf("%s: status %d without any message", what, res.Code)
		}
		if f.Kind == "none" || f.Kind == "call" && !injected {
			return fmt.Errorf("%s: status %d although nothing went wrong: %s", what, res.Code, lib.Trim(string(res.Stderr), 2000))
		}
		r.Class("failed")
		return nil
	}
	if mustFail {
		return fmt.Errorf("%s: reports success: %s", what, lib.Trim(string(res.Stderr), 2000))
	}
	r.Class("succeeded")

	// success means that everything is there
	switch c.Tool {
	case "json":
		var got map[string][]lib.JSONEntity
		text := lib.Must1(os.ReadFile(out))
		if err := json.Unmarshal(text, &got); err != nil {
			return fmt.Errorf("%s: reports success, but the output is not complete: %w: %s", what, err, lib.Trim(string(text), 200))
		}
		err = lib.DiffREntities(lib.REntities(data), lib.REntities(got))
	case "sqlite":
		var got map[string]*Table
		if got, err = readDB(out); err == nil {
			err = diffTables(wantTables(w.Paths, data, ",", c.Tables), got, false)
		}
	case "csv":
		var got map[string]*Table
		if got, err = readCSV(out); err == nil {
			err = diffTables(noNull(wantTables(w.Paths, data, ",", c.Tables)), got, false)
		}
	case "export", "import":
		var got map[string][]lib.JSONEntity
		if got, err = readIndex(out, w.Paths); err == nil {
			err = lib.DiffREntities(fill(data, w.Paths), fill(got, w.Paths))
		}
	}
	if err != nil {
		return fmt.Errorf("%s: reports success, but the output is not complete: %w", what, err)
	}
	return nil
}

func TestC12_status(t *testing.T) {
	lib.Run(t, lib.Prop[Status]{
		Name:  "C12.status",
		Rule:  "runs of n2j (json, sqlite, csv) and hangover (export, import) on generated data with one fault: a failing system call on an input, output or cache file (strace), a full disk or file system, a closed pipe, a malformed, truncated, missing or unreadable input, or bad arguments; non-trivial when the fault took place",
		Quick: 240, Thorough: 12000, Timeout: 200 * time.Second,
		Gen:   genStatus,
		Check: checkStatus,
	})
}
