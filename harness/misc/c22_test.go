package misc

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/FAU-CDI/hangover"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// Entry is an entry of a directory
type Entry struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // file, dir, link, dirlink, dangling, fifo, empty
}

// Find is a call to find sources
type Find struct {
	Dir     string   `json:"dir"`
	Entries []Entry  `json:"entries"`
	Args    []string `json:"args"` // $DIR, $DIR/name, or other things
	Rel     bool     `json:"rel,omitempty"`
	Index   bool     `json:"index"`
}

var (
	dirNames  = []string{"data", "my data", "a[b]c", "[", "*", "?x", `back\slash`, "ü☃", "dir.xml", "dir.nq", "{a,b}", "-flag", "a\nb", "..x", "%2F"}
	fileNames = []string{"a.xml", "b.xml", "c.nq", "d.nq", "a.nq", ".xml", ".nq", "A.XML", "C.NQ", "x.xml.bak", "xml", "nq", "readme.txt", "[1].xml", "*.nq", "a b.xml", "ü.nq", "x.nq.gz", "q.nqx", "-.nq", "?.xml", "a.nt", "nq.xml", "xml.nq", "..xml", "c.nq~", " .nq", "x. nq", `\.xml`}
)

func TestC22_find(t *testing.T) {
	lib.Run(t, lib.Prop[Find]{
		Name:  "C22.find",
		Rule:  "scratch directories with arbitrary names, holding files, directories, links (also dangling) and pipes with names near *.xml and *.nq, given absolute or relative, as the directory, one or two of its files, missing files, or too many; compared with an independent decision; non-trivial when sources are found, or there are several candidates",
		Quick: 20000, Thorough: 1000000,
		Gen: func(t *rapid.T) (c Find) {
			c.Dir = lib.Pick(t, "dir", dirNames)
			seen := map[string]bool{}
			add := func(names []string, kinds []string) {
				e := Entry{Name: lib.Pick(t, "name", names), Kind: lib.Pick(t, "kind", kinds)}
				if !seen[e.Name] {
					seen[e.Name] = true
					c.Entries = append(c.Entries, e)
				}
			}
			all := []string{"file", "file", "file", "file", "dir", "link", "dirlink", "dangling", "fifo", "empty"}
			if lib.Chance(t, "good", 60) {
				kinds := []string{"file", "file", "file", "link", "empty", "dir"}
				add([]string{"a.xml", "[1].xml", ".xml", "?.xml", "nq.xml"}, kinds)
				add([]string{"c.nq", "*.nq", ".nq", "xml.nq", "ü.nq"}, kinds)
				if lib.Chance(t, "more", 60) {
					add([]string{"readme.txt", "A.XML", "x.xml.bak", "xml", "nq", "x.nq.gz", "q.nqx", "c.nq~", "a.nt"}, all)
				}
				if lib.Chance(t, "ambiguous", 30) {
					add(fileNames, all)
				}
			} else {
				for i, n := 0, rapid.IntRange(0, 6).Draw(t, "n"); i < n; i++ {
					add(fileNames, all)
				}
			}
			c.Index = rapid.Bool().Draw(t, "index")
			c.Rel = lib.Chance(t, "rel", 30)
			arg := func() string {
				switch k := rapid.IntRange(0, 9).Draw(t, "arg"); {
				case k < 8 && len(c.Entries) > 0:
					return "$DIR/" + c.Entries[rapid.IntRange(0, len(c.Entries)-1).Draw(t, "entry")].Name
				case k < 9:
					return "$DIR/missing.nq"
				default:
					return "$DIR"
				}
			}
			switch k := rapid.IntRange(0, 9).Draw(t, "call"); {
			case k < 5:
				c.Args = []string{"$DIR" + lib.Pick(t, "slash", []string{"", "", "/", "/.", "//"})}
			case k < 6:
				c.Args = []string{arg()}
			case k < 9:
				c.Args = []string{arg(), arg()}
			default:
				for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
					c.Args = append(c.Args, arg())
				}
			}
			return
		},
		Check: checkFind,
	})
}

func checkFind(c Find, r *lib.Rec) error {
	root, cleanup := lib.TempDir()
	defer cleanup()
	dir := filepath.Join(root, c.Dir)
	lib.Must(os.Mkdir(dir, 0o777))
	lib.Must(os.Mkdir(filepath.Join(root, "otherdir"), 0o777))
	lib.Must(os.WriteFile(filepath.Join(root, "otherfile"), []byte("x"), 0o666))
	kinds := map[string]string{}
	for _, e := range c.Entries {
		p := dir + "/" + e.Name
		kinds[e.Name] = e.Kind
		switch e.Kind {
		case "file":
			lib.Must(os.WriteFile(p, []byte("content"), 0o666))
		case "empty":
			lib.Must(os.WriteFile(p, nil, 0o666))
		case "dir":
			lib.Must(os.Mkdir(p, 0o777))
		case "link":
			lib.Must(os.Symlink(root+"/otherfile", p))
		case "dirlink":
			lib.Must(os.Symlink(root+"/otherdir", p))
		case "dangling":
			lib.Must(os.Symlink(root+"/nothing", p))
		case "fifo":
			lib.Must(syscall.Mkfifo(p, 0o666))
		}
	}
	regular := func(kind string) bool { return kind == "file" || kind == "link" || kind == "empty" }

	// decide what should happen
	kindOf := func(arg string) string {
		name, ok := strings.CutPrefix(arg, "$DIR/")
		if !ok || strings.Trim(name, "/.") == "" {
			return "dir"
		}
		return kinds[name] // or empty
	}
	var wantNQ, wantXML, wantIndex string
	ok := false
	switch len(c.Args) {
	case 1:
		switch k := kindOf(c.Args[0]); k {
		case "", "dangling":
		case "dir", "dirlink":
			base := c.Args[0]
			if base != "$DIR" && strings.Trim(strings.TrimPrefix(base, "$DIR"), "/.") != "" {
				break // an empty directory
			}
			var xml, nq []string
			for _, e := range c.Entries {
				if strings.HasSuffix(e.Name, ".xml") {
					xml = append(xml, e.Name)
				}
				if strings.HasSuffix(e.Name, ".nq") {
					nq = append(nq, e.Name)
				}
			}
			if len(xml) > 1 || len(nq) > 1 {
				r.Class("ambiguous")
				r.Nontrivial()
			}
			if len(xml) == 1 && len(nq) == 1 && regular(kinds[xml[0]]) && regular(kinds[nq[0]]) {
				ok = true
				wantXML, wantNQ = dir+"/"+xml[0], dir+"/"+nq[0]
			}
		default:
			if c.Index {
				ok = true
				wantIndex = dir + "/" + strings.TrimPrefix(c.Args[0], "$DIR/")
			}
		}
	case 2:
		if regular(kindOf(c.Args[0])) && regular(kindOf(c.Args[1])) {
			ok = true
			wantXML = dir + "/" + strings.TrimPrefix(c.Args[0], "$DIR/")
			wantNQ = dir + "/" + strings.TrimPrefix(c.Args[1], "$DIR/")
		}
	}

	args := []string{}
	for _, a := range c.Args {
		base := dir
		if c.Rel {
			base = "./" + c.Dir
		}
		args = append(args, base+strings.TrimPrefix(a, "$DIR"))
	}
	if c.Rel {
		old := lib.Must1(os.Getwd())
		lib.Must(os.Chdir(root))
		defer os.Chdir(old)
	}
	nq, xml, index, err := hangover.FindSource(c.Index, args...)
	got := fmt.Sprintf("data %q, pathbuilder %q, export %q (%v)", nq, xml, index, err)
	if !ok {
		if err == nil || nq != "" || xml != "" || index != "" {
			return fmt.Errorf("expected an error and nothing else, but got %s", got)
		}
		r.Class("refused")
		return nil
	}
	if err != nil {
		return fmt.Errorf("expected data %q, pathbuilder %q, export %q, but got %s", wantNQ, wantXML, wantIndex, got)
	}
	r.Nontrivial()
	r.ClassIf(wantIndex != "", "export")
	r.ClassIf(wantNQ != "", "sources")
	for _, f := range [][2]string{{nq, wantNQ}, {xml, wantXML}, {index, wantIndex}} {
		if f[0] == "" && f[1] == "" {
			continue
		}
		if f[0] == "" || f[1] == "" {
			return fmt.Errorf("expected data %q, pathbuilder %q, export %q, but got %s", wantNQ, wantXML, wantIndex, got)
		}
		d, base := filepath.Split(f[0])
		wd, wbase := filepath.Split(f[1])
		a, err := os.Stat(d)
		b := lib.Must1(os.Stat(wd))
		if err != nil || base != wbase || !os.SameFile(a, b) {
			return fmt.Errorf("expected %q, but got %s", f[1], got)
		}
	}
	return nil
}
