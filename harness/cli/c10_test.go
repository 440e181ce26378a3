package cli

import (
	"database/sql"
	"errors"
	"fmt"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

var separators = []string{",", ",", "", "|", "; ", "\n", "'", "\"", "ab", "%", "%s", "$1", "?", "\x1f", "ä"}

var sqlValues = []string{
	"", "x", "y", "a,b", ",", "NULL", "null", "'", "''", "\"", "`", "'; DROP TABLE bundle__b1; --", "?", "$1", "$?", ":x", "@x", "%v", "%", "\\", "\n", "\r\n", "\r", "a\tb", "0", "007", "1.50", "1e3", "0x10", "true", " padded ", "ä€𝄞", "\u0000", "a\u0000b", "\u2028", "--", "/* x */", "[]", "{}", "x|y",
}

func sqlOpts() lib.GenOpts {
	return lib.GenOpts{SimpleIDs: true, Matches: 120, MaxQuads: 40, Values: rapid.OneOf(rapid.SampledFrom(sqlValues), rapid.SampledFrom(sqlValues), rapid.SampledFrom(lib.Values), rapid.StringOfN(rapid.RuneFrom([]rune("ab',\"?$%\\\n\r;|")), 0, 8, -1))}
}

// Step is one export
type Step struct {
	W           lib.World `json:"w"`
	Sep         string    `json:"sep"`
	FieldTables bool      `json:"ft,omitempty"`
	Batch       int       `json:"batch"`
	Vars        int       `json:"vars"`
	Disk        bool      `json:"disk,omitempty"`
	Direct      bool      `json:"direct,omitempty"` // give entities to the exporter directly, interleaving bundles
	Slow        int       `json:"slow,omitempty"`
}

// Exports is a case
type Exports struct {
	Steps []Step `json:"steps"`
}

func genExports(t *rapid.T) (c Exports) {
	n := lib.Pick(t, "steps", []int{1, 1, 1, 2, 2, 3})
	for i := 0; i < n; i++ {
		s := Step{Sep: lib.Pick(t, "sep", separators), FieldTables: rapid.Bool().Draw(t, "field tables"), Batch: lib.Pick(t, "batch", []int{1, 2, 3, 5, 1000}), Vars: lib.Pick(t, "vars", []int{2, 4, 8, 13, 32766, 32766, 32766, 32766, 32766}), Disk: lib.Chance(t, "disk", 20), Direct: lib.Chance(t, "direct", 30)}
		if i > 0 && lib.Chance(t, "same paths", 70) {
			// another export of the same site
			s.W.Paths = c.Steps[i-1].W.Paths
			lib.GenData(t, sqlOpts(), &s.W)
			s.W.Tame(120)
		} else {
			s.W = lib.GenWorld(t, sqlOpts())
			if lib.Chance(t, "odd names", 30) {
				lib.GenNames(t, &s.W, lib.SQLNames, 50)
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return
}

// interleave gives entities to an exporter, from a goroutine for each bundle
func interleave(pb *pathbuilder.Pathbuilder, data map[string][]wisski.Entity, e exporter.Exporter) error {
	var errs []error
	roots := pb.Bundles()
	for _, b := range roots {
		errs = append(errs, e.Begin(b, int64(len(data[b.MachineName()]))))
	}
	done := make(chan error, len(roots))
	for _, b := range roots {
		go func(b *pathbuilder.Bundle) {
			var err error
			for i := range data[b.MachineName()] {
				err = errors.Join(err, e.Add(b, &data[b.MachineName()][i]))
			}
			done <- errors.Join(err, e.End(b))
		}(b)
	}
	for range roots {
		errs = append(errs, <-done)
	}
	return errors.Join(append(errs, e.Close())...)
}

func (s Step) run(path string) (want map[string]*Table, impossible string, err error) {
	l, err := load(s.W)
	if err != nil {
		return nil, "", fmt.Errorf("load: %w", err)
	}
	defer l.index.Close()
	js, err := l.entities()
	if err != nil {
		return nil, "", fmt.Errorf("extract: %w", err)
	}
	want = wantTables(s.W.Paths, js, s.Sep, s.FieldTables)
	for _, t := range want {
		if len(t.Columns) > s.Vars && len(t.Rows) > 0 {
			impossible = "a row has more columns than there may be variables"
		}
	}
	if c := clash(s.W.Paths, s.FieldTables); c != "" {
		impossible = c
	}
	db, err := sql.Open("sqlite", path)
	lib.Must(err)
	defer db.Close()
	exp := &exporter.SQL{DB: db, Separator: s.Sep, BatchSize: s.Batch, MaxQueryVar: s.Vars, MakeFieldTables: s.FieldTables}
	if s.Direct {
		es, err := sparkl.LoadPathbuilder(&l.pb, l.index, storages.NewBundleEngine(""), nil)
		if err != nil {
			return nil, "", err
		}
		return want, impossible, interleave(&l.pb, es, exp)
	}
	dir := ""
	if s.Disk {
		d, cleanup := lib.TempDir()
		defer cleanup()
		dir = d
	}
	return want, impossible, sparkl.Export(&l.pb, l.index, storages.NewBundleEngine(dir), exp, nil)
}

func checkExports(c Exports, r *lib.Rec) error {
	dir, cleanup := lib.TempDir()
	defer cleanup()
	path := filepath.Join(dir, "out.sqlite")
	// tables that may be there, for they are those of an earlier export
	for i, s := range c.Steps {
		want, impossible, err := s.run(path)
		if impossible != "" {
			if err == nil {
				return fmt.Errorf("export %d: succeeds although %s", i, impossible)
			}
			r.Class("impossible")
			return nil
		}
		if err != nil {
			return fmt.Errorf("export %d: %w", i, err)
		}
		got, err := readDB(path)
		if err != nil {
			return fmt.Errorf("export %d: %w", i, err)
		}
		if err := diffTables(want, got, i > 0); err != nil {
			return fmt.Errorf("export %d: %w", i, err)
		}
		rows := 0
		for _, t := range want {
			rows += len(t.Rows)
			r.ClassIf(len(t.Rows) > s.Batch, "several batches")
			r.ClassIf(len(t.Rows) > 0 && len(t.Rows)*len(t.Columns) > s.Vars, "several chunks")
			for _, row := range t.Rows {
				_, child := row["parent"]
				r.ClassIf(child, "child")
			}
		}
		r.NontrivialIf(rows > 0)
		r.ClassIf(i > 0, "again")
		r.ClassIf(s.FieldTables, "field tables")
		for _, p := range s.W.Paths {
			r.ClassIf(!simpleName.MatchString(p.ID), "name needs quoting")
		}
	}
	return nil
}

func TestC10_inproc(t *testing.T) {
	lib.Run(t, lib.Prop[Exports]{
		Name:  "C10.inproc",
		Rule:  "one to three exports of generated pathbuilders and data (with texts that look like sql) into one sqlite file, with generated separators, batch sizes and numbers of query variables, with and without field tables, fed by the extraction or by one goroutine for each bundle; non-trivial when there is an entity",
		Quick: 2000, Thorough: 150000,
		Gen:   genExports,
		Check: checkExports,
	})
}

// n2jTo runs n2j
func n2jTo(dir string, w lib.World, args ...string) error {
	xml, nq := lib.WriteWorld(dir, w)
	args = append(append(lib.PredicateArgs(w), args...), xml, nq)
	res, err := lib.RunProg(lib.RunOpts{Dir: dir}, lib.Bin("n2j"), args...)
	if err != nil {
		return err
	}
	if res.Code != 0 || res.Crashed() {
		return fmt.Errorf("n2j %q: status %d: %s", args, res.Code, lib.Trim(string(res.Stderr), 2000))
	}
	return nil
}

func checkExportCommand(c Exports, r *lib.Rec) error {
	dir, cleanup := lib.TempDir()
	defer cleanup()
	path := filepath.Join(dir, "out.sqlite")
	for i, s := range c.Steps {
		s.Sep = strings.ReplaceAll(s.Sep, "\x00", "")
		js, err := extract(s.W)
		if err != nil {
			return err
		}
		args := []string{"-sqlite", path, "-sql-seperator", s.Sep}
		if s.FieldTables {
			args = append(args, "-sql-field-tables")
		}
		if s.Disk {
			args = append(args, "-cache", filepath.Join(dir, "cache"))
		}
		err = n2jTo(dir, s.W, args...)
		if c := clash(s.W.Paths, s.FieldTables); c != "" {
			if err == nil {
				return fmt.Errorf("export %d: n2j succeeds although %s", i, c)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("export %d: %w", i, err)
		}
		got, err := readDB(path)
		if err != nil {
			return fmt.Errorf("export %d: %w", i, err)
		}
		want := wantTables(s.W.Paths, js, s.Sep, s.FieldTables)
		if err := diffTables(want, got, i > 0); err != nil {
			return fmt.Errorf("export %d: %w", i, err)
		}
		n, _, _ := count(js)
		r.NontrivialIf(n > 0)
	}
	return nil
}

func TestC10_n2j(t *testing.T) {
	lib.Run(t, lib.Prop[Exports]{
		Name:  "C10.n2j",
		Rule:  "the same with the n2j command; non-trivial when there is an entity",
		Quick: 40, Thorough: 2000,
		Gen:   genExports,
		Check: checkExportCommand,
	})
}

// Large is a case with many entities
type Large struct {
	Entities int    `json:"entities"`
	Children int    `json:"children"`
	Fields   int    `json:"fields"`
	Values   int    `json:"values"`
	Tables   bool   `json:"ft,omitempty"`
	Sep      string `json:"sep"`
	Command  bool   `json:"command,omitempty"`
}

func (l Large) world() (w lib.World) {
	const c, k, p = "http://o.example/C0", "http://o.example/C1", "http://o.example/p0"
	w.Paths = []lib.PathDef{{ID: "top", IsGroup: true, Arr: []string{c}}}
	for i := 0; i < l.Fields; i++ {
		w.Paths = append(w.Paths, lib.PathDef{ID: fmt.Sprintf("f%d", i), Group: "top", Arr: []string{c}, DT: fmt.Sprintf("http://o.example/d%d", i)})
	}
	w.Paths = append(w.Paths, lib.PathDef{ID: "kid", Group: "top", IsGroup: true, Arr: []string{c, p, k}}, lib.PathDef{ID: "name", Group: "kid", Arr: []string{c, p, k}, DT: "http://o.example/d0"})
	node := func(f string, a ...any) lib.Term { return lib.IRI("http://i.example/" + fmt.Sprintf(f, a...)) }
	add := func(s lib.Term, p string, o lib.Term) { w.Quads = append(w.Quads, lib.Quad{S: s, P: p, O: o}) }
	for i := 0; i < l.Entities; i++ {
		s := node("e%d", i)
		add(s, lib.RDFType, lib.IRI(c))
		for f := 0; f < l.Fields; f++ {
			for v := 0; v < (i+f)%(l.Values+1); v++ {
				add(s, fmt.Sprintf("http://o.example/d%d", f), lib.Lit(fmt.Sprintf("%d-%d-%d", i, f, v), []string{"", "de"}[v%2]))
			}
		}
	}
	for i := 0; i < l.Children; i++ {
		s := node("k%d", i)
		add(s, lib.RDFType, lib.IRI(k))
		add(s, "http://o.example/d0", lib.Lit(fmt.Sprint(i), ""))
		if l.Entities > 0 {
			add(node("e%d", i*i%7%l.Entities), p, s)
			if i%5 == 0 {
				add(node("e%d", l.Entities-1), p, s)
			}
		}
	}
	return
}

func genLarge(t *rapid.T) (l Large) {
	// around the batch size of 1000, and the limit of 32766 variables
	l.Entities = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 999, 1000, 1001, 1999, 2000, 2001, 3000}), rapid.IntRange(0, 2500)).Draw(t, "entities")
	l.Children = rapid.SampledFrom([]int{0, 1, 50, 999, 1000, 1001, 1500}).Draw(t, "children")
	l.Fields = rapid.SampledFrom([]int{0, 1, 3, 31, 32, 33, 40}).Draw(t, "fields")
	l.Values = rapid.IntRange(0, 2).Draw(t, "values")
	if l.Fields*l.Values > 40 {
		l.Values = 1
	}
	if l.Fields > 30 && l.Entities > 1001 {
		l.Entities = 1001
	}
	l.Tables = rapid.Bool().Draw(t, "field tables")
	l.Sep = lib.Pick(t, "sep", separators)
	l.Command = lib.Chance(t, "command", 60)
	return
}

func TestC10_large(t *testing.T) {
	lib.Run(t, lib.Prop[Large]{
		Name:  "C10.large",
		Rule:  "up to 3000 entities, 1500 children of few entities and 40 fields, around the batch size and limits of n2j, exported by n2j or in this process with its settings; non-trivial with more rows than a batch",
		Quick: 24, Thorough: 500, Timeout: 300 * time.Second,
		Gen: genLarge,
		Check: func(l Large, r *lib.Rec) error {
			r.NontrivialIf(l.Entities > 1000 || l.Children > 1000)
			s := Step{W: l.world(), Sep: l.Sep, FieldTables: l.Tables, Batch: 1000, Vars: 32766}
			if l.Command {
				return checkExportCommand(Exports{[]Step{s}}, r)
			}
			return checkExports(Exports{[]Step{s}}, r)
		},
	})
}
