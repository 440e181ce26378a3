package cli

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	_ "github.com/glebarez/go-sqlite"
)

// Cell is a cell of a table
type Cell struct {
	Null bool
	Text string
}

func (c Cell) String() string {
	if c.Null {
		return "NULL"
	}
	return fmt.Sprintf("%q", c.Text)
}

// Table is a table of a database, without an order of columns or rows
type Table struct {
	Columns []string
	Rows    []map[string]Cell
}

func rowKey(row map[string]Cell) string {
	var b strings.Builder
	for _, k := range lib.SortedKeys(row) {
		fmt.Fprintf(&b, "%s=%s;", k, row[k])
	}
	return b.String()
}

// diffTable compares two tables
func diffTable(name string, want, got *Table) error {
	w, g := append([]string{}, want.Columns...), append([]string{}, got.Columns...)
	sort.Strings(w)
	sort.Strings(g)
	if fmt.Sprintf("%q", w) != fmt.Sprintf("%q", g) {
		return fmt.Errorf("table %q should have the columns %q, but has %q", name, w, g)
	}
	count := make(map[string]int)
	for _, r := range want.Rows {
		count[rowKey(r)]++
	}
	for _, r := range got.Rows {
		count[rowKey(r)]--
	}
	var missing, extra []string
	for _, k := range lib.SortedKeys(count) {
		if count[k] > 0 {
			missing = append(missing, k)
		}
		if count[k] < 0 {
			extra = append(extra, k)
		}
	}
	if len(missing)+len(extra) > 0 {
		return fmt.Errorf("table %q has %d instead of %d rows, missing (or not often enough): %s, too often: %s", name, len(got.Rows), len(want.Rows), lib.Trim(strings.Join(missing, " "), 1500), lib.Trim(strings.Join(extra, " "), 1500))
	}
	return nil
}

// diffTables compares two databases. If only, look only at the wanted tables.
func diffTables(want, got map[string]*Table, only bool) error {
	for _, name := range lib.SortedKeys(want) {
		if got[name] == nil {
			return fmt.Errorf("there is no table %q in %q", name, lib.SortedKeys(got))
		}
		if err := diffTable(name, want[name], got[name]); err != nil {
			return err
		}
	}
	for _, name := range lib.SortedKeys(got) {
		if want[name] == nil && !only {
			return fmt.Errorf("there should not be a table %q", name)
		}
	}
	return nil
}

// readTables reads all tables of a database
func readTables(db *sql.DB) (map[string]*Table, error) {
	names := []string{}
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type = 'table' ORDER BY name")
	if err != nil {
		return nil, err
	}
	for rows.Next() {
		var n string
		lib.Must(rows.Scan(&n))
		names = append(names, n)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	rows.Close()
	res := make(map[string]*Table)
	for _, n := range names {
		rows, err := db.Query("SELECT * FROM \"" + strings.ReplaceAll(n, "\"", "\"\"") + "\"")
		if err != nil {
			return nil, err
		}
		t := &Table{}
		t.Columns, err = rows.Columns()
		lib.Must(err)
		for rows.Next() {
			cells := make([]any, len(t.Columns))
			for i := range cells {
				cells[i] = new(any)
			}
			lib.Must(rows.Scan(cells...))
			row := make(map[string]Cell)
			for i, c := range t.Columns {
				switch v := (*cells[i].(*any)).(type) {
				case nil:
					row[c] = Cell{Null: true}
				case string:
					row[c] = Cell{Text: v}
				case []byte:
					row[c] = Cell{Text: string(v)}
				default:
					return nil, fmt.Errorf("table %q column %q holds %v of type %T", n, c, v, v)
				}
			}
			t.Rows = append(t.Rows, row)
		}
		if err := rows.Err(); err != nil {
			return nil, err
		}
		rows.Close()
		res[n] = t
	}
	return res, nil
}

// readDB reads a database file
func readDB(path string) (map[string]*Table, error) {
	if _, err := os.Stat(path); err != nil {
		return nil, err
	}
	db, err := sql.Open("sqlite", path)
	if err != nil {
		return nil, err
	}
	defer db.Close()
	return readTables(db)
}

// wantTables are the tables that an export should have
func wantTables(paths []lib.PathDef, data map[string][]lib.JSONEntity, sep string, fieldTables bool) map[string]*Table {
	res := make(map[string]*Table)
	var make_ func(b *lib.RefBundle)
	make_ = func(b *lib.RefBundle) {
		t := &Table{Columns: []string{"uri"}}
		if b.Parent != nil {
			t.Columns = append(t.Columns, "parent")
		}
		for _, f := range b.Fields {
			if !fieldTables {
				t.Columns = append(t.Columns, "field__"+f.ID)
			} else {
				res["field__"+b.Def.ID+"__"+f.ID] = &Table{Columns: []string{"uri", "value", "lang"}}
			}
		}
		res["bundle__"+b.Def.ID] = t
		for _, c := range b.Children {
			make_(c)
		}
	}
	var add func(b *lib.RefBundle, parent string, es []lib.JSONEntity)
	add = func(b *lib.RefBundle, parent string, es []lib.JSONEntity) {
		t := res["bundle__"+b.Def.ID]
		for _, e := range es {
			row := map[string]Cell{"uri": {Text: e.URI}}
			if b.Parent != nil {
				row["parent"] = Cell{Text: parent}
			}
			for _, f := range b.Fields {
				vs := e.Fields[f.ID]
				if fieldTables {
					ft := res["field__"+b.Def.ID+"__"+f.ID]
					for _, v := range vs {
						ft.Rows = append(ft.Rows, map[string]Cell{"uri": {Text: e.URI}, "value": {Text: v.Value}, "lang": {Text: v.Language}})
					}
					continue
				}
				var texts []string
				for _, v := range vs {
					texts = append(texts, v.Value)
				}
				row["field__"+f.ID] = Cell{Null: len(vs) == 0, Text: strings.Join(texts, sep)}
			}
			t.Rows = append(t.Rows, row)
			for _, c := range b.Children {
				add(c, e.URI, e.Children[c.Def.ID])
			}
		}
	}
	roots, _ := lib.Tree(paths)
	for _, b := range roots {
		make_(b)
		add(b, "", data[b.Def.ID])
	}
	return res
}

var simpleName = regexp.MustCompile(`^[a-zA-Z0-9_]+$`)

// clash tells if there cannot be all tables in one database, where names do not differ by case alone
func clash(paths []lib.PathDef, fieldTables bool) (why string) {
	tables := map[string]bool{}
	claim := func(m map[string]bool, name, where string) {
		key := strings.ToLower(name)
		if m[key] {
			why = fmt.Sprintf("there are two %ss %q", where, name)
		}
		m[key] = true
	}
	_, byID := lib.Tree(paths)
	for _, id := range lib.SortedKeys(byID) {
		b := byID[id]
		claim(tables, "bundle__"+id, "table")
		columns := map[string]bool{}
		for _, f := range b.Fields {
			if fieldTables {
				claim(tables, "field__"+id+"__"+f.ID, "table")
			} else {
				claim(columns, f.ID, "column")
			}
		}
	}
	return
}

func labels(s []string) (l []impl.Label) {
	for _, x := range s {
		l = append(l, impl.Label(x))
	}
	return
}

// loaded is an index with its pathbuilder
type loaded struct {
	pb    pathbuilder.Pathbuilder
	index *igraph.Index
}

// load indexes a world in memory
func load(w lib.World) (l loaded, err error) {
	l.pb, err = pbxml.Unmarshal(w.XML())
	if err != nil {
		return l, err
	}
	l.index, err = sparkl.MakeIndex(&sparkl.QuadSource{Reader: bytes.NewReader(w.NQ())}, sparkl.Predicates{SameAs: labels(w.SameAs), InverseOf: labels(w.Inverses)}, sparkl.NewEngine(""), sparkl.DefaultIndexOptions(&l.pb), nil)
	return
}

// entities extracts all entities
func (l loaded) entities() (js map[string][]lib.JSONEntity, err error) {
	es, err := sparkl.LoadPathbuilder(&l.pb, l.index, storages.NewBundleEngine(""), nil)
	if err != nil {
		return nil, err
	}
	lib.Must(json.Unmarshal(lib.Must1(json.Marshal(es)), &js))
	return
}

// extract does both
func extract(w lib.World) (map[string][]lib.JSONEntity, error) {
	l, err := load(w)
	if err != nil {
		return nil, err
	}
	defer l.index.Close()
	return l.entities()
}

func count(data map[string][]lib.JSONEntity) (entities, values, children int) {
	var walk func(e lib.JSONEntity)
	walk = func(e lib.JSONEntity) {
		for _, vs := range e.Fields {
			values += len(vs)
		}
		for _, cs := range e.Children {
			for _, c := range cs {
				children++
				walk(c)
			}
		}
	}
	for _, es := range data {
		for _, e := range es {
			entities++
			walk(e)
		}
	}
	return
}

// tree describes all files below a directory
func tree(dir string) map[string]string {
	res := make(map[string]string)
	lib.Must(filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel := lib.Must1(filepath.Rel(dir, path))
		switch {
		case info.Mode().IsRegular():
			res[rel] = fmt.Sprintf("%v %x", info.Mode(), lib.Must1(os.ReadFile(path)))
		case info.Mode()&os.ModeSymlink != 0:
			res[rel] = "link to " + lib.Must1(os.Readlink(path))
		default:
			res[rel] = info.Mode().String()
		}
		return nil
	}))
	return res
}

func flagsOf(w lib.World) viewer.RenderFlags {
	return viewer.RenderFlags{Predicates: sparkl.Predicates{SameAs: labels(w.SameAs), InverseOf: labels(w.Inverses)}}
}
