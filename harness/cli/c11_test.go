package cli

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// parseCSV reads a csv file (RFC 4180, with line feeds or carriage returns and line feeds), keeping everything in quotes as it is
func parseCSV(data string) (records [][]string, err error) {
	for len(data) > 0 {
		var rec []string
		for {
			var cell strings.Builder
			if strings.HasPrefix(data, "\"") {
				data = data[1:]
				for {
					i := strings.IndexByte(data, '"')
					if i < 0 {
						return nil, fmt.Errorf("quote is not closed")
					}
					cell.WriteString(data[:i])
					data = data[i+1:]
					if !strings.HasPrefix(data, "\"") {
						break
					}
					cell.WriteByte('"')
					data = data[1:]
				}
				if data != "" && data[0] != ',' && data[0] != '\n' && !strings.HasPrefix(data, "\r\n") {
					return nil, fmt.Errorf("unexpected %q after quote", lib.Trim(data, 20))
				}
			} else {
				i := strings.IndexAny(data, ",\n")
				if i < 0 {
					i = len(data)
				}
				text := data[:i]
				if i < len(data) && data[i] == '\n' {
					text = strings.TrimSuffix(text, "\r")
				}
				if strings.ContainsAny(text, "\"\r") {
					return nil, fmt.Errorf("unquoted text %q", text)
				}
				cell.WriteString(text)
				data = data[len(text):]
			}
			rec = append(rec, cell.String())
			if strings.HasPrefix(data, ",") {
				data = data[1:]
				if data == "" {
					rec = append(rec, "")
				}
				continue
			}
			break
		}
		switch {
		case strings.HasPrefix(data, "\r\n"):
			data = data[2:]
		case strings.HasPrefix(data, "\n"):
			data = data[1:]
		}
		records = append(records, rec)
	}
	return
}

// readCSV reads a directory of csv files
func readCSV(dir string) (map[string]*Table, error) {
	res := make(map[string]*Table)
	for _, e := range lib.Must1(os.ReadDir(dir)) {
		name, ok := strings.CutSuffix(e.Name(), ".csv")
		if !ok {
			return nil, fmt.Errorf("unexpected file %q", e.Name())
		}
		name, err := url.PathUnescape(name)
		if err != nil {
			return nil, fmt.Errorf("bad name of a file %q: %w", e.Name(), err)
		}
		data := string(lib.Must1(os.ReadFile(filepath.Join(dir, e.Name()))))
		records, err := parseCSV(data)
		if err != nil {
			return nil, fmt.Errorf("%s: %w: %q", e.Name(), err, lib.Trim(data, 1000))
		}
		if len(records) == 0 {
			return nil, fmt.Errorf("%s has no header", e.Name())
		}
		t := &Table{Columns: records[0]}
		for _, rec := range records[1:] {
			if len(rec) != len(t.Columns) {
				return nil, fmt.Errorf("%s: record %q does not fit header %q", e.Name(), rec, t.Columns)
			}
			row := make(map[string]Cell)
			for i, c := range t.Columns {
				row[c] = Cell{Text: rec[i]}
			}
			t.Rows = append(t.Rows, row)
		}
		res[name] = t
	}
	return res, nil
}

// noNull does away with the difference between no text and an empty text
func noNull(tables map[string]*Table) map[string]*Table {
	for _, t := range tables {
		for _, row := range t.Rows {
			for c, cell := range row {
				row[c] = Cell{Text: cell.Text}
			}
		}
	}
	return tables
}

// Tables is a case
type Tables struct {
	Step  Step           `json:"step"`
	Large *Large         `json:"large,omitempty"`
	Old   map[string]int `json:"old,omitempty"` // files that are already there, and how long they are
}

func genTables(t *rapid.T) (c Tables) {
	c.Step = genExports(t).Steps[0]
	if lib.Chance(t, "is large", 10) {
		l := genLarge(t)
		c.Large = &l
		c.Step.W = lib.World{}
	}
	c.Old = make(map[string]int)
	for i := rapid.IntRange(0, 2).Draw(t, "old"); i > 0; i-- {
		c.Old[lib.Pick(t, "file", []string{"bundle__b1.csv", "bundle__top.csv", "bundle__b2.csv", "field__b1__f2.csv"})] = rapid.IntRange(0, 3000).Draw(t, "length")
	}
	return
}

func checkTables(c Tables, r *lib.Rec) error {
	w := c.Step.W
	if c.Large != nil {
		w = c.Large.world()
	}
	js, err := extract(w)
	if err != nil {
		return err
	}
	want := noNull(wantTables(w.Paths, js, c.Step.Sep, c.Step.FieldTables))
	dir, cleanup := lib.TempDir()
	defer cleanup()
	out := filepath.Join(dir, "csv")
	lib.Must(os.Mkdir(out, 0o755))
	for name, n := range c.Old {
		if want[strings.TrimSuffix(name, ".csv")] != nil {
			lib.Must(os.WriteFile(filepath.Join(out, name), []byte(strings.Repeat("old,", n)), 0o644))
		}
	}
	args := []string{"-sql-seperator", c.Step.Sep}
	if c.Step.FieldTables {
		args = append(args, "-sql-field-tables")
	}
	err = n2jTo(dir, w, append(args, "-csv", out)...)
	if c := clash(w.Paths, c.Step.FieldTables); c != "" {
		if err == nil {
			return fmt.Errorf("n2j succeeds although %s", c)
		}
		return nil
	}
	if err != nil {
		return err
	}
	got, err := readCSV(out)
	if err != nil {
		return err
	}
	if err := diffTables(want, got, false); err != nil {
		return fmt.Errorf("csv: %w", err)
	}
	if c.Step.Batch%2 == 1 { // compare with the other format
		path := filepath.Join(dir, "out.sqlite")
		if err := n2jTo(dir, w, append(args, "-sqlite", path)...); err != nil {
			return err
		}
		db, err := readDB(path)
		if err != nil {
			return err
		}
		if err := diffTables(noNull(db), got, false); err != nil {
			return fmt.Errorf("csv does not agree with sqlite: %w", err)
		}
		r.Class("compared with sqlite")
	}
	special := false
	for _, t := range want {
		for _, row := range t.Rows {
			for _, cell := range row {
				special = special || strings.ContainsAny(cell.Text, ",\"\r\n")
			}
		}
	}
	r.ClassIf(special, "has special characters")
	r.NontrivialIf(special || c.Large != nil)
	return nil
}

func TestC11_csv(t *testing.T) {
	lib.Run(t, lib.Prop[Tables]{
		Name:  "C11.csv",
		Rule:  "generated pathbuilders and data exported by n2j as csv (over existing files) and as sqlite; non-trivial when a text needs quoting, or there are many entities",
		Quick: 80, Thorough: 4000,
		Gen:   genTables,
		Check: checkTables,
	})
}
