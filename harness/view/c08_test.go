package view

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// Exported is a case
type Exported struct {
	W    lib.World `json:"w"`
	F    Flags     `json:"f"`
	Disk bool      `json:"disk,omitempty"`
	Pad  int       `json:"pad,omitempty"` // size of existing output file
}

// clean drops nulls and empty collections
func clean(v any) any {
	switch v := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, x := range v {
			if y := clean(x); y != nil {
				m[k] = y
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	case []any:
		if len(v) == 0 {
			return nil
		}
		for i := range v {
			v[i] = clean(v[i])
		}
	}
	return v
}

func cleanJSON(data []byte) (string, error) {
	var v any
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		return "", err
	}
	return string(lib.Must1(json.Marshal(clean(v)))), nil
}

// names collects all names used in a world
func names(w lib.World) []string {
	m := map[string]bool{"http://unknown.example/x": true, "": true}
	for _, q := range w.Quads {
		m[q.S.Label()] = true
		m[q.P] = true
		if q.O.K != "l" {
			m[q.O.Label()] = true
		}
	}
	return lib.SortedKeys(m)
}

// snapshot is everything observable about a glass
func snapshot(g glass.Glass, uris []string) (snap map[string]string, err error) {
	snap = map[string]string{}
	put := func(key string, v any) {
		data := lib.Must1(json.Marshal(v))
		s, err := cleanJSON(data)
		lib.Must(err)
		snap[key] = s
	}
	xml, err := pbxml.Marshal(g.Pathbuilder)
	if err != nil {
		return nil, err
	}
	snap["pathbuilder"] = string(xml)
	put("flags", g.Flags)
	put("bundles", g.Cache.BundleNames())
	v := newViewer(g)
	pages := []string{"/", "/about", "/pathbuilder", "/tipsy", "/api/v1", "/api/v1/progress", "/bundle/unknown"}
	for _, b := range g.Cache.BundleNames() {
		es := g.Cache.Entities(b)
		put("entities "+b, es)
		var ids [][]impl.ID
		for _, e := range es {
			var l []impl.ID
			for _, t := range e.AllTriples() {
				l = append(l, t.ID)
			}
			ids = append(ids, l)
		}
		put("triple ids "+b, ids)
		pages = append(pages, "/bundle/"+p(b), "/api/v1/bundle/"+p(b))
		for i, e := range es {
			if i >= 6 {
				break
			}
			for _, pre := range []string{"/entity/", "/api/v1/entity/", "/api/v1/ntriples/", "/api/v1/turtle/"} {
				pages = append(pages, pre+p(b)+"?uri="+q(string(e.URI)))
			}
		}
	}
	for _, u := range uris {
		l := impl.Label(u)
		b, ok := g.Cache.Bundle(l)
		put("name "+u, []any{g.Cache.Canonical(l), b, ok})
		put("aliases "+u, g.Cache.Aliases(l))
		for _, b := range g.Cache.BundleNames() {
			e, ok := g.Cache.Entity(l, b)
			if ok {
				put("entity "+b+" "+u, e)
			} else {
				put("entity "+b+" "+u, false)
			}
		}
	}
	for _, target := range pages {
		r := get(v, target)
		if err := r.sane(target); err != nil {
			return nil, err
		}
		head := fmt.Sprint(r.Code, r.Header)
		body := string(r.Body)
		if r.Header.Get("Content-Type") == "application/json" {
			if c, err := cleanJSON(r.Body); err == nil {
				body = c
			}
		}
		snap["page "+target] = head + "\n" + body
	}
	return snap, nil
}

func diffSnap(a, b map[string]string) error {
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	list := make([]string, 0, len(keys))
	for k := range keys {
		list = append(list, k)
	}
	sort.Strings(list)
	for _, k := range list {
		x, okx := a[k]
		y, oky := b[k]
		if okx != oky || x != y {
			return fmt.Errorf("%q differs:\nbefore: %v %s\nafter:  %v %s", k, okx, lib.Trim(x, 1500), oky, lib.Trim(y, 1500))
		}
	}
	return nil
}

func exportImport(g glass.Glass, path string) (res glass.Glass, err error) {
	if err := glass.Export(path, g, nil); err != nil {
		return res, fmt.Errorf("export: %w", err)
	}
	res, err = glass.Import(path, nil)
	if err != nil {
		return res, fmt.Errorf("import: %w", err)
	}
	return res, nil
}

// trips exports and imports g twice
func trips(g glass.Glass, uris []string, pad int) error {
	dir, cleanup := lib.TempDir()
	defer cleanup()
	before, err := snapshot(g, uris)
	if err != nil {
		return err
	}
	path := filepath.Join(dir, "export")
	if pad > 0 {
		lib.Must(os.WriteFile(path, bytes.Repeat([]byte("x"), pad), 0o600))
	}
	g1, err := exportImport(g, path)
	if err != nil {
		return err
	}
	after, err := snapshot(g, uris)
	if err != nil {
		return err
	}
	if err := diffSnap(before, after); err != nil {
		return fmt.Errorf("exporting changed the data: %w", err)
	}
	s1, err := snapshot(g1, uris)
	if err != nil {
		return fmt.Errorf("imported: %w", err)
	}
	if err := diffSnap(before, s1); err != nil {
		return fmt.Errorf("imported: %w", err)
	}
	// over the same file
	g2, err := exportImport(g1, path)
	if err != nil {
		return err
	}
	s2, err := snapshot(g2, uris)
	if err != nil {
		return fmt.Errorf("imported twice: %w", err)
	}
	if err := diffSnap(before, s2); err != nil {
		return fmt.Errorf("imported twice: %w", err)
	}
	return nil
}

func TestC08_roundtrip(t *testing.T) {
	lib.Run(t, lib.Prop[Exported]{
		Name:  "C08.roundtrip",
		Rule:  "generated pathbuilder, data (with identities, inverses, blank nodes) and display options, loaded in memory or with a cache directory; exported and imported twice (also over an existing file); pathbuilder, options, entities with evidence, names, aliases, and all pages, downloads and headers are compared; non-trivial when an entity has a value or a child and some uri has another name",
		Quick: 400, Thorough: 20000,
		Gen: func(t *rapid.T) Exported {
			w := lib.GenWorld(t, lib.GenOpts{Matches: 120, MaxQuads: 40})
			return Exported{W: w, F: genFlags(t), Disk: lib.Chance(t, "disk", 20), Pad: lib.Pick(t, "pad", []int{0, 0, 1, 100000})}
		},
		Check: func(c Exported, r *lib.Rec) error {
			g, err := create(c.W, c.F, c.Disk)
			if err != nil {
				return fmt.Errorf("load: %w", err)
			}
			var values, children, aliases int
			for _, b := range g.Cache.BundleNames() {
				for _, e := range g.Cache.Entities(b) {
					for _, f := range e.Fields {
						values += len(f)
					}
					for _, f := range e.Children {
						children += len(f)
					}
				}
			}
			ns := names(c.W)
			for _, n := range ns {
				aliases += len(g.Cache.Aliases(impl.Label(n)))
			}
			r.ClassIf(values > 0, "values")
			r.ClassIf(children > 0, "children")
			r.ClassIf(aliases > 0, "aliases")
			r.ClassIf(c.Disk, "disk")
			r.ClassIf(c.F.Public != "", "public url")
			r.ClassIf(len(g.Cache.BundleNames()) > 1, "several bundles")
			r.NontrivialIf(values+children > 0 && aliases > 0)
			return trips(g, ns, c.Pad)
		},
	})
}

// Synth are synthetic entities
type Synth struct {
	F     Flags `json:"f"`
	Seed  int   `json:"seed"`
	Sizes []int `json:"sizes"` // entities per bundle
	Len   int   `json:"len"`   // typical length of values
}

type lcg uint64

func (l *lcg) n(n int) int {
	*l = *l*6364136223846793005 + 1442695040888963407
	return int(uint64(*l)>>33) % n
}

// loose drops everything from a snapshot that may differ between two loads: the order of entities and aliases
func loose(snap map[string]string, g glass.Glass, uris []string) map[string]string {
	in := map[string]int{}
	for _, b := range g.Cache.BundleNames() {
		var all []string
		for _, e := range g.Cache.Entities(b) {
			in[string(e.URI)]++
			all = append(all, string(e.URI))
		}
		snap["entities "+b] = fmt.Sprintf("%q", sorted(all))
		delete(snap, "triple ids "+b)
	}
	for _, u := range uris {
		snap["aliases "+u] = fmt.Sprintf("%q", sorted(strs(g.Cache.Aliases(impl.Label(u)))))
		if canon := string(g.Cache.Canonical(impl.Label(u))); in[canon] > 1 {
			delete(snap, "name "+u)
		}
	}
	for k := range snap {
		if strings.HasPrefix(k, "page ") {
			delete(snap, k)
		}
	}
	return snap
}

func (c Synth) build() (lib.World, map[string][]wisski.Entity, map[string]string) {
	rnd := lcg(c.Seed)
	var w lib.World
	data := map[string][]wisski.Entity{}
	same := map[string]string{}
	id := impl.ID{}
	value := func() string {
		n := c.Len
		if n > 0 {
			n = rnd.n(n + 1)
		}
		var b bytes.Buffer
		for b.Len() < n {
			b.WriteString(lib.Values[rnd.n(len(lib.Values))])
			b.WriteByte(byte('a' + rnd.n(26)))
		}
		return b.String()
	}
	triples := func(uri string) (ts []igraph.Triple) {
		for i := rnd.n(3); i >= 0; i-- {
			id = id.Inc()
			ts = append(ts, igraph.Triple{
				ID: id, Subject: impl.Label(uri), SSubject: impl.Label(uri), Predicate: "http://o.example/p", SPredicate: "http://o.example/p",
				Datum: impl.Datum(value()), Language: "de", Role: igraph.Data,
			})
		}
		return
	}
	for i, n := range c.Sizes {
		b := fmt.Sprintf("b%d", i)
		w.Paths = append(w.Paths, lib.PathDef{ID: b, IsGroup: true, Arr: []string{lib.Classes[0]}, Name: value()},
			lib.PathDef{ID: b + "f", Group: b, Arr: []string{lib.Classes[0]}, DT: lib.DataProps[0], FType: "text", Name: "Field"})
		data[b] = []wisski.Entity{}
		for j := 0; j < n; j++ {
			uri := fmt.Sprintf("http://s.example/%d/%d", i, j)
			e := wisski.Entity{URI: impl.Label(uri), Path: []impl.Label{impl.Label(uri)}, Triples: triples(uri)}
			e.Fields = map[string][]wisski.FieldValue{b + "f": nil}
			for k := rnd.n(3); k > 0; k-- {
				e.Fields[b+"f"] = append(e.Fields[b+"f"], wisski.FieldValue{
					Value: impl.Datum(value()), Language: impl.Language(lib.Langs[rnd.n(len(lib.Langs))]), Path: []impl.Label{impl.Label(uri)}, Triples: triples(uri),
				})
			}
			data[b] = append(data[b], e)
			if rnd.n(4) == 0 {
				same[uri+"/alias"] = uri
			}
		}
	}
	return w, data, same
}

func TestC08_large(t *testing.T) {
	lib.Run(t, lib.Prop[Synth]{
		Name:  "C08.large",
		Rule:  "caches made directly from up to thousands of entities, and from values of up to 200 kB, exported and imported twice; non-trivial with at least 300 entities or values beyond 4 kB",
		Quick: 32, Thorough: 800,
		Gen: func(t *rapid.T) Synth {
			c := Synth{F: genFlags(t), Seed: rapid.IntRange(1, 1<<30).Draw(t, "seed")}
			if rapid.Bool().Draw(t, "many") {
				c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 127, 128, 255, 256, 257, 1000, 2500}), 1, 4).Draw(t, "sizes")
				c.Len = 40
			} else {
				c.Sizes = rapid.SliceOfN(rapid.IntRange(0, 12), 1, 3).Draw(t, "sizes")
				c.Len = rapid.SampledFrom([]int{10, 4096, 70000, 200000}).Draw(t, "len")
			}
			return c
		},
		Check: func(c Synth, r *lib.Rec) error {
			w, data, same := c.build()
			n := 0
			for _, s := range c.Sizes {
				n += s
			}
			r.NontrivialIf(n >= 300 || n > 0 && c.Len >= 4096)
			g := glass.Glass{Pathbuilder: loadPB(w), Cache: newCache(data, same), Flags: c.F.Render(w)}
			var uris []string
			for k, v := range same {
				uris = append(uris, k, v)
			}
			sort.Strings(uris)
			if len(uris) > 200 {
				uris = uris[:200]
			}
			return trips(g, uris, 0)
		},
	})
}

func TestC08_command(t *testing.T) {
	lib.Run(t, lib.Prop[Exported]{
		Name:  "C08.command",
		Rule:  "as C08.roundtrip, but the export is made by the hangover command; it must import as what loading directly gives; non-trivial when there is an entity",
		Quick: 32, Thorough: 1500,
		Gen: func(t *rapid.T) Exported {
			w := lib.GenWorld(t, lib.GenOpts{Matches: 120, MaxQuads: 30})
			return Exported{W: w, F: genFlags(t), Disk: lib.Chance(t, "disk", 20)}
		},
		Check: func(c Exported, r *lib.Rec) error {
			g, err := create(c.W, c.F, c.Disk)
			if err != nil {
				return fmt.Errorf("load: %w", err)
			}
			n := 0
			for _, b := range g.Cache.BundleNames() {
				n += len(g.Cache.Entities(b))
			}
			r.NontrivialIf(n > 0)
			dir, cleanup := lib.TempDir()
			defer cleanup()
			xml, nq := lib.WriteWorld(dir, c.W)
			out := filepath.Join(dir, "out.glass")
			args := append(lib.PredicateArgs(c.W), "-public", c.F.Public, "-tipsy", c.F.Tipsy, "-export", out)
			for name, on := range map[string]bool{"-html": c.F.HTML, "-images": c.F.Image, "-strict-csp": c.F.Strict} {
				if on {
					args = append(args, name)
				}
			}
			if c.Disk {
				args = append(args, "-cache", filepath.Join(dir, "cache"))
			}
			res, err := lib.RunProg(lib.RunOpts{Dir: dir}, lib.Bin("hangover"), append(args, xml, nq)...)
			if err != nil {
				return err
			}
			if res.Code != 0 {
				return fmt.Errorf("hangover -export failed: %d %s", res.Code, lib.Trim(string(res.Stderr), 1500))
			}
			imported, err := glass.Import(out, nil)
			if err != nil {
				return fmt.Errorf("import: %w", err)
			}
			ns := names(c.W)
			a, err := snapshot(g, ns)
			if err != nil {
				return err
			}
			b, err := snapshot(imported, ns)
			if err != nil {
				return err
			}
			return diffSnap(loose(a, g, ns), loose(b, imported, ns))
		},
	})
}
