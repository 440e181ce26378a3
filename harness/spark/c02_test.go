package spark

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// TwoWay is a world, with data that may be damaged
type TwoWay struct {
	W     lib.World `json:"w"`
	Bad   string    `json:"bad,omitempty"`   // line to insert
	BadAt int       `json:"badAt,omitempty"` // where to insert it
	Reuse bool      `json:"reuse,omitempty"` // load some other data into the same directory first
}

var badLines = []string{
	"garbage", "<http://x.example/s> <http://x.example/p> .", "<http://x.example/s> <http://x.example/p> \"unterminated .",
	"<http://x.example/s> \"literal\" <http://x.example/o> .", "<http://x.example/s <http://x.example/p> <http://x.example/o> .",
	"<http://x.example/s> <http://x.example/p> <http://x.example/o>",
}

func (c TwoWay) nq() []byte {
	data := string(c.W.NQ())
	if c.Bad == "" {
		return []byte(data)
	}
	lines := strings.SplitAfter(data, "\n")
	i := min(c.BadAt, len(lines)-1)
	return []byte(strings.Join(lines[:i], "") + c.Bad + "\n" + strings.Join(lines[i:], ""))
}

// hostile values and names, also a long one
var c02Values = rapid.OneOf(
	rapid.SampledFrom(lib.Values),
	rapid.SampledFrom([]string{"\x00", "a\x00b", "\x01\xc2\x80", strings.Repeat("long ", 3000), "\u0000\u0000", "�", "\U0010ffff"}),
	rapid.StringN(0, 20, -1),
)

var c02Instances = append([]string{
	"http://i.example/" + strings.Repeat("l", 600), "x:", "http://i.example/\u0080", "http://i.example/ÿ", "urn:a", "urn:aa", "urn:", "http://i.example/a/", "http://i.example/A",
}, lib.Instances...)

func genC02(t *rapid.T, max int) (c TwoWay) {
	o := lib.GenOpts{Values: c02Values, Instances: c02Instances, MaxQuads: max}
	c.W = lib.GenWorld(t, o)
	if lib.Chance(t, "odd", 30) {
		// machine names of any form
		for i := range c.W.Paths {
			p := &c.W.Paths[i]
			if p.IsGroup && lib.Chance(t, "rename", 50) {
				old := p.ID
				p.ID = lib.Pick(t, "id", []string{"a/b", "..", "ü", strings.Repeat("n", 300), "a b", "A", "a", "a\tb", "0x", "-", "a.b", "%00", "bundle:1"}) + fmt.Sprint(i)
				for j := range c.W.Paths {
					if c.W.Paths[j].Group == old {
						c.W.Paths[j].Group = p.ID
					}
				}
			}
		}
	}
	if lib.Chance(t, "bad", 8) {
		c.Bad = lib.Pick(t, "line", badLines)
		c.BadAt = rapid.IntRange(0, len(c.W.Quads)).Draw(t, "badAt")
	}
	c.Reuse = lib.Chance(t, "reuse", 25)
	return c
}

// fullKeys encodes entities with everything that is known about them.
// single tells if the path and triples of an entity are unique.
func fullKeys(m map[string][]lib.JSONEntity, single func(bundle, uri string) bool) map[string][]string {
	str := func(v any) string {
		b, err := json.Marshal(v)
		lib.Must(err)
		return string(b)
	}
	var enc func(bundle string, e lib.JSONEntity) string
	enc = func(bundle string, e lib.JSONEntity) string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%q", e.URI)
		if single(bundle, e.URI) {
			fmt.Fprintf(&sb, " path=%s triples=%s", str(e.Path), str(e.Triples))
		}
		for _, f := range lib.SortedKeys(e.Fields) {
			var vs []string
			for _, v := range e.Fields[f] {
				vs = append(vs, str(v))
			}
			sort.Strings(vs)
			if len(vs) > 0 {
				fmt.Fprintf(&sb, " %q=%s", f, strings.Join(vs, "|"))
			}
		}
		for _, b := range lib.SortedKeys(e.Children) {
			var cs []string
			for _, c := range e.Children[b] {
				cs = append(cs, enc(b, c))
			}
			sort.Strings(cs)
			if len(cs) > 0 {
				fmt.Fprintf(&sb, " %q={%s}", b, strings.Join(cs, "|"))
			}
		}
		return sb.String()
	}
	res := map[string][]string{}
	for b, es := range m {
		res[b] = []string{}
		for _, e := range es {
			res[b] = append(res[b], enc(b, e))
		}
		sort.Strings(res[b])
	}
	return res
}

func diffKeys(a, b map[string][]string) error {
	if x, y := fmt.Sprint(lib.SortedKeys(a)), fmt.Sprint(lib.SortedKeys(b)); x != y {
		return fmt.Errorf("bundles differ: %s and %s", x, y)
	}
	for _, k := range lib.SortedKeys(a) {
		if len(a[k]) != len(b[k]) {
			return fmt.Errorf("bundle %q: %d entities in memory, %d on disk\nmemory %s\ndisk   %s", k, len(a[k]), len(b[k]), lib.Trim(fmt.Sprint(a[k]), 1500), lib.Trim(fmt.Sprint(b[k]), 1500))
		}
		for i := range a[k] {
			if a[k][i] != b[k][i] {
				return fmt.Errorf("bundle %q differs\nmemory %s\ndisk   %s", k, a[k][i], b[k][i])
			}
		}
	}
	return nil
}

func singleMatch(want *lib.RefResult) func(b, u string) bool {
	return func(b, u string) bool { return len(want.Matches[b+"\x00"+u]) == 1 }
}

// C02: both backends agree, in-process
func TestC02_inproc(t *testing.T) {
	lib.Run(t, lib.Prop[TwoWay]{
		Name:  "C02.inproc",
		Rule:  "as C01, with arbitrary (also binary, empty and very long) values, uris and bundle names, possibly a malformed line, possibly a directory which was used before; loaded in memory and on disk; non-trivial when an entity has a value or child",
		Quick: 220, Thorough: 12000,
		Gen: func(t *rapid.T) TwoWay { return genC02(t, 20) },
		Check: func(c TwoWay, r *lib.Rec) error {
			want := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses).Evaluate(c.W.Paths)
			classify(c.W, want, r)
			nq := c.nq()
			var idm, idd map[string]string
			mem, err1 := ExtractJSON(c.W, Options{NQ: nq, After: func(x *igraph.Index) (err error) { idm, err = identities(x); return }})
			dir, cleanup := lib.TempDir()
			defer cleanup()
			if c.Reuse {
				r.Class("reused-directory")
				other := c.W
				other.Quads = append([]lib.Quad{}, other.Quads...)
				for i := range other.Quads {
					if q := &other.Quads[i]; q.O.K == "l" {
						q.O.V += "old"
					} else if i%3 == 0 {
						q.S = lib.IRI("http://old.example/" + fmt.Sprint(i))
					}
				}
				if _, err := ExtractJSON(other, Options{Disk: true, Dir: dir}); err != nil {
					return fmt.Errorf("loading on disk fails: %w", err)
				}
			}
			disk, err2 := ExtractJSON(c.W, Options{NQ: nq, Disk: true, Dir: dir, After: func(x *igraph.Index) (err error) { idd, err = identities(x); return }})
			if (err1 != nil) != (err2 != nil) {
				return fmt.Errorf("loading in memory: %v; on disk: %v", err1, err2)
			}
			if c.Bad != "" {
				r.Class("malformed")
				if err1 == nil {
					return fmt.Errorf("malformed line %q was not reported", c.Bad)
				}
				return nil
			}
			if err1 != nil {
				return err1
			}
			if a, b := fmt.Sprint(idm), fmt.Sprint(idd); a != b {
				return fmt.Errorf("identities differ\nmemory %s\ndisk   %s", a, b)
			}
			s := singleMatch(want)
			return diffKeys(fullKeys(mem, s), fullKeys(disk, s))
		},
	})
}

// C02: n2j with and without -cache
func TestC02_n2j(t *testing.T) {
	lib.Run(t, lib.Prop[TwoWay]{
		Name:  "C02.n2j",
		Rule:  "as C02.inproc, with the n2j binary run with and without -cache on the same files; non-trivial when an entity has a value or child",
		Quick: 32, Thorough: 1600,
		Gen: func(t *rapid.T) TwoWay {
			c := genC02(t, 40)
			if lib.Chance(t, "good", 80) {
				c.Bad = ""
			}
			return c
		},
		Check: func(c TwoWay, r *lib.Rec) error {
			want := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses).Evaluate(c.W.Paths)
			classify(c.W, want, r)
			dir, cleanup := lib.TempDir()
			defer cleanup()
			mem, err1 := runN2JData(c.W, c.nq())
			if c.Reuse {
				if _, err := runN2JData(c.W, nil, "-cache", dir); err != nil {
					return fmt.Errorf("with a cache: %w", err)
				}
			}
			disk, err2 := runN2JData(c.W, c.nq(), "-cache", dir)
			if (err1 != nil) != (err2 != nil) {
				return fmt.Errorf("n2j without cache: %v; with cache: %v", err1, err2)
			}
			if c.Bad != "" {
				r.Class("malformed")
				if err1 == nil {
					return fmt.Errorf("malformed line %q was not reported", c.Bad)
				}
				return nil
			}
			if err1 != nil {
				return err1
			}
			s := singleMatch(want)
			return diffKeys(fullKeys(mem, s), fullKeys(disk, s))
		},
	})
}

// C02: many entities
func TestC02_big(t *testing.T) {
	lib.Run(t, lib.Prop[Big]{
		Name:  "C02.big",
		Rule:  "up to 1500 entities with values, shared children and relations, made from a seed, loaded in memory and on disk; non-trivial when there are more than 100 entities",
		Quick: 8, Thorough: 240,
		Gen: func(t *rapid.T) Big { return GenBig(t, 1500) },
		Check: func(b Big, r *lib.Rec) error {
			w := b.World()
			want := lib.NewRefGraph(w.Quads, w.SameAs, w.Inverses).Evaluate(w.Paths)
			r.NontrivialIf(b.Entities > 100)
			mem, err := ExtractJSON(w, Options{})
			if err != nil {
				return err
			}
			disk, err := ExtractJSON(w, Options{Disk: true})
			if err != nil {
				return err
			}
			s := singleMatch(want)
			return diffKeys(fullKeys(mem, s), fullKeys(disk, s))
		},
	})
}
