package spark

import (
	"fmt"
	"strings"
	"testing"
	"unicode"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// refSplit splits a list of predicates, by walking over its characters.
func refSplit(s string) (res []string) {
	var cur []rune
	flush := func() {
		for len(cur) > 0 && unicode.IsSpace(cur[0]) {
			cur = cur[1:]
		}
		for len(cur) > 0 && unicode.IsSpace(cur[len(cur)-1]) {
			cur = cur[:len(cur)-1]
		}
		if len(cur) > 0 {
			res = append(res, string(cur))
		}
		cur = nil
	}
	for _, r := range s {
		if r == ',' || r == '\n' {
			flush()
			continue
		}
		cur = append(cur, r)
	}
	flush()
	return
}

type PredText struct {
	Text string `json:"text"`
}

// C29: splitting
func TestC29_split(t *testing.T) {
	lib.Run(t, lib.Prop[PredText]{
		Name:  "C29.split",
		Rule:  "random texts of uris, commas, line breaks, spaces and arbitrary characters, compared with a character-wise splitter; non-trivial when there are at least two entries",
		Quick: 6000, Thorough: 400000,
		Gen: func(t *rapid.T) (c PredText) {
			parts := rapid.SliceOfN(rapid.OneOf(
				rapid.SampledFrom([]string{",", ",", "\n", "\n", " ", "\t", "\r\n", "\u00a0", "\u2003", "http://a.example/x", "http://a.example/y?a=1;b#c", "x", ",,", "\n,\n", "<http://x>", "#", ";", "\u200b", "\v"}),
				rapid.StringN(0, 5, -1),
			), 0, 12).Draw(t, "parts")
			c.Text = strings.ToValidUTF8(strings.Join(parts, ""), "")
			return
		},
		Check: func(c PredText, r *lib.Rec) error {
			want := refSplit(c.Text)
			r.NontrivialIf(len(want) >= 2)
			var got []string
			for _, l := range sparkl.ParsePredicateString(c.Text) {
				got = append(got, string(l))
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				return fmt.Errorf("%q is read as %q, want %q", c.Text, got, want)
			}
			return nil
		},
	})
}

// ListedPreds is a world together with the lists as given by the user
type ListedPreds struct {
	W       lib.World `json:"w"`
	SameAs  string    `json:"sameas"`
	Inverse string    `json:"inverse"`
}

var predPool = []string{
	lib.OWLSameAs, lib.OWLInverse, "http://x.example/same", "http://x.example/sameAs", "http://x.example/SAME", "http://x.example/same#", "http://x.example/same/", "http://x.example/", "http://x.example/inverse",
}

func genList(t *rapid.T, name string, pool []string) (string, []string) {
	var sb strings.Builder
	var list []string
	n := rapid.IntRange(0, 4).Draw(t, name)
	for i := 0; i < n; i++ {
		p := lib.Pick(t, name+"-p", pool)
		list = append(list, p)
		sb.WriteString(lib.Pick(t, name+"-pre", []string{"", "", " ", "\t", "\n", "\r\n", ","}))
		sb.WriteString(p)
		sb.WriteString(lib.Pick(t, name+"-post", []string{",", ",", "\n", " ,", " \n ", "\r\n", ",,"}))
	}
	return sb.String(), list
}

func genListed(t *rapid.T) (c ListedPreds) {
	c.W = lib.GenWorld(t, lib.GenOpts{MaxQuads: 20, NoSameAs: true, NoInverse: true})
	c.SameAs, c.W.SameAs = genList(t, "sameas", predPool)
	taken := map[string]bool{}
	for _, p := range c.W.SameAs {
		taken[p] = true
	}
	var rest []string
	for _, p := range predPool {
		if !taken[p] {
			rest = append(rest, p)
		}
	}
	c.Inverse, c.W.Inverses = genList(t, "inverse", rest)
	var nodes []lib.Term
	for _, q := range c.W.Quads {
		nodes = append(nodes, q.S)
	}
	nodes = append(nodes, lib.IRI("http://i.example/other"))
	inverse := map[string]bool{}
	for _, p := range c.W.Inverses {
		inverse[p] = true
	}
	pairs := [][2]string{{lib.Props[0], lib.Props[1]}, {lib.Props[2], "http://inv.example/2"}, {lib.Props[3], "http://inv.example/3"}}
	for i := rapid.IntRange(0, 6).Draw(t, "special"); i > 0; i-- {
		p := lib.Pick(t, "pred", predPool)
		at := rapid.IntRange(0, len(c.W.Quads)).Draw(t, "at")
		q := lib.Quad{S: lib.Pick(t, "s", nodes), P: p, O: lib.Pick(t, "o", nodes)}
		if inverse[p] || lib.Chance(t, "properties", 20) && !taken[p] {
			pr := lib.Pick(t, "pair", pairs)
			q.S, q.O = lib.IRI(pr[0]), lib.IRI(pr[1])
		}
		if lib.Chance(t, "literal", 8) {
			q.O = lib.Lit("x", "")
		}
		c.W.Quads = append(c.W.Quads[:at], append([]lib.Quad{q}, c.W.Quads[at:]...)...)
	}
	return
}

// C29: exactly the listed predicates are special
func TestC29_extract(t *testing.T) {
	lib.Run(t, lib.Prop[ListedPreds]{
		Name:  "C29.extract",
		Rule:  "lists of identity and inverse predicates with random separators, and data using listed and similar unlisted predicates; the extraction must be that of the reference evaluator given the list; non-trivial when both a listed and an unlisted predicate occur in the data",
		Quick: 700, Thorough: 30000,
		Gen: genListed,
		Check: func(c ListedPreds, r *lib.Rec) error {
			listed, unlisted := false, false
			set := map[string]bool{}
			for _, p := range append(append([]string{}, c.W.SameAs...), c.W.Inverses...) {
				set[p] = true
			}
			for _, q := range c.W.Quads {
				for _, p := range predPool {
					if q.P == p {
						listed = listed || set[p]
						unlisted = unlisted || !set[p]
					}
				}
			}
			r.NontrivialIf(listed && unlisted)
			want := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses).Evaluate(c.W.Paths)
			w := c.W
			w.SameAs, w.Inverses = nil, nil
			for _, p := range sparkl.ParsePredicateString(c.SameAs) {
				w.SameAs = append(w.SameAs, string(p))
			}
			for _, p := range sparkl.ParsePredicateString(c.Inverse) {
				w.Inverses = append(w.Inverses, string(p))
			}
			got, err := Extract(w, Options{})
			if err != nil {
				return err
			}
			return want.Diff(got)
		},
	})
}

// C29: through the command line
func TestC29_n2j(t *testing.T) {
	lib.Run(t, lib.Prop[ListedPreds]{
		Name:  "C29.n2j",
		Rule:  "the same lists, given to n2j on the command line; non-trivial when a list is not empty",
		Quick: 24, Thorough: 1200,
		Gen: genListed,
		Check: func(c ListedPreds, r *lib.Rec) error {
			r.NontrivialIf(len(c.W.SameAs)+len(c.W.Inverses) > 0)
			want := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses).Evaluate(c.W.Paths)
			w := c.W
			w.SameAs, w.Inverses = []string{c.SameAs}, []string{c.Inverse}
			got, err := runN2J(w)
			if err != nil {
				return err
			}
			return want.Diff(lib.REntities(got))
		},
	})
}
