package spark

import (
	"fmt"
	"testing"

	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// Config is a world, and other ways of loading it
type Config struct {
	W       lib.World  `json:"w"`
	Compact int        `json:"compact"`
	Noise   []lib.Quad `json:"noise"`
	At      []int      `json:"at"` // positions of the noise
	Disk    bool       `json:"disk,omitempty"`
}

func (c Config) noisy() lib.World {
	w := c.W
	w.Quads = append([]lib.Quad{}, w.Quads...)
	for i, q := range c.Noise {
		at := min(c.At[i], len(w.Quads))
		w.Quads = append(w.Quads[:at], append([]lib.Quad{q}, w.Quads[at:]...)...)
	}
	return w
}

func genConfig(t *rapid.T) (c Config) {
	c.W = lib.GenWorld(t, lib.GenOpts{})
	c.Compact = lib.Pick(t, "compact", []int{-1, 1, 1, 2, 3, 5, 7, 20})
	var nodes []lib.Term
	for _, q := range c.W.Quads {
		nodes = append(nodes, q.S)
		if q.O.K != "l" {
			nodes = append(nodes, q.O)
		}
	}
	nodes = append(nodes, lib.IRI("http://noise.example/x"))
	for _, p := range c.W.Paths {
		nodes = append(nodes, lib.IRI(p.Arr[0]))
	}
	preds := []string{"http://noise.example/a", "http://noise.example/b", "http://o.example/", "http://o.example/p", "http://o.example/p00", "http://o.example/d", lib.RDFType + "s", "http://www.w3.org/2002/07/owl#sameA"}
	for i := rapid.IntRange(0, 8).Draw(t, "noise"); i > 0; i-- {
		o := lib.Pick(t, "no", nodes)
		if lib.Chance(t, "nlit", 40) {
			o = lib.GenLiteral(t, lib.GenOpts{})
		}
		s := lib.Pick(t, "ns", nodes)
		c.Noise = append(c.Noise, lib.Quad{S: s, P: lib.Pick(t, "np", preds), O: o})
		c.At = append(c.At, rapid.IntRange(0, len(c.W.Quads)).Draw(t, "nat"))
	}
	c.Disk = lib.Chance(t, "disk", 6)
	return
}

// C05: masks, compaction and noise do not matter
func TestC05_config(t *testing.T) {
	lib.Run(t, lib.Prop[Config]{
		Name:  "C05.config",
		Rule:  "as C01, loaded with and without masks, with other compaction intervals, and with statements using other predicates added at random positions; non-trivial when there is noise and an entity with a value or child",
		Quick: 380, Thorough: 26000,
		Gen: genConfig,
		Check: func(c Config, r *lib.Rec) error {
			base, err := ExtractJSON(c.W, Options{Disk: c.Disk})
			if err != nil {
				return err
			}
			want := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses).Evaluate(c.W.Paths)
			r.NontrivialIf(len(c.Noise) > 0 && want.NChildren+want.NValues > 0)
			r.ClassIf(want.NChildren > 0, "children")
			first := lib.REntities(base)
			variants := []struct {
				name string
				w    lib.World
				o    Options
			}{
				{"without a mask", c.W, Options{NoMask: true}},
				{fmt.Sprintf("compacting every %d statements", c.Compact), c.W, Options{Compact: c.Compact}},
				{"with unrelated statements", c.noisy(), Options{}},
				{"without a mask, with unrelated statements, and compacting", c.noisy(), Options{NoMask: true, Compact: c.Compact}},
			}
			for _, v := range variants {
				v.o.Disk = c.Disk
				got, err := ExtractJSON(v.w, v.o)
				if err != nil {
					return fmt.Errorf("loading %s: %w", v.name, err)
				}
				if err := diffR(first, lib.REntities(got)); err != nil {
					return fmt.Errorf("loading %s changes the result: %w", v.name, err)
				}
			}
			return want.Diff(first)
		},
	})
}
