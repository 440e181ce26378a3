package spark

import (
	"fmt"
	"testing"

	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// Shuffled is a world, and how to reorder and repeat its statements
type Shuffled struct {
	W      lib.World `json:"w"`
	Order  []int     `json:"order"`  // a permutation
	Graphs []string  `json:"graphs"` // by statement
	Repeat []int     `json:"repeat"` // statements to repeat
	Disk   bool      `json:"disk,omitempty"`
}

func (c Shuffled) world() lib.World {
	w := c.W
	w.Quads = nil
	for k, i := range c.Order {
		q := c.W.Quads[i]
		q.G = c.Graphs[k]
		w.Quads = append(w.Quads, q)
	}
	for k, i := range c.Repeat {
		q := c.W.Quads[i]
		if q.O.K == "l" {
			continue
		}
		if k%2 == 0 {
			q.G = "http://g.example/repeated"
		}
		at := (k * 7) % (len(w.Quads) + 1)
		w.Quads = append(w.Quads[:at], append([]lib.Quad{q}, w.Quads[at:]...)...)
	}
	return w
}

// C27: order, graphs and repetitions
func TestC27_order(t *testing.T) {
	lib.Run(t, lib.Prop[Shuffled]{
		Name:  "C27.order",
		Rule:  "as C01 (with more identities), compared with the same statements in another order, in other graphs, and with statements between resources repeated; compared up to the choice of representative; non-trivial when an entity has a value or child and the order differs",
		Quick: 1000, Thorough: 45000,
		Gen: func(t *rapid.T) (c Shuffled) {
			c.W = lib.GenWorld(t, lib.GenOpts{})
			if lib.Chance(t, "identities", 30) && len(c.W.Inverses) == 0 {
				genIdentities(t, &c.W)
			}
			n := len(c.W.Quads)
			idx := make([]int, n)
			for i := range idx {
				idx[i] = i
			}
			if n > 1 {
				c.Order = rapid.Permutation(idx).Draw(t, "order")
			} else {
				c.Order = idx
			}
			for range idx {
				c.Graphs = append(c.Graphs, lib.Pick(t, "graph", []string{"", "http://g.example/1", "http://g.example/2", "http://i.example/a"}))
			}
			if n > 0 {
				c.Repeat = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 6).Draw(t, "repeat")
			}
			c.Disk = lib.Chance(t, "disk", 5)
			return
		},
		Check: func(c Shuffled, r *lib.Rec) error {
			g := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses)
			want := g.Evaluate(c.W.Paths)
			sorted := true
			for i, o := range c.Order {
				sorted = sorted && i == o
			}
			r.NontrivialIf(!sorted && want.NValues+want.NChildren > 0)
			r.ClassIf(len(c.Repeat) > 0, "repeated")
			r.ClassIf(want.NChildren > 0, "children")
			a, err := Extract(c.W, Options{Disk: c.Disk})
			if err != nil {
				return err
			}
			b, err := Extract(c.world(), Options{Disk: c.Disk})
			if err != nil {
				return err
			}
			rep, _ := lib.SameAsClasses(c.W.Quads, c.W.SameAs)
			name := func(x string) string {
				if c, ok := rep[x]; ok {
					return c
				}
				return x
			}
			uf := lib.URIField(c.W.Paths)
			if err := diffR(lib.MapREntities(a, name, uf), lib.MapREntities(b, name, uf)); err != nil {
				return fmt.Errorf("another order, other graphs or repetitions change the result: %w", err)
			}
			return nil
		},
	})
}
