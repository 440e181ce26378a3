package spark

import (
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"github.com/FAU-CDI/hangover/internal/zverif/wrap"
	"pgregory.net/rapid"
)

// Schedule is a world, and how to delay operations
type Schedule struct {
	W     lib.World `json:"w"`
	Seeds []int64   `json:"seeds"` // one run each
	Procs []int     `json:"procs"` // one run each
	Slow  []string  `json:"slow"`  // prefixes of operations that are slow
	Disk  bool      `json:"disk,omitempty"`
	Stats bool      `json:"stats,omitempty"`
}

// delayer yields and sleeps at random
type delayer struct {
	state atomic.Uint64
	naps  atomic.Int64 // number of times slept
	slow  []string
	fail  func(op string) error
}

func (d *delayer) op(op string) error {
	x := d.state.Add(0x9E3779B97F4A7C15)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	slow := false
	for _, s := range d.slow {
		slow = slow || strings.HasPrefix(op, s)
	}
	switch {
	case slow && x%3 == 0 && d.naps.Add(1) < 60:
		time.Sleep(time.Duration(20+x>>8%150) * time.Microsecond)
	case x%4 == 0:
		runtime.Gosched()
	case x%61 == 0 && d.naps.Add(1) < 60:
		time.Sleep(time.Duration(x>>8%60) * time.Microsecond)
	}
	if d.fail != nil {
		return d.fail(op)
	}
	return nil
}

func genSchedule(t *rapid.T) (c Schedule) {
	c.W = lib.GenWorld(t, lib.GenOpts{MaxQuads: 16, ForceChild: true})
	for i := rapid.IntRange(2, 4).Draw(t, "runs"); i > 0; i-- {
		c.Seeds = append(c.Seeds, rapid.Int64Range(1, 1<<40).Draw(t, "seed"))
		c.Procs = append(c.Procs, lib.Pick(t, "procs", []int{1, 2, 3, 8}))
	}
	ops := []string{"write.bundle", "write.bundle.field", "write.bundle.child", "iterate.bundle", "create.bundle", "create.bundle.child", "finalize.bundle", "read.bundle", "export.begin", "export.add", "export.end", "iterate.p", "read.", "write."}
	c.Slow = rapid.SliceOfN(rapid.SampledFrom(ops), 0, 4).Draw(t, "slow")
	c.Disk = lib.Chance(t, "disk", 8)
	c.Stats = lib.Chance(t, "stats", 10)
	return
}

// tooLarge tells if there are too many matches to run under the race detector
func tooLarge(want *lib.RefResult) bool {
	n := want.NValues + want.NChildren
	for _, m := range want.Matches {
		n += len(m)
	}
	return n > 250
}

// C21: timing does not matter
func TestC21_timing(t *testing.T) {
	lib.Run(t, lib.Prop[Schedule]{
		Name:  "C21.timing",
		Rule:  "as C01, loaded two to four times under the race detector with random delays in storages, source and exporter, other numbers of processors, sometimes with statistics or on disk; every run must give the result of the reference evaluator and use the exporter as documented; non-trivial when there are at least two bundles and a child or value",
		Quick: 240, Thorough: 24000,
		Gen: genSchedule,
		Check: func(c Schedule, r *lib.Rec) error {
			want := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses).Evaluate(c.W.Paths)
			if tooLarge(want) {
				r.Class("skipped: too large")
				return nil
			}
			classify(c.W, want, r)
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
			for i, seed := range c.Seeds {
				runtime.GOMAXPROCS(c.Procs[i])
				d := &delayer{slow: c.Slow}
				d.state.Store(uint64(seed))
				exp := &wrap.Exporter{}
				o := Options{Disk: c.Disk, Compact: -1, Hook: &wrap.Tracker{OnOp: d.op}, Exporter: exp}
				if c.Stats {
					o.Stats = stats.NewStats(io.Discard)
				}
				got, err := Extract(c.W, o)
				if o.Stats != nil {
					o.Stats.Close()
				}
				if err != nil {
					return fmt.Errorf("run %d: %w", i, err)
				}
				if bad := exp.Problems(false); len(bad) > 0 {
					return fmt.Errorf("run %d: %s", i, strings.Join(bad, "; "))
				}
				if err := want.Diff(got); err != nil {
					return fmt.Errorf("run %d (GOMAXPROCS=%d): %w", i, c.Procs[i], err)
				}
			}
			return nil
		},
	})
}

// answers runs one query against the index, and encodes the result
func answers(index *igraph.Index, pb *pathbuilder.Pathbuilder, k int) (string, error) {
	var lines []string
	switch {
	case k == 0:
		m, err := identities(index)
		if err != nil {
			return "", err
		}
		for a, b := range m {
			lines = append(lines, a+"="+b)
		}
	case k == 1:
		n, err := index.TripleCount()
		if err != nil {
			return "", err
		}
		lines = append(lines, fmt.Sprint(n))
	default:
		bundles := pb.Bundles()
		b := bundles[k%len(bundles)]
		ents, err := sparkl.LoadPathbuilder(pb, index, memoryEngine(), nil)
		if err != nil {
			return "", err
		}
		js, err := toJSON(map[string][]wisski.Entity{b.MachineName(): ents[b.MachineName()]})
		if err != nil {
			return "", err
		}
		for _, es := range lib.REntities(js) {
			for _, e := range es {
				e.Normalize()
				lines = append(lines, e.Key())
			}
		}
		// and a plain path query
		uris := b.Path.PathArray
		set, err := index.PathsStarting(impl.Label(lib.RDFType), impl.Label(uris[0]))
		if err != nil {
			return "", err
		}
		for i := 1; i < len(uris); i++ {
			if i%2 == 1 {
				err = set.Connected(impl.Label(uris[i]))
			} else {
				err = set.Ending(impl.Label(lib.RDFType), impl.Label(uris[i]))
			}
			if err != nil {
				return "", err
			}
		}
		paths := set.Paths()
		defer paths.Close()
		for paths.Next() {
			lines = append(lines, fmt.Sprint(paths.Datum()))
		}
		if err := paths.Err(); err != nil {
			return "", err
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n"), nil
}

// C21: concurrent readers
func TestC21_readers(t *testing.T) {
	lib.Run(t, lib.Prop[Schedule]{
		Name:  "C21.readers",
		Rule:  "as C01, with several goroutines querying the finished index at the same time, compared with the answers given one by one; non-trivial when there is a child or value",
		Quick: 120, Thorough: 8000,
		Gen: genSchedule,
		Check: func(c Schedule, r *lib.Rec) error {
			want := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses).Evaluate(c.W.Paths)
			if tooLarge(want) {
				r.Class("skipped: too large")
				return nil
			}
			classify(c.W, want, r)
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
			runtime.GOMAXPROCS(max(2, c.Procs[0]))
			d := &delayer{slow: c.Slow}
			d.state.Store(uint64(c.Seeds[0]))
			_, err := ExtractEntities(c.W, Options{Disk: c.Disk, Compact: -1, Hook: &wrap.Tracker{OnOp: d.op}, Instead: func(index *igraph.Index, pb *pathbuilder.Pathbuilder) error {
				const kinds = 5
				var expected [kinds]string
				for k := range expected {
					a, err := answers(index, pb, k)
					if err != nil {
						return err
					}
					expected[k] = a
				}
				var wg sync.WaitGroup
				errs := make([]error, 6)
				for g := range errs {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						for i := 0; i < 3; i++ {
							k := (g + i*2) % kinds
							a, err := answers(index, pb, k)
							if err == nil && a != expected[k] {
								err = fmt.Errorf("query %d answers differently when others run at the same time\nalone:    %s\nnow: %s", k, expected[k], a)
							}
							if err != nil {
								errs[g] = err
								return
							}
						}
					}(g)
				}
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						return err
					}
				}
				return nil
			}})
			return err
		},
	})
}
