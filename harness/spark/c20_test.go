package spark

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"github.com/FAU-CDI/hangover/internal/zverif/wrap"
	"pgregory.net/rapid"
)

// Faulty is a world, and which operation should fail.
type Faulty struct {
	W       lib.World `json:"w"`
	Kind    int       `json:"kind"`    // kind of operation that fails (modulo the kinds which occur)
	Nth     int       `json:"nth"`     // 0..999: position among operations of that kind
	Forever bool      `json:"forever"` // all later operations of that kind fail too
	Export  bool      `json:"export"`  // use an exporter which is wrapped as well
	Disk    bool      `json:"disk,omitempty"`
	Compact int       `json:"compact"`
	Runs    int       `json:"runs,omitempty"` // for C26
	NoFault bool      `json:"nofault,omitempty"`
	Slow    []string  `json:"slow,omitempty"` // operations that are slow
}

var errInjected = errors.New("injected failure")

// failer fails the n-th operation of a kind
type failer struct {
	l       sync.Mutex
	counts  map[string]int
	kind    string
	nth     int
	forever bool
	hit     int
}

func (f *failer) op(op string) error {
	f.l.Lock()
	defer f.l.Unlock()
	if f.counts == nil {
		f.counts = map[string]int{}
	}
	n := f.counts[op]
	f.counts[op]++
	if f.kind == op && (n == f.nth || f.forever && n > f.nth) {
		f.hit++
		return errInjected
	}
	return nil
}

func genFaulty(t *rapid.T) (c Faulty) {
	c.W = lib.GenWorld(t, lib.GenOpts{MaxQuads: 16})
	c.Kind = rapid.IntRange(0, 199).Draw(t, "kind")
	c.Nth = rapid.IntRange(0, 999).Draw(t, "nth")
	c.Forever = lib.Chance(t, "forever", 40)
	c.Export = lib.Chance(t, "export", 50)
	c.Disk = lib.Chance(t, "disk", 4)
	c.Compact = lib.Pick(t, "compact", []int{0, 0, 0, 3, 10})
	if lib.Chance(t, "delay", 25) {
		c.Slow = rapid.SliceOfN(rapid.SampledFrom([]string{"write.bundle", "iterate.", "read.bundle", "create.bundle", "export.", "finalize."}), 1, 3).Draw(t, "slow")
	}
	return
}

// everything loads the world, including the identities and the cache
func (c Faulty) everything(hook wrap.Hook, exp *wrap.Exporter, dir string) (map[string][]lib.REntity, map[string]string, error) {
	var ids map[string]string
	o := Options{Disk: c.Disk, Dir: dir, Hook: hook, Compact: c.Compact, Exporter: exp, After: func(x *igraph.Index) (err error) {
		if hook == nil {
			ids, err = identities(x)
			return err
		}
		m, err := wrap.NewMap(hook, "sameas", func() (imap.HashMap[impl.Label, impl.Label], error) {
			mp := imap.MakeMemory[impl.Label, impl.Label](0)
			return &mp, nil
		})
		if err != nil {
			return err
		}
		defer m.Close()
		if err := x.IdentityMap(m); err != nil {
			return err
		}
		if ids, err = identities(x); err != nil {
			return err
		}
		cache, err := sparkl.NewCache(nil, m, nil)
		if err != nil {
			return err
		}
		if _, err := x.TripleCount(); err != nil {
			return err
		}
		return cache.Close()
	}}
	ents, err := ExtractEntities(c.W, o)
	if err != nil {
		return nil, nil, err
	}
	js, err := toJSON(ents)
	if err != nil {
		return nil, nil, err
	}
	return lib.REntities(js), ids, nil
}

// pickFault decides which operation should fail
func (c Faulty) pickFault() (*failer, *lib.RefResult, error) {
	want := lib.NewRefGraph(c.W.Quads, c.W.SameAs, c.W.Inverses).Evaluate(c.W.Paths)
	count := &failer{}
	dry := &wrap.Tracker{OnOp: count.op}
	var exp *wrap.Exporter
	if c.Export {
		exp = &wrap.Exporter{}
	}
	got, _, err := c.everything(dry, exp, "")
	if err != nil {
		return nil, nil, fmt.Errorf("without a failure: %w", err)
	}
	if err := want.Diff(got); err != nil {
		return nil, nil, err
	}
	kinds := lib.SortedKeys(count.counts)
	f := &failer{kind: kinds[c.Kind%len(kinds)], forever: c.Forever}
	f.nth = c.Nth * count.counts[f.kind] / 1000
	return f, want, nil
}

// C20: the n-th operation fails
func TestC20_faults(t *testing.T) {
	lib.Run(t, lib.Prop[Faulty]{
		Name:  "C20.faults",
		Rule:  "as C01; the operations on storages, source and exporter are counted, then one of them fails (once or from then on); either an error is reported or the result is complete; non-trivial when the failure was reached",
		Quick: 1000, Thorough: 50000,
		Gen: genFaulty,
		Check: func(c Faulty, r *lib.Rec) error {
			f, want, err := c.pickFault()
			if err != nil {
				return err
			}
			var exp *wrap.Exporter
			if c.Export {
				exp = &wrap.Exporter{}
			}
			op := f.op
			if len(c.Slow) > 0 {
				r.Class("with delays")
				d := &delayer{slow: c.Slow, fail: f.op}
				d.state.Store(uint64(c.Nth))
				op = d.op
			}
			got, _, err := c.everything(&wrap.Tracker{OnOp: op}, exp, "")
			r.NontrivialIf(f.hit > 0)
			if f.hit > 0 {
				r.Class(f.kind)
			}
			if exp != nil {
				if bad := exp.Problems(err != nil); len(bad) > 0 && f.hit == 0 {
					return fmt.Errorf("%s", strings.Join(bad, "; "))
				}
			}
			if f.hit > 0 && err == nil {
				return fmt.Errorf("operation %d of kind %q failed, but no error was reported (complete result: %v)", f.nth, f.kind, want.Diff(got))
			}
			if err != nil && f.hit == 0 {
				return fmt.Errorf("no operation failed, but the error is %w", err)
			}
			if err != nil {
				return nil
			}
			return want.Diff(got)
		},
	})
}

// openFiles lists the open files of this process below dir
func openFiles(dir string) (files []string) {
	entries, err := os.ReadDir("/proc/self/fd")
	lib.Must(err)
	for _, e := range entries {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, dir) {
			files = append(files, strings.TrimPrefix(l, dir))
		}
	}
	sort.Strings(files)
	return
}

// ownGoroutines returns the stacks of goroutines which run code of hangover or leveldb (except that of the caller).
func ownGoroutines() (stacks []string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "ownGoroutines") || strings.Contains(g, "lib.Run[") && !strings.Contains(g, "/internal/sparkl") {
			continue
		}
		if strings.Contains(g, "FAU-CDI/hangover/internal/sparkl") || strings.Contains(g, "FAU-CDI/hangover/internal/triplestore") || strings.Contains(g, "goleveldb") || strings.Contains(g, "tkw1536/pkglib/traversal") {
			// leveldb keeps a pool which drains slowly
			if strings.Contains(g, "mpoolDrain") || strings.Contains(g, "BufferPool") {
				continue
			}
			stacks = append(stacks, g)
		}
	}
	return
}

// settle waits for f to be empty
func settle(f func() []string) (left []string) {
	for i := 0; i < 400; i++ {
		left = f()
		if len(left) == 0 {
			return nil
		}
		time.Sleep(time.Duration(1+i/10) * time.Millisecond)
	}
	return left
}

// C26: nothing stays open
func TestC26_leaks(t *testing.T) {
	lib.Run(t, lib.Prop[Faulty]{
		Name:  "C26.leaks",
		Rule:  "as C20 (without a failure in a third of the cases); up to three runs in the same directory, the last of which must succeed; after each, every opened storage is closed, and no goroutine or file is left; non-trivial when a run failed, or more than one run used the directory",
		Quick: 450, Thorough: 24000,
		Gen: func(t *rapid.T) Faulty {
			c := genFaulty(t)
			c.Disk = lib.Chance(t, "ondisk", 35)
			c.Runs = rapid.IntRange(0, 2).Draw(t, "runs")
			c.NoFault = lib.Chance(t, "nofault", 35)
			return c
		},
		Check: func(c Faulty, r *lib.Rec) error {
			f, want, err := c.pickFault()
			if err != nil {
				return err
			}
			dir, cleanup := lib.TempDir()
			defer cleanup()
			if !c.Disk {
				dir = ""
			}
			if left := settle(ownGoroutines); len(left) > 0 {
				return fmt.Errorf("goroutines are left after a successful run:\n%s", lib.Trim(strings.Join(left, "\n\n"), 4000))
			}
			for run := 0; run <= c.Runs; run++ {
				last := run == c.Runs
				tr := &wrap.Tracker{}
				if !c.NoFault && (!last || c.Runs == 0) {
					*f = failer{kind: f.kind, nth: f.nth, forever: f.forever}
					tr.OnOp = f.op
				}
				var exp *wrap.Exporter
				if c.Export {
					exp = &wrap.Exporter{}
				}
				got, _, err := c.everything(tr, exp, dir)
				if err != nil && (tr.OnOp == nil || f.hit == 0) {
					return fmt.Errorf("run %d: %w", run, err)
				}
				if err == nil {
					if err := want.Diff(got); err != nil {
						return fmt.Errorf("run %d: %w", run, err)
					}
				}
				r.ClassIf(err != nil, "failed")
				r.ClassIf(c.Disk, "disk")
				r.ClassIf(run > 0 && c.Disk, "reused")
				r.NontrivialIf(err != nil || run > 0)
				if err != nil {
					r.Class(f.kind)
				}
				if left := settle(ownGoroutines); len(left) > 0 {
					return fmt.Errorf("run %d (error %v): goroutines are left:\n%s", run, err, lib.Trim(strings.Join(left, "\n\n"), 4000))
				}
				if open, _ := tr.Open(); len(open) > 0 {
					sort.Strings(open)
					return fmt.Errorf("run %d (error %v): still open after closing: %q", run, err, open)
				}
				if exp != nil {
					if bad := exp.Problems(err != nil); len(bad) > 0 && err == nil {
						return fmt.Errorf("run %d: %s", run, strings.Join(bad, "; "))
					}
				}
				if dir != "" {
					if left := settle(func() []string { return openFiles(dir) }); len(left) > 0 {
						return fmt.Errorf("run %d (error %v): files are still open: %q", run, err, left)
					}
				}
			}
			if dir != "" {
				if err := os.RemoveAll(dir); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
