// Package lib is the common part of the verification harness: it drives
// generated cases through a property, records what was covered, and turns a
// failing case into a replay file.
package lib

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec records what a single case covered.
type Rec struct {
	nontrivial bool
	classes    map[string]int
	dir        string
	n          int
}

// Class counts an interesting feature of the current case.
func (r *Rec) Class(name string) {
	if r == nil {
		return
	}
	r.classes[name]++
}

// ClassIf counts name if cond holds.
func (r *Rec) ClassIf(cond bool, name string) {
	if cond {
		r.Class(name)
	}
}

// Nontrivial marks the current case as non-trivial.
func (r *Rec) Nontrivial() {
	if r != nil {
		r.nontrivial = true
	}
}

// NontrivialIf marks the current case as non-trivial if cond holds.
func (r *Rec) NontrivialIf(cond bool) {
	if cond {
		r.Nontrivial()
	}
}

// HarnessError is a problem of the harness, not of the code under test.
type HarnessError struct{ Err error }

func (h HarnessError) Error() string { return "harness error: " + h.Err.Error() }

// Must panics with a HarnessError if err is not nil.
func Must(err error) {
	if err != nil {
		panic(HarnessError{err})
	}
}

// Must1 is like Must, but passes through a value.
func Must1[T any](v T, err error) T {
	Must(err)
	return v
}

// Prop is a property over generated cases of type C.
type Prop[C any] struct {
	Name string // name of the part, e.g. "C01.inproc"
	Rule string // how cases are made and what makes one nontrivial

	Quick    int // number of cases (all shards together) in the quick tier
	Thorough int // number of cases (all shards together) in the thorough tier
	Steps    int // average number of steps in Repeat, 0 for default

	Gen   func(t *rapid.T) C
	Check func(c C, r *Rec) error

	// Timeout of a single case until the watchdog looks at it. Default 120 s.
	Timeout time.Duration
}

type result struct {
	Part        string            `json:"part"`
	Rule        string            `json:"rule"`
	Shard       int               `json:"shard"`
	Evaluations int               `json:"evaluations"`
	Hashes      []string          `json:"hashes"` // of distinct nontrivial cases
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Violation   string            `json:"violation,omitempty"`
	Replay      json.RawMessage   `json:"replay,omitempty"`
	HarnessErr  string            `json:"harness_error,omitempty"`
	Known       []string          `json:"known,omitempty"`
	Wall        float64           `json:"wall_s"`
	Done        bool              `json:"done"`
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func envInt(name string, def int) int {
	v := os.Getenv(name)
	if v == "" {
		return def
	}
	n, err := strconv.Atoi(v)
	if err != nil {
		return def
	}
	return n
}

// Scratch is the scratch directory of the current process.
func Scratch() string {
	dir := env("VERIF_SCRATCH", os.TempDir())
	return dir
}

var tmpCount int

// TempDir makes a new directory below the scratch directory, to be removed with the returned function.
func TempDir() (string, func()) {
	tmpCount++
	dir := filepath.Join(Scratch(), fmt.Sprintf("t%d_%d", os.Getpid(), tmpCount))
	Must(os.MkdirAll(dir, 0o777))
	Must(os.Chmod(dir, 0o777))
	return dir, func() { os.RemoveAll(dir) }
}

// Thorough returns if this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Bin returns the path to a binary built by the driver.
func Bin(name string) string {
	return filepath.Join(env("VERIF_BIN", "/nonexistent"), name)
}

// KnownFindings are findings which were seen by this process (on the real code).
var knownSeen []string

// Known reports that a listed finding still exists.
func Known(text string) {
	for _, k := range knownSeen {
		if k == text {
			return
		}
	}
	knownSeen = append(knownSeen, text)
}

// Run drives p with generated cases.
func Run[C any](t *testing.T, p Prop[C]) {
	outDir := env("VERIF_OUT", t.TempDir())
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	seed := envInt("VERIF_SEED", 1)

	checks := p.Quick
	if Thorough() {
		checks = p.Thorough
	}
	if v := envInt("VERIF_CHECKS", 0); v > 0 {
		checks = v
	}
	// this shard's part of the cases
	mine := checks / shards
	if shard < checks%shards {
		mine++
	}

	res := result{Part: p.Name, Rule: p.Rule, Shard: shard, Classes: make(map[string]int)}
	resPath := filepath.Join(outDir, fmt.Sprintf("%s.%d.json", p.Name, shard))
	curPath := filepath.Join(outDir, fmt.Sprintf("%s.%d.cur", p.Name, shard))
	start := time.Now()
	hashes := make(map[[32]byte]struct{})

	write := func() {
		res.Wall = time.Since(start).Seconds()
		res.Hashes = res.Hashes[:0]
		for h := range hashes {
			res.Hashes = append(res.Hashes, fmt.Sprintf("%x", h[:8]))
		}
		sort.Strings(res.Hashes)
		res.Known = knownSeen
		data, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(resPath, data, 0o666); err != nil {
			panic(err)
		}
	}

	timeout := p.Timeout
	if timeout == 0 {
		timeout = 120 * time.Second
	}

	// fail records a failing case, keeping the smallest one
	fail := func(data []byte, err error) {
		if res.Replay == nil || len(data) <= len(res.Replay) {
			res.Replay = append(json.RawMessage(nil), data...)
			res.Violation = err.Error()
		}
	}

	shrinking := false
	one := func(c C, data []byte) (err error) {
		rec := &Rec{classes: make(map[string]int)}
		if werr := os.WriteFile(curPath, data, 0o666); werr != nil {
			return HarnessError{werr}
		}

		type outcome struct {
			err   error
			stack string
		}
		done := make(chan outcome, 1)
		go func() {
			var o outcome
			defer func() {
				if pv := recover(); pv != nil {
					if he, ok := pv.(HarnessError); ok {
						o.err = he
						o.stack = string(debug.Stack())
					} else {
						o.err = fmt.Errorf("panic: %v\n%s", pv, trimStack(string(debug.Stack())))
					}
				}
				done <- o
			}()
			o.err = p.Check(c, rec)
		}()

		var o outcome
		select {
		case o = <-done:
		case <-time.After(timeout):
			if dead, stacks := deadlocked(done); dead {
				fail(data, fmt.Errorf("the code under test is deadlocked: every goroutine in it is blocked\n%s", stacks))
				write()
				os.Exit(1)
			}
			res.HarnessErr = fmt.Sprintf("a case of %s took longer than %v", p.Name, timeout)
			res.Replay = nil
			res.Violation = ""
			write()
			os.WriteFile(curPath+".slow", data, 0o666)
			os.Exit(3)
		}
		err = o.err
		if he, ok := err.(HarnessError); ok {
			res.HarnessErr = he.Error() + "\n" + o.stack
			write()
			os.Exit(3)
		}
		if err != nil {
			shrinking = true
			fail(data, err)
			return err
		}
		if !shrinking {
			res.Evaluations++
			for k, v := range rec.classes {
				res.Classes[k] += min(v, 1)
			}
			if rec.nontrivial {
				hashes[sha256.Sum256(data)] = struct{}{}
				if len(res.Samples) < 2 && len(data) < 6000 && len(data) > 20 && res.Evaluations%7 == 3 {
					res.Samples = append(res.Samples, append(json.RawMessage(nil), data...))
				}
			}
		}
		return nil
	}

	// replay a single case
	if replay := os.Getenv("VERIF_REPLAY"); replay != "" {
		raw, err := os.ReadFile(replay)
		if err != nil {
			t.Fatal(err)
		}
		var file struct {
			Part string          `json:"part"`
			Case json.RawMessage `json:"case"`
		}
		if err := json.Unmarshal(raw, &file); err != nil {
			t.Fatal(err)
		}
		if file.Part != p.Name {
			t.Skip("replay of another part")
		}
		var c C
		if err := json.Unmarshal(file.Case, &c); err != nil {
			t.Fatal(err)
		}
		err = one(c, file.Case)
		res.Done = true
		write()
		if err != nil {
			t.Fatal(err)
		}
		return
	}

	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", p.Name, seed, shard)
	rseed := h.Sum64()>>1 | 1

	flag.Set("rapid.seed", strconv.FormatUint(rseed, 10))
	flag.Set("rapid.checks", strconv.Itoa(mine))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "10s")
	if p.Steps > 0 {
		flag.Set("rapid.steps", strconv.Itoa(p.Steps))
	} else {
		flag.Set("rapid.steps", "30")
	}

	if mine > 0 {
		t.Run("rapid", func(t *testing.T) {
			defer func() {
				if t.Failed() && res.Violation == "" && res.HarnessErr == "" {
					res.HarnessErr = "the generator failed (see the output)"
				}
			}()
			rapid.Check(t, func(rt *rapid.T) {
				c := p.Gen(rt)
				data, err := json.Marshal(c)
				if err != nil {
					panic(HarnessError{err})
				}
				if err := one(c, data); err != nil {
					rt.Fatalf("the property is violated")
				}
			})
		})
	}
	res.Done = true
	write()
	if res.Violation != "" {
		t.Logf("VIOLATED %s\n%s", p.Name, res.Violation)
	}
}

func trimStack(s string) string {
	if len(s) > 6000 {
		return s[:6000]
	}
	return s
}

// deadlocked looks at all goroutines that run the code under test, and decides if none of them can make progress.
// It samples twice, and waits for the result channel to fire in between.
func deadlocked[T any](done chan T) (bool, string) {
	look := func() (blocked bool, ids string, report string) {
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		blocked = true
		var any bool
		var sb, rp strings.Builder
		for _, g := range strings.Split(string(buf), "\n\n") {
			if !strings.Contains(g, "FAU-CDI/hangover") || strings.Contains(g, "lib.deadlocked") {
				continue
			}
			any = true
			head, _, _ := strings.Cut(g, "\n")
			open := strings.Index(head, "[")
			if open < 0 {
				continue
			}
			state := head[open+1:]
			state = strings.TrimSuffix(strings.TrimSuffix(state, ":"), "]")
			state, _, _ = strings.Cut(state, ",")
			switch {
			case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "semacquire"), strings.HasPrefix(state, "sync."):
			case strings.HasPrefix(state, "select"):
			default:
				blocked = false
			}
			sb.WriteString(head[:open])
			sb.WriteString(state)
			rp.WriteString(g)
			rp.WriteString("\n\n")
		}
		return blocked && any, sb.String(), rp.String()
	}
	b1, ids1, _ := look()
	if !b1 {
		return false, ""
	}
	select {
	case <-done:
		return false, ""
	case <-time.After(10 * time.Second):
	}
	b2, ids2, report := look()
	return b2 && ids1 == ids2, trimStack(report)
}
