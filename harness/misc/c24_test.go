package misc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"github.com/FAU-CDI/hangover/pkg/progress"
	"pgregory.net/rapid"
)

// StatOp is an operation on the statistics
type StatOp struct {
	Op string `json:"op"`
	N  int    `json:"n,omitempty"`
}

// StatHistory is a history of operations by a single driver, while others read.
type StatHistory struct {
	Output  bool     `json:"output"`
	Nil     bool     `json:"nil,omitempty"`
	Readers int      `json:"readers"`
	Writers int      `json:"writers"` // goroutines which also update the progress
	Update  bool     `json:"update"`  // use a handler for updates
	Ops     []StatOp `json:"ops"`
}

// Several histories run next to each other (because they mostly sleep)
type Several struct {
	H []StatHistory `json:"h"`
}

type lockedBuffer struct {
	m sync.Mutex
	b bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.m.Lock()
	defer l.m.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.m.Lock()
	defer l.m.Unlock()
	return l.b.String()
}

var stages = []stats.Stage{stats.StageReadPathbuilder, stats.StageScanSameAs, stats.StageScanTriples, stats.StageExtractBundles, stats.StageExportSQL, "custom stage"}

func TestC24_stats(t *testing.T) {
	lib.Run(t, lib.Prop[Several]{
		Name:  "C24.stats",
		Rule:  "histories of stages (also failing ones), progress updates, log lines, statistics and closing by one goroutine, with up to 4 goroutines reading, up to 3 also updating the progress, and a handler for updates, run under the race detector; the driver compares with a model after every step, readers check that nothing is torn or goes backwards, and the output holds every log line; non-trivial when at least two stages and a reader are involved",
		Quick: 240, Thorough: 12000,
		Gen: func(t *rapid.T) (c Several) {
			for i := 0; i < 12; i++ {
				c.H = append(c.H, genStats(t))
			}
			return
		},
		Check: func(c Several, r *lib.Rec) error {
			errs := make([]error, len(c.H))
			recs := make([]func(), len(c.H))
			var wg sync.WaitGroup
			for i := range c.H {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							errs[i] = fmt.Errorf("panic: %v", p)
						}
					}()
					errs[i] = runStats(c.H[i])
				}(i)
			}
			wg.Wait()
			_ = recs
			for i, err := range errs {
				if err != nil {
					return fmt.Errorf("history %d: %w", i, err)
				}
				h := c.H[i]
				n := 0
				for _, op := range h.Ops {
					r.Class(op.Op)
					if op.Op == "start" || strings.HasPrefix(op.Op, "stage") {
						n++
					}
				}
				r.ClassIf(h.Output, "output")
				r.ClassIf(h.Update, "handler")
				r.ClassIf(h.Writers > 0, "concurrent-updates")
				r.NontrivialIf(n > 1 && h.Readers > 0)
			}
			return nil
		},
	})
}

func genStats(t *rapid.T) (h StatHistory) {
	h.Output = lib.Chance(t, "output", 60)
	h.Nil = lib.Chance(t, "nil", 5)
	h.Readers = rapid.IntRange(0, 4).Draw(t, "readers")
	if lib.Chance(t, "conc", 40) {
		h.Writers = rapid.IntRange(1, 3).Draw(t, "writers")
	}
	h.Update = rapid.Bool().Draw(t, "update")
	n := rapid.IntRange(1, 14).Draw(t, "n")
	slow := 0
	for i := 0; i < n; i++ {
		op := StatOp{Op: lib.Pick(t, "op", []string{"start", "set", "set", "set", "set", "end", "stage", "stagefail", "log", "log", "error", "index", "readindex"}), N: rapid.IntRange(0, 5).Draw(t, "n")}
		if op.Op == "start" || strings.HasPrefix(op.Op, "stage") {
			if slow++; slow > 6 {
				op.Op = "set"
			}
		}
		h.Ops = append(h.Ops, op)
	}
	if lib.Chance(t, "close", 60) {
		at := rapid.IntRange(len(h.Ops)/2, len(h.Ops)).Draw(t, "at")
		h.Ops = append(h.Ops[:at], append([]StatOp{{Op: "close"}}, h.Ops[at:]...)...)
	}
	return
}

// the total that belongs to a current value
func totalFor(current int) int { return 3*current + 7 }

type modelStage struct {
	stage          stats.Stage
	current, total int
}

func runStats(h StatHistory) error {
	var st *stats.Stats
	out := &lockedBuffer{}
	switch {
	case h.Nil:
	case h.Output:
		st = stats.NewStats(out)
	default:
		st = stats.NewStats(nil)
	}
	var um sync.Mutex
	updates := 0
	var uerr error
	if h.Update && st != nil {
		st.OnUpdate = func(s *stats.Stats) {
			p := s.Progress()
			all := s.All()
			um.Lock()
			defer um.Unlock()
			updates++
			if uerr == nil && s != st {
				uerr = errors.New("the handler was called with something else")
			}
			if uerr == nil {
				uerr = sane(p, all)
			}
		}
	}

	stop := make(chan struct{})
	var wg sync.WaitGroup
	var em sync.Mutex
	var rerr error
	report := func(err error) {
		em.Lock()
		defer em.Unlock()
		if rerr == nil {
			rerr = err
		}
	}
	for i := 0; i < h.Readers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var last []stats.StageStats
			wasDone := false
			for {
				select {
				case <-stop:
					return
				default:
				}
				done := st.Done()
				p := st.Progress()
				all := st.All()
				cur := st.Current()
				st.IndexStats()
				st.Diff()
				_ = cur.Progress()
				if err := sane(p, all); err != nil {
					report(err)
				}
				if done && !p.Done || wasDone && !done {
					report(errors.New("the statistics were done, but are not anymore"))
				}
				wasDone = done
				if cur.Current != 0 && cur.Total != totalFor(cur.Current) {
					report(fmt.Errorf("current stage %q is torn: %d of %d", cur.Stage, cur.Current, cur.Total))
				}
				// finished stages do not change
				for j, s := range last {
					if j >= len(all) || s.Stage != all[j].Stage || !s.Start.Time.Equal(all[j].Start.Time) {
						report(fmt.Errorf("stage %d was %q, but that is gone", j, s.Stage))
						break
					}
					if !s.End.Time.IsZero() && (s.Current != all[j].Current || s.Total != all[j].Total || !s.End.Time.Equal(all[j].End.Time)) {
						report(fmt.Errorf("stage %d (%q) changed after it was finished", j, s.Stage))
					}
				}
				last = all
				time.Sleep(time.Duration(i) * 300 * time.Microsecond)
			}
		}(i)
	}
	for i := 0; i < h.Writers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 1; ; j++ {
				select {
				case <-stop:
					return
				default:
				}
				st.SetCT(1000*i+j, totalFor(1000*i+j))
				st.LogDebug("hidden")
				if j%16 == 0 {
					st.Log(fmt.Sprintf("writer%dline%dx", i, j))
				}
				time.Sleep(200 * time.Microsecond)
			}
		}(i)
	}
	err := drive(h, st, out)
	close(stop)
	wg.Wait()
	if err != nil {
		return err
	}
	if rerr != nil {
		return rerr
	}
	um.Lock()
	defer um.Unlock()
	if uerr != nil {
		return uerr
	}
	if h.Output && !h.Nil {
		text := out.String()
		for i := 0; i < h.Writers; i++ {
			at := 0
			for j := 16; ; j += 16 {
				next := strings.Index(text[at:], fmt.Sprintf("msg=writer%dline%dx\n", i, j))
				if next < 0 {
					if strings.Contains(text, fmt.Sprintf("writer%dline%dx", i, j+16)) || strings.Contains(text[:at], fmt.Sprintf("writer%dline%dx", i, j)) {
						return fmt.Errorf("line %d of writer %d is missing or out of order", j, i)
					}
					break
				}
				at += next + 1
			}
		}
	}
	return nil
}

// sane checks that values are not torn
func sane(p stats.Progress, all []stats.StageStats) error {
	if p.Done && p != (stats.Progress{Done: true}) {
		return fmt.Errorf("progress is done, but %+v", p)
	}
	if p.Current != 0 && p.Total != totalFor(p.Current) || p.Current == 0 && p.Total != 0 {
		return fmt.Errorf("progress of %q is torn: %d of %d", p.Stage, p.Current, p.Total)
	}
	for i, s := range all {
		if s.Current != 0 && s.Total != totalFor(s.Current) {
			return fmt.Errorf("stage %d (%q) is torn: %d of %d", i, s.Stage, s.Current, s.Total)
		}
		if s.Stage == stats.StageInitial {
			return fmt.Errorf("stage %d has no name", i)
		}
		if i < len(all)-1 && s.End.Time.IsZero() {
			return fmt.Errorf("stage %d (%q) did not end, but another one started", i, s.Stage)
		}
		if !s.End.Time.IsZero() && s.End.Time.Before(s.Start.Time) {
			return fmt.Errorf("stage %d (%q) ended before it started", i, s.Stage)
		}
		if i > 0 && s.Start.Time.Before(all[i-1].End.Time) {
			return fmt.Errorf("stage %d (%q) started before the previous one ended", i, s.Stage)
		}
	}
	return nil
}

func drive(h StatHistory, st *stats.Stats, out *lockedBuffer) error {
	var finished []modelStage
	var cur modelStage
	var index igraph.Stats
	done := false
	var lines []string
	live := func() bool { return !done && st != nil }
	finish := func() {
		if cur.stage != "" {
			finished = append(finished, cur)
		}
		cur = modelStage{}
	}
	exact := h.Writers == 0 // otherwise, the numbers are not known
	for i, op := range h.Ops {
		stage := stages[op.N%len(stages)]
		switch op.Op {
		case "start":
			st.Start(stage)
			if live() {
				finish()
				cur = modelStage{stage: stage}
			}
		case "end":
			prev := st.End()
			if live() {
				if cur.stage == "" {
					cur = modelStage{} // there is no stage to end
				}
				if prev.Stage != cur.stage || exact && (prev.Current != cur.current || prev.Total != cur.total) {
					return fmt.Errorf("operation %d: stage %+v ended, but %+v was running", i, prev, cur)
				}
				finish()
			} else if prev.Stage != "" {
				return fmt.Errorf("operation %d: stage %q ended, but everything is done", i, prev.Stage)
			}
		case "set":
			n := i*10 + op.N + 1
			st.SetCT(n, totalFor(n))
			if live() {
				cur.current, cur.total = n, totalFor(n)
			}
		case "stage", "stagefail":
			called := 0
			var want error
			if op.Op == "stagefail" {
				want = fmt.Errorf("stage failed %d", i)
			}
			n := i*10 + op.N + 1
			err := st.DoStage(stage, func() error {
				called++
				if live() && (st.Progress().Stage != stage || st.Current().Stage != stage) {
					return errors.New("not in the stage")
				}
				st.SetCT(n, totalFor(n))
				return want
			})
			if err != want || called != 1 {
				return fmt.Errorf("operation %d: the stage was run %d times and returned %v instead of %v", i, called, err, want)
			}
			if live() {
				finish()
				cur = modelStage{stage: stage, current: n, total: totalFor(n)}
				finish()
				if want != nil {
					lines = append(lines, `err="`+want.Error()+`"`)
				}
			} else if st != nil && want != nil {
				break // may be logged
			}
		case "log":
			st.Log(fmt.Sprintf("line%dx", i), "key", i)
			if st != nil {
				lines = append(lines, fmt.Sprintf("msg=line%dx key=%d\n", i, i))
			}
		case "error":
			st.LogError("thing", fmt.Errorf("problem%dx", i))
			if st != nil {
				lines = append(lines, fmt.Sprintf(`msg="FAILED thing" err=problem%dx`, i))
			}
		case "index":
			s := igraph.Stats{DirectTriples: uint64(i), DatumTriples: uint64(op.N)}
			st.StoreIndexStats(s)
			if live() {
				index = s
			}
		case "readindex":
		case "close":
			st.Close()
			done = true
		}
		if got := st.IndexStats(); got != index {
			return fmt.Errorf("operation %d: the statistics of the index are %v instead of %v", i, got, index)
		}
		if st.Done() != (done || st == nil) {
			return fmt.Errorf("operation %d: done is %v", i, st.Done())
		}
		want := append([]modelStage{}, finished...)
		if cur.stage != "" {
			want = append(want, cur)
		}
		all := st.All()
		if len(all) != len(want) {
			return fmt.Errorf("operation %d (%s): there are %d stages, but %d were run", i, op.Op, len(all), len(want))
		}
		for j, w := range want {
			a := all[j]
			if a.Stage != w.stage || exact && (a.Current != w.current || a.Total != w.total) || a.End.Time.IsZero() != (j >= len(finished)) {
				return fmt.Errorf("operation %d: stage %d is %v %d/%d, but should be %v", i, j, a.Stage, a.Current, a.Total, w)
			}
		}
		if p := st.Progress(); live() && (p.Stage != cur.stage || p.Done || exact && (p.Current != cur.current || p.Total != cur.total)) {
			return fmt.Errorf("operation %d: progress is %+v, but should be %v", i, p, cur)
		}
	}
	text := out.String()
	if st == nil || !h.Output {
		if text != "" {
			return fmt.Errorf("something was written without an output")
		}
		return nil
	}
	at := 0
	for _, l := range lines {
		next := strings.Index(text[at:], l)
		if next < 0 {
			return fmt.Errorf("line %q is missing (or out of order) in %q", l, text)
		}
		if strings.Count(text, l) != 1 {
			return fmt.Errorf("line %q is repeated in %q", l, text)
		}
		at += next + 1
	}
	return nil
}

// Copy is a transfer through a progress reader or writer
type Copy struct {
	Data  []byte   `json:"data"`
	Sizes []int    `json:"sizes"`
	Fail  int      `json:"fail"` // offset to fail at, or -1
	Short bool     `json:"short,omitempty"`
	Text  []string `json:"text"`
	Force []bool   `json:"force"`
}

type limited struct {
	io.Reader
	io.Writer
	left  int
	short bool
}

var errLimit = errors.New("limit")

func (l *limited) Write(p []byte) (int, error) {
	if l.left >= 0 && len(p) > l.left {
		n, _ := l.Writer.Write(p[:l.left])
		l.left = 0
		return n, errLimit
	}
	if l.left >= 0 {
		l.left -= len(p)
	}
	return l.Writer.Write(p)
}

func (l *limited) Read(p []byte) (int, error) {
	if l.left >= 0 && len(p) > l.left {
		p = p[:l.left]
		if len(p) == 0 {
			return 0, errLimit
		}
	}
	n, err := l.Reader.Read(p)
	if l.left >= 0 {
		l.left -= n
	}
	return n, err
}

// screen shows the last line of a terminal
func screen(s string) (line string, column int) {
	row := []rune{}
	for _, r := range s {
		switch r {
		case '\r':
			column = 0
		case '\n':
			column = 0
			row = row[:0]
		default:
			if column < len(row) {
				row[column] = r
			} else {
				row = append(row, r)
			}
			column++
		}
	}
	return strings.TrimRight(string(row), " "), column
}

func TestC24_progress(t *testing.T) {
	lib.Run(t, lib.Prop[Copy]{
		Name:  "C24.progress",
		Rule:  "data copied in arbitrary pieces through the reader and the writer with progress, with failures at any offset; bytes, counts and errors are those of the underlying stream; and sequences of displayed texts, which after a flush are exactly what a terminal shows; non-trivial when more than one piece is copied",
		Quick: 30000, Thorough: 1000000,
		Gen: func(t *rapid.T) (c Copy) {
			c.Data = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "data")
			c.Sizes = rapid.SliceOfN(rapid.IntRange(1, 20), 1, 8).Draw(t, "sizes")
			c.Fail = -1
			if lib.Chance(t, "fail", 40) {
				c.Fail = rapid.IntRange(0, 60).Draw(t, "at")
			}
			for i, n := 0, rapid.IntRange(0, 6).Draw(t, "n"); i < n; i++ {
				c.Text = append(c.Text, strings.Repeat(lib.Pick(t, "u", []string{"a", "b", "xy"}), rapid.IntRange(0, 20).Draw(t, "len")))
				c.Force = append(c.Force, rapid.Bool().Draw(t, "force"))
			}
			return
		},
		Check: func(c Copy, r *lib.Rec) error {
			interval := time.Duration(0)
			if len(c.Sizes)%2 == 0 {
				interval = time.Hour
			}
			// write
			var dst, plain, term bytes.Buffer
			w := &progress.Writer{Writer: &limited{Writer: &dst, left: c.Fail}, Rewritable: progress.Rewritable{Writer: &term, FlushInterval: interval}}
			pw := &limited{Writer: &plain, left: c.Fail}
			rest := c.Data
			for i := 0; len(rest) > 0; i++ {
				n := min(len(rest), c.Sizes[i%len(c.Sizes)])
				a, aerr := w.Write(rest[:n])
				b, berr := pw.Write(rest[:n])
				if a != b || aerr != berr {
					return fmt.Errorf("write %d returned %d, %v instead of %d, %v", i, a, aerr, b, berr)
				}
				rest = rest[n:]
				r.NontrivialIf(i > 0)
				if aerr != nil {
					r.Class("write-error")
					break
				}
			}
			if !bytes.Equal(dst.Bytes(), plain.Bytes()) {
				return fmt.Errorf("%q was written as %q", plain.Bytes(), dst.Bytes())
			}
			if c.Fail < 0 && w.Bytes != int64(len(c.Data)) {
				return fmt.Errorf("%d bytes were counted instead of %d", w.Bytes, len(c.Data))
			}
			// read
			rd := &progress.Reader{Reader: &limited{Reader: bytes.NewReader(c.Data), left: c.Fail}, Rewritable: progress.Rewritable{Writer: &term, FlushInterval: interval}}
			pr := &limited{Reader: bytes.NewReader(c.Data), left: c.Fail}
			total := 0
			for i := 0; ; i++ {
				x, y := make([]byte, c.Sizes[i%len(c.Sizes)]), make([]byte, c.Sizes[i%len(c.Sizes)])
				a, aerr := rd.Read(x)
				b, berr := pr.Read(y)
				if a != b || aerr != berr || !bytes.Equal(x, y) {
					return fmt.Errorf("read %d returned %d, %v instead of %d, %v", i, a, aerr, b, berr)
				}
				total += a
				if aerr != nil {
					break
				}
			}
			if rd.Bytes != int64(total) {
				return fmt.Errorf("%d bytes were counted instead of %d", rd.Bytes, total)
			}
			// show
			term.Reset()
			rw := &progress.Rewritable{Writer: &term, FlushInterval: interval}
			for i, text := range c.Text {
				rw.Write(text)
				if c.Force[i] {
					rw.Flush(true)
				}
				if c.Force[i] || interval == 0 {
					if got, _ := screen(term.String()); got != text {
						return fmt.Errorf("%q is shown as %q", text, got)
					}
				}
				if i == 3 {
					rw.Close()
					if got, col := screen(term.String()); got != "" || col != 0 {
						return fmt.Errorf("after closing, %q is shown (at column %d)", got, col)
					}
				}
			}
			rw.Close()
			if got, col := screen(term.String()); got != "" || col != 0 {
				return fmt.Errorf("after closing, %q is shown (at column %d)", got, col)
			}
			return nil
		},
	})
}
