// Package wrap wraps storages, sources and exporters, to count, delay or fail their operations.
package wrap

import (
	"fmt"
	"sync"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/tkw1536/pkglib/traversal"
)

// Hook is called before every operation.
// op is of the form "kind.operation". A non-nil error makes the operation fail.
type Hook interface {
	Op(op string) error
	Opened(name string) any
	Closed(token any)
}

// Tracker is a Hook which counts what is opened and closed.
type Tracker struct {
	l      sync.Mutex
	open   map[*string]bool
	opened int
	twice  []string

	OnOp func(op string) error
}

// Op calls OnOp
func (t *Tracker) Op(op string) error {
	if t.OnOp == nil {
		return nil
	}
	return t.OnOp(op)
}

// Opened notes that something was opened
func (t *Tracker) Opened(name string) any {
	t.l.Lock()
	defer t.l.Unlock()
	if t.open == nil {
		t.open = map[*string]bool{}
	}
	t.opened++
	token := &name
	t.open[token] = true
	return token
}

// Closed notes that something was closed
func (t *Tracker) Closed(token any) {
	t.l.Lock()
	defer t.l.Unlock()
	p := token.(*string)
	if !t.open[p] {
		t.twice = append(t.twice, *p)
	}
	delete(t.open, p)
}

// Open returns the names of everything that is still open, and the total number of things opened.
func (t *Tracker) Open() (names []string, total int) {
	t.l.Lock()
	defer t.l.Unlock()
	for p := range t.open {
		names = append(names, *p)
	}
	return names, t.opened
}

// Map wraps a hash map
type Map[K comparable, V any] struct {
	Inner imap.HashMap[K, V]
	H     Hook
	Name  string
	token any
}

// NewMap wraps the result of opening a hash map
func NewMap[K comparable, V any](h Hook, name string, open func() (imap.HashMap[K, V], error)) (imap.HashMap[K, V], error) {
	if err := h.Op("create." + name); err != nil {
		return nil, err
	}
	m, err := open()
	if err != nil {
		return nil, err
	}
	return &Map[K, V]{Inner: m, H: h, Name: name, token: h.Opened(name)}, nil
}

func (m *Map[K, V]) Close() error {
	m.H.Closed(m.token)
	return m.Inner.Close()
}

func (m *Map[K, V]) Compact() error {
	if err := m.H.Op("compact." + m.Name); err != nil {
		return err
	}
	return m.Inner.Compact()
}

func (m *Map[K, V]) Finalize() error {
	if err := m.H.Op("finalize." + m.Name); err != nil {
		return err
	}
	return m.Inner.Finalize()
}

func (m *Map[K, V]) Set(key K, value V) error {
	if err := m.H.Op("write." + m.Name); err != nil {
		return err
	}
	return m.Inner.Set(key, value)
}

func (m *Map[K, V]) Get(key K) (v V, ok bool, err error) {
	if err := m.H.Op("read." + m.Name); err != nil {
		return v, false, err
	}
	return m.Inner.Get(key)
}

func (m *Map[K, V]) GetZero(key K) (v V, err error) {
	if err := m.H.Op("read." + m.Name); err != nil {
		return v, err
	}
	return m.Inner.GetZero(key)
}

func (m *Map[K, V]) Has(key K) (bool, error) {
	if err := m.H.Op("read." + m.Name); err != nil {
		return false, err
	}
	return m.Inner.Has(key)
}

func (m *Map[K, V]) Delete(key K) error {
	if err := m.H.Op("write." + m.Name); err != nil {
		return err
	}
	return m.Inner.Delete(key)
}

func (m *Map[K, V]) Iterate(f func(K, V) error) error {
	if err := m.H.Op("iterate." + m.Name); err != nil {
		return err
	}
	return m.Inner.Iterate(func(k K, v V) error {
		if err := m.H.Op("iterate." + m.Name); err != nil {
			return err
		}
		return f(k, v)
	})
}

func (m *Map[K, V]) Count() (uint64, error) {
	if err := m.H.Op("read." + m.Name); err != nil {
		return 0, err
	}
	return m.Inner.Count()
}

// Three wraps an index
type Three struct {
	Inner igraph.ThreeStorage
	H     Hook
	Name  string
	token any
}

func newThree(h Hook, name string, open func() (igraph.ThreeStorage, error)) (igraph.ThreeStorage, error) {
	if err := h.Op("create." + name); err != nil {
		return nil, err
	}
	m, err := open()
	if err != nil {
		return nil, err
	}
	return &Three{Inner: m, H: h, Name: name, token: h.Opened(name)}, nil
}

func (t *Three) Close() error {
	t.H.Closed(t.token)
	return t.Inner.Close()
}

func (t *Three) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new impl.ID) (impl.ID, error)) (bool, error) {
	if err := t.H.Op("write." + t.Name); err != nil {
		return false, err
	}
	return t.Inner.Add(a, b, c, l, conflict)
}

func (t *Three) Count() (int64, error) {
	if err := t.H.Op("read." + t.Name); err != nil {
		return 0, err
	}
	return t.Inner.Count()
}

func (t *Three) Compact() error {
	if err := t.H.Op("compact." + t.Name); err != nil {
		return err
	}
	return t.Inner.Compact()
}

func (t *Three) Finalize() error {
	if err := t.H.Op("finalize." + t.Name); err != nil {
		return err
	}
	return t.Inner.Finalize()
}

func (t *Three) Fetch(a, b impl.ID, f func(c impl.ID, l impl.ID) error) error {
	if err := t.H.Op("iterate." + t.Name); err != nil {
		return err
	}
	return t.Inner.Fetch(a, b, func(c, l impl.ID) error {
		if err := t.H.Op("iterate." + t.Name); err != nil {
			return err
		}
		return f(c, l)
	})
}

func (t *Three) Has(a, b, c impl.ID) (impl.ID, bool, error) {
	if err := t.H.Op("read." + t.Name); err != nil {
		return impl.ID{}, false, err
	}
	return t.Inner.Has(a, b, c)
}

// Engine wraps an engine
type Engine struct {
	Inner igraph.Engine
	H     Hook
}

func (e Engine) Forward() (imap.HashMap[impl.Label, imap.TripleID], error) {
	return NewMap(e.H, "forward", e.Inner.Forward)
}
func (e Engine) Reverse() (imap.HashMap[impl.ID, impl.Label], error) {
	return NewMap(e.H, "reverse", e.Inner.Reverse)
}
func (e Engine) Data() (imap.HashMap[impl.ID, impl.Datum], error) {
	return NewMap(e.H, "data", e.Inner.Data)
}
func (e Engine) Language() (imap.HashMap[impl.ID, impl.Language], error) {
	return NewMap(e.H, "language", e.Inner.Language)
}
func (e Engine) Triples() (imap.HashMap[impl.ID, igraph.IndexTriple], error) {
	return NewMap(e.H, "triples", e.Inner.Triples)
}
func (e Engine) Inverses() (imap.HashMap[impl.ID, impl.ID], error) {
	return NewMap(e.H, "inverses", e.Inner.Inverses)
}
func (e Engine) PSOIndex() (igraph.ThreeStorage, error) {
	return newThree(e.H, "pso", e.Inner.PSOIndex)
}
func (e Engine) POSIndex() (igraph.ThreeStorage, error) {
	return newThree(e.H, "pos", e.Inner.POSIndex)
}

// BundleEngine wraps a bundle engine
type BundleEngine struct {
	Inner storages.BundleEngine
	H     Hook
}

func (b BundleEngine) NewStorage(bundle *pathbuilder.Bundle) (storages.BundleStorage, error) {
	if err := b.H.Op("create.bundle"); err != nil {
		return nil, err
	}
	s, err := b.Inner.NewStorage(bundle)
	if err != nil {
		return nil, err
	}
	return &bundleStorage{Inner: s, H: b.H, token: b.H.Opened("bundle " + bundle.MachineName())}, nil
}

type bundleStorage struct {
	Inner storages.BundleStorage
	H     Hook
	token any
	once  sync.Once
}

func (b *bundleStorage) Close() error {
	b.once.Do(func() { b.H.Closed(b.token) })
	return b.Inner.Close()
}

func (b *bundleStorage) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
	if err := b.H.Op("write.bundle"); err != nil {
		return err
	}
	return b.Inner.Add(uri, path, triples)
}

func (b *bundleStorage) AddFieldValue(uri impl.Label, field string, value impl.Datum, lang impl.Language, path []impl.Label, triples []igraph.Triple) error {
	if err := b.H.Op("write.bundle.field"); err != nil {
		return err
	}
	return b.Inner.AddFieldValue(uri, field, value, lang, path, triples)
}

func (b *bundleStorage) RegisterChildStorage(bundle string, storage storages.BundleStorage) error {
	if err := b.H.Op("create.bundle.child"); err != nil {
		return err
	}
	return b.Inner.RegisterChildStorage(bundle, storage)
}

func (b *bundleStorage) AddChild(parent impl.Label, bundle string, child impl.Label) error {
	if err := b.H.Op("write.bundle.child"); err != nil {
		return err
	}
	return b.Inner.AddChild(parent, bundle, child)
}

func (b *bundleStorage) Finalize() error {
	if err := b.H.Op("finalize.bundle"); err != nil {
		return err
	}
	return b.Inner.Finalize()
}

func (b *bundleStorage) Get(parentPathIndex int) traversal.Iterator[storages.LabelWithParent] {
	inner := b.Inner.Get(parentPathIndex)
	return traversal.New(func(sender traversal.Generator[storages.LabelWithParent]) {
		defer sender.Return()
		defer inner.Close()
		for {
			if err := b.H.Op("iterate.bundle"); err != nil {
				sender.YieldError(err)
				return
			}
			if !inner.Next() {
				break
			}
			if !sender.Yield(inner.Datum()) {
				return
			}
		}
		sender.YieldError(inner.Err())
	})
}

func (b *bundleStorage) Count() (int64, error) {
	if err := b.H.Op("read.bundle.count"); err != nil {
		return 0, err
	}
	return b.Inner.Count()
}

func (b *bundleStorage) Load(uri impl.Label) (wisski.Entity, error) {
	if err := b.H.Op("read.bundle"); err != nil {
		return wisski.Entity{}, err
	}
	return b.Inner.Load(uri)
}

// Source wraps a source
type Source struct {
	Inner sparkl.Source
	H     Hook
}

func (s *Source) Open() error {
	if err := s.H.Op("source.open"); err != nil {
		return err
	}
	return s.Inner.Open()
}

func (s *Source) Close() error { return s.Inner.Close() }

func (s *Source) Next() sparkl.Token {
	if err := s.H.Op("source.next"); err != nil {
		return sparkl.Token{Err: err}
	}
	return s.Inner.Next()
}

// Exporter wraps an exporter, and checks that it is used as documented.
type Exporter struct {
	Inner exporter.Exporter
	H     Hook

	l      sync.Mutex
	state  map[string]int // 0: not begun, 1: begun, 2: ended
	count  map[string]int64
	added  map[string]int64
	closed int
	bad    []string
}

func (e *Exporter) complain(format string, args ...any) {
	e.bad = append(e.bad, fmt.Sprintf(format, args...))
}

// Problems returns how the exporter was used wrongly.
// If failed is not set, also checks that everything announced was delivered.
func (e *Exporter) Problems(failed bool) []string {
	e.l.Lock()
	defer e.l.Unlock()
	bad := append([]string{}, e.bad...)
	if e.closed != 1 {
		bad = append(bad, fmt.Sprintf("exporter was closed %d times", e.closed))
	}
	for b, s := range e.state {
		if !failed && s != 2 {
			bad = append(bad, fmt.Sprintf("bundle %q was begun but not ended", b))
		}
		if !failed && e.count[b] != e.added[b] {
			bad = append(bad, fmt.Sprintf("bundle %q: announced %d entities but delivered %d", b, e.count[b], e.added[b]))
		}
	}
	return bad
}

func (e *Exporter) Begin(bundle *pathbuilder.Bundle, count int64) error {
	err := e.H.Op("export.begin")
	e.l.Lock()
	if e.state == nil {
		e.state, e.count, e.added = map[string]int{}, map[string]int64{}, map[string]int64{}
	}
	n := bundle.MachineName()
	if e.state[n] != 0 {
		e.complain("bundle %q begun twice", n)
	}
	e.state[n] = 1
	e.count[n] = count
	e.l.Unlock()
	if err != nil {
		return err
	}
	return e.Inner.Begin(bundle, count)
}

func (e *Exporter) Add(bundle *pathbuilder.Bundle, entity *wisski.Entity) error {
	err := e.H.Op("export.add")
	e.l.Lock()
	n := bundle.MachineName()
	if e.state[n] != 1 {
		e.complain("entity of bundle %q delivered outside of begin and end", n)
	}
	e.added[n]++
	e.l.Unlock()
	if err != nil {
		return err
	}
	return e.Inner.Add(bundle, entity)
}

func (e *Exporter) End(bundle *pathbuilder.Bundle) error {
	err := e.H.Op("export.end")
	e.l.Lock()
	n := bundle.MachineName()
	if e.state[n] != 1 {
		e.complain("bundle %q ended in state %d", n, e.state[n])
	}
	e.state[n] = 2
	e.l.Unlock()
	if err != nil {
		return err
	}
	return e.Inner.End(bundle)
}

func (e *Exporter) Close() error {
	err := e.H.Op("export.close")
	e.l.Lock()
	e.closed++
	for b, s := range e.state {
		if s == 1 {
			e.complain("exporter closed before the end of bundle %q", b)
		}
	}
	e.l.Unlock()
	if err != nil {
		e.Inner.Close()
		return err
	}
	return e.Inner.Close()
}
