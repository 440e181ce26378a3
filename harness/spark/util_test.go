package spark

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"github.com/FAU-CDI/hangover/internal/zverif/wrap"
)

// Options for extraction
type Options struct {
	Disk    bool   // use the on-disk backend
	Dir     string // directory to use for the disk backend, defaults to a temporary one
	NoMask  bool
	Compact int // compact interval, 0 for default, -1 to disable
	Stats   *stats.Stats
	Hook    wrap.Hook // wrap everything
	NQ      []byte    // use this instead of the data of the world

	Exporter *wrap.Exporter // filled with the (wrapped) exporter
	After    func(index *igraph.Index) error
	// AfterPB is called with the index and pathbuilder (instead of the extraction)
	Instead func(index *igraph.Index, pb *pathbuilder.Pathbuilder) error
}

func classify(w lib.World, want *lib.RefResult, r *lib.Rec) {
	r.ClassIf(want.NEntities > 0, "entities")
	r.ClassIf(want.NValues > 0, "values")
	r.ClassIf(want.NChildren > 0, "children")
	r.ClassIf(want.NShared > 0, "shared-children")
	r.ClassIf(want.NDepth > 1, "grandchildren")
	for _, q := range w.Quads {
		if q.P == lib.OWLSameAs {
			r.Class("sameas")
		}
		if q.P == lib.OWLInverse {
			r.Class("inverse")
		}
		if q.O.K == "b" {
			r.Class("blank")
		}
	}
	r.NontrivialIf(want.NValues > 0 || want.NChildren > 0)
}

func labels(s []string) (l []impl.Label) {
	for _, x := range s {
		l = append(l, impl.Label(x))
	}
	return
}

// Extract runs the extraction
func Extract(w lib.World, o Options) (map[string][]lib.REntity, error) {
	js, err := ExtractJSON(w, o)
	if err != nil {
		return nil, err
	}
	return lib.REntities(js), nil
}

// ExtractJSON runs the extraction, and returns what the json encoding of the result says
func ExtractJSON(w lib.World, o Options) (map[string][]lib.JSONEntity, error) {
	ents, err := ExtractEntities(w, o)
	if err != nil {
		return nil, err
	}
	return toJSON(ents)
}

func toJSON(ents map[string][]wisski.Entity) (map[string][]lib.JSONEntity, error) {
	data, err := json.Marshal(ents)
	if err != nil {
		return nil, err
	}
	var js map[string][]lib.JSONEntity
	if err := json.Unmarshal(data, &js); err != nil {
		return nil, err
	}
	return js, nil
}

func loadPB(w lib.World) (pathbuilder.Pathbuilder, error) {
	return pbxml.Unmarshal(w.XML())
}

// ExtractEntities runs the extraction
func ExtractEntities(w lib.World, o Options) (map[string][]wisski.Entity, error) {
	pb, err := loadPB(w)
	if err != nil {
		return nil, fmt.Errorf("load pathbuilder: %w", err)
	}
	dir := o.Dir
	if o.Disk && dir == "" {
		var cleanup func()
		dir, cleanup = lib.TempDir()
		defer cleanup()
	}
	index, err := makeIndex(w, &pb, dir, o)
	if err != nil {
		return nil, err
	}
	defer index.Close()
	if o.Instead != nil {
		return nil, o.Instead(index, &pb)
	}
	be := storages.NewBundleEngine(dir)
	if o.Hook != nil {
		be = wrap.BundleEngine{Inner: be, H: o.Hook}
	}
	var ents map[string][]wisski.Entity
	if o.Exporter != nil {
		mp := &exporter.Map{Data: make(map[string][]wisski.Entity)}
		o.Exporter.Inner = mp
		o.Exporter.H = o.Hook
		err = sparkl.Export(&pb, index, be, o.Exporter, o.Stats)
		ents = mp.Data
	} else {
		ents, err = sparkl.LoadPathbuilder(&pb, index, be, o.Stats)
	}
	if err != nil {
		return nil, fmt.Errorf("extract: %w", err)
	}
	if o.After != nil {
		if err := o.After(index); err != nil {
			return nil, err
		}
	}
	return ents, nil
}

func makeIndex(w lib.World, pb *pathbuilder.Pathbuilder, dir string, o Options) (*igraph.Index, error) {
	opts := sparkl.DefaultIndexOptions(pb)
	if o.NoMask {
		opts.Mask = nil
	}
	if o.Compact != 0 {
		opts.CompactInterval = o.Compact
	}
	engine := sparkl.NewEngine(dir)
	data := o.NQ
	if data == nil {
		data = w.NQ()
	}
	var source sparkl.Source = &sparkl.QuadSource{Reader: bytes.NewReader(data)}
	if o.Hook != nil {
		engine = wrap.Engine{Inner: engine, H: o.Hook}
		source = &wrap.Source{Inner: source, H: o.Hook}
	}
	index, err := sparkl.MakeIndex(
		source,
		sparkl.Predicates{SameAs: labels(w.SameAs), InverseOf: labels(w.Inverses)},
		engine, opts, o.Stats,
	)
	if err != nil {
		return nil, fmt.Errorf("make index: %w", err)
	}
	return index, nil
}

// identities returns the identity map of the index
func identities(index *igraph.Index) (map[string]string, error) {
	m := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := index.IdentityMap(&m); err != nil {
		return nil, err
	}
	res := map[string]string{}
	err := m.Iterate(func(a, b impl.Label) error {
		res[string(a)] = string(b)
		return nil
	})
	return res, err
}

// diffR compares two extractions
func diffR(a, b map[string][]lib.REntity) error {
	return lib.DiffREntities(a, b)
}

func memoryEngine() storages.BundleEngine { return storages.NewBundleEngine("") }

var (
	checkTriple = lib.CheckTriple
	quadKey     = lib.QuadKey
	quadSet     = lib.QuadSet
)
