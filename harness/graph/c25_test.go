package graph

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// IDs are numbers
type IDs struct {
	N   []uint32 `json:"n"`
	Inc []int    `json:"inc"`
	Pad []byte   `json:"pad"`
}

func mkID(n uint32) (id impl.ID) {
	id.LoadInt(new(big.Int).SetUint64(uint64(n)))
	return
}

func num(id impl.ID) uint32 { return uint32(id.Int(new(big.Int)).Uint64()) }

var edges = []uint32{0, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}

func TestC25_ids(t *testing.T) {
	lib.Run(t, lib.Prop[IDs]{
		Name:  "C25.ids",
		Rule:  "sequences of numbers (from all 2^32, biased towards carries and ends) loaded as identifiers, counted up, compared, and taken through every encoding; expected results come from 64 bit arithmetic; non-trivial when there are at least two different numbers",
		Quick: 80000, Thorough: 5000000,
		Gen: func(t *rapid.T) (c IDs) {
			n := rapid.IntRange(1, 8).Draw(t, "n")
			for i := 0; i < n; i++ {
				if lib.Chance(t, "edge", 60) {
					c.N = append(c.N, lib.Pick(t, "v", edges))
				} else {
					c.N = append(c.N, rapid.Uint32().Draw(t, "u"))
				}
				c.Inc = append(c.Inc, rapid.IntRange(0, 4).Draw(t, "inc"))
			}
			c.Pad = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "pad")
			return
		},
		Check: func(c IDs, r *lib.Rec) error {
			var ids []impl.ID
			for i, n := range c.N {
				id := mkID(n)
				if num(id) != n || id.Int(big.NewInt(77)).Cmp(new(big.Int).SetUint64(uint64(n))) != 0 {
					return fmt.Errorf("number %d comes back as %d", n, num(id))
				}
				if id.Valid() != (n != 0) {
					return fmt.Errorf("validity of %d is %v", n, id.Valid())
				}
				for j := 0; j < c.Inc[i] && n < 1<<32-1; j++ {
					next := id.Inc()
					n++
					if next != id || num(id) != n || !id.Valid() {
						return fmt.Errorf("counting to %d gives %d and %d", n, num(id), num(next))
					}
					r.ClassIf(n&0xff == 0, "carry")
				}
				c.N[i] = n
				ids = append(ids, id)
			}
			for i, a := range ids {
				for j, b := range ids {
					want := 0
					if c.N[i] < c.N[j] {
						want = -1
					} else if c.N[i] > c.N[j] {
						want = 1
					}
					if a.Compare(b) != want || (a == b) != (want == 0) {
						return fmt.Errorf("comparing %d and %d gives %d", c.N[i], c.N[j], a.Compare(b))
					}
					// the encoded forms are ordered in the same way
					if bytes.Compare(impl.EncodeIDs(a), impl.EncodeIDs(b)) != want {
						return fmt.Errorf("encodings of %d and %d are in the wrong order", c.N[i], c.N[j])
					}
					r.NontrivialIf(want != 0)
				}
			}
			// encodings
			enc := impl.EncodeIDs(ids...)
			if len(enc) != len(ids)*impl.IDLen {
				return fmt.Errorf("encoding of %d identifiers has length %d", len(ids), len(enc))
			}
			if dec := impl.DecodeIDs(enc); fmt.Sprint(dec) != fmt.Sprint(ids) {
				return fmt.Errorf("%v is decoded as %v", ids, dec)
			}
			// into larger and smaller buffers
			buf := append(bytes.Repeat([]byte{0xA5}, len(enc)), c.Pad...)
			if err := impl.MarshalIDs(buf, ids...); err != nil {
				return err
			}
			if !bytes.Equal(buf, append(append([]byte{}, enc...), c.Pad...)) {
				return fmt.Errorf("encoding wrote to the wrong place")
			}
			if impl.MarshalIDs(make([]byte, len(enc)-1), ids...) == nil {
				return fmt.Errorf("encoding into a short buffer succeeded")
			}
			dests := make([]impl.ID, len(ids))
			ptrs := make([]*impl.ID, len(ids))
			for i := range ptrs {
				ptrs[i] = &dests[i]
			}
			if err := impl.UnmarshalIDs(buf, ptrs...); err != nil {
				return err
			}
			if impl.UnmarshalIDs(buf[:len(enc)-1], ptrs...) == nil {
				return fmt.Errorf("decoding from a short buffer succeeded")
			}
			for i, id := range ids {
				one, err := impl.MarshalID(id)
				if err != nil {
					return err
				}
				var u, d, g impl.ID
				if err := impl.UnmarshalID(&u, append(append([]byte{}, one...), c.Pad...)); err != nil {
					return err
				}
				raw := append(bytes.Repeat([]byte{0xA5}, impl.IDLen), c.Pad...)
				id.Encode(raw)
				d.Decode(raw)
				if !bytes.Equal(raw[impl.IDLen:], c.Pad) {
					return fmt.Errorf("encoding wrote to the wrong place")
				}
				var gb bytes.Buffer
				if err := gob.NewEncoder(&gb).Encode(id); err != nil {
					return err
				}
				if err := gob.NewDecoder(&gb).Decode(&g); err != nil {
					return err
				}
				if u != id || d != id || g != id || dests[i] != id || impl.DecodeID(buf, i) != id {
					return fmt.Errorf("%v came back as %v, %v, %v, %v and %v", id, u, d, g, dests[i], impl.DecodeID(buf, i))
				}
				for k := 0; k < impl.IDLen; k++ {
					if err := impl.UnmarshalID(&u, one[:k]); err == nil {
						return fmt.Errorf("%d bytes were accepted as an identifier", k)
					}
				}
				if want := fmt.Sprintf("ID(%d)", c.N[i]); id.String() != want {
					return fmt.Errorf("%s is shown as %s", want, id)
				}
				id.Reset()
				if id.Valid() || num(id) != 0 {
					return fmt.Errorf("identifier is not reset: %v", id)
				}
			}
			// everything stored as part of a triple
			if len(ids) >= 6 {
				r.Class("triple")
				tr := igraph.IndexTriple{Role: igraph.Role(c.N[0] % 3)}
				for i := 0; i < 3; i++ {
					tr.Items[i] = imap.TripleID{Canonical: ids[2*i], Literal: ids[2*i+1]}
				}
				data, err := igraph.MarshalTriple(tr)
				if err != nil {
					return err
				}
				var back igraph.IndexTriple
				if err := igraph.UnmarshalTriple(&back, data); err != nil {
					return err
				}
				if back != tr {
					return fmt.Errorf("triple %v is decoded as %v", tr, back)
				}
				for k := 0; k < len(data); k++ {
					if igraph.UnmarshalTriple(&back, data[:k]) == nil {
						return fmt.Errorf("%d bytes of %d were accepted as a triple", k, len(data))
					}
				}
			}
			return nil
		},
	})
}

// KVOp is an operation on a storage
type KVOp struct {
	Op string `json:"op"`
	K  []byte `json:"k,omitempty"`
	V  []byte `json:"v,omitempty"`
	N  uint32 `json:"n,omitempty"`
	M  uint32 `json:"m,omitempty"`
}

// KV is a history on a storage
type KV struct {
	Kind string `json:"kind"`
	Disk bool   `json:"disk,omitempty"`
	Ops  []KVOp `json:"ops"`
	Fin  bool   `json:"fin,omitempty"` // finalize before the last lookups
}

var kinds = []string{"forward", "reverse", "data", "language", "triples", "inverses"}

func genBytes(t *rapid.T, name string) []byte {
	switch rapid.IntRange(0, 4).Draw(t, name+"kind") {
	case 0:
		return []byte{}
	case 1:
		return []byte(lib.Pick(t, name, []string{"a", "b", "http://x/a", "http://x/ab", "ü", "\x00", "a\x00", "\xff", "\xff\xff", "_:b", " ", "\n", "\"", "0"}))
	case 2:
		return []byte(lib.Pick(t, name, lib.Values))
	case 3:
		return rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, name)
	default:
		return bytes.Repeat([]byte(lib.Pick(t, name, []string{"x", "\x00", "ab"})), rapid.IntRange(1, 3000).Draw(t, name+"n"))
	}
}

func smallID(t *rapid.T, name string) uint32 {
	if lib.Chance(t, name+"small", 60) {
		return uint32(rapid.IntRange(0, 5).Draw(t, name))
	}
	return lib.Pick(t, name, edges)
}

// testMap runs ops on a storage, next to a Go map
func testMap[K comparable, V comparable](c KV, s imap.HashMap[K, V], key func(KVOp) K, value func(KVOp) V, r *lib.Rec) (err error) {
	defer func() {
		if e := s.Close(); e != nil && err == nil {
			err = fmt.Errorf("close: %w", e)
		}
	}()
	model := map[K]V{}
	look := func(k K) error {
		v, ok, err := s.Get(k)
		if err != nil {
			return fmt.Errorf("get: %w", err)
		}
		wv, wok := model[k]
		if ok != wok || v != wv {
			return fmt.Errorf("get of %v gives %v, %v instead of %v, %v", k, v, ok, wv, wok)
		}
		z, err := s.GetZero(k)
		if err != nil || z != wv {
			return fmt.Errorf("getzero of %v gives %v (%v) instead of %v", k, z, err, wv)
		}
		h, err := s.Has(k)
		if err != nil || h != wok {
			return fmt.Errorf("has of %v gives %v (%v)", k, h, err)
		}
		return nil
	}
	whole := func() error {
		n, err := s.Count()
		if err != nil || n != uint64(len(model)) {
			return fmt.Errorf("the number of entries is %d (%v) instead of %d", n, err, len(model))
		}
		seen := map[K]bool{}
		err = s.Iterate(func(k K, v V) error {
			if seen[k] {
				return fmt.Errorf("%v is iterated over twice", k)
			}
			seen[k] = true
			if wv, ok := model[k]; !ok || wv != v {
				return fmt.Errorf("iteration gives %v for %v instead of %v, %v", v, k, wv, ok)
			}
			return nil
		})
		if err != nil {
			return err
		}
		if len(seen) != len(model) {
			return fmt.Errorf("iteration gives %d entries instead of %d", len(seen), len(model))
		}
		return nil
	}
	for i, op := range c.Ops {
		k, v := key(op), value(op)
		var err error
		switch op.Op {
		case "set":
			if _, ok := model[k]; ok {
				r.Class("overwrite")
			}
			err = s.Set(k, v)
			model[k] = v
		case "delete":
			if _, ok := model[k]; ok {
				r.Class("delete-existing")
			}
			err = s.Delete(k)
			delete(model, k)
		case "compact":
			err = s.Compact()
		case "iterate":
			err = whole()
		case "rewrite":
			// entries may be written during iteration
			n := 0
			err = s.Iterate(func(k K, _ V) error {
				n++
				model[k] = v
				return s.Set(k, v)
			})
			if err == nil && n != len(model) {
				err = fmt.Errorf("%d entries instead of %d were iterated over", n, len(model))
			}
			r.Class("rewrite")
		case "stop":
			// iteration stops at the first error
			stop := errors.New("stop")
			n := 0
			err = s.Iterate(func(K, V) error {
				n++
				return stop
			})
			if len(model) == 0 && err == nil {
				break
			}
			if err != stop || n != 1 {
				err = fmt.Errorf("iteration continued after an error (%d calls), and returned %v", n, err)
			} else {
				err = nil
			}
		}
		if err == nil {
			err = look(k)
		}
		if err != nil {
			return fmt.Errorf("operation %d (%s): %w", i, op.Op, err)
		}
	}
	if c.Fin {
		if err := s.Finalize(); err != nil {
			return fmt.Errorf("finalize: %w", err)
		}
		r.Class("finalized")
	}
	for _, op := range c.Ops {
		if err := look(key(op)); err != nil {
			return err
		}
	}
	r.NontrivialIf(len(model) > 1)
	return whole()
}

func TestC25_maps(t *testing.T) {
	lib.Run(t, lib.Prop[KV]{
		Name:  "C25.maps",
		Rule:  "histories of writes, deletes, lookups, iterations (also with writes and errors in between), compactions and finalization on each of the six key-value storages of both engines, with empty, binary, long and prefix-sharing keys and values, compared with a Go map; non-trivial when at least two entries are left",
		Quick: 5000, Thorough: 400000,
		Gen: func(t *rapid.T) (c KV) {
			c.Kind = lib.Pick(t, "kind", kinds)
			c.Disk = lib.Chance(t, "disk", 60)
			c.Fin = lib.Chance(t, "fin", 40)
			n := rapid.IntRange(1, 30).Draw(t, "n")
			var keys []KVOp
			for i := 0; i < n; i++ {
				op := KVOp{Op: lib.Pick(t, "op", []string{"set", "set", "set", "set", "set", "delete", "get", "get", "iterate", "stop", "rewrite", "compact"})}
				if op.Op == "compact" && !lib.Chance(t, "really", 25) {
					op.Op = "set"
				}
				if len(keys) > 0 && lib.Chance(t, "old", 50) {
					k := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "which")]
					op.K, op.N = k.K, k.N
				} else {
					op.K, op.N = genBytes(t, "k"), smallID(t, "kn")
				}
				op.V, op.M = genBytes(t, "v"), smallID(t, "vn")
				keys = append(keys, op)
				c.Ops = append(c.Ops, op)
			}
			return
		},
		Check: func(c KV, r *lib.Rec) error {
			dir := ""
			if c.Disk {
				var cleanup func()
				dir, cleanup = lib.TempDir()
				defer cleanup()
			}
			e := sparkl.NewEngine(dir)
			r.Class(fmt.Sprintf("%s-disk=%v", c.Kind, c.Disk))
			idK := func(o KVOp) impl.ID { return mkID(o.N) }
			idV := func(o KVOp) impl.ID { return mkID(o.M) }
			lblK := func(o KVOp) impl.Label { return impl.Label(o.K) }
			ti := func(o KVOp) imap.TripleID {
				return imap.TripleID{Canonical: mkID(o.M), Literal: mkID(o.M ^ uint32(len(o.V)))}
			}
			switch c.Kind {
			case "forward":
				s, err := e.Forward()
				if err != nil {
					return err
				}
				return testMap(c, s, lblK, ti, r)
			case "reverse":
				s, err := e.Reverse()
				if err != nil {
					return err
				}
				return testMap(c, s, idK, func(o KVOp) impl.Label { return impl.Label(o.V) }, r)
			case "data":
				s, err := e.Data()
				if err != nil {
					return err
				}
				return testMap(c, s, idK, func(o KVOp) impl.Datum { return impl.Datum(o.V) }, r)
			case "language":
				s, err := e.Language()
				if err != nil {
					return err
				}
				return testMap(c, s, idK, func(o KVOp) impl.Language { return impl.Language(o.V) }, r)
			case "triples":
				s, err := e.Triples()
				if err != nil {
					return err
				}
				return testMap(c, s, idK, func(o KVOp) igraph.IndexTriple {
					return igraph.IndexTriple{Role: igraph.Role(len(o.V) % 3), Items: [3]imap.TripleID{ti(o), {Canonical: mkID(o.N)}, {Literal: mkID(o.M)}}}
				}, r)
			default:
				s, err := e.Inverses()
				if err != nil {
					return err
				}
				return testMap(c, s, idK, idV, r)
			}
		},
	})
}

// ThreeOp adds an entry
type ThreeOp struct {
	A, B, C, L uint32
	Keep       bool `json:",omitempty"` // in case of a conflict, keep the old one
	Fail       bool `json:",omitempty"` // in case of a conflict, fail
	Compact    bool `json:",omitempty"`
}

// Three is a history on an index
type Three struct {
	Disk bool      `json:"disk,omitempty"`
	POS  bool      `json:"pos,omitempty"`
	Ops  []ThreeOp `json:"ops"`
}

func TestC25_three(t *testing.T) {
	lib.Run(t, lib.Prop[Three]{
		Name:  "C25.three",
		Rule:  "histories of (conflicting) additions and compactions on the PSO and POS storages of both engines; afterwards lookups, ordered listings (to their end, or stopped by an error) and counts are compared with a Go map; non-trivial when some listing has at least two entries",
		Quick: 5000, Thorough: 400000,
		Gen: func(t *rapid.T) (c Three) {
			c.Disk = lib.Chance(t, "disk", 60)
			c.POS = rapid.Bool().Draw(t, "pos")
			n := rapid.IntRange(1, 40).Draw(t, "n")
			pool := []uint32{1, 2, 255, 256, 257, 1 << 24, 1<<32 - 1}
			for i := 0; i < n; i++ {
				op := ThreeOp{A: lib.Pick(t, "a", pool), B: lib.Pick(t, "b", pool), C: lib.Pick(t, "c", pool), L: smallID(t, "l")}
				if len(c.Ops) > 0 && lib.Chance(t, "near", 60) {
					o := c.Ops[rapid.IntRange(0, len(c.Ops)-1).Draw(t, "which")]
					op.A, op.B = o.A, o.B
					if lib.Chance(t, "conflict", 30) {
						op.C = o.C
					}
				}
				op.Keep = rapid.Bool().Draw(t, "keep")
				op.Fail = lib.Chance(t, "fail", 10)
				op.Compact = lib.Chance(t, "compact", 4)
				c.Ops = append(c.Ops, op)
			}
			return
		},
		Check: func(c Three, r *lib.Rec) (err error) {
			dir := ""
			if c.Disk {
				var cleanup func()
				dir, cleanup = lib.TempDir()
				defer cleanup()
			}
			e := sparkl.NewEngine(dir)
			var s igraph.ThreeStorage
			if c.POS {
				s, err = e.POSIndex()
			} else {
				s, err = e.PSOIndex()
			}
			if err != nil {
				return err
			}
			defer func() {
				if e := s.Close(); e != nil && err == nil {
					err = fmt.Errorf("close: %w", e)
				}
			}()
			model := map[[3]uint32]uint32{}
			boom := errors.New("no")
			for i, op := range c.Ops {
				if op.Compact {
					if err := s.Compact(); err != nil {
						return err
					}
				}
				k := [3]uint32{op.A, op.B, op.C}
				old, had := model[k]
				called := 0
				conflicted, err := s.Add(mkID(op.A), mkID(op.B), mkID(op.C), mkID(op.L), func(o, n impl.ID) (impl.ID, error) {
					called++
					if !had || num(o) != old || num(n) != op.L {
						return n, fmt.Errorf("operation %d: conflict of %v and %v", i, o, n)
					}
					if op.Fail {
						return n, boom
					}
					if op.Keep {
						return o, nil
					}
					return n, nil
				})
				if had && op.Fail {
					if err != boom {
						return fmt.Errorf("operation %d: error of the conflict was lost: %v", i, err)
					}
					r.Class("conflict-error")
					continue
				}
				if err != nil {
					return err
				}
				if conflicted != had || called > 0 != had || called > 1 {
					return fmt.Errorf("operation %d: conflict is %v, but should be %v", i, conflicted, had)
				}
				if had {
					r.Class("conflict")
				}
				if !had || !op.Keep {
					model[k] = op.L
				}
			}
			if err := s.Finalize(); err != nil {
				return err
			}
			r.Class(fmt.Sprintf("disk=%v", c.Disk))
			n, err := s.Count()
			if err != nil || n != int64(len(model)) {
				return fmt.Errorf("there are %d entries (%v) instead of %d", n, err, len(model))
			}
			for _, op := range c.Ops {
				// neighbours of the entry, too
				for _, d := range []uint32{0, 1, ^uint32(0)} {
					k := [3]uint32{op.A, op.B, op.C + d}
					id, ok, err := s.Has(mkID(k[0]), mkID(k[1]), mkID(k[2]))
					l, want := model[k]
					if err != nil || ok != want || num(id) != l {
						return fmt.Errorf("%v is %v, %v (%v) instead of %v, %v", k, id, ok, err, l, want)
					}
					ab := [2]uint32{op.A, op.B + d}
					var wc []uint32
					for k := range model {
						if k[0] == ab[0] && k[1] == ab[1] {
							wc = append(wc, k[2])
						}
					}
					sort.Slice(wc, func(i, j int) bool { return wc[i] < wc[j] })
					r.NontrivialIf(len(wc) > 1)
					var gc []uint32
					err = s.Fetch(mkID(ab[0]), mkID(ab[1]), func(c, l impl.ID) error {
						gc = append(gc, num(c))
						if w := model[[3]uint32{ab[0], ab[1], num(c)}]; w != num(l) {
							return fmt.Errorf("%v %v has label %v instead of %d", ab, c, l, w)
						}
						return nil
					})
					if err != nil || fmt.Sprint(gc) != fmt.Sprint(wc) {
						return fmt.Errorf("listing of %v gives %v (%v) instead of %v", ab, gc, err, wc)
					}
					calls := 0
					err = s.Fetch(mkID(ab[0]), mkID(ab[1]), func(c, l impl.ID) error {
						calls++
						return boom
					})
					if len(wc) > 0 && (err != boom || calls != 1) || len(wc) == 0 && err != nil {
						return fmt.Errorf("listing of %v was stopped, but returned %v after %d calls", ab, err, calls)
					}
				}
			}
			return nil
		},
	})
}

// Labels is a history on a label storage
type Labels struct {
	Disk bool     `json:"disk,omitempty"`
	Ops  []KVOp   `json:"ops"`
	Ask  [][]byte `json:"ask,omitempty"`
}

func TestC25_labels(t *testing.T) {
	lib.Run(t, lib.Prop[Labels]{
		Name:  "C25.labels",
		Rule:  "histories of additions, lookups, unused identifiers, identifications, compactions and resets on the label storage of both engines, with empty, binary, and long labels; all identifiers are fresh, and both directions are inverse of each other at any time; non-trivial when there are at least three labels",
		Quick: 4000, Thorough: 300000,
		Gen: func(t *rapid.T) (c Labels) {
			c.Disk = lib.Chance(t, "disk", 40)
			n := rapid.IntRange(1, 25).Draw(t, "n")
			var seen [][]byte
			label := func(name string) []byte {
				if len(seen) > 0 && lib.Chance(t, name+"old", 50) {
					return seen[rapid.IntRange(0, len(seen)-1).Draw(t, name)]
				}
				b := genBytes(t, name)
				seen = append(seen, b)
				return b
			}
			for i := 0; i < n; i++ {
				op := KVOp{Op: lib.Pick(t, "op", []string{"add", "add", "add", "addnew", "get", "next", "same", "compact", "reset"})}
				if (op.Op == "compact" || op.Op == "reset") && !lib.Chance(t, "really", 25) {
					op.Op = "add"
				}
				op.K = label("k")
				op.V = label("v")
				c.Ops = append(c.Ops, op)
			}
			return
		},
		Check: func(c Labels, r *lib.Rec) (err error) {
			dir := ""
			if c.Disk {
				var cleanup func()
				dir, cleanup = lib.TempDir()
				defer cleanup()
			}
			var m imap.IMap
			defer m.Close()
			if err := m.Reset(sparkl.NewEngine(dir)); err != nil {
				return err
			}
			literal := map[impl.Label]impl.ID{}
			canon := map[impl.Label]impl.ID{}
			var last impl.ID
			fresh := func(id impl.ID) error {
				if !id.Valid() || id.Compare(last) <= 0 {
					return fmt.Errorf("identifier %v was used before (last is %v)", id, last)
				}
				last = id
				return nil
			}
			add := func(l impl.Label, ids imap.TripleID) error {
				if lit, ok := literal[l]; ok {
					if ids.Literal != lit || ids.Canonical != canon[l] {
						return fmt.Errorf("%q has changed from %v, %v to %v", l, lit, canon[l], ids)
					}
					return nil
				}
				if err := fresh(ids.Literal); err != nil {
					return err
				}
				if ids.Canonical != ids.Literal {
					return fmt.Errorf("new label %q has identifiers %v", l, ids)
				}
				literal[l], canon[l] = ids.Literal, ids.Literal
				return nil
			}
			for i, op := range c.Ops {
				k, v := impl.Label(op.K), impl.Label(op.V)
				var err error
				switch op.Op {
				case "add":
					var ids imap.TripleID
					if ids, err = m.Add(k); err == nil {
						err = add(k, ids)
					}
				case "addnew":
					_, had := literal[k]
					var ids imap.TripleID
					var old bool
					if ids, old, err = m.AddNew(k); err == nil {
						err = add(k, ids)
						if err == nil && old != had {
							err = fmt.Errorf("%q: old is %v", k, old)
						}
					}
				case "get":
					ids, ok, e := m.Get(k)
					if _, had := literal[k]; e != nil || ok != had || ids.Literal != literal[k] || ids.Canonical != canon[k] {
						err = fmt.Errorf("%q gives %v, %v, %v", k, ids, ok, e)
					}
				case "next":
					err = fresh(m.Next())
				case "same":
					r.ClassIf(len(literal) > 1, "identified")
					var id impl.ID
					if id, err = m.MarkIdentical(k, v); err != nil {
						break
					}
					var added []impl.ID
					for _, l := range []impl.Label{k, v} {
						if _, ok := literal[l]; ok {
							continue
						}
						ids, ok, e := m.Get(l)
						if e != nil || !ok {
							return fmt.Errorf("operation %d: %q was not added (%v)", i, l, e)
						}
						added = append(added, ids.Literal)
						literal[l], canon[l] = ids.Literal, ids.Literal
					}
					sort.Slice(added, func(i, j int) bool { return added[i].Compare(added[j]) < 0 })
					for _, a := range added {
						if err = fresh(a); err != nil {
							return fmt.Errorf("operation %d: %w", i, err)
						}
					}
					from, to := canon[v], canon[k]
					for l, c := range canon {
						if c == from {
							canon[l] = to
						}
					}
					if id != to {
						err = fmt.Errorf("identifying %q with %q gives %v instead of %v", v, k, id, to)
					}
				case "compact":
					err = m.Compact()
				case "reset":
					literal, canon = map[impl.Label]impl.ID{}, map[impl.Label]impl.ID{}
					last.Reset()
					err = m.Reset(sparkl.NewEngine(dir))
				}
				if err == nil {
					err = bijective(&m, literal, canon)
				}
				if err != nil {
					return fmt.Errorf("operation %d (%s): %w", i, op.Op, err)
				}
			}
			r.NontrivialIf(len(literal) > 2)
			r.ClassIf(c.Disk, "disk")
			if err := m.Finalize(); err != nil {
				return err
			}
			if _, err := m.Add("after the end"); err == nil {
				return fmt.Errorf("label was added to a finalized storage")
			}
			if _, err := m.MarkIdentical("a", "b"); err == nil {
				return fmt.Errorf("labels were identified in a finalized storage")
			}
			if err := bijective(&m, literal, canon); err != nil {
				return err
			}
			// the map of identities
			reps := map[impl.ID]impl.Label{}
			for l, id := range literal {
				reps[id] = l
			}
			dest := imap.MakeMemory[impl.Label, impl.Label](0)
			if err := m.IdentityMap(&dest); err != nil {
				return err
			}
			n := 0
			for l, id := range canon {
				got, ok, _ := dest.Get(l)
				if id == literal[l] {
					if ok {
						return fmt.Errorf("%q is an alias of %q, but should not be", l, got)
					}
					continue
				}
				n++
				if !ok || got != reps[id] {
					return fmt.Errorf("%q is an alias of %q instead of %q", l, got, reps[id])
				}
			}
			if count, _ := dest.Count(); count != uint64(n) {
				return fmt.Errorf("there are %d aliases instead of %d", count, n)
			}
			return nil
		},
	})
}

func bijective(m *imap.IMap, literal, canon map[impl.Label]impl.ID) error {
	for l, id := range literal {
		back, err := m.Reverse(id)
		if err != nil || back != l {
			return fmt.Errorf("%q has identifier %v, which belongs to %q (%v)", l, id, back, err)
		}
		f, err := m.Forward(l)
		if err != nil || f != canon[l] {
			return fmt.Errorf("%q has canonical identifier %v (%v) instead of %v", l, f, err, canon[l])
		}
	}
	for _, l := range []impl.Label{"never added", "\x01"} {
		if f, err := m.Forward(l); err != nil || f.Valid() {
			if _, ok := literal[l]; !ok {
				return fmt.Errorf("unknown label has identifier %v (%v)", f, err)
			}
		}
	}
	if back, err := m.Reverse(mkID(1 << 30)); err != nil || back != "" {
		return fmt.Errorf("unknown identifier belongs to %q (%v)", back, err)
	}
	return nil
}
