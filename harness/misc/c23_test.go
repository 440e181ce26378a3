package misc

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"runtime"
	"testing"

	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"github.com/FAU-CDI/hangover/pkg/sgob"
	"pgregory.net/rapid"
)

// Rec is a struct to encode
type Rec struct {
	A string
	B int64
	C []string
	D map[string]bool
	E []byte
	F impl.ID
	G *Inner
	H float64
}

// Inner is a struct inside a struct
type Inner struct {
	X []int
	Y map[int]string
}

// Key is a struct used as a key
type Key struct {
	S string
	N int8
}

// Names is a named slice
type Names []string

// Item describes a value to encode
type Item struct {
	T string   `json:"t"`
	S []string `json:"s"`
	N []int    `json:"n"`
	R int      `json:"r,omitempty"` // repeat everything
}

func (it Item) num(i int) int {
	if len(it.N) == 0 {
		return 0
	}
	return it.N[i%len(it.N)]
}

func (it Item) id(i int) (id impl.ID) {
	id.LoadInt(big.NewInt(int64(uint32(it.num(i)))))
	return
}

func (it Item) rec(i int) Rec {
	r := Rec{A: it.S[i], B: int64(it.num(i)), F: it.id(i), H: float64(it.num(i)) / 4}
	switch it.num(i+1) & 3 {
	case 1:
		r.C = it.S[:i+1]
	case 2:
		r.D = map[string]bool{it.S[i]: true, "": false}
	case 3:
		r.G = &Inner{X: it.N, Y: map[int]string{i: it.S[i], -1: ""}}
	}
	if it.num(i)&4 != 0 {
		r.E = []byte(it.S[i])
	}
	return r
}

// every type comes with a function to build a value
var shapes = map[string]func(it Item) any{
	"string": func(it Item) any { return fmt.Sprint(it.S) },
	"int":    func(it Item) any { return it.num(0) },
	"bytes": func(it Item) any {
		var v []byte
		for _, s := range it.S {
			v = append(v, s...)
		}
		return v
	},
	"names": func(it Item) any { return Names(it.S) },
	"ids": func(it Item) any {
		v := []impl.ID{}
		for i := range it.N {
			v = append(v, it.id(i))
		}
		return v
	},
	"recs": func(it Item) any {
		var v []Rec
		for i := range it.S {
			v = append(v, it.rec(i))
		}
		return v
	},
	"ptrs": func(it Item) any {
		var v []*Rec
		for i := range it.S {
			r := it.rec(i)
			v = append(v, &r)
		}
		return v
	},
	"rec": func(it Item) any {
		if len(it.S) == 0 {
			return Rec{}
		}
		return it.rec(0)
	},
	"map": func(it Item) any {
		v := map[string]int{}
		for i, s := range it.S {
			v[s] = it.num(i)
		}
		return v
	},
	"idmap": func(it Item) any {
		v := map[impl.ID]Rec{}
		for i := range it.S {
			v[it.id(i)] = it.rec(i)
		}
		return v
	},
	"structmap": func(it Item) any {
		v := map[Key][]string{}
		for i, s := range it.S {
			v[Key{S: s, N: int8(it.num(i))}] = it.S[:i]
		}
		return v
	},
	"nested": func(it Item) any {
		v := map[string]map[int][]Names{}
		for i, s := range it.S {
			if v[s] == nil {
				v[s] = map[int][]Names{}
			}
			for j := 0; j < it.num(i)&3; j++ {
				v[s][it.num(i+j)] = append(v[s][it.num(i+j)], it.S[j%len(it.S):], nil)
			}
		}
		return v
	},
	"matrix": func(it Item) any {
		var v [][][]int
		for i := range it.S {
			var row [][]int
			for j := 0; j < it.num(i)&3; j++ {
				row = append(row, it.N[:min(len(it.N), j)])
			}
			v = append(v, row)
		}
		return v
	},
	"labels": func(it Item) any {
		v := map[impl.Label]map[impl.ID]bool{}
		for i, s := range it.S {
			v[impl.Label(s)] = map[impl.ID]bool{it.id(i): i&1 == 0}
		}
		return v
	},
	"array": func(it Item) any {
		var v [3][]string
		for i, s := range it.S {
			v[i%3] = append(v[i%3], s)
		}
		return v
	},
	"memory": func(it Item) any {
		m := imap.MakeMemory[impl.Label, impl.ID](0)
		for i, s := range it.S {
			lib.Must(m.Set(impl.Label(s), it.id(i)))
		}
		return m
	},
}

var shapeNames = lib.SortedKeys(shapes)

// norm makes a value comparable: empty collections and nil are the same
func norm(v any) string {
	if m, ok := v.(imap.Memory[impl.Label, impl.ID]); ok {
		x := map[string]string{}
		if m.IsNil() {
			return "{}"
		}
		lib.Must(m.Iterate(func(k impl.Label, v impl.ID) error { x[string(k)] = v.String(); return nil }))
		v = x
	}
	return normValue(reflect.ValueOf(v))
}

func normValue(v reflect.Value) string {
	if id, ok := v.Interface().(impl.ID); ok {
		return id.String()
	}
	switch v.Kind() {
	case reflect.Map:
		m := map[string]string{}
		it := v.MapRange()
		for it.Next() {
			m[normValue(it.Key())] = normValue(it.Value())
		}
		return fmt.Sprintf("%q", m)
	case reflect.Slice, reflect.Array:
		s := []string{}
		for i := 0; i < v.Len(); i++ {
			s = append(s, normValue(v.Index(i)))
		}
		return fmt.Sprintf("%q", s)
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + normValue(v.Elem())
	case reflect.Struct:
		s := []string{}
		for i := 0; i < v.NumField(); i++ {
			s = append(s, normValue(v.Field(i)))
		}
		return fmt.Sprintf("%q", s)
	default:
		return fmt.Sprintf("%#v", v.Interface())
	}
}

// Stream is a sequence of values, and how it is damaged
type Stream struct {
	Items []Item `json:"items"`
	// damage
	Cut    int    `json:"cut"` // in 1/1000, -1 for none
	Flips  []int  `json:"flips,omitempty"`
	Values []byte `json:"values,omitempty"`
	Fail   bool   `json:"fail,omitempty"` // reading fails instead of ending
}

func genItem(t *rapid.T) (it Item) {
	it.T = lib.Pick(t, "t", shapeNames)
	n := rapid.IntRange(0, 5).Draw(t, "ns")
	for i := 0; i < n; i++ {
		it.S = append(it.S, lib.Pick(t, "s", lib.Values))
	}
	it.N = rapid.SliceOfN(rapid.IntRange(-5, 70000), 1, 5).Draw(t, "n")
	if lib.Chance(t, "large", 2) {
		it.R = rapid.IntRange(200, 3000).Draw(t, "r")
	}
	return
}

func (it Item) value() any {
	if it.R > 0 && it.T != "structmap" && it.T != "recs" && it.T != "ptrs" && it.T != "idmap" && it.T != "nested" {
		for i := 0; i < it.R; i++ {
			it.S = append(it.S, fmt.Sprint("s", i))
			it.N = append(it.N, i)
		}
	}
	return shapes[it.T](it)
}

func encodeAll(items []Item) ([]byte, []any, error) {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	var values []any
	for i, it := range items {
		v := it.value()
		values = append(values, v)
		if err := sgob.Encode(enc, v); err != nil {
			return nil, nil, fmt.Errorf("encode %d (%s): %w", i, it.T, err)
		}
	}
	return buf.Bytes(), values, nil
}

func TestC23_roundtrip(t *testing.T) {
	lib.Run(t, lib.Prop[Stream]{
		Name:  "C23.roundtrip",
		Rule:  "sequences of values of 16 types (nested maps and slices, structs, identifiers, the storages of an index; up to 3000 elements) written to one stream and read back, into fresh or filled destinations; non-trivial when a collection has an element",
		Quick: 40000, Thorough: 3000000,
		Gen: func(t *rapid.T) (c Stream) {
			n := rapid.IntRange(1, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.Items = append(c.Items, genItem(t))
			}
			return
		},
		Check: func(c Stream, r *lib.Rec) error {
			data, values, err := encodeAll(c.Items)
			if err != nil {
				return err
			}
			in := bytes.NewReader(data)
			dec := gob.NewDecoder(in)
			for i, v := range values {
				r.Class(c.Items[i].T)
				r.ClassIf(c.Items[i].R > 1024, "large")
				r.NontrivialIf(len(c.Items[i].S) > 0)
				dest := reflect.New(reflect.TypeOf(v))
				if k := dest.Elem().Kind(); (k == reflect.Map || k == reflect.Slice) && i > 0 {
					// the previous content is replaced
					other := Item{T: c.Items[i].T, S: []string{"old", "x"}, N: []int{9, 8}}
					dest.Elem().Set(reflect.ValueOf(other.value()))
				}
				if err := sgob.Decode(dec, dest.Interface()); err != nil {
					return fmt.Errorf("decode %d (%s): %w", i, c.Items[i].T, err)
				}
				if a, b := norm(v), norm(dest.Elem().Interface()); a != b {
					return fmt.Errorf("value %d (%s) was %.1000s, but is now %.1000s", i, c.Items[i].T, a, b)
				}
			}
			var more int
			if err := sgob.Decode(dec, &more); err == nil {
				return fmt.Errorf("there is something left in the stream")
			}
			if err := sgob.Decode(dec, more); err == nil {
				return fmt.Errorf("decoding into something that is not a pointer succeeded")
			}
			return nil
		},
	})
}

type failing struct {
	io.Reader
	err error
}

func (f failing) Read(p []byte) (int, error) {
	n, err := f.Reader.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

func TestC23_damage(t *testing.T) {
	lib.Run(t, lib.Prop[Stream]{
		Name:  "C23.damage",
		Rule:  "as C23.roundtrip, but the stream is cut off at any point, ends with a read error, or has bytes replaced; a short stream is always an error; nothing crashes or allocates more than 64 MiB beyond what the input explains; non-trivial when something was damaged behind the first value's start",
		Quick: 40000, Thorough: 3000000,
		Gen: func(t *rapid.T) (c Stream) {
			n := rapid.IntRange(1, 4).Draw(t, "n")
			for i := 0; i < n; i++ {
				it := genItem(t)
				it.R = 0
				c.Items = append(c.Items, it)
			}
			c.Cut = -1
			if rapid.Bool().Draw(t, "docut") {
				c.Cut = rapid.IntRange(0, 999).Draw(t, "cut")
				c.Fail = rapid.Bool().Draw(t, "fail")
			} else {
				k := rapid.IntRange(1, 4).Draw(t, "k")
				for i := 0; i < k; i++ {
					c.Flips = append(c.Flips, rapid.IntRange(0, 999).Draw(t, "at"))
					c.Values = append(c.Values, lib.Pick(t, "v", []byte{0, 1, 0x7f, 0x80, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 3, 42}))
				}
			}
			return
		},
		Check: func(c Stream, r *lib.Rec) error {
			data, values, err := encodeAll(c.Items)
			if err != nil {
				return err
			}
			if c.Cut >= 0 {
				data = data[:len(data)*c.Cut/1000]
				r.Class("cut")
			}
			for i, f := range c.Flips {
				data[len(data)*f/1000] = c.Values[i]
				r.ClassIf(i == 0, "flip")
			}
			r.NontrivialIf(len(data) > 8)
			var before, after runtime.MemStats
			runtime.ReadMemStats(&before)
			var in io.Reader = bytes.NewReader(data)
			boom := errors.New("boom")
			if c.Fail {
				in = failing{in, boom}
			}
			dec := gob.NewDecoder(in)
			failed := false
			for _, v := range values {
				dest := reflect.New(reflect.TypeOf(v))
				if err := sgob.Decode(dec, dest.Interface()); err != nil {
					failed = true
					break
				}
				if c.Cut >= 0 && norm(v) != norm(dest.Elem().Interface()) {
					return fmt.Errorf("a value from the intact part of the stream has changed")
				}
			}
			runtime.ReadMemStats(&after)
			if used := after.TotalAlloc - before.TotalAlloc; used > 64<<20 {
				return fmt.Errorf("%d bytes were allocated for a stream of %d bytes", used, len(data))
			}
			if c.Cut >= 0 && !failed {
				return fmt.Errorf("a stream cut off at %d bytes was read without an error", len(data))
			}
			r.ClassIf(failed, "rejected")
			return nil
		},
	})
}

var _ = json.Marshal
