package view

import (
	"bytes"
	"compress/gzip"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"testing"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"github.com/FAU-CDI/hangover/pkg/sgob"
	"pgregory.net/rapid"
)

// Damage is a change to a file
type Damage struct {
	Kind string  `json:"kind"` // cut, set, xor, insert, delete, swap, zero
	At   float64 `json:"at"`   // position, relative to the length of the file
	Off  int     `json:"off"`  // offset to that (negative: from the end)
	N    int     `json:"n"`    // byte value or length
}

func genDamage(t *rapid.T) (d Damage) {
	d.Kind = lib.Pick(t, "kind", []string{"cut", "cut", "xor", "xor", "set", "insert", "delete", "swap", "zero"})
	switch rapid.IntRange(0, 3).Draw(t, "where") {
	case 0:
		d.Off = rapid.IntRange(0, 300).Draw(t, "off")
	case 1:
		d.Off = -rapid.IntRange(1, 40).Draw(t, "off")
	default:
		d.At = rapid.Float64Range(0, 1).Draw(t, "at")
	}
	d.N = rapid.IntRange(1, 255).Draw(t, "n")
	if d.Kind == "xor" && rapid.Bool().Draw(t, "bit") {
		d.N = 1 << rapid.IntRange(0, 7).Draw(t, "bitno")
	}
	return
}

func (d Damage) apply(data []byte) []byte {
	out := append([]byte{}, data...)
	if len(out) == 0 {
		return out
	}
	pos := d.Off
	if d.At > 0 {
		pos = int(d.At * float64(len(out)))
	}
	if pos < 0 {
		pos += len(out)
	}
	pos = min(max(pos, 0), len(out)-1)
	n := min(d.N, len(out)-pos)
	switch d.Kind {
	case "cut":
		return out[:pos]
	case "xor":
		out[pos] ^= byte(d.N)
	case "set":
		out[pos] = byte(d.N)
	case "insert":
		return append(out[:pos:pos], append([]byte{byte(d.N)}, data[pos:]...)...)
	case "delete":
		return append(out[:pos:pos], data[pos+n:]...)
	case "swap":
		if pos+1 < len(out) {
			out[pos], out[pos+1] = out[pos+1], out[pos]
		}
	case "zero":
		for i := pos; i < pos+n; i++ {
			out[i] = 0
		}
	}
	return out
}

// Damaged is a case
type Damaged struct {
	W    lib.World `json:"w"`
	F    Flags     `json:"f"`
	Dmg  []Damage  `json:"dmg"`
	Cuts [2]int    `json:"cuts"` // offset and stride of enumerated truncation points
	Ver  int       `json:"ver"`
}

func genDamaged(t *rapid.T, n, stride int) (c Damaged) {
	c.W = lib.GenWorld(t, lib.GenOpts{Matches: 120, MaxQuads: 15})
	c.F = genFlags(t)
	c.Dmg = rapid.SliceOfN(rapid.Custom(genDamage), n, n).Draw(t, "dmg")
	c.Cuts[1] = stride
	c.Cuts[0] = rapid.IntRange(0, stride-1).Draw(t, "cut0")
	c.Ver = rapid.SampledFrom([]int{0, 1, 3, -2, 4, 200, 1 << 40, glass.GlassVersion + 1, glass.GlassVersion - 1, -glass.GlassVersion}).Draw(t, "ver")
	return
}

// importBytes imports a file, with a panic as an error
func importBytes(dir string, data []byte, limit uint64) (g glass.Glass, err error, crash error) {
	path := filepath.Join(dir, "damaged")
	lib.Must(os.WriteFile(path, data, 0o600))
	defer func() {
		if p := recover(); p != nil {
			crash = fmt.Errorf("import crashed: %v", p)
		}
	}()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	g, err = glass.Import(path, nil)
	runtime.ReadMemStats(&after)
	if used := after.TotalAlloc - before.TotalAlloc; used > limit {
		crash = fmt.Errorf("importing %d bytes allocated %d bytes", len(data), used)
	}
	return g, err, crash
}

func exported(c Damaged) (g glass.Glass, data []byte, ns []string, err error) {
	g, err = create(c.W, c.F, false)
	if err != nil {
		return g, nil, nil, fmt.Errorf("load: %w", err)
	}
	dir, cleanup := lib.TempDir()
	defer cleanup()
	path := filepath.Join(dir, "export")
	if err := glass.Export(path, g, nil); err != nil {
		return g, nil, nil, fmt.Errorf("export: %w", err)
	}
	return g, lib.Must1(os.ReadFile(path)), names(c.W), nil
}

func unzip(data []byte) []byte {
	r := lib.Must1(gzip.NewReader(bytes.NewReader(data)))
	return lib.Must1(io.ReadAll(r))
}

func zip(data []byte) []byte {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	lib.Must1(w.Write(data))
	lib.Must(w.Close())
	return b.Bytes()
}

// same tells if a damaged file still holds the same content (the gzip header is not part of it)
func same(data, plain []byte) bool {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return false
	}
	got, err := io.ReadAll(r)
	return err == nil && bytes.Equal(got, plain)
}

// budget is the number of damaged files to try for a stream of the given size
func budget(plain []byte) int {
	return max(4, (8<<20)/len(plain))
}

const allocLimit = 96 << 20

func TestC09_file(t *testing.T) {
	lib.Run(t, lib.Prop[Damaged]{
		Name:  "C09.file",
		Rule:  "exports of generated data with bytes of the file cut off (every n-th truncation point), replaced, inserted, removed or swapped; importing must fail, unless what the file decompresses to is unchanged; nothing crashes or allocates more than 96 MiB; non-trivial when at least 20 damaged files differ in content",
		Quick: 64, Thorough: 1600,
		Gen: func(t *rapid.T) Damaged { return genDamaged(t, 40, 37) },
		Check: func(c Damaged, r *lib.Rec) error {
			g, data, ns, err := exported(c)
			if err != nil {
				return err
			}
			plain := unzip(data)
			dir, cleanup := lib.TempDir()
			defer cleanup()
			n, tries := 0, budget(plain)
			try := func(what string, bad []byte) error {
				if tries--; tries < 0 || bytes.Equal(bad, data) {
					return nil
				}
				harmless := same(bad, plain)
				got, err, crash := importBytes(dir, bad, allocLimit)
				if crash != nil {
					return fmt.Errorf("%s: %w", what, crash)
				}
				if harmless {
					r.Class("harmless change")
					if err != nil {
						return nil // refusing is fine, too
					}
					a, err := snapshot(g, ns)
					if err != nil {
						return err
					}
					b, err := snapshot(got, ns)
					if err != nil {
						return err
					}
					return diffSnap(a, b)
				}
				n++
				if err == nil {
					return fmt.Errorf("%s: the damaged file was imported without an error", what)
				}
				return nil
			}
			for _, d := range c.Dmg {
				if err := try(fmt.Sprintf("%+v of %d bytes", d, len(data)), d.apply(data)); err != nil {
					return err
				}
			}
			step := c.Cuts[1]
			if lib.Thorough() {
				step = 1
			}
			for k := c.Cuts[0]; k < len(data); k += step {
				if err := try(fmt.Sprintf("cut off after %d of %d bytes", k, len(data)), data[:k]); err != nil {
					return err
				}
			}
			r.NontrivialIf(n >= 20)
			return nil
		},
	})
}

func TestC09_stream(t *testing.T) {
	lib.Run(t, lib.Prop[Damaged]{
		Name:  "C09.stream",
		Rule:  "as C09.file, but the decompressed stream is damaged and compressed again, so that its checksum is right (as the decoder sees it before the checksum is verified): a stream that was cut off must be refused, everything else must not crash or allocate more than 96 MiB; non-trivial when at least 20 streams differ",
		Quick: 64, Thorough: 3000,
		Gen: func(t *rapid.T) Damaged { return genDamaged(t, 40, 211) },
		Check: func(c Damaged, r *lib.Rec) error {
			_, data, _, err := exported(c)
			if err != nil {
				return err
			}
			plain := unzip(data)
			dir, cleanup := lib.TempDir()
			defer cleanup()
			n, tries := 0, budget(plain)
			for _, d := range c.Dmg {
				bad := d.apply(plain)
				if tries--; tries < 0 || bytes.Equal(bad, plain) {
					continue
				}
				n++
				_, err, crash := importBytes(dir, zip(bad), allocLimit)
				if crash != nil {
					return fmt.Errorf("%+v of %d bytes: %w", d, len(plain), crash)
				}
				r.ClassIf(err == nil, "accepted")
				if d.Kind == "cut" && err == nil {
					return fmt.Errorf("%+v of %d bytes: a stream that was cut off was imported without an error", d, len(plain))
				}
			}
			step := c.Cuts[1]
			if lib.Thorough() {
				step = 3
			}
			for k := c.Cuts[0]; k < len(plain); k += step {
				if tries--; tries < 0 {
					break
				}
				_, err, crash := importBytes(dir, zip(plain[:k]), allocLimit)
				if crash != nil {
					return fmt.Errorf("cut off after %d of %d bytes: %w", k, len(plain), crash)
				}
				if err == nil {
					return fmt.Errorf("a stream cut off after %d of %d bytes was imported without an error", k, len(plain))
				}
			}
			r.NontrivialIf(n >= 20)
			return nil
		},
	})
}

func TestC09_version(t *testing.T) {
	lib.Run(t, lib.Prop[Damaged]{
		Name:  "C09.version",
		Rule:  "complete exports of generated data that only differ in the format version; always refused; non-trivial always",
		Quick: 80, Thorough: 2000,
		Gen: func(t *rapid.T) Damaged { return genDamaged(t, 0, 1) },
		Check: func(c Damaged, r *lib.Rec) error {
			g, err := create(c.W, c.F, false)
			if err != nil {
				return fmt.Errorf("load: %w", err)
			}
			r.Nontrivial()
			dir, cleanup := lib.TempDir()
			defer cleanup()
			write := func(version int) []byte {
				var b bytes.Buffer
				enc := gob.NewEncoder(&b)
				for _, o := range []any{version, lib.Must1(pbxml.Marshal(g.Pathbuilder)), g.Flags} {
					lib.Must(sgob.Encode(enc, o))
				}
				lib.Must(g.Cache.EncodeTo(enc))
				return zip(b.Bytes())
			}
			got, err, crash := importBytes(dir, write(c.Ver), allocLimit)
			if crash != nil {
				return crash
			}
			if err == nil {
				return fmt.Errorf("an export with version %d was imported: %v", c.Ver, got.Cache.BundleNames())
			}
			return nil
		},
	})
}

func TestC09_command(t *testing.T) {
	lib.Run(t, lib.Prop[Damaged]{
		Name:  "C09.command",
		Rule:  "damaged exports given to the hangover command, to serve or to export again; it must exit with a failure and a message, without a stack trace; non-trivial always",
		Quick: 32, Thorough: 1500,
		Gen: func(t *rapid.T) Damaged { return genDamaged(t, 1, 1) },
		Check: func(c Damaged, r *lib.Rec) error {
			_, data, _, err := exported(c)
			if err != nil {
				return err
			}
			dir, cleanup := lib.TempDir()
			defer cleanup()
			bad := c.Dmg[0].apply(data)
			harmless := same(bad, unzip(data))
			r.Nontrivial()
			path := filepath.Join(dir, "export.bin")
			lib.Must(os.WriteFile(path, bad, 0o600))
			args := []string{"-bench", path}
			if c.Ver%2 == 0 {
				args = []string{"-export", filepath.Join(dir, "again"), path}
			}
			res, err := lib.RunProg(lib.RunOpts{Dir: dir}, lib.Bin("hangover"), args...)
			if err != nil {
				return err
			}
			if res.Crashed() {
				return fmt.Errorf("hangover crashed: %s", lib.Trim(string(res.Stderr), 3000))
			}
			if harmless {
				r.Class("harmless")
				return nil
			}
			if res.Code == 0 {
				return fmt.Errorf("hangover %v accepted a damaged export (%+v of %d bytes): %s", args, c.Dmg[0], len(data), lib.Trim(string(res.Stderr), 1500))
			}
			if len(bytes.TrimSpace(res.Stderr)) == 0 {
				return fmt.Errorf("hangover %v failed without a message", args)
			}
			return nil
		},
	})
}
