package graph

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib"
	"pgregory.net/rapid"
)

// Line is a line of an n-quads document
type Line struct {
	T   string    `json:"t"`
	Q   *lib.Quad `json:"q,omitempty"`
	Bad bool      `json:"bad,omitempty"`
}

// Doc is a document, and how it is read
type Doc struct {
	Lines []Line `json:"lines"`
	EOL   []bool `json:"eol"` // windows line ending?
	Final bool   `json:"final"`

	File   bool  `json:"file,omitempty"`
	Chunks []int `json:"chunks,omitempty"` // size of reads
	Rounds int   `json:"rounds"`

	Fail    int    `json:"fail"` // offset at which reading fails, -1 for never
	Err     string `json:"err,omitempty"`
	Once    bool   `json:"once,omitempty"` // fail once only
	With    bool   `json:"with,omitempty"` // return the error together with data
	InRound int    `json:"in_round"`       // fail during this round
	Seek    bool   `json:"seek,omitempty"` // rewinding fails
}

func (d Doc) text() string {
	var b strings.Builder
	for i, l := range d.Lines {
		b.WriteString(l.T)
		if i == len(d.Lines)-1 && !d.Final {
			break
		}
		if d.EOL[i%len(d.EOL)] {
			b.WriteString("\r\n")
		} else {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func uchar(r rune, hex int) string {
	f := "%04"
	c := "u"
	if r > 0xffff || hex&1 == 1 {
		f, c = "%08", "U"
	}
	if hex&2 == 2 {
		f += "X"
	} else {
		f += "x"
	}
	return `\` + c + fmt.Sprintf(f, r)
}

// spell writes the text of a uri
func spellIRI(t *rapid.T, v string) string {
	if !lib.Chance(t, "escapeiri", 20) {
		return "<" + v + ">"
	}
	var b strings.Builder
	for _, r := range v {
		if lib.Chance(t, "esc", 30) {
			b.WriteString(uchar(r, rapid.IntRange(0, 3).Draw(t, "hex")))
		} else {
			b.WriteRune(r)
		}
	}
	return "<" + b.String() + ">"
}

var echars = map[rune]string{'\t': `\t`, '\b': `\b`, '\n': `\n`, '\r': `\r`, '\f': `\f`, '"': `\"`, '\'': `\'`, '\\': `\\`}

func spellText(t *rapid.T, v string) string {
	var b strings.Builder
	b.WriteByte('"')
	percent := lib.Pick(t, "style", []int{0, 0, 15, 60})
	n := 0
	for _, r := range v {
		e, ok := echars[r]
		must := r == '"' || r == '\\' || r == '\n' || r == '\r'
		esc := must
		if n < 50 && percent > 0 {
			n++
			esc = must || lib.Chance(t, "esc", percent)
		}
		switch {
		case !esc:
			b.WriteRune(r)
		case ok && (percent == 0 || lib.Chance(t, "echar", 60)):
			b.WriteString(e)
		default:
			b.WriteString(uchar(r, rapid.IntRange(0, 3).Draw(t, "hex")))
		}
	}
	b.WriteByte('"')
	return b.String()
}

func ws(t *rapid.T, must bool) string {
	if must {
		return lib.Pick(t, "ws", []string{" ", "\t", "  ", " \t "})
	}
	return lib.Pick(t, "ws", []string{" ", " ", "", "\t", "  "})
}

var (
	iris   = []string{"http://x/s", "http://x/p", "s", "http://x/ü☃", "http://x/😀?a=1&b=2#c", "urn:x:y", "http://x/a%20b", "http://x/'", "http://x/(a).b,c;d", "http://x/_:b", "http://x/a@en", "http://x/#"}
	blanks = []string{"b", "b0", "0", "a.b", "a-b", "ünode", "A_1"}
	types  = []string{"http://www.w3.org/2001/XMLSchema#string", "http://www.w3.org/2001/XMLSchema#integer", "http://www.w3.org/2001/XMLSchema#double", "http://www.w3.org/2001/XMLSchema#boolean", "http://www.w3.org/2001/XMLSchema#dateTime", "http://schema.org/Integer", "http://x/custom", "http://x/☃"}
	langs  = []string{"en", "de", "de-AT", "zh-Hant-TW", "EN-us", "x-klingon", "a1"[:1]}
	texts  = []string{"", "a", "007", "1.50", "true", "2020-01-01T00:00:00Z", "NaN", "+5", "1e3", "0x10", `a"b`, `a\b`, `\u0041`, "\x00", "\x7f", "a\u0085b", "a\u2028b", "tab\tback\bform\fline\nret\rend", "ü☃😀\U0010ffff", "\ufeff", "a\"@en", "a\"^^<http://x/t>", "<http://x/not>", "_:not", " . ", "# no comment", "'", `\`, `\\`, `"`, `""`, " lead and trail "}
	wrong  = []string{
		`<s> <p> <o>`, `<s> <p> .`, `<s> .`, `.`, `<s> <p> <o> . .`, `<s> <p> <o> . <x>`, `<s> <p> <o> <g> <h> .`, `"s" <p> <o> .`, `<s> "p" <o> .`, `<s> _:p <o> .`,
		`<s> <p> "o .`, `<s> <p> "o" "x" .`, `<s <p> <o> .`, `<s> <p> <o .`, `<s> <p> <o o> .`, `<s> <p> "\q" .`, `<s> <p> "\u12g4" .`, `<s> <p> "\U0000004" .`, `<s> <p> "\UFFFFFFFF" .`, `<s> <p> "\U80000000"@en .`,
		`<s> <p> "o"^^ .`, `<s> <p> "o"^^xsd:string .`, `<s> <p> "o"@ .`, `<s> <p> 'o' .`, `<s> <p> o .`, `s p o .`, `@prefix x: <http://x/> .`, `<s> <p> <o> ; <q> <r> .`, `<s> <p> "a`, `b" .`, `<s> <p> <a"b> .`, `<s> <p> <a{b}> .`, `<s> <p> "o"@en-.`,
		`<s> <p> "a" "b`, `{"json":true}`, `<html>`, `<s> <p> "o" "g" .`,
	}
)

func genQuad(t *rapid.T) Line {
	var q lib.Quad
	res := func(name string) (lib.Term, string) {
		if lib.Chance(t, name+"blank", 20) {
			v := lib.Pick(t, name, blanks)
			return lib.Term{K: "b", V: v}, "_:" + v
		}
		v := lib.Pick(t, name, iris)
		if lib.Chance(t, name+"long", 1) {
			v += strings.Repeat("x", rapid.IntRange(4000, 9000).Draw(t, "len"))
		}
		return lib.IRI(v), spellIRI(t, v)
	}
	var b strings.Builder
	b.WriteString(lib.Pick(t, "lead", []string{"", "", "", " ", "\t "}))
	var s string
	q.S, s = res("s")
	b.WriteString(s)
	b.WriteString(ws(t, false))
	q.P = lib.Pick(t, "p", iris)
	b.WriteString(spellIRI(t, q.P))
	b.WriteString(ws(t, false))
	sep := false // does something need to be separated from the next token?
	if lib.Chance(t, "lit", 60) {
		v := lib.Pick(t, "v", texts)
		switch rapid.IntRange(0, 9).Draw(t, "vkind") {
		case 0:
			v = rapid.StringN(0, 12, -1).Draw(t, "rv")
			v = strings.ToValidUTF8(v, "?")
		case 1:
			v = v + lib.Pick(t, "v2", texts) + lib.Pick(t, "v3", texts)
		case 2:
			if lib.Chance(t, "verylong", 8) {
				v = v + strings.Repeat(lib.Pick(t, "unit", []string{"x", "ü", "\\", "ab\n"}), rapid.IntRange(1000, 70000).Draw(t, "len"))
			}
		}
		q.O = lib.Lit(v, "")
		b.WriteString(spellText(t, v))
		switch rapid.IntRange(0, 3).Draw(t, "lkind") {
		case 0:
			q.O.L = lib.Pick(t, "lang", langs)
			b.WriteString("@" + q.O.L)
			sep = true
		case 1:
			b.WriteString("^^" + spellIRI(t, lib.Pick(t, "dt", types)))
		}
	} else {
		q.O, s = res("o")
		b.WriteString(s)
		sep = q.O.K == "b"
	}
	if lib.Chance(t, "graph", 30) {
		g, s := res("g")
		b.WriteString(ws(t, sep && g.K == "b"))
		b.WriteString(s)
		sep = g.K == "b"
	}
	b.WriteString(ws(t, sep))
	b.WriteString(".")
	b.WriteString(lib.Pick(t, "trail", []string{"", "", "", " ", "\t", " # done", "#", ` # a "comment"@en <with> . \q \UFFFFFFFF`, " # ☃"}))
	return Line{T: b.String(), Q: &q}
}

func genDoc(t *rapid.T) (d Doc) {
	n := rapid.IntRange(0, 12).Draw(t, "n")
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 19).Draw(t, "kind"); {
		case k < 14:
			d.Lines = append(d.Lines, genQuad(t))
		case k < 17:
			d.Lines = append(d.Lines, Line{T: lib.Pick(t, "skip", []string{"", " ", "\t", "#", "# comment", " # <s> <p> <o> .", `#<s> <p> "x" .`, "  "})})
		case k == 17:
			l := genQuad(t)
			d.Lines = append(d.Lines, Line{T: "#" + l.T})
		case k == 18 && lib.Chance(t, "longcomment", 15):
			d.Lines = append(d.Lines, Line{T: "# " + strings.Repeat("<s> <p> <o> . ", rapid.IntRange(200, 700).Draw(t, "len"))})
		default:
			d.Lines = append(d.Lines, Line{})
		}
	}
	if lib.Chance(t, "bad", 25) {
		at := rapid.IntRange(0, len(d.Lines)).Draw(t, "at")
		bad := Line{T: lib.Pick(t, "wrong", wrong), Bad: true}
		d.Lines = append(d.Lines[:at], append([]Line{bad}, d.Lines[at:]...)...)
	}
	switch rapid.IntRange(0, 3).Draw(t, "eol") {
	case 0:
		d.EOL = []bool{true}
	case 1:
		d.EOL = []bool{true, false, false}
	default:
		d.EOL = []bool{false}
	}
	d.Final = !lib.Chance(t, "nofinal", 25)
	d.Rounds = rapid.IntRange(1, 3).Draw(t, "rounds")
	d.Fail = -1
	if lib.Chance(t, "file", 5) {
		d.File = true
		return
	}
	if lib.Chance(t, "chunked", 40) {
		d.Chunks = rapid.SliceOfN(rapid.IntRange(1, 60), 1, 5).Draw(t, "chunks")
	}
	if lib.Chance(t, "fail", 35) {
		d.Fail = rapid.IntRange(0, len(d.text())).Draw(t, "failat")
		d.Err = lib.Pick(t, "err", []string{"other", "unexpected eof", "closed", "noprogress"})
		d.Once = rapid.Bool().Draw(t, "once") && d.Err != "noprogress"
		d.With = rapid.Bool().Draw(t, "with")
		d.InRound = rapid.IntRange(0, d.Rounds-1).Draw(t, "inround")
	} else if d.Rounds > 1 && lib.Chance(t, "seek", 15) {
		d.Seek = true
	}
	return
}

var errOther = errors.New("something happened")

type reader struct {
	d      Doc
	text   string
	pos    int
	n      int
	round  int
	failed bool
}

func (r *reader) err() error {
	switch r.d.Err {
	case "unexpected eof":
		return io.ErrUnexpectedEOF
	case "closed":
		return os.ErrClosed
	default:
		return errOther
	}
}

func (r *reader) Read(p []byte) (int, error) {
	end := len(r.text)
	fails := r.d.Fail >= 0 && r.round == r.d.InRound && !(r.failed && r.d.Once)
	if fails && r.d.Fail < end {
		end = r.d.Fail
	}
	if fails && r.pos >= end {
		r.failed = true
		if r.d.Err == "noprogress" {
			return 0, nil
		}
		return 0, r.err()
	}
	if r.pos >= end {
		return 0, io.EOF
	}
	size := len(p)
	if len(r.d.Chunks) > 0 {
		size = min(size, r.d.Chunks[r.n%len(r.d.Chunks)])
		r.n++
	}
	n := copy(p[:size], r.text[r.pos:end])
	r.pos += n
	if r.pos == end && r.d.With {
		if fails {
			r.failed = true
			if r.d.Err != "noprogress" {
				return n, r.err()
			}
		} else if end == len(r.text) {
			return n, io.EOF
		}
	}
	return n, nil
}

func (r *reader) Seek(offset int64, whence int) (int64, error) {
	if offset != 0 || whence != io.SeekStart {
		return 0, errors.New("unexpected seek")
	}
	if r.d.Seek {
		return 0, errOther
	}
	r.pos = 0
	r.n = 0
	r.round++
	return 0, nil
}

func TestC07_read(t *testing.T) {
	lib.Run(t, lib.Prop[Doc]{
		Name:  "C07.read",
		Rule:  "documents written from known statements in random spellings (escapes, whitespace, comments, graphs, datatypes, line endings, long lines), possibly with a malformed line, read one to three times through readers with arbitrary chunks, and failing at any offset in any round; the delivered statements must be the written ones, and malformed lines and failures must be reported; non-trivial when a literal is delivered, or an error is injected",
		Quick: 150000, Thorough: 6000000,
		Gen:   genDoc,
		Check: checkDoc,
	})
}

func checkDoc(d Doc, r *lib.Rec) error {
	text := d.text()
	var want []lib.Quad
	bad := false
	for _, l := range d.Lines {
		if l.Bad {
			bad = true
			break
		}
		if l.Q != nil {
			want = append(want, *l.Q)
			r.NontrivialIf(l.Q.O.K == "l")
			r.ClassIf(strings.Contains(l.T, `\u`) || strings.Contains(l.T, `\U`), "escapes")
			r.ClassIf(len(l.T) > 4096, "long-line")
		}
	}
	r.ClassIf(bad, "malformed")
	r.ClassIf(d.Fail >= 0, "read-error")
	r.ClassIf(d.Rounds > 1, "reread")
	r.NontrivialIf(d.Fail >= 0 || bad)

	rd := &reader{d: d, text: text}
	var in io.ReadSeeker = rd
	if d.File {
		dir, cleanup := lib.TempDir()
		defer cleanup()
		name := filepath.Join(dir, "data.nq")
		lib.Must(os.WriteFile(name, []byte(text), 0o666))
		f := lib.Must1(os.Open(name))
		defer f.Close()
		in = f
		r.Class("file")
	}
	src := &sparkl.QuadSource{Reader: in}
	for round := 0; round < d.Rounds; round++ {
		if err := src.Open(); err != nil {
			if round > 0 && d.Seek {
				r.Class("seek-error")
				return nil
			}
			return fmt.Errorf("open: %w", err)
		}
		if round > 0 && d.Seek {
			return fmt.Errorf("the file cannot be rewound, but was opened again without an error")
		}
		n := 0
		for {
			tok := src.Next()
			if tok.Err == io.EOF {
				if bad {
					return fmt.Errorf("round %d: the malformed line was not reported", round)
				}
				if d.Fail >= 0 && round == d.InRound {
					return fmt.Errorf("round %d: the reader failed at offset %d of %d, but this was not reported", round, d.Fail, len(text))
				}
				if n != len(want) {
					return fmt.Errorf("round %d: only %d of %d statements were delivered", round, n, len(want))
				}
				break
			}
			if tok.Err != nil {
				if bad && n == len(want) || d.Fail >= 0 && round == d.InRound {
					return nil
				}
				return fmt.Errorf("round %d: statement %d: %w", round, n, tok.Err)
			}
			if n >= len(want) {
				return fmt.Errorf("round %d: unexpected statement %+v", round, tok)
			}
			w := want[n]
			ok := string(tok.Subject) == w.S.Label() && string(tok.Predicate) == w.P && tok.HasDatum == (w.O.K == "l")
			if ok && tok.HasDatum {
				ok = string(tok.Datum) == w.O.V && string(tok.Language) == w.O.L && tok.Object == ""
			} else if ok {
				ok = string(tok.Object) == w.O.Label() && tok.Datum == "" && tok.Language == ""
			}
			if !ok {
				return fmt.Errorf("round %d: statement %d is %+v, but was delivered as %.2000q", round, n, w, fmt.Sprintf("%+v", tok))
			}
			n++
		}
	}
	return nil
}
