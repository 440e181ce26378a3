package zdemo

import (
	"fmt"
	"html"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
)

const (
	rdfType = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"
	sameAs  = "<http://www.w3.org/2002/07/owl#sameAs>"
	inverse = "<http://www.w3.org/2002/07/owl#inverseOf>"
)

// path describes a path of a pathbuilder.
type path struct {
	id     string   // name of the path
	parent string   // bundle this path is in
	dt     string   // datatype property (fields only)
	arr    []string // path array
	field  bool     // is this a field?
	card   int      // cardinality, 0 for unlimited
	ftype  string   // type of field
}

func pbXML(paths ...path) string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\"?>\n<pathbuilderinterface>")
	for i, p := range paths {
		group, parent, dt, bundle, ftype := "1", p.parent, p.dt, p.id, p.ftype
		if parent == "" {
			parent = "0"
		}
		if dt == "" {
			dt = "empty"
		}
		if p.field {
			group, bundle = "0", p.parent
		}
		if ftype == "" {
			ftype = "string"
		}
		if p.card == 0 {
			p.card = -1
		}
		fmt.Fprintf(&b, "<path><id>%s</id><weight>%d</weight><enabled>1</enabled><group_id>%s</group_id><bundle>%s</bundle><field>f%d</field><fieldtype>%s</fieldtype><displaywidget>w</displaywidget><formatterwidget>w</formatterwidget><cardinality>%d</cardinality><field_type_informative>%s</field_type_informative><path_array>",
			html.EscapeString(p.id), i, html.EscapeString(parent), html.EscapeString(bundle), i, ftype, p.card, ftype)
		for j, a := range p.arr {
			tag := []string{"x", "y"}[j%2]
			fmt.Fprintf(&b, "<%s>%s</%s>", tag, html.EscapeString(a), tag)
		}
		fmt.Fprintf(&b, "</path_array><datatype_property>%s</datatype_property><short_name></short_name><disamb>0</disamb><description></description><uuid>u%d</uuid><is_group>%s</is_group><name>%s</name></path>\n",
			html.EscapeString(dt), i, group, html.EscapeString(p.id))
	}
	b.WriteString("</pathbuilderinterface>\n")
	return b.String()
}

// files writes a pathbuilder and a set of statements
func files(t *testing.T, xml string, nq ...string) (dir, pb, data string) {
	t.Helper()
	dir = t.TempDir()
	pb, data = filepath.Join(dir, "pb.xml"), filepath.Join(dir, "data.nq")
	if err := os.WriteFile(pb, []byte(xml), 0600); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(data, []byte(strings.Join(nq, " .\n")+" .\n"), 0600); err != nil {
		t.Fatal(err)
	}
	return
}

func trim(uri string) impl.Label { return impl.Label(strings.Trim(uri, "<>")) }

func flags() (f viewer.RenderFlags) {
	f.Predicates = sparkl.Predicates{SameAs: []impl.Label{trim(sameAs)}, InverseOf: []impl.Label{trim(inverse)}}
	return
}

// create loads a pathbuilder and a set of statements
func create(t *testing.T, disk bool, f viewer.RenderFlags, xml string, nq ...string) glass.Glass {
	t.Helper()
	dir, pb, data := files(t, xml, nq...)
	cache := ""
	if disk {
		cache = filepath.Join(dir, "cache")
	}
	g, err := glass.Create(pb, data, cache, f, nil)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { g.Close() })
	return g
}

// values returns the values of a field of an entity
func values(t *testing.T, g glass.Glass, bundle string, uri impl.Label, field string) (values []string) {
	t.Helper()
	entity, ok := g.Cache.Entity(uri, bundle)
	if !ok {
		t.Fatalf("entity %q in bundle %q does not exist", uri, bundle)
	}
	for _, v := range entity.Fields[field] {
		values = append(values, string(v.Value))
	}
	return
}

// show makes a viewer
func show(t *testing.T, g *glass.Glass, f viewer.RenderFlags) *viewer.Viewer {
	t.Helper()
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = f
	v.Prepare(g.Cache, &g.Pathbuilder)
	return v
}

func get(t *testing.T, h http.Handler, url string) *httptest.ResponseRecorder {
	t.Helper()
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, httptest.NewRequest(http.MethodGet, url, nil))
	return rec
}

// program builds a program
func program(t *testing.T, name string) string {
	t.Helper()
	bin := filepath.Join(t.TempDir(), name)
	cmd := exec.Command("go", "build", "-modfile", filepath.Join(os.Getenv("DEMO_WORK"), "go.mod"), "-o", bin, "./cmd/"+name)
	cmd.Dir = os.Getenv("DEMO_REPO")
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%v: %s", err, out)
	}
	return bin
}
