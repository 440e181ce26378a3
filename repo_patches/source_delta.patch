From dfe54019e72cd704e04875bbb27880b0a44c69f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 01/40] fix: glass: report errors while extracting bundles

---
 internal/glass/glass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index df59659..1da77d7 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -116,7 +116,7 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 
 	// extract the bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() (err error) {
+	err = st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(&drincw.Pathbuilder, index, bEngine, st)
 		return err
 	})
-- 
2.43.0


From c393fda80cb2503d795f4283552355dd523a6f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 02/40] fix: viewer: stop handling api requests once the 'not
 ready' message has been sent

---
 internal/viewer/fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index a638e3e..86ce67f 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -71,5 +71,5 @@ func (viewer *Viewer) jsonFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 
-	return
+	return true
 }
-- 
2.43.0


From d4fdd091c990ddefa392e8e8ced3de244ac59ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 03/40] fix: hangover: don't serve without a listener when
 exporting

---
 cmd/hangover/hangover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangover/hangover.go b/cmd/hangover/hangover.go
index 97fbc93..94aa991 100644
--- a/cmd/hangover/hangover.go
+++ b/cmd/hangover/hangover.go
@@ -54,7 +54,7 @@ func main() {
 		handler.Stats.Log("listen", "addr", addr)
 	}
 
-	if !benchMode {
+	if listener != nil {
 		go func() {
 			defer close(done)
 			http.Serve(listener, handler)
-- 
2.43.0


From 4faac03a17cb0dc9a5cc747c5c61d8d0e5926021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 04/40] fix: viewer: don't keep an (unused) Stats in
 RenderFlags, which made it impossible to gob-encode a glass

---
 internal/viewer/fallback.go | 2 +-
 internal/viewer/html.go     | 2 +-
 internal/viewer/viewer.go   | 4 ----
 3 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index 86ce67f..6bdb854 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -40,7 +40,7 @@ func (viewer *Viewer) htmlFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 	if err != nil {
-		viewer.RenderFlags.Stats.LogError("render fallback", err)
+		viewer.Stats.LogError("render fallback", err)
 	}
 
 	return true
diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 46d3bd9..cfb833b 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -471,6 +471,6 @@ func (viewer *Viewer) htmlEntity(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 	err := entityTemplate.Execute(w, context)
 	if err != nil {
-		viewer.RenderFlags.Stats.LogError("render entity", err)
+		viewer.Stats.LogError("render entity", err)
 	}
 }
diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index d95647f..2d95cbc 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -57,9 +57,6 @@ type RenderFlags struct {
 	StrictCSP   bool // use strict content-security-policy for images and media by only allowing content from public uris
 	HTMLRender  bool
 	ImageRender bool
-
-	// Stats holds the status to use for logging
-	Stats *stats.Stats
 }
 
 func (rf RenderFlags) PublicURIS() (public []string) {
@@ -67,7 +64,6 @@ func (rf RenderFlags) PublicURIS() (public []string) {
 	for _, raw := range text.Splitter(",\n")(rf.PublicURL) {
 		url, err := url.Parse(strings.TrimSpace(raw))
 		if err != nil {
-			rf.Stats.LogError("parse url", err)
 			continue
 		}
 
-- 
2.43.0


From a3cc6bdc85053cfd5e6a102679a17390943fe8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 05/40] fix: glass: completely write exported files and report
 errors

---
 internal/glass/glass.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 1da77d7..0e88c40 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -163,14 +163,17 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		st.LogError("create export", err)
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if e := f.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	writer, err := gzip.NewWriterLevel(f, gzip.BestCompression)
 	if err != nil {
 		st.LogError("create gzip writer", err)
 		return err
 	}
-	defer writer.Flush()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
@@ -181,6 +184,11 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
 		counter.Flush(true)
 
+		// write out the rest of the file
+		if e := writer.Close(); err == nil {
+			err = e
+		}
+
 		if err != nil {
 			st.LogError("encode export", err)
 		}
-- 
2.43.0


From f8499569808ab92ec1c5f5041deef64d97c496f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 06/40] fix: stats: allow exporting and importing without an
 output for statistics

---
 internal/stats/status.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index d6ca505..15db537 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -57,10 +57,11 @@ func NewStats(w io.Writer) *Stats {
 }
 
 // Rewritable returns the rewritable associated with this status.
-// It is automatically closed at the end of each stage
+// It is automatically closed at the end of each stage.
+// If this status does not have an output, returns a rewritable that discards everything.
 func (st *Stats) Rewritable() *progress.Rewritable {
-	if st == nil {
-		return nil
+	if st == nil || st.rewritable == nil {
+		return &progress.Rewritable{Writer: io.Discard, FlushInterval: progress.DefaultFlushInterval}
 	}
 	return st.rewritable
 }
-- 
2.43.0


From 54813e9dbaec87a0e33a66d136071b0ee159fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 07/40] fix: glass: check that imported files are complete and
 not corrupted

---
 internal/glass/glass.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 0e88c40..23c8994 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
+	"io"
 	"os"
 	"runtime/debug"
 
@@ -221,6 +222,10 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 			Rewritable: *st.Rewritable(),
 		}
 		err = drincw.DecodeFrom(gob.NewDecoder(counter))
+		if err == nil {
+			// read until the end, to make sure that the file is complete and the checksum is correct
+			_, err = io.Copy(io.Discard, counter)
+		}
 		counter.Flush(true)
 		if err != nil {
 			st.LogError("decode export", err)
-- 
2.43.0


From 110db646c30cb63619a7b6057f46e6604af3d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 08/40] fix: sgob: don't trust the number of elements in
 corrupted data

---
 pkg/sgob/sgob.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/sgob/sgob.go b/pkg/sgob/sgob.go
index 83ca38f..92ff361 100644
--- a/pkg/sgob/sgob.go
+++ b/pkg/sgob/sgob.go
@@ -55,6 +55,10 @@ func DecodeValue(decoder *gob.Decoder, value reflect.Value) error {
 	}
 }
 
+// maxPrealloc is the maximum number of elements to allocate before having seen them.
+// A count found in corrupted data may be arbitrarily large.
+const maxPrealloc = 1024
+
 func encodeMap(encoder *gob.Encoder, obj reflect.Value) error {
 	// encode the object
 	count := uint64(obj.Len())
@@ -85,9 +89,9 @@ func decodeMap(decoder *gob.Decoder, obj reflect.Value) error {
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	mp := reflect.MakeMapWithSize(tp, int(count))
+	mp := reflect.MakeMapWithSize(tp, int(min(count, maxPrealloc)))
 
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		key := reflect.New(tp.Key())
 		value := reflect.New(tp.Elem())
 
@@ -130,14 +134,14 @@ func decodeSlice(decoder *gob.Decoder, obj reflect.Value) error {
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	slice := reflect.MakeSlice(tp, int(count), int(count))
+	slice := reflect.MakeSlice(tp, 0, int(min(count, maxPrealloc)))
 
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		value := reflect.New(tp.Elem())
 		if err := DecodeValue(decoder, value); err != nil {
 			return err
 		}
-		slice.Index(i).Set(value.Elem())
+		slice = reflect.Append(slice, value.Elem())
 	}
 
 	obj.Elem().Set(slice)
-- 
2.43.0


From 656a4038274b91a30e38319ebb746571316036c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 09/40] fix: viewer: link to all the other pages of a bundle,
 and don't hide bundles without entities

---
 internal/viewer/html.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index cfb833b..d22b014 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -275,7 +275,7 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 	// slice the entities received
 	if skip < total {
 		entities = entities[skip:]
-	} else {
+	} else if skip > 0 {
 		http.NotFound(w, r)
 		return
 	}
@@ -306,14 +306,14 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 
 	// add the previous link if there are previous pages
 	prev := skip - limit
-	if prev > 0 {
+	if skip > 0 {
 		context.PrevLink = pageLink(prev)
 		context.FirstLink = pageLink(0)
 	}
 	// add the next link if there are more
 	next := skip + limit
-	last := total - (total % limit) - 1
 	if next < total {
+		last := ((total - 1) / limit) * limit
 		context.NextLink = pageLink(next)
 		context.LastLink = pageLink(last)
 	}
-- 
2.43.0


From a45b79863dd0e4968d4c3e20abb3db6773e1f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 10/40] fix: viewer: correctly escape uris in redirects

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index d22b014..6108246 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -403,7 +403,7 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	canon := viewer.Cache.Canonical(uri)
 
 	// redirect to the entity
-	target := "/entity/" + bundle + "?uri=" + url.PathEscape(string(canon))
+	target := "/entity/" + url.PathEscape(bundle) + "?uri=" + url.QueryEscape(string(canon))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
@@ -427,7 +427,7 @@ func (viewer *Viewer) sendToResolver(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	target := "/wisski/get?uri=" + url.PathEscape(string(uri))
+	target := "/wisski/get?uri=" + url.QueryEscape(string(uri))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
-- 
2.43.0


From ec694e1e5b40c161429775cd9824dab1e8521acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 11/40] fix: igraph: turn triples with an empty datum into a
 literal

---
 internal/triplestore/igraph/triple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7e12560..7ae9bea 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -109,7 +109,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		return rdf.Triple{}, err
 	}
 
-	if triple.Datum == "" {
+	if triple.Role != Data {
 		var object string
 		if !canonical {
 			object = string(triple.Object)
-- 
2.43.0


From de0572879f0eb8ae8c1d161680715ae2eaf8f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 12/40] fix: wisski: write valid turtle for all uris, and
 report errors while writing triples

---
 internal/wisski/entity.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 905bef5..2723ca9 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -23,20 +23,25 @@ type Entity struct {
 // WriteTo writes triples representing this entity into w.
 func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) error {
 	writer := rdf.NewTripleEncoder(w, f)
-	defer writer.Close()
+
+	// The encoder does not escape local names of prefixed uris,
+	// and produces invalid output for any uri that would need it.
+	writer.GenerateNamespaces = false
 
 	for _, triple := range entity.AllTriples() {
 		triple, err := triple.Triple(canonical)
 		if err != nil {
+			writer.Close()
 			return err
 		}
 
 		if err := writer.Encode(triple); err != nil {
+			writer.Close()
 			return err
 		}
 	}
 
-	return nil
+	return writer.Close()
 }
 
 // AllTriples returns all triples that are related to this entity.
-- 
2.43.0


From e1ea6de5865cb10109f4c4f3a1f66923fd8bc1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:31 +0000
Subject: [PATCH 13/40] fix: don't turn blank nodes into uris

---
 internal/sparkl/index_source.go       |  2 +-
 internal/triplestore/igraph/triple.go | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index c81e5b8..9f4e56d 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -128,7 +128,7 @@ func asURILike(value quad.Value) (uri impl.Label, ok bool) {
 	case quad.IRI:
 		return impl.Label(string(datum)), true
 	case quad.BNode:
-		return impl.Label(string(datum)), true
+		return impl.Label(datum.String()), true // including the leading "_:"
 	default:
 		return "", false
 	}
diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7ae9bea..3921639 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -3,6 +3,7 @@ package igraph
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
@@ -88,6 +89,9 @@ type Triple struct {
 	Role Role
 }
 
+// blankPrefix is the prefix of labels that represent blank nodes
+const blankPrefix = "_:"
+
 // Triple returns this Triple as an rdf triple
 func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 	var subject, predicate string
@@ -99,7 +103,11 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		predicate = string(triple.SPredicate)
 	}
 
-	spo.Subj, err = rdf.NewIRI(subject)
+	if label, ok := strings.CutPrefix(subject, blankPrefix); ok {
+		spo.Subj, err = rdf.NewBlank(label)
+	} else {
+		spo.Subj, err = rdf.NewIRI(subject)
+	}
 	if err != nil {
 		return rdf.Triple{}, err
 	}
@@ -117,7 +125,11 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 			object = string(triple.SObject)
 		}
 
-		spo.Obj, err = rdf.NewIRI(object)
+		if label, ok := strings.CutPrefix(object, blankPrefix); ok {
+			spo.Obj, err = rdf.NewBlank(label)
+		} else {
+			spo.Obj, err = rdf.NewIRI(object)
+		}
 		if err != nil {
 			return rdf.Triple{}, err
 		}
-- 
2.43.0


From 5e4a9e0f5f33ff4c9b63ef1dd966dd364d3c2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 14/40] fix: sparkl: read the text of typed and language
 literals as found in the file

---
 internal/sparkl/index_source.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index 9f4e56d..0e3858b 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -3,6 +3,7 @@ package sparkl
 import (
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
 	"github.com/cayleygraph/quad"
@@ -96,13 +97,16 @@ func (qs *QuadSource) Next() Token {
 			var language impl.Language
 			var datum impl.Datum
 
-			// if this is a language string
-			ldatum, ok := value.Object.(quad.LangString)
-			if ok {
-				language = impl.Language(ldatum.Lang)
-				datum = impl.Datum(ldatum.Native().(string))
-			} else {
-				datum = impl.Datum(fmt.Sprint(value.Object.Native()))
+			switch object := value.Object.(type) {
+			case quad.LangString:
+				text, lang := fixSplit(string(object.Value), `"@`, object.Lang)
+				datum, language = impl.Datum(text), impl.Language(lang)
+			case quad.TypedString:
+				// use the text found in the file (and not a normalized version of it)
+				text, _ := fixSplit(string(object.Value), `"^^<`, string(object.Type))
+				datum = impl.Datum(text)
+			default:
+				datum = impl.Datum(fmt.Sprint(object.Native()))
 			}
 
 			return Token{
@@ -116,6 +120,15 @@ func (qs *QuadSource) Next() Token {
 	}
 }
 
+// fixSplit fixes the split of a literal into text and a language (or type).
+// The parser splits at the first occurrence of the separator, but the text may contain it too.
+func fixSplit(text, sep, suffix string) (string, string) {
+	if i := strings.LastIndex(suffix, sep); i >= 0 {
+		return text + sep + suffix[:i], suffix[i+len(sep):]
+	}
+	return text, suffix
+}
+
 func (qs *QuadSource) Close() error {
 	if qs.reader != nil {
 		return qs.reader.Close()
-- 
2.43.0


From 1ac870a24a3c9fdcd72abbc0c5b44692d3021e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 15/40] fix: storages: keep every parent of an entity that is
 found more than once

---
 internal/sparkl/storages/disk.go     | 83 ++++++++++++++++++----------
 internal/sparkl/storages/entity.go   |  2 +
 internal/sparkl/storages/memory.go   |  8 ++-
 internal/sparkl/storages/storages.go |  5 +-
 4 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index f38f40e..e31f2e7 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -48,24 +48,37 @@ type Disk struct {
 	l             sync.RWMutex // protects modifying data on disk
 }
 
-func (ds *Disk) put(f func(*sEntity) error) error {
+// put updates the entity with the given uri, creating it if it does not exist.
+func (ds *Disk) put(uri impl.Label, f func(*sEntity) error) (created bool, err error) {
 	entity := sEntityPool.Get().(*sEntity)
 	entity.Reset()
 	defer sEntityPool.Put(entity)
 
+	ds.l.Lock()
+	defer ds.l.Unlock()
+
+	data, err := ds.DB.Get([]byte(uri), nil)
+	switch err {
+	case nil:
+		if err := entity.Decode(data); err != nil {
+			return false, err
+		}
+	case errors.ErrNotFound:
+		created = true
+	default:
+		return false, err
+	}
+
 	if err := f(entity); err != nil {
-		return err
+		return false, err
 	}
 
-	data, err := entity.Encode()
+	data, err = entity.Encode()
 	if err != nil {
-		return err
+		return false, err
 	}
 
-	ds.l.Lock()
-	defer ds.l.Unlock()
-
-	return ds.DB.Put([]byte(entity.URI), data, nil)
+	return created, ds.DB.Put([]byte(uri), data, nil)
 }
 
 func (ds *Disk) get(uri impl.Label, f func(*sEntity) error) error {
@@ -145,8 +158,13 @@ func (ds *Disk) update(uri impl.Label, update func(*sEntity) error) error {
 
 // Add adds an entity to this BundleSlice
 func (ds *Disk) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
-	atomic.AddInt64(&ds.count, 1)
-	return ds.put(func(se *sEntity) error {
+	created, err := ds.put(uri, func(se *sEntity) error {
+		// the same entity may be found using different paths
+		// keep the old ones around, they might have different parents
+		if se.Path != nil {
+			se.OldPaths = append(se.OldPaths, se.Path)
+		}
+
 		se.URI = uri
 		se.Path = path
 		se.Triples = triples
@@ -154,6 +172,10 @@ func (ds *Disk) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple)
 		se.Children = make(map[string][]impl.Label)
 		return nil
 	})
+	if err == nil && created {
+		atomic.AddInt64(&ds.count, 1)
+	}
+	return err
 }
 
 func (ds *Disk) AddFieldValue(uri impl.Label, field string, value impl.Datum, language impl.Language, path []impl.Label, triples []igraph.Triple) error {
@@ -198,27 +220,32 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 		defer it.Release()
 
 		for it.Next() {
-			var uri LabelWithParent
-			var err error
-
-			if parentPathIndex > 0 {
-				err = ds.decode(it.Value(), func(se *sEntity) error {
-					uri.Label = se.URI
-					if parentPathIndex != -1 {
-						uri.Parent = se.Path[parentPathIndex]
-					}
-					return nil
-				})
-			} else {
-				uri.Label = impl.Label(it.Key())
+			if parentPathIndex < 0 {
+				if !sender.Yield(LabelWithParent{Label: impl.Label(it.Key())}) {
+					return
+				}
+				continue
 			}
 
+			// an entity may have several parents
+			var uris []LabelWithParent
+			err := ds.decode(it.Value(), func(se *sEntity) error {
+				for _, path := range append(se.OldPaths, se.Path) {
+					uris = append(uris, LabelWithParent{
+						Label:  se.URI,
+						Parent: path[parentPathIndex],
+					})
+				}
+				return nil
+			})
 			if !sender.YieldError(err) {
 				return
 			}
 
-			if !sender.Yield(uri) {
-				return
+			for _, uri := range uris {
+				if !sender.Yield(uri) {
+					return
+				}
 			}
 		}
 
@@ -254,11 +281,11 @@ func (ds *Disk) Load(uri impl.Label) (entity wisski.Entity, err error) {
 	return
 }
 
-func (ds *Disk) Close() error {
+func (ds *Disk) Close() (err error) {
 	if ds.DB != nil {
-		ds.DB.Close()
+		err = ds.DB.Close()
 		ds.DB = nil
 		ds.childStorages = nil
 	}
-	return nil
+	return err
 }
diff --git a/internal/sparkl/storages/entity.go b/internal/sparkl/storages/entity.go
index ea14068..dce53d8 100644
--- a/internal/sparkl/storages/entity.go
+++ b/internal/sparkl/storages/entity.go
@@ -29,12 +29,14 @@ type sEntity struct {
 	Children map[string][]impl.Label // child entities
 	URI      impl.Label
 	Path     []impl.Label
+	OldPaths [][]impl.Label // other paths this entity was found with
 	Triples  []igraph.Triple
 }
 
 // Reset resets this stored entity
 func (s *sEntity) Reset() {
 	s.Path = nil
+	s.OldPaths = nil
 	s.Children = nil
 	s.Triples = nil
 	s.Fields = nil
diff --git a/internal/sparkl/storages/memory.go b/internal/sparkl/storages/memory.go
index df642ba..3cc2dc3 100644
--- a/internal/sparkl/storages/memory.go
+++ b/internal/sparkl/storages/memory.go
@@ -103,10 +103,14 @@ func (bs *Memory) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 	return traversal.New(func(sender traversal.Generator[LabelWithParent]) {
 		defer sender.Return()
 
-		for _, entity := range bs.Entities {
+		for i, entity := range bs.Entities {
 			var parent impl.Label
 			if parentPathIndex > -1 {
 				parent = entity.Path[parentPathIndex]
+			} else if bs.lookup[entity.URI] != i {
+				// the same entity may have been added with different paths
+				// but should only be returned once.
+				continue
 			}
 
 			if !sender.Yield(LabelWithParent{
@@ -120,7 +124,7 @@ func (bs *Memory) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 }
 
 func (bs *Memory) Count() (int64, error) {
-	return int64(len(bs.Entities)), nil
+	return int64(len(bs.lookup)), nil
 }
 
 func (bs *Memory) Load(uri impl.Label) (entity wisski.Entity, err error) {
diff --git a/internal/sparkl/storages/storages.go b/internal/sparkl/storages/storages.go
index 0258361..801c720 100644
--- a/internal/sparkl/storages/storages.go
+++ b/internal/sparkl/storages/storages.go
@@ -36,6 +36,7 @@ type BundleStorage interface {
 	// to this bundle.
 	//
 	// Calls to add for a specific bundle storage are serialized.
+	// Add may be called more than once for the same URI (with different paths).
 	Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error
 
 	// AddFieldValue adds a value to the given field for the entity with the given uri.
@@ -64,9 +65,11 @@ type BundleStorage interface {
 	// The iterator is guaranteed to iterate in some consistent order, but no further guarantees beyond that.
 	//
 	// parentPathIndex returns the index of the parent uri in child paths.
+	// If it is negative, no parents are returned, and every entity is returned exactly once.
+	// Otherwise every entity is returned once per path it was added with.
 	Get(parentPathIndex int) traversal.Iterator[LabelWithParent]
 
-	// Count counts the number of entities in this storage.
+	// Count counts the number of (distinct) entities in this storage.
 	Count() (int64, error)
 
 	// Load loads an entity with the given URI from this storage.
-- 
2.43.0


From e8f6f4a88a4966b96f42a84e9af410e1d0863c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 16/40] fix: storages: don't use bundle names found in the
 pathbuilder as paths on disk

---
 internal/sparkl/storages/disk.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index e31f2e7..85b75ab 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -1,6 +1,8 @@
 package storages
 
 import (
+	"crypto/sha256"
+	"encoding/hex"
 	"os"
 	"path/filepath"
 	"sync"
@@ -20,7 +22,9 @@ type DiskEngine struct {
 }
 
 func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
-	path := filepath.Join(de.Path, bundle.Path.Bundle)
+	// Names of bundles are arbitrary, so don't use them as a file name.
+	name := sha256.Sum256([]byte(bundle.MachineName()))
+	path := filepath.Join(de.Path, hex.EncodeToString(name[:]))
 
 	if _, err := os.Stat(path); err == nil {
 		if err := os.RemoveAll(path); err != nil {
-- 
2.43.0


From c0e55e2c953c748881269fbf0bda98a9a7ebb6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 17/40] fix: sparkl: don't drop statements using identical or
 inverse predicates of a path

---
 internal/sparkl/index.go             | 13 +++++++------
 internal/triplestore/igraph/index.go | 27 +++++++++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 0c32f60..28a43e1 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -49,12 +49,6 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
-	// setup the mask for indexing the data
-	if err := setMask(&index, opts.Mask); err != nil {
-		index.Close()
-		return nil, err
-	}
-
 	// read the "same as" triples first
 	var total int
 	err := st.DoStage(stats.StageScanSameAs, func() (err error) {
@@ -93,6 +87,13 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
+	// setup the mask for indexing the data
+	// this needs to know about identical and inverse predicates
+	if err := setMask(&index, opts.Mask); err != nil {
+		index.Close()
+		return nil, err
+	}
+
 	// and then read all the other data
 	err = st.DoStage(stats.StageScanTriples, func() error {
 		return indexData(source, &index, total, opts, st)
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index bc3453f..d0a20e9 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -173,12 +173,16 @@ func (index *Index) Reset(engine Engine) (err error) {
 	return nil
 }
 
-// SetPredicateMask sets the masks for predicates
+// SetPredicateMask sets the masks for predicates.
+// After calls to SetPredicateMask, no more calls to MarkIdentical or MarkInverse should be made.
+//
+// A triple is kept if the predicate, any predicate identical to it, or its inverse are contained in the mask.
 func (index *Index) SetPredicateMask(predicates map[impl.Label]struct{}) error {
 	return index.setMask(predicates, &index.pMask)
 }
 
-// SetDataMask sets the masks for data
+// SetDataMask sets the masks for data.
+// After calls to SetDataMask, no more calls to MarkIdentical should be made.
 func (index *Index) SetDataMask(predicates map[impl.Label]struct{}) error {
 	return index.setMask(predicates, &index.dMask)
 }
@@ -197,7 +201,9 @@ func (index *Index) setMask(predicates map[impl.Label]struct{}, dest *map[impl.I
 	return nil
 }
 
-func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (imap.TripleID, bool, error) {
+// addMask returns the id of predicate and if the mask contains it.
+// If inverse is set, also checks if the mask contains the inverse of predicate.
+func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}, inverse bool) (imap.TripleID, bool, error) {
 	// no mask => add normally
 	if mask == nil {
 		id, err := index.labels.Add(predicate)
@@ -214,7 +220,16 @@ func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (im
 	}
 
 	// make sure it's contained in the map
-	_, ok = mask[ids.Literal]
+	_, ok = mask[ids.Canonical]
+	if ok || !inverse {
+		return ids, ok, nil
+	}
+
+	iid, ok, err := index.inverses.Get(ids.Canonical)
+	if err != nil || !ok {
+		return ids, false, err
+	}
+	_, ok = mask[iid]
 	return ids, ok, nil
 }
 
@@ -229,7 +244,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	}
 
 	// add a predicate (and check if it is masked)
-	p, masked, err := index.addMask(predicate, index.pMask)
+	p, masked, err := index.addMask(predicate, index.pMask, true)
 	if err != nil {
 		return err
 	}
@@ -321,7 +336,7 @@ func (index *Index) AddLangData(subject, predicate impl.Label, object impl.Datum
 	}
 
 	// add a predicate (and check if it is masked)
-	p, masked, err := index.addMask(predicate, index.dMask)
+	p, masked, err := index.addMask(predicate, index.dMask, false)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c055811417b0b2e1e783c9aa330cd196b8a7506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 18/40] fix: igraph, imap, sparkl: don't ignore errors of
 storages while indexing

---
 internal/sparkl/cache.go                   |  4 +++-
 internal/sparkl/index.go                   | 16 +++++++++++----
 internal/triplestore/igraph/engine_disk.go |  5 +++++
 internal/triplestore/igraph/index.go       | 24 +++++++++++++---------
 internal/triplestore/imap/imap.go          |  6 ++++--
 5 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/internal/sparkl/cache.go b/internal/sparkl/cache.go
index fcbba81..913bc97 100644
--- a/internal/sparkl/cache.go
+++ b/internal/sparkl/cache.go
@@ -115,7 +115,9 @@ func NewCache(Data map[string][]wisski.Entity, SameAs imap.HashMap[impl.Label, i
 
 	// reset the uris
 	c.uris = &imap.IMap{}
-	c.uris.Reset(&c.engine)
+	if err := c.uris.Reset(&c.engine); err != nil {
+		return c, err
+	}
 
 	// store the bundle-entity index
 	c.beIndex = Data
diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 28a43e1..eaa33f0 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -193,7 +193,9 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 			return 0, tok.Err
 		case !tok.HasDatum:
 			if _, ok := sameAss[tok.Predicate]; ok {
-				index.MarkIdentical(tok.Subject, tok.Object)
+				if err := index.MarkIdentical(tok.Subject, tok.Object); err != nil {
+					return 0, err
+				}
 			}
 		}
 	}
@@ -237,7 +239,9 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 			return tok.Err
 		case !tok.HasDatum:
 			if _, ok := inverses[tok.Predicate]; ok {
-				index.MarkInverse(tok.Subject, tok.Object)
+				if err := index.MarkInverse(tok.Subject, tok.Object); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -270,9 +274,13 @@ func indexData(source Source, index *igraph.Index, total int, opts IndexOptions,
 		case tok.Err != nil:
 			return tok.Err
 		case tok.HasDatum:
-			index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language)
+			if err := index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language); err != nil {
+				return err
+			}
 		case !tok.HasDatum:
-			index.AddTriple(tok.Subject, tok.Predicate, tok.Object)
+			if err := index.AddTriple(tok.Subject, tok.Predicate, tok.Object); err != nil {
+				return err
+			}
 		}
 	}
 }
diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index 3f62471..fb5631a 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -136,6 +136,8 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 		}
 		conflicted = true
 	case leveldberrors.ErrNotFound:
+	default:
+		return false, err
 	}
 	return conflicted, tlm.DB.Put(impl.EncodeIDs(a, b, c), impl.EncodeIDs(l), nil)
 }
@@ -188,6 +190,9 @@ func (tlm *ThreeDiskHash) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error)
 		var invalid impl.ID
 		return invalid, false, nil
 	}
+	if err != nil {
+		return id, false, err
+	}
 
 	err = impl.UnmarshalID(&id, value)
 	if err != nil {
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index d0a20e9..f6db248 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -267,10 +267,12 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 
 	// forward id
 	id := index.triple.Inc()
-	index.triples.Set(id, IndexTriple{
+	if err := index.triples.Set(id, IndexTriple{
 		Role:  Regular,
 		Items: [3]imap.TripleID{s, p, o},
-	})
+	}); err != nil {
+		return err
+	}
 
 	conflicted, err := index.insert(s.Canonical, p.Canonical, o.Canonical, id)
 	if err != nil {
@@ -287,7 +289,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	if ok {
 		// reverse id
 		iid := index.triple.Inc()
-		index.triples.Set(iid, IndexTriple{
+		if err := index.triples.Set(iid, IndexTriple{
 			Role: Inverse,
 			Items: [3]imap.TripleID{
 				{
@@ -303,7 +305,9 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 					Literal:   o.Literal,
 				},
 			},
-		})
+		}); err != nil {
+			return err
+		}
 
 		conflicted, err := index.insert(o.Canonical, i, s.Canonical, iid)
 		if err != nil {
@@ -399,21 +403,21 @@ func (index *Index) resolveLabelConflict(old, new impl.ID) (impl.ID, error) {
 
 	// lod the old triple
 	ot, ok, err := index.triples.Get(old)
-	if !ok {
-		return old, errResolveConflictCorrupt
-	}
 	if err != nil {
 		return old, err
 	}
-
-	// load the new triple
-	nt, ok, err := index.triples.Get(new)
 	if !ok {
 		return old, errResolveConflictCorrupt
 	}
+
+	// load the new triple
+	nt, ok, err := index.triples.Get(new)
 	if err != nil {
 		return new, err
 	}
+	if !ok {
+		return old, errResolveConflictCorrupt
+	}
 
 	// use the one with the smaller role
 	if nt.Role < ot.Role {
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 453b861..05af166 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -171,8 +171,10 @@ func (mp *IMap) AddNew(label impl.Label) (ids TripleID, old bool, err error) {
 	}
 
 	// store mappings in both directions
-	mp.forward.Set(label, ids)
-	mp.reverse.Set(ids.Literal, label)
+	if err = mp.forward.Set(label, ids); err != nil {
+		return
+	}
+	err = mp.reverse.Set(ids.Literal, label)
 
 	// return the id
 	return
-- 
2.43.0


From 5490aa49b61800f526e95ebd6577ae5b09efab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 19/40] fix: sparkl: don't ignore errors of storages while
 extracting entities

---
 internal/sparkl/context.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 3e292ff..b34f4d1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -166,7 +166,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
-				storage.Add(nodes[entityURIIndex], nodes, triples)
+				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
+					return err
+				}
 			}
 
 			return paths.Err()
@@ -187,7 +189,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				for paths.Next() {
 					path := paths.Datum()
 
-					err = storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
+					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
 						context.reportError(err)
 					}
-- 
2.43.0


From c8a45a9077485e1088f0090920087e824cf5f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:16 +0000
Subject: [PATCH 20/40] fix: sparkl: wait for, and close, every storage

---
 internal/sparkl/context.go | 50 ++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index b34f4d1..92512d3 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -1,6 +1,7 @@
 package sparkl
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"sync/atomic"
@@ -76,9 +77,10 @@ type Context struct {
 	Engine       storages.BundleEngine
 	err          error          // error that occurred (if any)
 	Index        *igraph.Index  // index being used
-	closers      chan io.Closer // what to close when done
+	closersLock  sync.Mutex     // protects closers
+	closers      []io.Closer    // what to close when done
 	extractWait  sync.WaitGroup // waiting on extracting entities in all bundles
-	childAddWait sync.WaitGroup // loading child entities wait
+	childAddWait sync.WaitGroup // waiting on adding child entities and finalizing storages
 	errOnce      sync.Once      // to set the error
 
 	st *stats.Stats // st holds statistics of the current viewer
@@ -89,7 +91,6 @@ type Context struct {
 // Multiple calls to Open are invalid.
 func (context *Context) Open() {
 	context.extractWait.Add(1)
-	context.closers = make(chan io.Closer)
 }
 
 // Wait signals this context that no more bundles will be loaded.
@@ -103,19 +104,27 @@ func (context *Context) Wait() error {
 	return context.err
 }
 
-// Close closes this context
-func (context *Context) Close() (err error) {
-	for {
-		select {
-		case closer := <-context.closers:
-			cErr := closer.Close()
-			if err == nil {
-				err = cErr
-			}
-		default:
-			return nil
-		}
+// Close closes every storage created by this context.
+// It may only be called after a call to [Wait].
+func (context *Context) Close() error {
+	context.closersLock.Lock()
+	defer context.closersLock.Unlock()
+
+	var errs []error
+	for _, closer := range context.closers {
+		errs = append(errs, closer.Close())
 	}
+	context.closers = nil
+
+	return errors.Join(errs...)
+}
+
+// closeLater schedules closer to be closed on a call to Close().
+func (context *Context) closeLater(closer io.Closer) {
+	context.closersLock.Lock()
+	defer context.closersLock.Unlock()
+
+	context.closers = append(context.closers, closer)
 }
 
 // reportError stores an error in this context
@@ -145,6 +154,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 		onFinish()
 		return nil
 	}
+	context.closeLater(storage)
 
 	go func() {
 		defer onFinish()
@@ -212,10 +222,12 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			context.reportError(err)
 		}
 
-		context.childAddWait.Add(len(cstorages))
+		context.childAddWait.Add(1)
 
 		// stage 4: register all the child entities
 		go func() {
+			defer context.childAddWait.Done()
+
 			context.extractWait.Wait()
 
 			var wg sync.WaitGroup
@@ -224,7 +236,6 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				wg.Add(1)
 				go func(cstorage storages.BundleStorage, bundle *pathbuilder.Bundle) {
 					defer wg.Done()
-					defer context.childAddWait.Done()
 
 					children := cstorage.Get(entityURIIndex)
 					for children.Next() {
@@ -239,10 +250,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			wg.Wait()
-			storage.Finalize() // no more writing!
-
-			// tell the storage to be closed on a call to Close()
-			context.closers <- storage
+			context.reportError(storage.Finalize()) // no more writing!
 		}()
 	}()
 
-- 
2.43.0


From 7c71f4aa2add8588d5491e5b5e01fac73ee9c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 21/40] fix: igraph: close, compact and finalize all storages
 of an index

---
 internal/triplestore/igraph/index.go  | 30 ++++++++++++++++++++++-----
 internal/triplestore/imap/map_disk.go |  2 ++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index f6db248..802b850 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -501,9 +501,9 @@ func (index *Index) Compact() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -535,6 +535,11 @@ func (index *Index) Compact() error {
 		errs[5] = index.triples.Compact()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Compact()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
@@ -552,9 +557,9 @@ func (index *Index) Finalize() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -586,13 +591,18 @@ func (index *Index) Finalize() error {
 		errs[5] = index.triples.Finalize()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Finalize()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
-	var errors [5]error
+	var errors [7]error
 	errors[0] = index.labels.Close()
 
 	if index.data != nil {
@@ -615,6 +625,16 @@ func (index *Index) Close() error {
 		index.posIndex = nil
 	}
 
+	if index.triples != nil {
+		errors[5] = index.triples.Close()
+		index.triples = nil
+	}
+
+	if index.language != nil {
+		errors[6] = index.language.Close()
+		index.language = nil
+	}
+
 	for _, err := range errors {
 		if err != nil {
 			return err
diff --git a/internal/triplestore/imap/map_disk.go b/internal/triplestore/imap/map_disk.go
index afad4bf..5844494 100644
--- a/internal/triplestore/imap/map_disk.go
+++ b/internal/triplestore/imap/map_disk.go
@@ -221,6 +221,8 @@ func (ds *DiskStorage[Key, Value]) Close() error {
 // Count returns the number of objects in this DiskStorage.
 func (ds *DiskStorage[Key, Value]) Count() (count uint64, err error) {
 	it := ds.DB.NewIterator(nil, nil)
+	defer it.Release()
+
 	for it.Next() {
 		count++
 	}
-- 
2.43.0


From ee5bbcdd64900f57295a93216438a67a985ab18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 22/40] fix: stats: don't write progress without holding the
 lock

---
 internal/stats/status.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index 15db537..46821fe 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -368,12 +368,11 @@ func (st *Stats) SetCT(current, total int) {
 	defer st.onUpdate()
 
 	st.m.Lock()
-	{
-		st.current.Current = current
-		st.current.Total = total
-		progress = st.current.Progress()
-	}
-	st.m.Unlock()
+	defer st.m.Unlock()
+
+	st.current.Current = current
+	st.current.Total = total
+	progress = st.current.Progress()
 
 	// and write out the rewritable
 	if st.rewritable != nil {
-- 
2.43.0


From c589359a09af9e5edd668b9460739b441b9416b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 23/40] fix: n2j: use the -mysql flag for exporting to mysql

---
 cmd/n2j/n2j.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index fc10cc5..97266d9 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -121,7 +121,7 @@ func init() {
 	flag.StringVar(&cache, "cache", cache, "During indexing, cache data in the given directory as opposed to memory")
 	flag.StringVar(&sqlite, "sqlite", sqlite, "Export an sqlite database to the given path")
 	flag.StringVar(&csvPath, "csv", csvPath, "Export CSV files at the given path")
-	flag.StringVar(&sqlite, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
+	flag.StringVar(&mysql, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
 
 	flag.StringVar(&sqlSeperator, "sql-seperator", sqlSeperator, "Use seperator on multi-valued fields")
 	flag.BoolVar(&sqlFieldTables, "sql-field-tables", sqlFieldTables, "Store values for fields in seperate tables")
-- 
2.43.0


From c376ba106415db9ca437774be79021dba1014bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 24/40] fix: n2j: fail when the json could not be written

---
 cmd/n2j/json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/n2j/json.go b/cmd/n2j/json.go
index 0788e62..f3e55a7 100644
--- a/cmd/n2j/json.go
+++ b/cmd/n2j/json.go
@@ -17,7 +17,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 
 	// generate bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() error {
+	err = st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(pb, index, bEngine, st)
 		return err
 	})
@@ -25,7 +25,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 		st.LogFatal("extract bundles", err)
 	}
 
-	st.DoStage(stats.StageExportJSON, func() error {
+	err = st.DoStage(stats.StageExportJSON, func() error {
 		return json.NewEncoder(os.Stdout).Encode(bundles)
 	})
 	if err != nil {
-- 
2.43.0


From 3e992f8f571cb693d36b6f851463134ae477eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 25/40] fix: n2j: fail when a csv file could not be written

---
 cmd/n2j/sqlite.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 1461b9f..013c890 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -3,7 +3,6 @@ package main
 import (
 	"database/sql"
 	"encoding/csv"
-	"log"
 	"os"
 	"path/filepath"
 
@@ -62,7 +61,7 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 	// query the list of tables
 	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type='table';")
 	if err != nil {
-		log.Fatal(err)
+		st.LogFatal("querying table names", err)
 	}
 	defer rows.Close()
 
@@ -89,17 +88,20 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 
 }
 
-func doCSVTable(db *sql.DB, table string, path string) error {
+func doCSVTable(db *sql.DB, table string, path string) (err error) {
 	// open a csv file matching the name
 	file, err := os.Create(filepath.Join(path, table+".csv"))
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if e := file.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	// create a writer
 	writer := csv.NewWriter(file)
-	defer writer.Flush()
 
 	// query everything in the table
 	rows, err := db.Query("SELECT * FROM " + table)
@@ -147,5 +149,8 @@ func doCSVTable(db *sql.DB, table string, path string) error {
 	if err := rows.Err(); err != nil {
 		return err
 	}
-	return nil
+
+	// and make sure that everything has been written
+	writer.Flush()
+	return writer.Error()
 }
-- 
2.43.0


From 6fb94ed86a863857b7fdd1ee14100bc0a32225f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 26/40] fix: n2j: refuse to pick one of several outputs

---
 cmd/n2j/n2j.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index 97266d9..7615740 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -21,7 +21,7 @@ import (
 
 // cspell:words nquads pathbuilder
 
-var errBothSqliteAndMysql = errors.New("both -sqlite and -mysql were given")
+var errManyOutputs = errors.New("more than one of -sqlite, -mysql and -csv were given")
 
 func main() {
 	// create a new status
@@ -44,7 +44,7 @@ func main() {
 
 	if selected > 1 {
 		st.Log("Usage: n2j [-help] [...flags] /path/to/pathbuilder /path/to/nquads")
-		st.LogError("parse arguments", errBothSqliteAndMysql)
+		st.LogFatal("parse arguments", errManyOutputs)
 	}
 
 	// find the paths
-- 
2.43.0


From 6d25f89cb7dc38a9e2da0c796cb79280681bb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 27/40] fix: exporter: drop tables of fields before creating
 them again

---
 internal/sparkl/exporter/sql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index fe545a8..65e6c7b 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -159,6 +159,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	// drop the table if it already exists
+	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+		return err
+	}
+
 	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
-- 
2.43.0


From d5ebccf59b1e89122668c6b3fffe83c03135ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 28/40] fix: FindSource: support directories with special
 characters in their name

---
 load.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/load.go b/load.go
index 190ecfe..d47d6f4 100644
--- a/load.go
+++ b/load.go
@@ -40,7 +40,7 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 
 		base := argv[0]
 
-		xmls, err := filepath.Glob(filepath.Join(base, "*.xml"))
+		xmls, err := filesWithExt(base, ".xml")
 		if err != nil {
 			return "", "", "", err
 		}
@@ -49,12 +49,12 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 		}
 		xml = xmls[0]
 
-		nqs, err := filepath.Glob(filepath.Join(base, "*.nq"))
+		nqs, err := filesWithExt(base, ".nq")
 		if err != nil {
 			return "", "", "", err
 		}
 		if len(nqs) != 1 {
-			return "", "", "", fmt.Errorf("need exactly one '*.xml' in %q, but got %d", base, len(nqs))
+			return "", "", "", fmt.Errorf("need exactly one '*.nq' in %q, but got %d", base, len(nqs))
 		}
 		nq = nqs[0]
 	}
@@ -73,6 +73,21 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 	return nq, xml, "", nil
 }
 
+// filesWithExt returns the paths of all entries inside the given directory that have the given extension.
+// base may contain any characters.
+func filesWithExt(base, ext string) (paths []string, err error) {
+	entries, err := os.ReadDir(base)
+	if err != nil {
+		return nil, err
+	}
+	for _, entry := range entries {
+		if filepath.Ext(entry.Name()) == ext {
+			paths = append(paths, filepath.Join(base, entry.Name()))
+		}
+	}
+	return paths, nil
+}
+
 func isDirectory(path string) (ok bool, err error) {
 	stats, err := os.Stat(path)
 	if err != nil {
-- 
2.43.0


From 80d83f89135072a1b25189989f73d217fe049fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 29/40] fix: sparkl: find the end of literals before removing
 escapes

---
 internal/sparkl/index_source.go | 129 +++++++++++++++++++++++---------
 1 file changed, 92 insertions(+), 37 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index 0e3858b..0046901 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -1,6 +1,7 @@
 package sparkl
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"strings"
@@ -52,34 +53,62 @@ type Token struct {
 // QuadSource reads triples from a quad file
 type QuadSource struct {
 	Reader io.ReadSeeker
-	reader *nquads.Reader
+	reader *bufio.Reader
+	line   []byte
 }
 
 func (qs *QuadSource) Open() error {
 	// if we previously had a reader
 	// then we need to reset the state
 	if qs.reader != nil {
-		if err := qs.reader.Close(); err != nil {
-			return err
-		}
 		_, err := qs.Reader.Seek(0, io.SeekStart)
 		if err != nil {
 			return err
 		}
 	}
 
-	qs.reader = nquads.NewReader(qs.Reader, true)
+	qs.reader = bufio.NewReader(qs.Reader)
 	return nil
 }
 
+// readLine reads the next line from the underlying reader that isn't empty or a comment
+func (qs *QuadSource) readLine() (string, error) {
+	for {
+		qs.line = qs.line[:0]
+		for {
+			part, more, err := qs.reader.ReadLine()
+			if err != nil {
+				return "", err
+			}
+			qs.line = append(qs.line, part...)
+			if !more {
+				break
+			}
+		}
+
+		line := strings.TrimSpace(string(qs.line))
+		if line != "" && line[0] != '#' {
+			return line, nil
+		}
+	}
+}
+
 // Next reads the next token from the QuadSource
 func (qs *QuadSource) Next() Token {
 	for {
-		value, err := qs.reader.ReadQuad()
+		line, err := qs.readLine()
 		if err != nil {
 			return Token{Err: err}
 		}
 
+		value, err := nquads.ParseRaw(line)
+		if err != nil {
+			return Token{Err: fmt.Errorf("failed to parse %q: %w", line, err)}
+		}
+		if !value.IsValid() {
+			continue
+		}
+
 		sI, sOK := asURILike(value.Subject)
 		pI, pOK := asURILike(value.Predicate)
 		if !(sOK && pOK) {
@@ -93,46 +122,72 @@ func (qs *QuadSource) Next() Token {
 				Predicate: pI,
 				Object:    oI,
 			}
-		} else {
-			var language impl.Language
-			var datum impl.Datum
-
-			switch object := value.Object.(type) {
-			case quad.LangString:
-				text, lang := fixSplit(string(object.Value), `"@`, object.Lang)
-				datum, language = impl.Datum(text), impl.Language(lang)
-			case quad.TypedString:
-				// use the text found in the file (and not a normalized version of it)
-				text, _ := fixSplit(string(object.Value), `"^^<`, string(object.Type))
-				datum = impl.Datum(text)
-			default:
-				datum = impl.Datum(fmt.Sprint(object.Native()))
-			}
+		}
 
-			return Token{
-				Subject:   sI,
-				Predicate: pI,
-				HasDatum:  true,
-				Datum:     datum,
-				Language:  language,
-			}
+		// neither a uri, a blank node nor a literal: an empty uri
+		if !strings.Contains(line, `"`) {
+			continue
+		}
+
+		datum, language, err := parseLiteral(line)
+		if err != nil {
+			return Token{Err: fmt.Errorf("failed to parse %q: %w", line, err)}
+		}
+		return Token{
+			Subject:   sI,
+			Predicate: pI,
+			HasDatum:  true,
+			Datum:     datum,
+			Language:  language,
 		}
 	}
 }
 
-// fixSplit fixes the split of a literal into text and a language (or type).
-// The parser splits at the first occurrence of the separator, but the text may contain it too.
-func fixSplit(text, sep, suffix string) (string, string) {
-	if i := strings.LastIndex(suffix, sep); i >= 0 {
-		return text + sep + suffix[:i], suffix[i+len(sep):]
+// parseLiteral parses the text and language of the literal in line.
+// Line must be a valid statement with a literal as an object.
+//
+// [nquads.ParseRaw] only looks at literals after having removed escapes.
+// This means that it cannot tell where the text of a literal ends, so we have to find that here.
+func parseLiteral(line string) (impl.Datum, impl.Language, error) {
+	// neither uris nor blank nodes may contain a quote
+	start := strings.IndexByte(line, '"')
+	if start < 0 {
+		return "", "", quad.ErrInvalid
+	}
+
+	end := start + 1
+	for end < len(line) && line[end] != '"' {
+		if line[end] == '\\' {
+			end++
+		}
+		end++
+	}
+	if end >= len(line) {
+		return "", "", quad.ErrInvalid
+	}
+
+	// the language tag (if any)
+	var language impl.Language
+	if tag, ok := strings.CutPrefix(line[end+1:], "@"); ok {
+		if i := strings.IndexAny(tag, " \t<_."); i >= 0 {
+			tag = tag[:i]
+		}
+		language = impl.Language(tag)
 	}
-	return text, suffix
+
+	// the text of the literal, without a language or type
+	value, err := nquads.ParseRaw(line[:end+1] + " .")
+	if err != nil {
+		return "", "", err
+	}
+	text, ok := value.Object.(quad.String)
+	if !ok {
+		return "", "", quad.ErrInvalid
+	}
+	return impl.Datum(text), language, nil
 }
 
 func (qs *QuadSource) Close() error {
-	if qs.reader != nil {
-		return qs.reader.Close()
-	}
 	return nil
 }
 
-- 
2.43.0


From 0331fc3ee2bad2c3b22774ed5ad86c8603ef9487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 30/40] fix: stop when a child storage cannot be registered

Adding children to a storage that was not registered crashes.
---
 internal/sparkl/context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 92512d3..a756838 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -219,7 +219,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			err := storage.RegisterChildStorage(bundle.MachineName(), cstorages[i])
-			context.reportError(err)
+			if context.reportError(err) {
+				return
+			}
 		}
 
 		context.childAddWait.Add(1)
-- 
2.43.0


From f5abebd19aadefd4bd9036a1d93f4c8a3b4a5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 31/40] fix: stop path queries which are not read to their end

Closing the iterator of paths only stopped the outermost goroutine.
---
 internal/sparkl/context.go           | 2 ++
 internal/triplestore/igraph/paths.go | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index a756838..bb182db 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -304,10 +304,12 @@ func extractPath(path pathbuilder.Path, index *igraph.Index, st *stats.Stats) tr
 	for i := 1; i < len(uris); i++ {
 		if i%2 == 0 {
 			if err := set.Ending(wisski.Type, impl.Label(uris[i])); err != nil {
+				set.Close()
 				return traversal.Empty[igraph.Path](err)
 			}
 		} else {
 			if err := set.Connected(impl.Label(uris[i])); err != nil {
+				set.Close()
 				return traversal.Empty[igraph.Path](err)
 			}
 		}
diff --git a/internal/triplestore/igraph/paths.go b/internal/triplestore/igraph/paths.go
index 00248be..74d0593 100644
--- a/internal/triplestore/igraph/paths.go
+++ b/internal/triplestore/igraph/paths.go
@@ -159,6 +159,7 @@ func (set *Paths) Size() (int, error) {
 func (set *Paths) Paths() traversal.Iterator[Path] {
 	return traversal.New(func(generator traversal.Generator[Path]) {
 		defer generator.Return()
+		defer set.Close()
 
 		for set.elements.Next() {
 			element := set.elements.Datum()
@@ -175,6 +176,11 @@ func (set *Paths) Paths() traversal.Iterator[Path] {
 	})
 }
 
+// Close stops finding paths, and must be called if Paths is not.
+func (set *Paths) Close() error {
+	return set.elements.Close()
+}
+
 // makePath creates a path from an element
 func (set *Paths) makePath(elem element) (path Path, err error) {
 	var rNodes, rTriples []impl.ID
-- 
2.43.0


From 581661b80dd2f0bd4381876fbc59079b749bbf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:23 +0000
Subject: [PATCH 32/40] fix: report read errors in the middle of a line

bufio.Reader.ReadLine drops an error that comes with a part of a line.
---
 internal/sparkl/index_source.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index 0046901..e9f9c10 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -76,14 +76,15 @@ func (qs *QuadSource) readLine() (string, error) {
 	for {
 		qs.line = qs.line[:0]
 		for {
-			part, more, err := qs.reader.ReadLine()
-			if err != nil {
-				return "", err
-			}
+			part, err := qs.reader.ReadSlice('\n')
 			qs.line = append(qs.line, part...)
-			if !more {
-				break
+			if err == bufio.ErrBufferFull {
+				continue
+			}
+			if err != nil && (err != io.EOF || len(qs.line) == 0) {
+				return "", err
 			}
+			break
 		}
 
 		line := strings.TrimSpace(string(qs.line))
-- 
2.43.0


From a4c40a553086c74acf00b06de6c0e45e0a26fe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 33/40] fix: report out of range escapes in data files as
 errors

---
 internal/sparkl/index_source.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index e9f9c10..4d51f45 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -102,7 +102,7 @@ func (qs *QuadSource) Next() Token {
 			return Token{Err: err}
 		}
 
-		value, err := nquads.ParseRaw(line)
+		value, err := parseQuad(line)
 		if err != nil {
 			return Token{Err: fmt.Errorf("failed to parse %q: %w", line, err)}
 		}
@@ -144,6 +144,17 @@ func (qs *QuadSource) Next() Token {
 	}
 }
 
+// parseQuad parses a single statement.
+func parseQuad(line string) (value quad.Quad, err error) {
+	// the parser panics for escapes of characters that are out of range
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", quad.ErrInvalid, r)
+		}
+	}()
+	return nquads.ParseRaw(line)
+}
+
 // parseLiteral parses the text and language of the literal in line.
 // Line must be a valid statement with a literal as an object.
 //
@@ -177,7 +188,7 @@ func parseLiteral(line string) (impl.Datum, impl.Language, error) {
 	}
 
 	// the text of the literal, without a language or type
-	value, err := nquads.ParseRaw(line[:end+1] + " .")
+	value, err := parseQuad(line[:end+1] + " .")
 	if err != nil {
 		return "", "", err
 	}
-- 
2.43.0


From 70ed6bc7be4f1593a22722c0c8ed303c874a34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 34/40] fix: write language tags with several subtags to
 downloads

---
 internal/triplestore/igraph/triple.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 3921639..93dc6b8 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -138,7 +138,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		var err error
 
 		if triple.Language != "" {
-			spo.Obj, err = rdf.NewLangLiteral(string(triple.Datum), string(triple.Language))
+			spo.Obj, err = newLangLiteral(string(triple.Datum), string(triple.Language))
 		} else {
 			spo.Obj, err = rdf.NewLiteral(string(triple.Datum))
 		}
@@ -150,6 +150,26 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 	return
 }
 
+// newLangLiteral is like [rdf.NewLangLiteral], but supports language tags that consist of more than two subtags.
+func newLangLiteral(value, language string) (rdf.Object, error) {
+	literal, err := rdf.NewLangLiteral(value, language)
+	if err == nil {
+		return literal, nil
+	}
+
+	// NewLangLiteral only allows a single '-', but the decoder (which read the tag in the first place) does not have this restriction.
+	plain, perr := rdf.NewLiteral(value)
+	if perr != nil {
+		return nil, perr
+	}
+	statement := "<urn:s> <urn:p> " + plain.Serialize(rdf.NTriples) + "@" + language + " .\n"
+	triple, derr := rdf.NewTripleDecoder(strings.NewReader(statement), rdf.NTriples).Decode()
+	if derr != nil {
+		return nil, err
+	}
+	return triple.Obj, nil
+}
+
 // Compare compares this triple to another triple based on it's id
 func (triple Triple) Compare(other Triple) int {
 	return triple.ID.Compare(other.ID)
-- 
2.43.0


From f4dc9b0d2fa250bdbf667725509e0bcaa36f3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 35/40] fix: never abbreviate subjects and objects in turtle

---
 internal/wisski/entity.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 2723ca9..dbef45f 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -35,6 +35,16 @@ func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format)
 			return err
 		}
 
+		if f == rdf.Turtle {
+			// predicates may be abbreviated, but nothing else
+			if iri, ok := triple.Subj.(rdf.IRI); ok {
+				triple.Subj = fullIRI{iri}
+			}
+			if iri, ok := triple.Obj.(rdf.IRI); ok {
+				triple.Obj = fullIRI{iri}
+			}
+		}
+
 		if err := writer.Encode(triple); err != nil {
 			writer.Close()
 			return err
@@ -44,6 +54,14 @@ func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format)
 	return writer.Close()
 }
 
+// fullIRI is an IRI that is always written in full.
+//
+// The encoder for turtle abbreviates rdf:type as 'a' everywhere, which is only valid for predicates.
+type fullIRI struct{ rdf.IRI }
+
+// Type is the type of terms the encoder never abbreviates
+func (fullIRI) Type() rdf.TermType { return rdf.TermBlank }
+
 // AllTriples returns all triples that are related to this entity.
 // Concretely this means:
 //
-- 
2.43.0


From beb62a968a3e3e20b8b9eafc60f147ca8410ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 36/40] fix: ignore public urls that do not name a site

---
 internal/viewer/viewer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index 2d95cbc..68467fd 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -66,6 +66,10 @@ func (rf RenderFlags) PublicURIS() (public []string) {
 		if err != nil {
 			continue
 		}
+		if url.Host == "" && url.Path == "" {
+			// not the url of a site, the scheme alone would stand for every site
+			continue
+		}
 
 		url.Scheme = "http"
 		public = append(public, url.String())
-- 
2.43.0


From 72feebd2a3dc1dd0ca559215d56f03addbb6cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:44 +0000
Subject: [PATCH 37/40] fix: replace links to the published site only, and
 without its path

---
 internal/viewer/html.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 6108246..59318ac 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -117,16 +117,17 @@ type contextGlobal struct {
 
 func (cg contextGlobal) ReplaceURL(u string) string {
 	for _, prefix := range cg.InterceptedPrefixes {
-		if strings.HasPrefix(u, prefix) {
-			url, err := url.Parse(u)
-			if err != nil {
-				continue
-			}
-			url.Scheme = ""
-			url.Host = ""
-			url.OmitHost = true
-			return url.String()
+		rest, ok := strings.CutPrefix(u, prefix)
+		if !ok || (rest != "" && !strings.ContainsAny(rest[:1], "/?#")) {
+			continue
+		}
+
+		// the viewer serves "wisski" at the root, even if the public url has a path
+		url, err := url.Parse("/wisski" + rest)
+		if err != nil {
+			continue
 		}
+		return url.String()
 	}
 	return u
 }
-- 
2.43.0


From 7c5af27306c066623b3bbc1d0de35adca43caefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 38/40] fix: report pages that cannot be sent instead of
 crashing

---
 internal/viewer/html.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 59318ac..1e90ac0 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -183,7 +183,7 @@ func (viewer *Viewer) htmlIndex(w http.ResponseWriter, r *http.Request) {
 		Bundles: bundles,
 	})
 	if err != nil {
-		panic(err)
+		viewer.Stats.LogError("render index", err)
 	}
 }
 
@@ -202,7 +202,7 @@ func (viewer *Viewer) htmlPerf(w http.ResponseWriter, r *http.Request) {
 		Perf:    viewer.Perf(),
 	})
 	if err != nil {
-		panic(err)
+		viewer.Stats.LogError("render perf", err)
 	}
 }
 
@@ -216,7 +216,7 @@ func (viewer *Viewer) htmlLegal(w http.ResponseWriter, r *http.Request) {
 		Frontend: assets.Disclaimer,
 	})
 	if err != nil {
-		panic(err)
+		viewer.Stats.LogError("render about", err)
 	}
 }
 
@@ -323,7 +323,7 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 	w.WriteHeader(http.StatusOK)
 	err := bundleTemplate.Execute(w, context)
 	if err != nil {
-		panic(err)
+		viewer.Stats.LogError("render bundle", err)
 	}
 }
 
@@ -345,7 +345,7 @@ func (viewer *Viewer) htmlPathbuilder(w http.ResponseWriter, r *http.Request) {
 		Pathbuilder: viewer.Pathbuilder,
 	})
 	if err != nil {
-		panic(err)
+		viewer.Stats.LogError("render pathbuilder", err)
 	}
 }
 
@@ -383,7 +383,7 @@ func (viewer *Viewer) htmlTipsy(w http.ResponseWriter, r *http.Request) {
 		Filename: makeDataAttr("filename", "hangover.xml"),
 	})
 	if err != nil {
-		panic(err)
+		viewer.Stats.LogError("render tipsy", err)
 	}
 }
 
-- 
2.43.0


From e8bfe915531ce5a5f400d587e8d61dfc948cf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 39/40] fix: quote the names of tables and columns in sql and
 csv exports

---
 cmd/n2j/sqlite.go               |  7 ++++---
 internal/sparkl/exporter/sql.go | 25 ++++++++++++++++++-------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 013c890..aeadf3d 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -3,6 +3,7 @@ package main
 import (
 	"database/sql"
 	"encoding/csv"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -89,8 +90,8 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 }
 
 func doCSVTable(db *sql.DB, table string, path string) (err error) {
-	// open a csv file matching the name
-	file, err := os.Create(filepath.Join(path, table+".csv"))
+	// open a csv file matching the name (which must not leave the directory)
+	file, err := os.Create(filepath.Join(path, url.PathEscape(table)+".csv"))
 	if err != nil {
 		return err
 	}
@@ -104,7 +105,7 @@ func doCSVTable(db *sql.DB, table string, path string) (err error) {
 	writer := csv.NewWriter(file)
 
 	// query everything in the table
-	rows, err := db.Query("SELECT * FROM " + table)
+	rows, err := db.Query("SELECT * FROM " + exporter.QuoteIdentifier(table))
 	if err != nil {
 		return err
 	}
diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index 65e6c7b..d53a85f 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -57,9 +57,14 @@ func (sql *SQL) execInsert(table string, columns []string, values [][]any) error
 		chunkSize = sql.BatchSize
 	}
 
+	quoted := make([]string, len(columns))
+	for i, column := range columns {
+		quoted[i] = QuoteIdentifier(column)
+	}
+
 	for i := 0; i < len(values); i += chunkSize {
-		insert := sqlbuilder.InsertInto(table)
-		insert.Cols(columns...)
+		insert := sqlbuilder.InsertInto(QuoteIdentifier(table))
+		insert.Cols(quoted...)
 
 		// determine the true chunk size
 		chunkStart := i
@@ -111,6 +116,12 @@ const (
 	fieldTableInfix  = "__"
 )
 
+// QuoteIdentifier quotes the name of a table or column for use in an sql query.
+// Both sqlite and mysql understand backticks.
+func QuoteIdentifier(name string) string {
+	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
+}
+
 func (*SQL) BundleTable(bundle *pathbuilder.Bundle) string {
 	return bundleTablePrefix + bundle.MachineName()
 }
@@ -133,19 +144,19 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 	}
 
 	// drop the table if it already exists
-	if err := sql.exec("DROP TABLE IF EXISTS "+sql.BundleTable(bundle)+";", nil); err != nil {
+	if err := sql.exec("DROP TABLE IF EXISTS "+QuoteIdentifier(sql.BundleTable(bundle))+";", nil); err != nil {
 		return err
 	}
 
 	// create a table with fields for every field, and the child field
-	table := sqlbuilder.CreateTable(sql.BundleTable(bundle)).IfNotExists()
+	table := sqlbuilder.CreateTable(QuoteIdentifier(sql.BundleTable(bundle))).IfNotExists()
 	table.Define(uriColumn, "TEXT", "NOT NULL")
 	if !bundle.IsToplevel() {
 		table.Define(parentColumn, "TEXT")
 	}
 	for _, field := range bundle.ChildFields {
 		if !sql.MakeFieldTables {
-			table.Define(sql.FieldColumn(field))
+			table.Define(sqlbuilder.Escape(QuoteIdentifier(sql.FieldColumn(field))))
 		} else {
 			if err := sql.CreateFieldTable(bundle, field); err != nil {
 				return err
@@ -160,11 +171,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
 	// drop the table if it already exists
-	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+	if err := sql.exec("DROP TABLE IF EXISTS "+QuoteIdentifier(sql.FieldTable(bundle, field))+";", nil); err != nil {
 		return err
 	}
 
-	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
+	table := sqlbuilder.CreateTable(QuoteIdentifier(sql.FieldTable(bundle, field))).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
 	table.Define(langColumn, "TEXT")
-- 
2.43.0


From 5b7187b130fa8cb07b712a4a978400ff801fc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 40/40] fix: refuse exports in which several tables have the
 same name

---
 internal/sparkl/exporter/sql.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index d53a85f..cdcd0df 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -27,6 +27,9 @@ type SQL struct {
 	dbLock          sync.Mutex
 	batchLock       sync.Mutex
 	MakeFieldTables bool // create tables for field values (if false, they get joined with "separator")
+
+	tableLock sync.Mutex
+	tables    map[string]struct{} // names of the tables of this export
 }
 
 // exec executes an sql query
@@ -134,6 +137,22 @@ func (*SQL) FieldColumn(field pathbuilder.Field) string {
 	return fieldColumnPrefix + field.MachineName()
 }
 
+// claimTable makes sure that the given table is not used for anything else in this export.
+func (sql *SQL) claimTable(table string) error {
+	sql.tableLock.Lock()
+	defer sql.tableLock.Unlock()
+
+	key := strings.ToLower(table) // sqlite ignores case
+	if _, claimed := sql.tables[key]; claimed {
+		return fmt.Errorf("%w: %q", errDuplicateTable, table)
+	}
+	if sql.tables == nil {
+		sql.tables = make(map[string]struct{})
+	}
+	sql.tables[key] = struct{}{}
+	return nil
+}
+
 // createBundleTable creates a table for the given bundle
 func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 	// build all the child tables first!
@@ -143,6 +162,10 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 		}
 	}
 
+	if err := sql.claimTable(sql.BundleTable(bundle)); err != nil {
+		return err
+	}
+
 	// drop the table if it already exists
 	if err := sql.exec("DROP TABLE IF EXISTS "+QuoteIdentifier(sql.BundleTable(bundle))+";", nil); err != nil {
 		return err
@@ -170,6 +193,10 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	if err := sql.claimTable(sql.FieldTable(bundle, field)); err != nil {
+		return err
+	}
+
 	// drop the table if it already exists
 	if err := sql.exec("DROP TABLE IF EXISTS "+QuoteIdentifier(sql.FieldTable(bundle, field))+";", nil); err != nil {
 		return err
@@ -256,6 +283,7 @@ func (sql *SQL) Close() error {
 var (
 	nullString               sql.NullString
 	errInsufficientQueryVars = errors.New("insufficient query variables")
+	errDuplicateTable        = errors.New("several bundles or fields need the same table")
 )
 
 // inserts performs inserts into the table for the provided bundle.
-- 
2.43.0

