From 0a7940c60db0464e46ca449b29eb885ce9b36d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:32 +0000
Subject: [PATCH 01/44] fix: print annotations in a stable order

---
 misc.go     | 14 ++++++++++++--
 unparser.go | 19 ++++++++++---------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/misc.go b/misc.go
index 608b482..7180465 100644
--- a/misc.go
+++ b/misc.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -175,11 +176,20 @@ func GetAnnotation(annos map[string]string, key string) string {
 	return ""
 }
 
+func sortedAnnotationNames(annos map[string]string) []string {
+	names := make([]string, 0, len(annos))
+	for k := range annos {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func AnnotationsAsString(annos map[string]string) string {
 	var opts []string
 	if len(annos) > 0 {
-		for k, v := range annos {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
+		for _, k := range sortedAnnotationNames(annos) {
+			opts = append(opts, fmt.Sprintf("%s=%q", k, annos[k]))
 		}
 	}
 	if len(opts) > 0 {
diff --git a/unparser.go b/unparser.go
index a243ffd..e5cfa9e 100644
--- a/unparser.go
+++ b/unparser.go
@@ -45,7 +45,8 @@ func (g *SadlGenerator) Generate() string {
 			s := ""
 			if len(annos) > 0 {
 				s = "\n"
-				for k, v := range annos {
+				for _, k := range sortedAnnotationNames(annos) {
+					v := annos[k]
 					if v == "" {
 						s += fmt.Sprintf("%s\n", k)
 					} else {
@@ -179,8 +180,8 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				if fd.Required {
 					fopts = append(fopts, "required")
 				}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
+				for _, aname := range sortedAnnotationNames(fd.Annotations) {
+					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, fd.Annotations[aname]))
 				}
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
@@ -201,8 +202,8 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 					}
 				}
 				fopts := []string{}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
+				for _, aname := range sortedAnnotationNames(fd.Annotations) {
+					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, fd.Annotations[aname]))
 				}
 				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
@@ -229,8 +230,8 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 	var opts []string
 	if len(op.Annotations) > 0 {
-		for k, v := range op.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
+		for _, k := range sortedAnnotationNames(op.Annotations) {
+			opts = append(opts, fmt.Sprintf("%s=%q", k, op.Annotations[k]))
 		}
 	}
 	opt := ""
@@ -301,8 +302,8 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 		}
 	}
 	if len(hact.Annotations) > 0 {
-		for k, v := range hact.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
+		for _, k := range sortedAnnotationNames(hact.Annotations) {
+			opts = append(opts, fmt.Sprintf("%s=%q", k, hact.Annotations[k]))
 		}
 	}
 	opt := ""
-- 
2.43.0


From b05ab626b4d1b6070e5350f315b15739cb542a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:32 +0000
Subject: [PATCH 02/44] fix: printing a model as SADL does not change the model

---
 unparser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/unparser.go b/unparser.go
index e5cfa9e..a249db5 100644
--- a/unparser.go
+++ b/unparser.go
@@ -317,16 +317,17 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 		s += indentAmount + g.sadlParamSpec(in)
 	}
 	bcom := ""
-	if hact.Expected == nil {
-		hact.Expected = &HttpExpectedSpec{
+	expected := hact.Expected
+	if expected == nil {
+		expected = &HttpExpectedSpec{
 			Status: 200,
 		}
 	}
-	if hact.Expected.Comment != "" {
-		bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
+	if expected.Comment != "" {
+		bcom = g.FormatComment(indentAmount, expected.Comment, 100, false)
 	}
-	s += fmt.Sprintf("\n%s%sexpect %d {\n", bcom, indentAmount, hact.Expected.Status)
-	for _, out := range hact.Expected.Outputs {
+	s += fmt.Sprintf("\n%s%sexpect %d {\n", bcom, indentAmount, expected.Status)
+	for _, out := range expected.Outputs {
 		s += indentAmount + indentAmount + g.sadlParamSpec(out)
 	}
 	s += "   }\n"
-- 
2.43.0


From 64af88d16c1746880e3c852c9dc967820d9cf9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:32 +0000
Subject: [PATCH 03/44] fix: GraphQL export lists custom scalars in a stable
 order

---
 graphql/export_graphql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 192d6a6..913b5d8 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/boynton/sadl"
 )
@@ -52,7 +53,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			return "", err
 		}
 	}
+	scalars := make([]string, 0, len(w.customScalars))
 	for k, _ := range w.customScalars {
+		scalars = append(scalars, k)
+	}
+	sort.Strings(scalars)
+	for _, k := range scalars {
 		w.Emit("scalar %s\n", k)
 	}
 	return w.End(), nil
-- 
2.43.0


From 9544dc790c764c87231d584a1ba1057a83cdc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:13 +0000
Subject: [PATCH 04/44] fix: Java export emits nested classes in a stable order

---
 java/export_java.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f760c26..a8f02f7 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -341,15 +341,22 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		if len(nested) > 0 {
-			for iname, ispec := range nested {
-				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
-			}
+		for _, iname := range sortedNames(nested) {
+			gen.CreateStructPojo(nested[iname], iname, indent+"    ", nil)
 		}
 	}
 	gen.Emit("}\n")
 }
 
+func sortedNames(specs map[string]*sadl.TypeSpec) []string {
+	var names []string
+	for name := range specs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSpec, indent string) {
 	var args []string
 	for _, fd := range ts.Fields {
@@ -567,10 +574,8 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
     }
 `)
 	}
-	if len(nested) > 0 {
-		for iname, ispec := range nested {
-			gen.CreateStructPojo(ispec, iname, indent1, nil)
-		}
+	for _, iname := range sortedNames(nested) {
+		gen.CreateStructPojo(nested[iname], iname, indent1, nil)
 	}
 	gen.Emit("}\n")
 }
-- 
2.43.0


From 8d06c7184d224291c1ba614645f351ecacaac43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:44 +0000
Subject: [PATCH 05/44] fix: OpenAPI export finds the operation of an example
 whatever its method

An example was attached only when its action was the first method of its
path; otherwise it was dropped, or the export panicked.
---
 openapi/export_openapi.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aa4b750..92901c0 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/boynton/sadl"
@@ -334,7 +335,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 						}
 					}
 				} else {
-					panic("no")
+					fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
 				}
 			} else {
 				fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
@@ -345,25 +346,17 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 }
 
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
-	for _, pathItem := range model.Paths {
-		var op *Operation
-		if pathItem.Get != nil {
-			op = pathItem.Get
-		} else if pathItem.Put != nil {
-			op = pathItem.Put
-		} else if pathItem.Delete != nil {
-			op = pathItem.Delete
-		} else if pathItem.Post != nil {
-			op = pathItem.Post
-		} else if pathItem.Head != nil {
-			op = pathItem.Head
-		} else if pathItem.Patch != nil {
-			op = pathItem.Patch
-		} else {
-			panic("fix me")
-		}
-		if op.OperationId == opId {
-			return op
+	var paths []string
+	for path := range model.Paths {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	for _, path := range paths {
+		item := model.Paths[path]
+		for _, op := range []*Operation{item.Get, item.Put, item.Delete, item.Post, item.Head, item.Patch} {
+			if op != nil && op.OperationId == opId {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From bb39f36dffbb915339b9e4df974cf357ba0ca437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:44 +0000
Subject: [PATCH 06/44] fix: OpenAPI export of a map refers to its item type by
 name

Inlining it never ended when the item type refers back to the map, and
gave a map of an Enum a dangling reference. An array or map of Float64
no longer panics.
---
 openapi/export_openapi.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 92901c0..f6d3ef5 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -470,7 +470,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -548,9 +548,6 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return sch, nil
 	case "Int32", "Int16", "Int8", "Int64", "Float32", "Float64", "Decimal":
-		if td.Type == "Float64" && name != "" {
-			panic("here? " + name + " -> " + sadl.Pretty(td))
-		}
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
 		sch := &Schema{
 			Type:        stype,
@@ -627,7 +624,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 	case "Map":
 		//note: keys are always strings
 		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f78b2f7e68836520c67f25aa59e2e7f2381dce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:05 +0000
Subject: [PATCH 07/44] fix: HTTP trace lists the examples of an action in
 declared order

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1658685..ef0f388 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -43,12 +43,16 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
+	var exampleNames []string //in the order they are declared
 	var reqExample, resExample map[string]interface{}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
 			tmp := ex.Example.(map[string]interface{})
+			if _, ok := namedExamples[ex.Name]; !ok {
+				exampleNames = append(exampleNames, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -69,7 +73,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		}
 	}
 	body := ""
-	for exName, data := range namedExamples {
+	for _, exName := range exampleNames {
+		data := namedExamples[exName]
 		reqExample = data.req
 		resExample = data.res
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
-- 
2.43.0


From a300107192206cd450afd2adbb6ffa4411a56d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:05 +0000
Subject: [PATCH 08/44] fix: the Date header of an HTTP trace is in GMT,
 whatever the local zone

---
 httptrace/export_http_examples.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index ef0f388..528b23e 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -141,8 +141,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 }
 
 func dateHeader() string {
-	t := time.Now()
-	return t.Format("Mon, 2 Jan 2006 15:04:05 GMT")
+	return time.Now().UTC().Format(http.TimeFormat)
 }
 
 func stripMissingOptionalQueryParams(uri string) string {
-- 
2.43.0


From 1a98766ffdab993790a628efc5c3580e6cb946e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:05 +0000
Subject: [PATCH 09/44] fix: HTTP trace export returns its errors, and reports
 a failed write

---
 httptrace/export_http_examples.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 528b23e..5cfe4b6 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,7 +3,6 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
-	"os"
 	"strings"
 	"time"
 
@@ -14,10 +13,11 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	for _, hdef := range model.Http {
 		snippet, err := generateHttpTrace(model, hdef)
 		if err != nil {
-			fmt.Println("*** Error:", err)
-			os.Exit(1)
+			return err
+		}
+		if _, err = fmt.Println(snippet); err != nil {
+			return err
 		}
-		fmt.Println(snippet)
 	}
 	return nil
 }
@@ -49,7 +49,10 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
-			tmp := ex.Example.(map[string]interface{})
+			tmp, ok := ex.Example.(map[string]interface{})
+			if !ok {
+				return "", fmt.Errorf("Example %q of %s is not an object", ex.Name, ex.Target)
+			}
 			if _, ok := namedExamples[ex.Name]; !ok {
 				exampleNames = append(exampleNames, ex.Name)
 			}
@@ -60,11 +63,19 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data.res = ex.Example.(map[string]interface{})
+					res, ok := ex.Example.(map[string]interface{})
+					if !ok {
+						return "", fmt.Errorf("Example %q of %s is not an object", ex.Name, ex.Target)
+					}
+					data.res = res
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-							data.res = ex.Example.(map[string]interface{})
+							res, ok := ex.Example.(map[string]interface{})
+							if !ok {
+								return "", fmt.Errorf("Example %q of %s is not an object", ex.Name, ex.Target)
+							}
+							data.res = res
 							data.exc = exc
 						}
 					}
-- 
2.43.0


From 564cc80b5ad1138c5c10d76aa7a80f395bc7779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:26 +0000
Subject: [PATCH 10/44] fix: GraphQL export returns its errors, and reports a
 failed write

---
 graphql/export_graphql.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 913b5d8..8c26132 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -12,11 +12,10 @@ import (
 func Export(model *sadl.Model, conf *sadl.Data) error {
 	s, err := FromSadl(model, conf)
 	if err != nil {
-		panic(fmt.Sprintf("*** %v\n", err))
-		//		return err
+		return err
 	}
-	fmt.Print(s)
-	return nil
+	_, err = fmt.Print(s)
+	return err
 }
 
 func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
@@ -47,7 +46,7 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			panic("fixme: " + td.Type)
+			err = fmt.Errorf("Cannot export type %q as GraphQL: %s is not supported", td.Name, td.Type)
 		}
 		if err != nil {
 			return "", err
-- 
2.43.0


From c4a5670f5e9f4414948ddcf2f0828bfde0f5104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:26 +0000
Subject: [PATCH 11/44] fix: OpenAPI export reports a failed write

---
 openapi/export_openapi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index f6d3ef5..4f119c8 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -15,8 +15,8 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	if err != nil {
 		return err
 	}
-	fmt.Println(sadl.Pretty(doc))
-	return nil
+	_, err = fmt.Println(sadl.Pretty(doc))
+	return err
 }
 
 type Generator struct {
-- 
2.43.0


From 2f66336eb118185b7b5299dff0e2a880f6d8982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:13 +0000
Subject: [PATCH 12/44] fix: importing an OpenAPI document gives the same model
 every time

---
 openapi/import_openapi.go | 35 +++++++++++++++++++++++++----------
 openapi/model.go          |  4 ++--
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 034d497..13169a7 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -141,8 +142,9 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for name, oasSchema := range model.Components.Schemas {
-		name = validSadlName(name, oasSchema)
+	for _, key := range sortedKeys(model.Components.Schemas) {
+		oasSchema := model.Components.Schemas[key]
+		name := validSadlName(key, oasSchema)
 		if name == "" {
 			continue
 		}
@@ -174,8 +176,8 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	}
 
 	httpBindings := true
-	for tmpl, path := range model.Paths {
-		path2 := *path
+	for _, tmpl := range sortedKeys(model.Paths) {
+		path2 := *model.Paths[tmpl]
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
 			if op != nil {
@@ -346,7 +348,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-			for fname, fschema := range oasSchema.Properties {
+			for _, fname := range sortedKeys(oasSchema.Properties) {
+				fschema := oasSchema.Properties[fname]
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -368,6 +371,16 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	return ts, err
 }
 
+// a document's objects are imported in the order of their names, so that importing it again gives the same model.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func containsString(lst []string, val string) bool {
 	for _, s := range lst {
 		if s == val {
@@ -505,7 +518,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	//else: if 201 is in the list, use that
 	//else: ? find a likely candidate.
 	var expectedStatus string = "default"
-	for status, _ := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
 			expectedStatus = status
 			break
@@ -531,7 +544,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			Status:  int32(code),
 			Comment: eparam.Description,
 		}
-		for header, def := range eparam.Headers {
+		for _, header := range sortedKeys(eparam.Headers) {
+			def := eparam.Headers[header]
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -570,7 +584,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		hact.Expected = ex
 	}
-	for status, param := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
+		param := op.Responses[status]
 		if status != expectedStatus {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
@@ -702,9 +717,9 @@ func findTypeDef(schema *sadl.Schema, name string) *sadl.TypeDef {
 }
 
 func guessDefaultResponseCode(op *Operation) string {
-	for status, _ := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
-			//kind of an arbitrary choice: the first one we encounter, and this is random order, too.
+			//kind of an arbitrary choice: the lowest one.
 			return status
 		}
 	}
diff --git a/openapi/model.go b/openapi/model.go
index dcafb69..aa32519 100644
--- a/openapi/model.go
+++ b/openapi/model.go
@@ -66,9 +66,9 @@ func ValidateInfo(info *Info) error {
 }
 
 func ValidatePaths(paths map[string]*PathItem) error {
-	for k, _ := range paths {
+	for _, k := range sortedKeys(paths) {
 		if !strings.HasPrefix(k, "/") {
-			return OasError("Key in Paths object must start with '/': ", k)
+			return OasError("Key in Paths object must start with '/': %s", k)
 			//validate the PathItem?
 		}
 	}
-- 
2.43.0


From 7315c2073b97175ac171f1d52654d924a267a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:01 +0000
Subject: [PATCH 13/44] fix: OpenAPI import keeps its examples to itself

They were collected in a package variable, so concurrent imports mixed
or lost each other's examples.
---
 openapi/import_openapi.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 13169a7..c905e71 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -120,13 +120,11 @@ func xParse(data []byte, format string) (*Model, error) {
 }
 */
 
-var examples []*sadl.ExampleDef
-
 var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD"} //to do: "PATCH", "OPTIONS", "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	annotations := make(map[string]string, 0)
-	examples = nil
+	var examples []*sadl.ExampleDef
 	annotations["x_openapi_version"] = model.OpenAPI
 
 	comment := model.Info.Description
@@ -154,12 +152,12 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
 			if oasDef, ok := model.Components.Schemas[tname]; ok {
-				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
+				ts, err = convertOasType(tname, oasDef, &examples) //doesn't handle N levels
 			} else {
 				panic("hmm")
 			}
 		} else {
-			ts, err = convertOasType(name, oasSchema)
+			ts, err = convertOasType(name, oasSchema, &examples)
 			comment = oasSchema.Description
 		}
 
@@ -185,7 +183,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 					continue
 				}
 				if httpBindings {
-					hact, err := convertOasPath(tmpl, op, method)
+					hact, err := convertOasPath(tmpl, op, method, &examples)
 					if err != nil {
 						return nil, err
 					}
@@ -237,7 +235,7 @@ func oasTypeRef(oasSchema *Schema) string {
 	return ""
 }
 
-func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
+func convertOasType(name string, oasSchema *Schema, examples *[]*sadl.ExampleDef) (sadl.TypeSpec, error) {
 	var err error
 	var ts sadl.TypeSpec
 	if oasSchema.Example != nil {
@@ -245,7 +243,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			Target:  name,
 			Example: oasSchema.Example,
 		}
-		examples = append(examples, ex)
+		*examples = append(*examples, ex)
 	}
 	switch oasSchema.Type {
 	case "boolean":
@@ -309,7 +307,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			if oasSchema.Items.Ref != "" {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
-				its, err := convertOasType(name+".Items", oasSchema.Items)
+				its, err := convertOasType(name+".Items", oasSchema.Items, examples)
 				if err == nil {
 					ts.Items = its.Type
 				}
@@ -359,7 +357,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				}
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
-					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema)
+					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema, examples)
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
@@ -403,7 +401,7 @@ func makeIdentifier(text string) string {
 	return reg.ReplaceAllString(text, "")
 }
 
-func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, error) {
+func convertOasPath(path string, op *Operation, method string, examples *[]*sadl.ExampleDef) (*sadl.HttpDef, error) {
 	hact := &sadl.HttpDef{
 		Name:    op.OperationId,
 		Path:    path,
@@ -560,7 +558,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 				if schref.Ref != "" {
 					param.Type = oasTypeRef(schref)
 				} else {
-					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref) //fix: example
+					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref, examples) //fix: example
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
@@ -574,7 +572,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					if schref.Ref != "" {
 						result.Type = oasTypeRef(schref)
 					} else {
-						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref) //fix: example
+						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref, examples) //fix: example
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
@@ -734,7 +732,8 @@ func responseTypeName(resp *Response) string {
 				if schref.Ref != "" {
 					return oasTypeRef(schref)
 				} else {
-					ts, err := convertOasType("", schref)
+					var ignored []*sadl.ExampleDef
+					ts, err := convertOasType("", schref, &ignored)
 					if err == nil {
 						return ts.Type //fixme
 					}
-- 
2.43.0


From c821abe275934f3ded00b296c6cb51ff28ca6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:41 +0000
Subject: [PATCH 14/44] fix: OpenAPI and Swagger import report what they cannot
 convert

Documents with empty or unsupported parts made them panic, or lost the
error and the part of the model it concerned.
---
 openapi/import_openapi.go | 99 ++++++++++++++++++++++++++++-----------
 openapi/import_swagger.go | 19 +++++---
 openapi/model.go          |  2 +-
 3 files changed, 84 insertions(+), 36 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index c905e71..075a30a 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -127,6 +127,13 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	var examples []*sadl.ExampleDef
 	annotations["x_openapi_version"] = model.OpenAPI
 
+	if model.Info == nil {
+		return nil, missingFieldError("info", "OpenAPI")
+	}
+	var schemas map[string]*Schema
+	if model.Components != nil {
+		schemas = model.Components.Schemas
+	}
 	comment := model.Info.Description
 	if model.Info.Title != "" {
 		if sadl.IsSymbol(model.Info.Title) {
@@ -140,8 +147,11 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for _, key := range sortedKeys(model.Components.Schemas) {
-		oasSchema := model.Components.Schemas[key]
+	for _, key := range sortedKeys(schemas) {
+		oasSchema := schemas[key]
+		if oasSchema == nil {
+			return nil, fmt.Errorf("Schema %q is empty", key)
+		}
 		name := validSadlName(key, oasSchema)
 		if name == "" {
 			continue
@@ -151,10 +161,10 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := model.Components.Schemas[tname]; ok {
+			if oasDef, ok := schemas[tname]; ok {
 				ts, err = convertOasType(tname, oasDef, &examples) //doesn't handle N levels
 			} else {
-				panic("hmm")
+				return nil, fmt.Errorf("Schema %q refers to an undefined schema: %q", key, oasSchema.Ref)
 			}
 		} else {
 			ts, err = convertOasType(name, oasSchema, &examples)
@@ -175,7 +185,11 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 
 	httpBindings := true
 	for _, tmpl := range sortedKeys(model.Paths) {
-		path2 := *model.Paths[tmpl]
+		path := model.Paths[tmpl]
+		if path == nil {
+			continue
+		}
+		path2 := *path
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
 			if op != nil {
@@ -193,6 +207,9 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		}
 	}
 	for _, server := range model.Servers {
+		if server == nil {
+			continue
+		}
 		annotations["x_server"] = server.URL
 	}
 	if model.Info.License != nil {
@@ -238,6 +255,9 @@ func oasTypeRef(oasSchema *Schema) string {
 func convertOasType(name string, oasSchema *Schema, examples *[]*sadl.ExampleDef) (sadl.TypeSpec, error) {
 	var err error
 	var ts sadl.TypeSpec
+	if oasSchema == nil {
+		return ts, fmt.Errorf("Missing schema: %s", name)
+	}
 	if oasSchema.Example != nil {
 		ex := &sadl.ExampleDef{
 			Target:  name,
@@ -308,9 +328,10 @@ func convertOasType(name string, oasSchema *Schema, examples *[]*sadl.ExampleDef
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
 				its, err := convertOasType(name+".Items", oasSchema.Items, examples)
-				if err == nil {
-					ts.Items = its.Type
+				if err != nil {
+					return ts, err
 				}
+				ts.Items = its.Type
 			}
 		}
 		//minsize, maxsize
@@ -348,6 +369,9 @@ func convertOasType(name string, oasSchema *Schema, examples *[]*sadl.ExampleDef
 			req := oasSchema.Required
 			for _, fname := range sortedKeys(oasSchema.Properties) {
 				fschema := oasSchema.Properties[fname]
+				if fschema == nil {
+					return ts, fmt.Errorf("Missing schema: %s.%s", name, fname)
+				}
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -358,13 +382,15 @@ func convertOasType(name string, oasSchema *Schema, examples *[]*sadl.ExampleDef
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
 					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema, examples)
+					if err != nil {
+						return ts, err
+					}
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
 		}
 	default:
-		fmt.Printf("oas type is %q\n", oasSchema.Type)
-		panic("oas type not handled")
+		return ts, fmt.Errorf("Unsupported type in schema %s: %q", name, oasSchema.Type)
 	}
 	return ts, err
 }
@@ -430,6 +456,9 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 
 	var queries []string
 	for _, param := range op.Parameters {
+		if param == nil {
+			return nil, fmt.Errorf("Empty parameter in operation %q", op.OperationId)
+		}
 		name := makeIdentifier(param.Name)
 		spec := &sadl.HttpParamSpec{
 			StructFieldDef: sadl.StructFieldDef{
@@ -445,8 +474,7 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 		case "path":
 			spec.Path = true
 			if strings.Index(path, "{"+name+"}") < 0 {
-				fmt.Println("WARNING: path param is not in path template:", path, name)
-				panic("here")
+				return nil, fmt.Errorf("Path parameter %q is not in the path template: %s", name, path)
 			}
 		case "header":
 			spec.Header = param.Name
@@ -456,7 +484,11 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
 			if param.Schema != nil {
-				spec.Type = sadlPrimitiveType(param.Schema.Type)
+				var err error
+				spec.Type, err = sadlPrimitiveType(param.Schema.Type)
+				if err != nil {
+					return nil, err
+				}
 			}
 			if spec.Type == "Array" {
 				if param.Schema.Items == nil {
@@ -472,7 +504,7 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 				}
 			}
 			if spec.Type == "Struct" {
-				panic("Whoops, that can't be right")
+				return nil, fmt.Errorf("Parameter %q of operation %q cannot be an object", param.Name, op.OperationId)
 			}
 			if param.Schema != nil && param.Schema.Enum != nil {
 				for _, val := range param.Schema.Enum {
@@ -493,7 +525,7 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 	if hact.Method == "POST" || hact.Method == "PUT" || hact.Method == "PATCH" {
 		if op.RequestBody != nil {
 			for contentType, mediadef := range op.RequestBody.Content {
-				if contentType == "application/json" { //hack
+				if contentType == "application/json" && mediadef != nil { //hack
 					bodyType := oasTypeRef(mediadef.Schema)
 					if bodyType != "" {
 						spec := &sadl.HttpParamSpec{
@@ -544,6 +576,9 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 		}
 		for _, header := range sortedKeys(eparam.Headers) {
 			def := eparam.Headers[header]
+			if def == nil {
+				return nil, fmt.Errorf("Empty header %q in operation %q", header, op.OperationId)
+			}
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -559,12 +594,15 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 					param.Type = oasTypeRef(schref)
 				} else {
 					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref, examples) //fix: example
+					if err != nil {
+						return nil, err
+					}
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
 		}
 		for contentType, mediadef := range eparam.Content {
-			if contentType == "application/json" { //hack
+			if contentType == "application/json" && mediadef != nil { //hack
 				result := &sadl.HttpParamSpec{}
 				result.Name = "body"
 				schref := mediadef.Schema
@@ -573,6 +611,9 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 						result.Type = oasTypeRef(schref)
 					} else {
 						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref, examples) //fix: example
+						if err != nil {
+							return nil, err
+						}
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
@@ -584,13 +625,16 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 	}
 	for _, status := range sortedKeys(op.Responses) {
 		param := op.Responses[status]
+		if param == nil {
+			return nil, fmt.Errorf("Empty response %q in operation %q", status, op.OperationId)
+		}
 		if status != expectedStatus {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
 			if status == "default" {
 				status = "0"
 			} else if strings.Index(status, "X") >= 0 {
-				panic("wildcard response codes not supported")
+				return nil, fmt.Errorf("Wildcard response codes are not supported: %q", status)
 			}
 			code, err := strconv.Atoi(status)
 			if err != nil {
@@ -602,13 +646,13 @@ func convertOasPath(path string, op *Operation, method string, examples *[]*sadl
 			}
 			//FIXME: sadl should allow response headers for exceptions, also.
 			for contentType, mediadef := range param.Content {
-				if contentType == "application/json" { //hack
+				if contentType == "application/json" && mediadef != nil { //hack
 					schref := mediadef.Schema
 					if schref != nil {
 						if schref.Ref != "" {
 							ex.Type = oasTypeRef(schref)
 						} else {
-							panic("inline response types not yet supported")
+							return nil, fmt.Errorf("Inline response types are not yet supported: %q in operation %q", status, op.OperationId)
 						}
 						break
 					}
@@ -666,7 +710,7 @@ func guessOperationName(op *Operation, method string) string {
 						entityType := oasTypeRef(schref)
 						return entityType
 					} else {
-						entityType := sadlPrimitiveType(schref.Type)
+						entityType, _ := sadlPrimitiveType(schref.Type)
 						if entityType == "Array" {
 							itemType := schref.Items
 							if itemType.Ref != "" {
@@ -685,23 +729,22 @@ func guessOperationName(op *Operation, method string) string {
 	return ""
 }
 
-func sadlPrimitiveType(name string) string {
+func sadlPrimitiveType(name string) (string, error) {
 	switch name {
 	case "string":
-		return "String"
+		return "String", nil
 	case "number":
-		return "Decimal"
+		return "Decimal", nil
 	case "integer":
-		return "Int32"
+		return "Int32", nil
 	case "array":
-		return "Array"
+		return "Array", nil
 	case "object":
-		return "Struct"
+		return "Struct", nil
 	case "boolean":
-		return "Bool"
+		return "Bool", nil
 	default:
-		fmt.Println("sadlPrimitiveType for:", name)
-		panic("what?")
+		return "", fmt.Errorf("Unsupported type: %q", name)
 	}
 }
 
diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index c5648e8..5812435 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -201,10 +201,7 @@ func toV3Schema(v2Any interface{}) *Schema {
 	schema.Required = v2.GetStringArray("required")
 	switch schema.Type {
 	case "object":
-		schema.Properties = make(map[string]*Schema, 0)
-		for k, v := range v2.GetData("properties").AsMap() {
-			schema.Properties[k] = toV3Schema(v)
-		}
+		schema.Properties = toV3Properties(v2)
 	case "array":
 		schema.Items = toV3Schema(v2.Get("items"))
 	case "string":
@@ -241,14 +238,22 @@ func toV3Schema(v2Any interface{}) *Schema {
 	default:
 		if v2.Has("$ref") {
 			schema.Ref = strings.Replace(v2.GetString("$ref"), "#/definitions/", "#/components/schemas/", -1)
-		} else {
-			fmt.Printf("type: %q\n%s\n->%v\n", schema.Type, sadl.Pretty(v2), v2.Get("$ref"))
-			panic("fix this schema")
+		} else if schema.Type == "" {
+			schema.Properties = toV3Properties(v2)
 		}
+		//any other type is reported as unsupported when the model is converted
 	}
 	return schema
 }
 
+func toV3Properties(v2 *sadl.Data) map[string]*Schema {
+	properties := make(map[string]*Schema, 0)
+	for k, v := range v2.GetData("properties").AsMap() {
+		properties[k] = toV3Schema(v)
+	}
+	return properties
+}
+
 func toV3Servers(v2 *sadl.Data) []*Server {
 	var servers []*Server
 	if v2.Has("host") {
diff --git a/openapi/model.go b/openapi/model.go
index aa32519..0393003 100644
--- a/openapi/model.go
+++ b/openapi/model.go
@@ -30,7 +30,7 @@ func Load(data []byte, format string) (*Model, error) {
 */
 
 func Validate(v3 *Model) (*Model, error) {
-	if v3.OpenAPI == "" {
+	if v3 == nil || v3.OpenAPI == "" {
 		return nil, missingFieldError("openapi", "OpenAPI")
 	}
 	if v3.Info == nil {
-- 
2.43.0


From cd9a3a26fed66c7f2e92412b7b600635c782cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:41 +0000
Subject: [PATCH 15/44] fix: GraphQL import reports the types it cannot convert

---
 graphql/import_graphql.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index e269216..7ea0d81 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -105,14 +105,14 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 	return schema, nil
 }
 
-func typeName(t gql_ast.Type) string {
+func typeName(t gql_ast.Type) (string, error) {
 	switch tt := t.(type) {
 	case *gql_ast.Named:
-		return tt.Name.Value
+		return tt.Name.Value, nil
 	case *gql_ast.List:
-		return "Array"
+		return "Array", nil
 	default:
-		panic("FixMe")
+		return "", fmt.Errorf("Unsupported GraphQL type: %v", t)
 	}
 }
 
@@ -215,10 +215,10 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				case *gql_ast.Named:
 					fd.Items = convertTypeName(it.Name.Value)
 				default:
-					panic("inline list type not supported")
+					return fmt.Errorf("Inline list type not supported: %s.%s", td.Name, fd.Name)
 				}
 			default:
-				panic("list type not supported")
+				return fmt.Errorf("List type not supported: %s.%s", td.Name, fd.Name)
 			}
 		case *gql_ast.NonNull:
 			fd.Required = true
@@ -231,12 +231,20 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				case *gql_ast.Named:
 					fd.Items = convertTypeName(it.Name.Value)
 				case *gql_ast.NonNull:
-					fd.Items = convertTypeName(typeName(it.Type))
+					tn, err := typeName(it.Type)
+					if err != nil {
+						return err
+					}
+					fd.Items = convertTypeName(tn)
 				default:
-					panic("inline list type not supported")
+					return fmt.Errorf("Inline list type not supported: %s.%s", td.Name, fd.Name)
 				}
 			default:
-				fd.Type = convertTypeName(typeName(t))
+				tn, err := typeName(t)
+				if err != nil {
+					return err
+				}
+				fd.Type = convertTypeName(tn)
 			}
 		}
 		td.Fields = append(td.Fields, fd)
-- 
2.43.0


From fc5836ecd663cefb6d3f0874f167244a2a54dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:41 +0000
Subject: [PATCH 16/44] fix: validation reports the same error for the same
 value every time

---
 model.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 01bb72a..b33c521 100644
--- a/model.go
+++ b/model.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -330,7 +331,7 @@ func (model *Model) IsStructField(ts *TypeSpec, name string) bool {
 func (model *Model) ValidateStruct(context string, td *TypeSpec, value interface{}) error {
 	switch m := value.(type) {
 	case map[string]interface{}:
-		for k, _ := range m {
+		for _, k := range sortedValueNames(m) {
 			if !model.IsStructField(td, k) {
 				return fmt.Errorf("Undefined field in %s: '%s'", context, k)
 			}
@@ -353,6 +354,15 @@ func (model *Model) ValidateStruct(context string, td *TypeSpec, value interface
 	return nil
 }
 
+func sortedValueNames(m map[string]interface{}) []string {
+	names := make([]string, 0, len(m))
+	for name := range m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case []interface{}:
@@ -392,7 +402,8 @@ func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{})
 			if tdi == nil {
 				return fmt.Errorf("%s: Undefined type: %s", context, td.Items)
 			}
-			for k, item := range a {
+			for _, k := range sortedValueNames(a) {
+				item := a[k]
 				err := model.ValidateAgainstTypeSpec(fmt.Sprintf("%s[%q]", context, k), &tdi.TypeSpec, item)
 				if err != nil {
 					return err
-- 
2.43.0


From c272e9dc09c71f64945b15f6c809ba25ed9d8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:43 +0000
Subject: [PATCH 17/44] fix: validation errors show the value, not its address

---
 model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index b33c521..860c6bd 100644
--- a/model.go
+++ b/model.go
@@ -390,7 +390,7 @@ func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{
 		}
 		return nil
 	default:
-		return fmt.Errorf("%s: Not an Array: %v", context, value)
+		return fmt.Errorf("%s: Not an Array: %v", context, Pretty(value))
 	}
 }
 
@@ -422,7 +422,7 @@ func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{})
 		}
 		return nil
 	default:
-		return fmt.Errorf("%s: Not an Array: %v", context, value)
+		return fmt.Errorf("%s: Not an Array: %v", context, Pretty(value))
 	}
 }
 
-- 
2.43.0


From c8b92c7c56e43fe373b41922137ea0d23539ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:46 +0000
Subject: [PATCH 18/44] fix: validation of a Union value ends

A Union type was resolved to itself for ever, so that validating any
value, or an example in a SADL file, against it overflowed the stack.
---
 model.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/model.go b/model.go
index 860c6bd..039725f 100644
--- a/model.go
+++ b/model.go
@@ -179,6 +179,8 @@ func (model *Model) ValidateAgainstTypeSpec(context string, td *TypeSpec, value
 		return model.ValidateString(context, td, value)
 	case "Struct":
 		return model.ValidateStruct(context, td, value)
+	case "Union":
+		return model.ValidateUnion(context, td, value)
 	case "Array":
 		return model.ValidateArray(context, td, value)
 	case "Map":
@@ -354,6 +356,20 @@ func (model *Model) ValidateStruct(context string, td *TypeSpec, value interface
 	return nil
 }
 
+// the value of a union is an object that holds exactly one of its variants.
+func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{}) error {
+	m, ok := value.(map[string]interface{})
+	if !ok || len(m) != 1 {
+		return fmt.Errorf("%s: Not a valid Union: %v", context, Pretty(value))
+	}
+	for _, variant := range td.Variants {
+		if v, ok := m[variant.Name]; ok {
+			return model.ValidateAgainstTypeSpec(context+"."+variant.Name, &variant.TypeSpec, v)
+		}
+	}
+	return fmt.Errorf("%s: Not a variant of the Union: %v", context, Pretty(value))
+}
+
 func sortedValueNames(m map[string]interface{}) []string {
 	names := make([]string, 0, len(m))
 	for name := range m {
-- 
2.43.0


From a1edab1ab1b1a498c645cf31a5ec978ee4b6d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:42 +0000
Subject: [PATCH 19/44] fix: generated files are complete or not there, and
 failures are reported

Errors of flushing and closing a generated file, and of finding out
whether it exists, were ignored, so generation reported success without
the file. An interrupted generation left part of a file that the next
one then kept, because it already existed. A file that somebody created
between the check and the write was overwritten.
---
 generator.go | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/generator.go b/generator.go
index 92d1311..e3fa717 100644
--- a/generator.go
+++ b/generator.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"path/filepath"
 	"strings"
 	"text/template"
 )
@@ -67,15 +68,42 @@ func (gen *Generator) WriteFile(path string, content string) {
 		fmt.Printf("[%s already exists, not overwriting]\n", path)
 		return
 	}
-	f, err := os.Create(path)
-	if err != nil {
-		gen.Err = err
+	if gen.Err != nil {
 		return
 	}
-	defer f.Close()
-	writer := bufio.NewWriter(f)
-	_, gen.Err = writer.WriteString(content)
-	writer.Flush()
+	err := installFile(path, content, gen.Config.GetBool("force-overwrite"))
+	if os.IsExist(err) {
+		fmt.Printf("[%s already exists, not overwriting]\n", path)
+		return
+	}
+	gen.Err = err
+}
+
+// installFile makes the complete content appear at the path at once, or not at all. Unless it is to replace the
+// file at the path, it fails if there is one, even if somebody else just created it.
+func installFile(path string, content string, replace bool) error {
+	f, err := os.CreateTemp(filepath.Dir(path), ".sadl-*.tmp")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	_, err = f.WriteString(content)
+	if err == nil {
+		err = f.Chmod(0644)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+	if replace {
+		return os.Rename(f.Name(), path)
+	}
+	return os.Link(f.Name(), path)
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
@@ -108,10 +136,11 @@ func (gen *Generator) Uncapitalize(s string) string {
 }
 
 func (gen *Generator) FileExists(path string) bool {
-	if _, err := os.Stat(path); os.IsNotExist(err) {
-		return false
+	_, err := os.Stat(path)
+	if err != nil && !os.IsNotExist(err) {
+		gen.Err = err
 	}
-	return true
+	return err == nil
 }
 
 func (gen *Generator) FormatComment(indent, comment string, maxcol int, extraPad bool) string {
-- 
2.43.0


From 041a25684f8918d8091317937c9272101814840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:35 +0000
Subject: [PATCH 20/44] fix: a timestamp prints its instant in UTC, with four
 digits for the year

---
 golang/golang_model.go | 5 +++--
 timestamp.go           | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index fd34161..eee3b4a 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -355,13 +355,14 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
-	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
+	t := ts.UTC()
+	return fmt.Sprintf(RFC3339Milli, t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/1000000)
 }
 
 func (ts Timestamp) MarshalJSON() ([]byte, error) {
diff --git a/timestamp.go b/timestamp.go
index 6eecf68..ce42ba4 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -11,13 +11,14 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
-	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
+	t := ts.UTC()
+	return fmt.Sprintf(RFC3339Milli, t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/1000000)
 }
 
 func (ts Timestamp) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From c799013d359cb9e3369a9e5967a2cc5220af217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:05 +0000
Subject: [PATCH 21/44] fix: OpenAPI export returns an error for an example
 that does not fit its action

---
 openapi/export_openapi.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 4f119c8..16628e6 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -264,9 +264,19 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-7])
 				op := gen.FindOperation(oas, hdefName)
 				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
+					fields, ok := ed.Example.(map[string]interface{})
+					if !ok {
+						return nil, fmt.Errorf("Example for %q is not a Struct", ed.Target)
+					}
+					for k, v := range fields {
 						if k == "body" {
-							tmp := op.RequestBody.Content["application/json"]
+							var tmp *MediaType
+							if op.RequestBody != nil {
+								tmp = op.RequestBody.Content["application/json"]
+							}
+							if tmp == nil {
+								return nil, fmt.Errorf("Example for %q has a body, but the request has none", ed.Target)
+							}
 							if ed.Name == "" {
 								tmp.Example = v
 							} else {
@@ -299,13 +309,23 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-8])
 				op := gen.FindOperation(oas, hdefName)
 				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
+					fields, ok := ed.Example.(map[string]interface{})
+					if !ok {
+						return nil, fmt.Errorf("Example for %q is not a Struct", ed.Target)
+					}
+					for k, v := range fields {
 						if k == "body" {
 							hact := model.FindHttp(hdefName)
 							//FIXME: somehow the example name must include the status to use here
 							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
 							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
-							tmp := op.Responses[sstatus].Content["application/json"]
+							var tmp *MediaType
+							if resp := op.Responses[sstatus]; resp != nil {
+								tmp = resp.Content["application/json"]
+							}
+							if tmp == nil {
+								return nil, fmt.Errorf("Example for %q has a body, but the response has none", ed.Target)
+							}
 							if ed.Name == "" {
 								tmp.Example = v
 							} else {
-- 
2.43.0


From 845286f9fa604b397bf3ba438163b22639a68463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:28 +0000
Subject: [PATCH 22/44] fix: an example for an action without expected response
 does not crash the parser

---
 model.go  | 6 +++++-
 parser.go | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 039725f..921fb8d 100644
--- a/model.go
+++ b/model.go
@@ -576,7 +576,11 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 				if len(lst) > 0 {
 					var tmp *TypeSpec
 					fname := lst[0]
-					for _, out := range h.Expected.Outputs {
+					var outputs []*HttpParamSpec
+					if h.Expected != nil {
+						outputs = h.Expected.Outputs
+					}
+					for _, out := range outputs {
 						if out.Name == fname {
 							lst = lst[1:]
 							tmp = &out.TypeSpec
diff --git a/parser.go b/parser.go
index 1559f89..a7458a9 100644
--- a/parser.go
+++ b/parser.go
@@ -2207,8 +2207,12 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 	if !ok {
 		return fmt.Errorf("Example for an HTTP response must be a JSON object")
 	}
+	var outputs []*HttpParamSpec
+	if hact.Expected != nil {
+		outputs = hact.Expected.Outputs
+	}
 	for k, v := range m {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range outputs {
 			if out.Name == k {
 				td := p.model.FindType(out.Type)
 				if td == nil {
@@ -2222,7 +2226,7 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 			}
 		}
 	}
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range outputs {
 		if out.Required {
 			if _, ok := present[out.Name]; !ok {
 				return fmt.Errorf("Required output '%s' missing in example for %s", out.Name, ex.Target)
-- 
2.43.0


From 66aee18ceff3b2a28ee8f4376b2fc3b04e3c34ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:28 +0000
Subject: [PATCH 23/44] fix: OpenAPI and HTTP trace export take a missing
 expected response as 200

---
 httptrace/export_http_examples.go | 10 ++++++++--
 openapi/export_openapi.go         | 17 +++++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 5cfe4b6..0f58ee5 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -119,13 +119,19 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			
 			if resExample != nil {
 				body = body + "#   Response:"
-				status := hdef.Expected.Status
+				expected := hdef.Expected
+				if expected == nil {
+					expected = &sadl.HttpExpectedSpec{
+						Status: 200,
+					}
+				}
+				status := expected.Status
 				bodyExample := ""
 				headers := "Content-Type: application/json; charset=utf-8\n"
 
 
 				if data.exc == nil {
-					for _, out := range hdef.Expected.Outputs {
+					for _, out := range expected.Outputs {
 						ex := resExample[out.Name]
 						if out.Header != "" {
 							sex := stringExample(ex)
diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 16628e6..380c036 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -181,7 +181,13 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		responses := make(map[string]*Response, 0)
 		op.Responses = responses
 		content := make(map[string]*MediaType)
-		comment := hdef.Expected.Comment
+		expected := hdef.Expected
+		if expected == nil {
+			expected = &sadl.HttpExpectedSpec{
+				Status: 200,
+			}
+		}
+		comment := expected.Comment
 		if comment == "" {
 			comment = "Expected response"
 		}
@@ -190,7 +196,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			Content:     content,
 		}
 		var headers map[string]*Header
-		for _, param := range hdef.Expected.Outputs {
+		for _, param := range expected.Outputs {
 			if param.Header != "" {
 				pschema, err := gen.oasSchema(&param.TypeSpec, "")
 				if err != nil {
@@ -218,7 +224,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		if len(headers) > 0 {
 			resp.Headers = headers
 		}
-		key := fmt.Sprint(hdef.Expected.Status)
+		key := fmt.Sprint(expected.Status)
 		responses[key] = resp
 		for _, out := range hdef.Exceptions {
 			content := make(map[string]*MediaType)
@@ -318,7 +324,10 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 							hact := model.FindHttp(hdefName)
 							//FIXME: somehow the example name must include the status to use here
 							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
-							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
+							sstatus := "200"
+							if hact.Expected != nil {
+								sstatus = fmt.Sprintf("%v", hact.Expected.Status)
+							}
 							var tmp *MediaType
 							if resp := op.Responses[sstatus]; resp != nil {
 								tmp = resp.Content["application/json"]
-- 
2.43.0


From a64d9220094bad5157a00e78fa3f89a1d1624a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:58 +0000
Subject: [PATCH 24/44] fix: the Go server has the text of a string default,
 not its address

---
 golang/golang_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 83ffab9..fa4e79f 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -193,6 +193,8 @@ func stringDefault(any interface{}) string {
 	switch v := any.(type) {
 	case string:
 		return v
+	case *string:
+		return *v
 	default:
 		return fmt.Sprint(any)
 	}
-- 
2.43.0


From 4da41f82602bc475c75c37a10b705d5cb805b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:18 +0000
Subject: [PATCH 25/44] fix: generated Go servers reject a request body with
 anything after its JSON value

---
 golang/golang_server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index fa4e79f..2ced27d 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -87,7 +87,7 @@ func (gen *Generator) EmitServerAdaptor() {
 				} else if in.Path {
 					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
 				} else {
-					s = s + "\terr := json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
+					s = s + "\terr := decodeEntity(r.Body, &req." + name + ")\n"
 					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 				}
 			}
@@ -312,6 +312,22 @@ func Json(obj interface{}) string {
    return string(buf.String())
 }
 
+// decodeEntity reads a request body to its end: it has to be one complete JSON value.
+func decodeEntity(body io.Reader, entity interface{}) error {
+	dec := json.NewDecoder(body)
+	err := dec.Decode(entity)
+	if err == nil {
+		_, err = dec.Token()
+		if err == io.EOF {
+			return nil
+		}
+		if err == nil {
+			err = fmt.Errorf("Unexpected data after the request entity")
+		}
+	}
+	return err
+}
+
 func jsonResponse(w http.ResponseWriter, status int, entity interface{}) {
    w.Header().Set("Content-Type", "application/json")
 	w.WriteHeader(status)
-- 
2.43.0


From 31c5e1a69200de8a03d5c32a5f3bf1a61df8a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:40 +0000
Subject: [PATCH 26/44] fix: the command reports that SADL or JSON output could
 not be written

---
 cmd/sadl/export.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sadl/export.go b/cmd/sadl/export.go
index 1e5167d..97de2e8 100644
--- a/cmd/sadl/export.go
+++ b/cmd/sadl/export.go
@@ -26,11 +26,11 @@ func SetupCommandLineArgs(generator string) {
 func ExportFiles(model *sadl.Model, generator, dir string, conf *sadl.Data) error {
 	switch generator {
 	case "json", "sadl-ast":
-		fmt.Println(sadl.Pretty(model))
-		return nil
+		_, err := fmt.Println(sadl.Pretty(model))
+		return err
 	case "sadl":
-		fmt.Println(sadl.DecompileSadl(model))
-		return nil
+		_, err := fmt.Println(sadl.DecompileSadl(model))
+		return err
 	case "smithy":
 		return smithy.Export(model, dir, conf, false)
 	case "smithy-ast":
-- 
2.43.0


From 41a41227e23ea1eeb636622abdd3180cbf33552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:40 +0000
Subject: [PATCH 27/44] fix: the command stops if its configuration cannot be
 read

---
 cmd/sadl/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index 3027ab6..dd7e6d7 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -144,6 +144,7 @@ Supported generators and options used from config if present
 		conf, err = sadl.DataFromFile(configPath)
 		if err != nil {
 			fmt.Printf("Cannot read config file %q: %v\n", configPath, err)
+			os.Exit(3)
 		}
 	} else {
 		conf = sadl.NewData()
@@ -174,8 +175,8 @@ Supported generators and options used from config if present
 
 func fileExists(filename string) bool {
 	info, err := os.Stat(filename)
-	if os.IsNotExist(err) {
-		return false
+	if err != nil {
+		return !os.IsNotExist(err) //it may well exist, reading it will tell
 	}
 	return !info.IsDir()
 }
-- 
2.43.0


From 0af7895a946c384619c7fa7821ee80a5ea5c99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:40 +0000
Subject: [PATCH 28/44] fix: the command stops if an input file or directory
 cannot be read or is of no known type

---
 cmd/sadl/import.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cmd/sadl/import.go b/cmd/sadl/import.go
index 84cf65d..73cf605 100644
--- a/cmd/sadl/import.go
+++ b/cmd/sadl/import.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -50,6 +51,11 @@ func expandPaths(paths []string) ([]string, error) {
 					}
 					return nil
 				})
+				if err != nil {
+					return nil, err
+				}
+			} else {
+				return nil, fmt.Errorf("Unsupported file type: %s", path)
 			}
 		}
 	}
@@ -107,6 +113,15 @@ func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension)
 				}
 			}
 			importPaths = append(importPaths, path)
+		} else {
+			if _, err := ioutil.ReadFile(path); err != nil {
+				return nil, err
+			}
+			for _, given := range paths {
+				if path == given {
+					return nil, fmt.Errorf("Cannot determine file type for input file %s", path)
+				}
+			}
 		}
 	}
 	if chosenType == "" {
-- 
2.43.0


From 9a3e2094961870c6681304c26c0efb0e9497c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:40 +0000
Subject: [PATCH 29/44] fix: the API browser answers concurrent requests with
 complete documents

---
 cmd/sadl/serve.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/sadl/serve.go b/cmd/sadl/serve.go
index 50a44a0..f6b491a 100644
--- a/cmd/sadl/serve.go
+++ b/cmd/sadl/serve.go
@@ -25,7 +25,7 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 		return err
 	}
 	docPretty := sadl.Pretty(doc)
-	docContent := bytes.NewReader([]byte(docPretty))
+	docContent := []byte(docPretty)
 	modTime := time.Now()
 	apiName := model.Name + ".json"
 	fmt.Println("show swagger-ui for:", apiName, "at http://localhost:8080/")
@@ -62,20 +62,25 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 		if path == "/" {
 			path = "/index.html"
 		} else if strings.HasSuffix(path, ".json") {
-			http.ServeContent(w, r, path, modTime, docContent)
+			http.ServeContent(w, r, path, modTime, bytes.NewReader(docContent))
 			return
 		}
 		if f, ok := files[path]; ok {
 			rc, err := f.Open()
 			if err != nil {
 				w.WriteHeader(http.StatusInternalServerError)
+				return
 			}
 			data, err := ioutil.ReadAll(rc)
+			rc.Close()
+			if err != nil {
+				w.WriteHeader(http.StatusInternalServerError)
+				return
+			}
 			if path == "/index.html" {
 				fmt.Println("index file detected, rewrite the default URL to", apiName)
 				data = []byte(strings.Replace(string(data), "https://petstore.swagger.io/v2/swagger.json", apiName, -1))
 			}
-			rc.Close()
 			http.ServeContent(w, r, path, f.Modified, bytes.NewReader(data))
 		} else {
 			w.WriteHeader(http.StatusNotFound)
-- 
2.43.0


From 2c530a0ab773dbc3f69f6a6b03ecffbeac3978df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:40 +0000
Subject: [PATCH 30/44] fix: the API browser bundle is cached only when it was
 downloaded completely

---
 cmd/sadl/serve.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/cmd/sadl/serve.go b/cmd/sadl/serve.go
index f6b491a..358884c 100644
--- a/cmd/sadl/serve.go
+++ b/cmd/sadl/serve.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"strings"
 	"time"
 
@@ -108,12 +109,37 @@ func cacheSwaggerDist() (string, error) {
 		return "", err
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return "", fmt.Errorf("Cannot download %s: %s", swaggerUrl(version), resp.Status)
+	}
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return "", err
 	}
-	err = ioutil.WriteFile(path, body, 0644)
-	return path, err
+	return path, storeFile(path, body)
+}
+
+// storeFile makes the complete file appear at the path, or nothing.
+func storeFile(path string, content []byte) error {
+	f, err := ioutil.TempFile(filepath.Dir(path), ".sadl-*.tmp")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	_, err = f.Write(content)
+	if err == nil {
+		err = f.Chmod(0644)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), path)
 }
 
 func swaggerUrl(version string) string {
-- 
2.43.0


From 3e8be0b6bf43fbc77e193ad9ba940bfeaee11a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:18 +0000
Subject: [PATCH 31/44] fix: OpenAPI export of collections that contain
 themselves ends

The schema of an array or map whose items lead back to it was inlined
without end and overflowed the stack.
---
 openapi/export_openapi.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 380c036..5c02ff3 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -564,7 +564,24 @@ func oasNumericEquivalent(sadlTypeName string) (string, string, string) {
 	}
 }
 
+// endless reports that inlining the type would never end: its items are collections that lead back to each other.
+func (gen *Generator) endless(name string) bool {
+	seen := make(map[string]bool, 0)
+	for td := gen.Model.FindType(name); td != nil && (td.Type == "Array" || td.Type == "Map"); td = gen.Model.FindType(td.Items) {
+		if seen[td.Name] {
+			return true
+		}
+		seen[td.Name] = true
+	}
+	return false
+}
+
 func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error) {
+	if name != "" && gen.endless(name) {
+		return &Schema{
+			Ref: "#/components/schemas/" + name,
+		}, nil
+	}
 	//	if name != "" {
 	//		return &Schema{
 	//			Ref: "#/components/schemas/" + name,
-- 
2.43.0


From 1a1b67873c7f4018d8f781a8f017553054cc75ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:28 +0000
Subject: [PATCH 32/44] fix: generated Go code for named number types compiles

---
 golang/golang_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index eee3b4a..7a151b5 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -126,7 +126,7 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		name := td.Name
 		gen.Emit("type " + name + " " + sadl.Uncapitalize(td.Type) + "\n")
 		gen.addImport("strconv")
-		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn n\n}\n")
+		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn " + name + "(n)\n}\n")
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
-- 
2.43.0


From b0a94058faa3aa07da67d1df67eaa82357a35f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:28 +0000
Subject: [PATCH 33/44] fix: generated Go handlers compile for actions with
 query and body, or without outputs

---
 golang/golang_server.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 2ced27d..8eece95 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -76,7 +76,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			}
 			s := ""
 			if form {
-				s = "\terr := r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+				s = "\terr = r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 			}
 			for _, in := range hd.Inputs {
 				name := sadl.Capitalize(in.Name)
@@ -87,7 +87,7 @@ func (gen *Generator) EmitServerAdaptor() {
 				} else if in.Path {
 					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
 				} else {
-					s = s + "\terr := decodeEntity(r.Body, &req." + name + ")\n"
+					s = s + "\terr = decodeEntity(r.Body, &req." + name + ")\n"
 					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 				}
 			}
@@ -112,12 +112,10 @@ func (gen *Generator) EmitServerAdaptor() {
 			return s
 		},
 		"expectedResult": func(hd *sadl.HttpDef) string {
-			switch hd.Expected.Status {
-			case 204, 304:
-				return "_"
-			default:
-				return "res"
+			if hd.Expected.Status == 204 || hd.Expected.Status == 304 || len(hd.Expected.Outputs) == 0 {
+				return "_, err ="
 			}
+			return "res, err :="
 		},
 		"expectedEntity": func(hd *sadl.HttpDef) string {
 			for _, out := range hd.Expected.Outputs {
@@ -230,9 +228,10 @@ type {{adaptorName}} struct {
 
 {{range .Model.Http}}
 func (handler *{{adaptorName}}) {{methodName .}}Handler(w http.ResponseWriter, r *http.Request) {
+	var err error
 	req := new({{reqTypeName .}})
 {{inputs .}}
-	{{expectedResult .}}, err := handler.impl.{{methodName .}}(req)
+	{{expectedResult .}} handler.impl.{{methodName .}}(req)
 	if err != nil {
 		switch err.(type) {
 {{exceptions .}}		default:
-- 
2.43.0


From 28968f9a80b788e5feeaf49dffc566b3bc72cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:29 +0000
Subject: [PATCH 34/44] fix: generated Go clients compile and send path, query,
 header and body inputs

---
 golang/golang_client.go | 72 +++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 24ff55a..f0e2e3c 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -26,7 +26,7 @@ func (gen *Generator) EmitClient() {
 	gen.addImport("encoding/json")
 	gen.addImport("fmt")
 	gen.addImport("net/http")
-	//	gen.addImport("net/url")
+	gen.addImport("io")
 	gen.addImport("strings")
 	//	gen.addImport("time")
 	funcMap := template.FuncMap{
@@ -45,24 +45,38 @@ func (gen *Generator) EmitClient() {
 			}
 			return ""
 		},
-		"reqBodyReader": func(hd *sadl.HttpDef) string {
+		"reqBody": func(hd *sadl.HttpDef) string {
 			switch hd.Method {
 			case "PUT", "POST", "PATCH":
 				for _, in := range hd.Inputs {
 					if !in.Path && in.Query == "" && in.Header == "" {
 						gen.addImport("bytes")
-						return "bytes.NewReader([]byte(Json(req." + sadl.Capitalize(in.Name) + ")))"
+						s := "\tentity, err := json.Marshal(req." + sadl.Capitalize(in.Name) + ")\n"
+						s = s + "\tif err != nil {\n\t\treturn nil, err\n\t}\n"
+						return s + "\tbody = bytes.NewReader(entity)\n"
 					}
 				}
 			}
-			return "nil"
+			return ""
+		},
+		"headerParams": func(hd *sadl.HttpDef) string {
+			s := ""
+			for _, in := range hd.Inputs {
+				if in.Header != "" {
+					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
+					s = s + fmt.Sprintf("\t\threq.Header.Set(%q, fmt.Sprint(req.%s))\n", in.Header, sadl.Capitalize(in.Name))
+					s = s + "\t}\n"
+				}
+			}
+			return s
 		},
 		"queryParams": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, in := range hd.Inputs {
 				if in.Query != "" {
 					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
-					s = s + "\t\targs = append(args, fmt.Sprintf(\"" + in.Name + "=" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + "))\n"
+					gen.addImport("net/url")
+					s = s + fmt.Sprintf("\t\targs = append(args, %q+url.QueryEscape(fmt.Sprint(req.%s)))\n", in.Query+"=", sadl.Capitalize(in.Name))
 					s = s + "\t}\n"
 				}
 			}
@@ -78,7 +92,14 @@ func (gen *Generator) EmitClient() {
 			if i >= 0 {
 				path = path[0:i]
 			}
-			return path
+			s := fmt.Sprintf("%q", path)
+			for _, in := range hd.Inputs {
+				if in.Path {
+					gen.addImport("net/url")
+					s = strings.Replace(s, "{"+in.Name+"}", "\" + url.PathEscape(fmt.Sprint(req."+sadl.Capitalize(in.Name)+")) + \"", -1)
+				}
+			}
+			return s
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
 			s := fmt.Sprintf("\tcase %d:\n", hd.Expected.Status)
@@ -89,7 +110,7 @@ func (gen *Generator) EmitClient() {
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
 			for _, out := range hd.Expected.Outputs {
-				natType := gen.nativeType(out.Type)
+				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
 					s = s + "\t\tvar entity " + natType + "\n"
@@ -100,12 +121,14 @@ func (gen *Generator) EmitClient() {
 					s = s + "\t\tresponse." + name + " = entity\n"
 				} else {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
-					switch natType {
-					case "*Timestamp":
-						i = "TimestampFromString(" + i + ")"
+					switch gen.baseType(out.Type) {
+					case "Timestamp":
+						s = s + "\t\tresponse." + name + " = TimestampFromString(" + i + ")\n"
+					case "String", "UUID":
+						s = s + "\t\tresponse." + name + " = " + natType + "(" + i + ")\n"
 					default:
+						s = s + "\t\tfmt.Sscan(" + i + ", &response." + name + ")\n"
 					}
-					s = s + "\t\tresponse." + name + " = " + i + "\n"
 				}
 			}
 			s = s + "\t\treturn response, nil\n"
@@ -145,43 +168,30 @@ func (gen *Generator) notSet(sadlType string) string {
 	}
 }
 
-func (gen *Generator) typeFormat(sadlType string) string {
-	bt := gen.baseType(sadlType)
-	switch bt {
-	case "String":
-		return "%s"
-	case "Int8", "Int16", "Int32", "Int64":
-		return "%d"
-	case "Float32", "Float64", "Decimal":
-		return "&g"
-	default:
-		return "%v"
-	}
-}
-
 var clientTemplate = `
 type {{clientName}} struct {
 	Target string
 }
 
-func NewClient(target string) (*CrudlClient, error) {
-	return &CrudlClient{
+func NewClient(target string) (*{{clientName}}, error) {
+	return &{{clientName}}{
 		Target: target,
 	}, nil
 }
 {{range .Model.Http}}
 func (client *{{clientName}}) {{methodSignature .}} {
-	url := client.Target + "{{methodPath .}}"
+	target := client.Target + {{methodPath .}}
 	var args []string
 {{queryParams .}}	if len(args) > 0 {
-		url = url + "?" + strings.Join(args, "&")
+		target = target + "?" + strings.Join(args, "&")
 	}
-	hreq, err := http.NewRequest("{{.Method}}", url, {{reqBodyReader .}})
+	var body io.Reader
+{{reqBody .}}	hreq, err := http.NewRequest("{{.Method}}", target, body)
 	if err != nil {
 		return nil, err
 	}
 {{requestEntityContentType .}}
-	res, err := http.DefaultClient.Do(hreq)
+{{headerParams .}}	res, err := http.DefaultClient.Do(hreq)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 35b8433c9646a232ed13c30ad1f1119da4b2153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:47 +0000
Subject: [PATCH 35/44] fix: loading a model with a null type definition or
 HTTP action is an error instead of a crash

---
 model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model.go b/model.go
index 921fb8d..8a74c0a 100644
--- a/model.go
+++ b/model.go
@@ -27,12 +27,18 @@ func NewModel(schema *Schema) (*Model, error) {
 		model.typeIndex[name] = &TypeDef{Name: name, TypeSpec: TypeSpec{Type: name}}
 	}
 	for _, td := range schema.Types {
+		if td == nil {
+			return nil, fmt.Errorf("Type definition is null")
+		}
 		if _, ok := model.typeIndex[td.Name]; ok {
 			return nil, fmt.Errorf("Duplicate type: %s", td.Name)
 		}
 		model.typeIndex[td.Name] = td
 	}
 	for _, hd := range schema.Http {
+		if hd == nil {
+			return nil, fmt.Errorf("Http action is null")
+		}
 		if _, ok := model.httpIndex[hd.Name]; ok {
 			return nil, fmt.Errorf("Duplicate http action: %q", hd.Name)
 		}
-- 
2.43.0


From baa44a61300a1babc181aea5acd857b23a04eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:44 +0000
Subject: [PATCH 36/44] fix: keep the whole value of a generator option that
 contains an equals sign

---
 cmd/sadl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index dd7e6d7..9dfd41e 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -159,7 +159,7 @@ Supported generators and options used from config if present
 		k := kv
 		var v interface{}
 		v = true
-		kvs := strings.Split(kv, "=")
+		kvs := strings.SplitN(kv, "=", 2)
 		if len(kvs) > 1 {
 			k = kvs[0]
 			v = kvs[1]
-- 
2.43.0


From 4c60df2ef894f263e4b48a409cf4624a09a3ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 37/44] fix: A SADL file that includes itself, directly or
 through others, is an error and not an endless recursion

---
 parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index a7458a9..7fcbeb3 100644
--- a/parser.go
+++ b/parser.go
@@ -68,6 +68,7 @@ type Parser struct {
 	ungottenToken  *scanner.Token
 	currentComment string
 	extensions     map[string]Extension
+	includes       []string // the files being parsed, each included by the one before it
 }
 
 type Extension interface {
@@ -77,7 +78,12 @@ type Extension interface {
 	Validate(p *Parser) error
 }
 
-func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Parser, error) {
+func parseFileNoValidate(path string, conf *Data, extensions []Extension, includedFrom ...string) (*Parser, error) {
+	for _, from := range includedFrom {
+		if from == path {
+			return nil, fmt.Errorf("File includes itself: %s", path)
+		}
+	}
 	b, err := ioutil.ReadFile(path)
 	if err != nil {
 		return nil, err
@@ -89,6 +95,7 @@ func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Pars
 		source:  src,
 		conf:    conf,
 	}
+	p.includes = append(append(p.includes, includedFrom...), path)
 	err = p.ParseNoValidate(extensions)
 	if err != nil {
 		return nil, err
@@ -328,7 +335,7 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 	fname, err := p.ExpectString()
 	if err == nil {
 		var incparser *Parser
-		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList())
+		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList(), p.includes...)
 		if err == nil {
 			inc := incparser.model
 			tmpModel, err := NewModel(p.schema)
-- 
2.43.0


From d72efc285f50ec48d948ac6fbef807808aea0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:03 +0000
Subject: [PATCH 38/44] fix: Generated Go clients with optional UUID inputs
 compile

---
 golang/golang_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index f0e2e3c..0ef16f0 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -155,7 +155,7 @@ func (gen *Generator) EmitClient() {
 func (gen *Generator) notSet(sadlType string) string {
 	bt := gen.baseType(sadlType)
 	switch bt {
-	case "String":
+	case "String", "UUID":
 		return `""`
 	case "Int8", "Int16", "Int32", "Int64":
 		return "0"
-- 
2.43.0


From 9eb19c82c4db4d4e042633f3a3362658a61e5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 39/44] fix: the Go server has the default of a timestamp input

---
 golang/golang_server.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 8eece95..dcd4073 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -199,13 +199,10 @@ func stringDefault(any interface{}) string {
 }
 
 func timestampDefault(any interface{}) string {
-	switch v := any.(type) {
-	case *sadl.Timestamp:
-		return fmt.Sprintf("%q", v.String())
-	case string:
-		ts, err := sadl.ParseTimestamp(v)
+	if any != nil {
+		ts, err := sadl.ParseTimestamp(stringDefault(any))
 		if err == nil {
-			return fmt.Sprintf("%q", ts.String())
+			return fmt.Sprintf("TimestampFromString(%q)", ts.String())
 		}
 	}
 	return "nil"
-- 
2.43.0


From cfb1e905c16b911bbdb22c42b8329459b9cd602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 40/44] fix: generated Go code keeps the value of a named
 Decimal type

---
 golang/export_golang.go | 2 +-
 golang/golang_model.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index f5a9f01..c2e3a9e 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -209,7 +209,7 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		if td == nil {
 			panic("Unresolved type, parser should have caught this: " + name)
 		}
-		if td.Type == "Struct" {
+		if td.Type == "Struct" || td.Type == "Decimal" {
 			name = "*" + name
 		}
 		return name
diff --git a/golang/golang_model.go b/golang/golang_model.go
index 7a151b5..3b2d042 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -116,7 +116,7 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 	case "UUID":
 		gen.Emit("type " + td.Name + " string //UUID\n")
 	case "Decimal":
-		gen.Emit("type " + td.Name + " Decimal\n")
+		gen.Emit("type " + td.Name + " = Decimal\n")
 		gen.createDecimal = true
 	case "Array":
 		gen.EmitArrayType(td)
-- 
2.43.0


From 726895d74d20291d004c21ea54f15522b684b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 41/44] fix: generated Go servers of actions that answer 204 or
 304 with headers compile

---
 golang/golang_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index dcd4073..500169e 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -112,7 +112,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			return s
 		},
 		"expectedResult": func(hd *sadl.HttpDef) string {
-			if hd.Expected.Status == 204 || hd.Expected.Status == 304 || len(hd.Expected.Outputs) == 0 {
+			if len(hd.Expected.Outputs) == 0 {
 				return "_, err ="
 			}
 			return "res, err :="
-- 
2.43.0


From fc97f365ff43a4f3d0d8f058c55d575d80d6788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 42/44] fix: generated Go code compiles for models that use
 UUID without a name of its own

---
 golang/export_golang.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index c2e3a9e..e1f4f6c 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -171,6 +171,8 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	switch name {
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "String":
 		return uncapitalize(name)
+	case "UUID":
+		return "string"
 	case "Decimal":
 		if gen.runtime {
 			gen.addImport("github.com/boynton/sadl")
-- 
2.43.0


From ead15aeba177c8a57d47781a3a61d571b7dfabd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 43/44] fix: generated Go servers of services without
 timestamps compile

---
 golang/golang_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 3b2d042..4c9dcf5 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -14,7 +14,7 @@ func (gen *Generator) CreateModel() {
 	gen.Begin()
 	gen.EmitInterface()
 	gen.EmitTypeDefs()
-	if gen.createTimestamp {
+	if gen.createTimestamp || gen.createServer { //the server refers to the type in any case
 		gen.EmitTimestamp()
 	}
 	if gen.createDecimal {
-- 
2.43.0


From 901890d86b80100d5476e2a7912bd11df1655998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 44/44] fix: generated Go clients of services that exchange no
 JSON compile

---
 golang/golang_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 0ef16f0..3811b5d 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -23,7 +23,6 @@ func (gen *Generator) CreateClient() {
 
 func (gen *Generator) EmitClient() {
 	gen.imports = nil
-	gen.addImport("encoding/json")
 	gen.addImport("fmt")
 	gen.addImport("net/http")
 	gen.addImport("io")
@@ -51,6 +50,7 @@ func (gen *Generator) EmitClient() {
 				for _, in := range hd.Inputs {
 					if !in.Path && in.Query == "" && in.Header == "" {
 						gen.addImport("bytes")
+						gen.addImport("encoding/json")
 						s := "\tentity, err := json.Marshal(req." + sadl.Capitalize(in.Name) + ")\n"
 						s = s + "\tif err != nil {\n\t\treturn nil, err\n\t}\n"
 						return s + "\tbody = bytes.NewReader(entity)\n"
@@ -113,6 +113,7 @@ func (gen *Generator) EmitClient() {
 				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
+					gen.addImport("encoding/json")
 					s = s + "\t\tvar entity " + natType + "\n"
 					s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&entity)\n"
 					s = s + "\t\tif err != nil {\n"
@@ -137,6 +138,7 @@ func (gen *Generator) EmitClient() {
 		"exceptionResults": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, es := range hd.Exceptions {
+				gen.addImport("encoding/json")
 				natType := gen.nativeType(es.Type)
 				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
 				s = s + "\t\tvar errEntity " + natType + "\n"
-- 
2.43.0

