package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"simrt"
)

// Result is what a caller sees of one operation.
type Result struct {
	Done  bool // returned to its caller
	Err   string
	Panic string
	Where string
	Hurt  string // how the argument was changed
	Val   string
	Out   string
	Files simrt.Tree
	// state of what was passed in, after the operation
	Model string
	Conf  string
}

// Env is what an operation is given.
type Env struct {
	M    *sadl.Model
	Conf *sadl.Data
}

// Op is one operation a user performs with the library.
type Op struct {
	Name  string
	Kind  string            // export, generate, import, load, validate, save
	Files map[string]string // input files
	Main  string            // the input file read first
	Dir   string            // output directory or file
	Model string            // JSON of the model, for operations on a model
	Conf  J
	Arg   any
	Type  string
	Do    func(o *Op, e *Env, r *Result) error
}

func (o *Op) env() (*Env, error) {
	e := &Env{}
	if o.Model != "" {
		m, err := buildModel(o.Model)
		if err != nil {
			return nil, err
		}
		e.M = m
	}
	e.Conf = o.conf()
	return e, nil
}

func (o *Op) conf() *sadl.Data {
	if o.Conf == nil {
		return sadl.NewData()
	}
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(text(o.Conf)), &m); err != nil {
		panic(err)
	}
	return sadl.AsData(m)
}

func (o *Op) prepare(k *simrt.Kernel) {
	for _, p := range simrt.SortedKeys(o.Files) {
		k.Put(p, o.Files[p])
	}
	if o.Kind == "generate" {
		k.MkdirAll(o.Dir)
	}
}

func modelText(m *sadl.Model) string {
	b, err := json.Marshal(m)
	if err != nil {
		return "cannot marshal: " + err.Error()
	}
	return string(b)
}

// task is the operation as a task of a simulated process.
func (o *Op) task(k *simrt.Kernel, e *Env, r *Result) func() {
	return func() {
		root := simrt.TaskID()
		defer func() {
			if x := recover(); x != nil {
				r.Panic = fmt.Sprint(x)
				r.Where = simrt.TopFrames(string(debug.Stack()), 2)
				r.Done = true
				if simrt.W != nil {
					r.finish(o, k, e, root)
				}
			}
		}()
		if e == nil {
			var err error
			e, err = o.env()
			if err != nil {
				r.Err = "harness model: " + err.Error()
				r.Done = true
				return
			}
		}
		err := o.Do(o, e, r)
		if err != nil {
			r.Err = err.Error()
			if r.Err == "" {
				r.Err = "(error without text)"
			}
		}
		r.Done = true
		r.finish(o, k, e, root)
	}
}

func (r *Result) finish(o *Op, k *simrt.Kernel, e *Env, root int) {
	if o.Dir != "" {
		r.Files = k.Snapshot(o.Dir).Files()
	}
	r.Out = string(k.OutBy[root])
	if e != nil {
		if e.M != nil {
			r.Model = modelText(e.M)
		}
		if e.Conf != nil {
			r.Conf = e.Conf.String()
		}
	}
}

// outcome classifies a result for statistics.
func (r *Result) outcome() string {
	switch {
	case !r.Done:
		return "not finished"
	case r.Panic != "":
		return "panic " + firstLine(r.Panic) + " in " + r.Where
	case r.Err != "":
		e := firstLine(r.Err)
		if len(e) > 60 {
			e = e[:60]
		}
		return "error " + e
	}
	return "ok"
}

// diff says how two results differ, or "".
func (r *Result) diff(o *Result) string {
	switch {
	case r.Done != o.Done:
		return fmt.Sprintf("one finished, the other did not (%v, %v)", r.Done, o.Done)
	case r.Panic != o.Panic:
		return fmt.Sprintf("panic %s against %s", quote(r.Panic), quote(o.Panic))
	case r.Err != o.Err:
		return "error " + textDiff(r.Err, o.Err)
	case r.Val != o.Val:
		return "result " + textDiff(r.Val, o.Val)
	case r.Out != o.Out:
		return "output " + textDiff(r.Out, o.Out)
	}
	return treeDiff(r.Files, o.Files)
}

func quote(s string) string {
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return fmt.Sprintf("%q", s)
}

func textDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 30
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		if from > len(s) {
			return ""
		}
		s = s[from:]
		if len(s) > 90 {
			s = s[:90]
		}
		return s
	}
	return fmt.Sprintf("differs at byte %d: %q against %q", i, cut(a), cut(b))
}

func treeDiff(a, b simrt.Tree) string {
	for _, p := range simrt.SortedKeys(a) {
		if c, ok := b[p]; !ok {
			return "file " + p + " is only there once"
		} else if c != a[p] {
			return "file " + p + " " + textDiff(a[p], c)
		}
	}
	for _, p := range simrt.SortedKeys(b) {
		if _, ok := a[p]; !ok {
			return "file " + p + " is only there once"
		}
	}
	return ""
}

func subset(s *simrt.Stream, j J, odds int, keys ...string) {
	for _, k := range keys {
		if s.Odds(1, odds) {
			j[k] = s.N(3) != 1
		}
	}
}

// ---- the operations ----

func modelFor(s *simrt.Stream, target string) string { return text(newGen(s, target).model()) }

// wildly makes the model of an export now and then one that the exporter may refuse.
func wildly(s *simrt.Stream, o *Op) *Op {
	if s.Odds(1, 5) {
		g := newGen(s, simrt.Pick(s, "any", "java", "go", "openapi"))
		g.wild = true
		o.Model = text(g.model())
	}
	return o
}

func opGo(s *simrt.Stream, dir string) *Op {
	conf := J{}
	subset(s, conf, 2, "server", "client")
	if s.Odds(1, 6) {
		conf["model"] = false
	}
	subset(s, conf, 3, "runtime")
	if s.Odds(1, 4) {
		conf["name"] = "Other"
	}
	if s.Odds(1, 4) {
		conf["package"] = "pkg"
	}
	return &Op{Name: "go", Kind: "generate", Dir: dir, Conf: conf, Model: modelFor(s, "go"), Do: func(o *Op, e *Env, r *Result) error {
		return golang.Export(e.M, o.Dir, e.Conf)
	}}
}

func opJava(s *simrt.Stream, dir string) *Op {
	conf := J{}
	subset(s, conf, 2, "server", "client")
	if s.Odds(1, 6) {
		conf["model"] = false
	}
	subset(s, conf, 4, "lombok", "getters", "immutable", "instants", "maven", "json", "service-exception", "example-implementation")
	if s.Odds(1, 4) {
		conf["package"] = "com.acme.api"
	}
	if s.Odds(1, 4) {
		conf["name"] = "Other"
	}
	if s.Odds(1, 5) {
		conf["domain"] = "acme.com"
	}
	if s.Odds(1, 6) {
		conf["source"] = "java"
	}
	return &Op{Name: "java", Kind: "generate", Dir: dir, Conf: conf, Model: modelFor(s, "java"), Do: func(o *Op, e *Env, r *Result) error {
		return java.Export(e.M, o.Dir, e.Conf)
	}}
}

func doOpenAPI(o *Op, e *Env, r *Result) error { return openapi.Export(e.M, e.Conf) }
func doGraphQL(o *Op, e *Env, r *Result) error { return graphql.Export(e.M, e.Conf) }
func doTrace(o *Op, e *Env, r *Result) error   { return httptrace.Export(e.M, e.Conf) }
func doSadl(o *Op, e *Env, r *Result) error    { r.Val = sadl.DecompileSadl(e.M); return nil }

func gqlConf(s *simrt.Stream) J {
	conf := J{}
	if s.Odds(2, 3) {
		cs := J{}
		for _, t := range []string{"UUID", "Timestamp", "Int64", "Decimal"} {
			if s.Odds(1, 2) {
				cs[t] = "My" + t
			}
		}
		conf["custom-scalars"] = cs
	}
	return conf
}

func opOpenAPI(s *simrt.Stream) *Op {
	g := newGen(s, "openapi")
	g.cycles = true
	return &Op{Name: "openapi", Kind: "export", Conf: J{}, Model: text(g.model()), Do: doOpenAPI}
}
func opGraphQL(s *simrt.Stream) *Op {
	return &Op{Name: "graphql", Kind: "export", Conf: gqlConf(s), Model: modelFor(s, "graphql"), Do: doGraphQL}
}
func opTrace(s *simrt.Stream) *Op {
	return &Op{Name: "httptrace", Kind: "export", Conf: J{}, Model: modelFor(s, "httptrace"), Do: doTrace}
}
func opSadl(s *simrt.Stream) *Op {
	return &Op{Name: "sadl", Kind: "export", Conf: J{}, Model: modelFor(s, simrt.Pick(s, "sadl", "httptrace", "java")), Do: doSadl}
}

func opExport(s *simrt.Stream, dir string) *Op {
	switch s.N(7) {
	case 0, 1:
		return opJava(s, dir)
	case 2:
		return opGo(s, dir)
	case 3:
		return opOpenAPI(s)
	case 4:
		return opGraphQL(s)
	case 5:
		return opTrace(s)
	}
	return opSadl(s)
}

func opGenerate(s *simrt.Stream, dir string) *Op {
	if s.N(2) == 1 {
		return opJava(s, dir)
	}
	return opGo(s, dir)
}

func finishModel(m *sadl.Model, err error, r *Result) error {
	if err == nil && m == nil {
		return fmt.Errorf("neither a model nor an error")
	}
	if err == nil {
		r.Val = modelText(m)
	}
	return err
}

func opImportOpenAPI(s *simrt.Stream, dir string) *Op {
	d := &doc{s: s, wild: s.Odds(1, 6)}
	o := &Op{Name: "import-openapi", Kind: "import", Conf: J{}}
	if s.Odds(1, 12) {
		if s.N(2) == 0 {
			o.Main = dir + "/petstore.yaml"
			o.Files = map[string]string{o.Main: corpusFile("petstore.yaml")}
		} else {
			o.Main = dir + "/petstore.json"
			o.Files = map[string]string{o.Main: corpusFile("petstore.json")}
		}
	} else if s.Odds(1, 4) {
		o.Main = dir + "/api.yaml"
		o.Files = map[string]string{o.Main: strings.TrimPrefix(yamlText(d.make(), ""), "\n")}
	} else {
		o.Main = dir + "/api.json"
		b, _ := json.MarshalIndent(d.make(), "", "  ")
		o.Files = map[string]string{o.Main: string(b)}
	}
	o.Do = func(o *Op, e *Env, r *Result) error {
		m, err := openapi.Import([]string{o.Main}, e.Conf)
		return finishModel(m, err, r)
	}
	return o
}

func opImportSwagger(s *simrt.Stream, dir string) *Op {
	d := &doc{s: s, v2: true, wild: s.Odds(1, 6)}
	o := &Op{Name: "import-swagger", Kind: "import", Conf: J{}}
	o.Main = dir + "/swag.json"
	t := text(d.make())
	if s.Odds(1, 5) {
		o.Main = dir + "/swag.yaml"
	}
	o.Files = map[string]string{o.Main: t}
	o.Do = func(o *Op, e *Env, r *Result) error {
		m, err := openapi.ImportSwagger([]string{o.Main}, e.Conf)
		return finishModel(m, err, r)
	}
	return o
}

// loadOnly turns an import into its first step, or the question whether it would succeed.
func loadOnly(s *simrt.Stream, o *Op, load func(string) (*openapi.Model, error), valid func(string) bool) {
	if s.Odds(1, 2) {
		o.Name = strings.Replace(o.Name, "import", "load", 1)
		o.Do = func(o *Op, e *Env, r *Result) error {
			m, err := load(o.Main)
			if err == nil {
				r.Val = text(m)
			}
			return err
		}
		return
	}
	o.Name = strings.Replace(o.Name, "import", "is-valid", 1)
	o.Do = func(o *Op, e *Env, r *Result) error {
		if !valid(o.Main) {
			return errors.New("not valid")
		}
		return nil
	}
}

func opImportGraphQL(s *simrt.Stream, dir string) *Op {
	o := &Op{Name: "import-graphql", Kind: "import", Conf: J{}}
	if s.Odds(1, 3) {
		o.Conf["name"] = "given"
		o.Conf["namespace"] = "a.b"
	}
	o.Main = dir + "/schema.graphql"
	o.Files = map[string]string{o.Main: graphqlDoc(s)}
	o.Do = func(o *Op, e *Env, r *Result) error {
		m, err := graphql.Import([]string{o.Main}, e.Conf)
		return finishModel(m, err, r)
	}
	return o
}

var sadlCorpus = []string{"basictypes", "crudl", "hello", "httpexample", "multi", "petstore", "resource", "simple", "type_validator", "union_test"}

func opParseSadl(s *simrt.Stream, dir string) *Op {
	o := &Op{Name: "parse-sadl", Kind: "import", Conf: J{}}
	o.Files = map[string]string{}
	if s.Odds(1, 2) {
		n := sadlCorpus[s.N(len(sadlCorpus))]
		o.Main = dir + "/" + n + ".sadl"
		o.Files[o.Main] = corpusFile(n + ".sadl")
	} else {
		o.Main = dir + "/gen.sadl"
		o.Files[o.Main] = sadlDoc(s)
		if s.Odds(1, 4) {
			// a file is included by its path from the working directory
			inc := dir + "/common.sadl"
			o.Files[inc] = "name common\n\n// shared by all\ntype Shared Struct (x_a=\"1\", x_b=\"2\") {\n  s String (required, x_c=\"3\", x_d)\n  v Array<SharedKind>\n}\n\ntype SharedKind Enum {\n  ONE (x_one)\n  TWO\n}\n"
			if s.Odds(1, 2) {
				o.Files[inc] += "\nhttp GET \"/shared/{id}?n={n}\" (action=getShared, x_h=\"4\") {\n  id String\n  n Int32 (default=3)\n\n  expect 200 {\n    shared Shared\n    etag String (header=\"ETag\")\n  }\n\n  except 404 Shared\n}\n"
			}
			if s.Odds(1, 2) {
				deep := dir + "/deep.sadl"
				o.Files[deep] = "name deep\n\ntype Deep Map<String,Int32>\n\ntype Deeper Union<Deep,Below>\n\ntype Below Struct {\n  d Deep\n}\n"
				o.Files[inc] += "\ninclude \"" + deep + "\"\n"
			}
			name := inc
			switch s.N(6) {
			case 1:
				name = inc[1:]
			case 2:
				name = "common.sadl" // not there
			}
			o.Files[o.Main] += "\n// with what is shared\ninclude \"" + name + "\"\n\ntype UsesShared Struct {\n  sh Shared\n}\n"
		}
	}
	o.Do = func(o *Op, e *Env, r *Result) error {
		m, err := sadl.ParseSadlFile(o.Main, e.Conf)
		return finishModel(m, err, r)
	}
	return o
}

func opLoadModel(s *simrt.Stream, dir string) *Op {
	o := &Op{Name: "load-json", Kind: "load", Conf: J{}}
	o.Main = dir + "/model.json"
	o.Files = map[string]string{o.Main: modelFor(s, "any")}
	o.Do = func(o *Op, e *Env, r *Result) error {
		m, err := sadl.LoadModel(o.Main)
		return finishModel(m, err, r)
	}
	return o
}

func opLoadData(s *simrt.Stream, dir string) *Op {
	o := &Op{Name: "load-data", Kind: "load", Conf: J{}}
	g := newGen(s, "any")
	g.model()
	v := g.value(J{"type": g.types[0]["name"]}, 0, false)
	if m, ok := v.(J); !ok || len(m) == 0 {
		v = J{"a": "b", "list": []any{1, 2, 3}, "n": J{"x": true}}
	}
	o.Main = dir + "/data.json"
	o.Files = map[string]string{o.Main: text(v)}
	if s.Odds(1, 2) {
		o.Main = dir + "/data.yaml"
		o.Files = map[string]string{o.Main: strings.TrimPrefix(yamlText(v, ""), "\n")}
	}
	o.Do = func(o *Op, e *Env, r *Result) error {
		d, err := sadl.DataFromFile(o.Main)
		if err == nil {
			r.Val = d.String()
		}
		return err
	}
	return o
}

func opSaveData(s *simrt.Stream, dir string) *Op {
	g := newGen(s, "any")
	m := g.model()
	o := &Op{Name: "save-data", Kind: "save", Conf: J{}, Dir: dir + "/saved.json", Arg: text(m)}
	o.Do = func(o *Op, e *Env, r *Result) error {
		var v any
		if err := json.Unmarshal([]byte(o.Arg.(string)), &v); err != nil {
			return err
		}
		return sadl.DataToFile(sadl.AsData(v), o.Dir)
	}
	return o
}

func opValidate(s *simrt.Stream, dir string) *Op {
	g := newGen(s, "any")
	m := g.model()
	t := g.types[s.N(len(g.types))]["name"].(string)
	return &Op{Name: "validate", Kind: "validate", Conf: J{}, Model: text(m), Type: t, Arg: text(g.value(J{"type": t}, 0, s.Odds(2, 3))), Do: doValidate}
}

func doValidate(o *Op, e *Env, r *Result) error {
	var v any
	d := json.NewDecoder(strings.NewReader(o.Arg.(string)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return err
	}
	v = parsed(v)
	v0 := sadl.Pretty(v)
	err := e.M.Validate("value", o.Type, v)
	if v1 := sadl.Pretty(v); v1 != v0 {
		r.Hurt = textDiff(v0, v1)
	}
	return err
}

// twin is nearly the same operation: one value in its model, document, argument
// or configuration is another one.
func twin(s *simrt.Stream, o *Op) *Op {
	t := *o
	alter := func(js string) string {
		var v any
		d := json.NewDecoder(strings.NewReader(js))
		d.UseNumber()
		if d.Decode(&v) != nil {
			return js
		}
		for i := 1 + s.N(3); i > 0; i-- {
			n := leaves(v)
			if n == 0 {
				return js
			}
			at := s.N(n)
			v = change(s, v, "", &at)
		}
		return text(v)
	}
	switch {
	case o.Kind == "validate" && s.N(3) == 1:
		t.Arg = alter(o.Arg.(string))
	case o.Model != "":
		t.Model = alter(o.Model)
		if o.Kind == "export" && s.N(2) == 1 { // under another name
			if m, err := fromJSON(t.Model); err == nil {
				m := m.(J)
				m["name"] = simrt.Pick(s, "other", "depot", "Ledger")
				if s.N(2) == 1 {
					m["namespace"] = simrt.Pick(s, "com.acme.other", "depot")
				}
				t.Model = text(m)
			}
		}
		if _, err := buildModel(t.Model); err != nil {
			t.Model = o.Model
		}
	case o.Main != "":
		t.Files = map[string]string{}
		for _, p := range simrt.SortedKeys(o.Files) {
			t.Files[p] = o.Files[p]
		}
		c := o.Files[o.Main]
		if strings.HasPrefix(c, "{") {
			t.Files[o.Main] = alter(c)
		} else { // text: another word for one of them
			ws := []string{"Item", "User", "id", "name", "String", "Int", "text"}
			w := ws[s.N(len(ws))]
			t.Files[o.Main] = strings.Replace(c, w, simrt.Pick(s, "Other", "b", "Float"), 1)
		}
	}
	return &t
}

func leaves(v any) int {
	n := 0
	switch x := v.(type) {
	case map[string]any:
		for _, e := range x {
			n += leaves(e)
		}
	case []any:
		for _, e := range x {
			n += leaves(e)
		}
	default:
		n = 1
	}
	return n
}

func change(s *simrt.Stream, v any, key string, at *int) any {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range simrt.SortedKeys(x) {
			x[k] = change(s, x[k], k, at)
		}
		return x
	case []any:
		for i := range x {
			x[i] = change(s, x[i], key, at)
		}
		return x
	}
	*at--
	if *at != -1 {
		return v
	}
	switch x := v.(type) {
	case bool:
		return !x
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return json.Number(fmt.Sprint(i + 1))
		}
		return json.Number("7.5")
	case string:
		switch key {
		case "pattern":
			return simrt.Pick(s, patterns...)
		case "type", "items":
			return simrt.Pick(s, "String", "Int32", "Bool", x)
		case "keys", "name", "method", "path", "target", "$ref", "in", "sadl", "openapi", "swagger", "symbol", "required":
			return x
		}
		return simrt.Pick(s, "changed", x+"2", "abc", "%%%")
	}
	return v
}

func opImport(s *simrt.Stream, dir string) *Op {
	switch s.N(8) {
	case 0, 1, 2:
		return opImportOpenAPI(s, dir)
	case 3, 4:
		return opImportSwagger(s, dir)
	case 5:
		return opImportGraphQL(s, dir)
	case 6:
		return opParseSadl(s, dir)
	}
	return opLoadModel(s, dir)
}

// opAny is any operation of the library.
func opAny(s *simrt.Stream, dir string) *Op {
	switch s.N(6) {
	case 5:
		return opValidate(s, dir)
	case 0, 1:
		return wildly(s, opExport(s, dir+"/out"))
	case 2, 3:
		return opImport(s, dir+"/in")
	}
	switch s.N(3) {
	case 0:
		return opLoadData(s, dir+"/in")
	case 1:
		o := opSaveData(s, dir)
		o.Files = map[string]string{dir + "/.keep": ""}
		return o
	}
	return opValidate(s, dir)
}

func (o *Op) String() string {
	s := o.Name
	if o.Main != "" {
		s += fmt.Sprintf(" %s (%d bytes)", o.Main, len(o.Files[o.Main]))
	}
	if o.Dir != "" {
		s += " into " + o.Dir
	}
	if len(o.Conf) > 0 {
		s += " conf " + text(o.Conf)
	}
	if o.Model != "" {
		s += fmt.Sprintf(" model of %d bytes", len(o.Model))
	}
	return s
}

// alone runs an operation by itself in a fresh process with canonical order
// and without faults.
func (r *Run) alone(o *Op, tweak func(k *simrt.Kernel)) (*Result, *simrt.Kernel, *simrt.World) {
	k := simrt.NewKernel()
	o.prepare(k)
	if tweak != nil {
		tweak(k)
	}
	w := simrt.PlainWorld(k)
	res := &Result{}
	r.Exec(w, o.task(k, nil, res))
	if w.Killed == "crash" && r.prop <= "P07" {
		r.skip() // it crashes always, on one of its own goroutines: nothing to compare with
	}
	r.ended(w, o)
	return res, k, w
}

// ended stops the run if the simulated process crashed or hung where it must not.
func (r *Run) ended(w *simrt.World, o *Op) {
	switch w.Killed {
	case "hang":
		r.Failf("hang", "%s does not end: %s in %s", o.Name, w.Crash, simrt.TopFrames(w.Stack, 4))
	case "deadlock":
		r.Failf("deadlock", "%s: %s", o.Name, w.Crash)
	case "crash":
		r.Failf("crash", "%s: %s in %s", o.Name, firstLine(w.Crash), simrt.TopFrames(w.Stack, 4))
	}
}

func sortedCopy(xs []string) []string {
	c := append([]string(nil), xs...)
	sort.Strings(c)
	return c
}

func fromJSON(s string) (any, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}
