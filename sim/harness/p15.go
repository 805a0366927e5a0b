//go:build simcmd

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"simrt"
)

func init() {
	register(&Prop{ID: "P15", Run: p15, Quick: 140000, Deep: 50000000, QuickS: 90, DeepS: 600,
		Rule: "A run makes an input document of one of the formats, a command line (generator, options, configuration, directories, sometimes something unusable) and compares the command without faults with the library called directly; then repeats it with 1-3 system calls failing, standard output taking only so many bytes or a disk that fills up. Trivial: no fault fired and nothing was unusable.",
		Real: []string{cmdReal}, Stub: []string{cmdStub},
		Assume: []string{"A file in a given directory that cannot be read stays unreadable for the whole run.", "A disk that reports every operation as successful has stored the data."}})
}

// invocation is a command line with what it refers to.
type invocation struct {
	op     *Op // the input
	cmd    *command
	gen    string
	name   string
	ns     string
	conf   J // section of the configuration for the generator
	opts   []string
	force  bool
	files  map[string]string
	modes  map[string]uint32
	dirs   []string
	bad    string // why it has to fail
	inDir  bool
	toOut  bool // the output goes to standard output
	outDir string
}

var cmdGens = []string{"sadl", "json", "sadl-ast", "openapi", "graphql", "http-trace", "go", "go-model", "go-server", "go-client", "java", "java-model", "java-server", "java-client"}

func (r *Run) invocation() *invocation {
	s := r.In
	v := &invocation{cmd: &command{}, files: map[string]string{}, modes: map[string]uint32{}, outDir: "/work/out"}
	v.gen = cmdGens[s.N(len(cmdGens))]
	in := "/work/in"
	target := map[string]string{"openapi": "openapi", "graphql": "graphql", "http-trace": "httptrace", "go": "go", "java": "java", "sadl": "sadl"}[strings.Split(v.gen, "-m")[0]]
	if t, _, ok := strings.Cut(v.gen, "-"); ok && (t == "go" || t == "java") {
		target = t
	}
	if s.N(2) == 0 {
		v.op = opLoadModel(s, in)
		if target != "" {
			v.op.Files[v.op.Main] = modelFor(s, target)
		}
	} else {
		v.op = opImport(s, in)
		if v.op.Name == "import-swagger" && strings.HasSuffix(v.op.Main, ".yaml") {
			// the command takes .yaml for OpenAPI only
			v.op.Files = map[string]string{in + "/swag.json": v.op.Files[v.op.Main]}
			v.op.Main = in + "/swag.json"
		}
	}
	for p, t := range v.op.Files {
		v.files[p] = t
	}
	var args []string
	if s.N(4) == 1 {
		v.name = "Given"
		args = append(args, "-n", v.name)
	}
	if s.N(4) == 1 {
		v.ns = "org.given"
		args = append(args, "-ns", v.ns)
	}
	if v.gen != "sadl" || s.N(2) == 1 {
		args = append(args, "-g", v.gen)
	}
	args = append(args, "-o", v.outDir)
	v.toOut = true
	if strings.HasPrefix(v.gen, "go") || strings.HasPrefix(v.gen, "java") {
		v.toOut = false
		if s.N(3) == 1 {
			v.force = true
			args = append(args, "-f")
		}
		for _, o := range []string{"server", "client", "runtime", "header=made by hand", "lombok", "getters", "instants", "maven", "domain=acme.com"} {
			if s.N(8) == 1 {
				if o == "header=made by hand" {
					o = simrt.Pick(s, o, "header=Made by HAND", "header=// #1: A & B; \"c\"", "header= ", "header=a=1, b == 2", "header=1.50")
				}
				v.opts = append(v.opts, o)
			}
		}
	}
	for _, o := range v.opts {
		args = append(args, "-x", o)
	}
	// configuration
	confPath := ""
	switch s.N(4) {
	case 1:
		confPath = home + "/.sadl-config.yaml"
	case 2:
		confPath = "/work/etc/conf.yaml"
		args = append(args, "-c", confPath)
	case 3:
		confPath = "/work/etc/conf.json"
		args = append(args, "-c", confPath)
	}
	if confPath != "" {
		v.conf = J{}
		if v.gen == "graphql" {
			v.conf = gqlConf(s)
		}
		if s.N(2) == 1 {
			v.conf["header"] = "from the configuration"
		}
		if s.N(3) == 1 {
			v.conf["package"] = "conf.pkg"
		}
		section := v.gen
		if v.gen == "java-server" {
			section = "java"
		}
		all := J{section: v.conf, "unrelated": J{"header": "not this one", "server": true}}
		if strings.HasSuffix(confPath, ".json") {
			v.files[confPath] = text(all)
		} else {
			v.files[confPath] = strings.TrimPrefix(yamlText(all, ""), "\n")
		}
	}
	inputs := []string{v.op.Main}
	if len(v.op.Files) == 1 && s.N(4) == 1 {
		v.inDir = true
		inputs = []string{in}
		for i := s.N(3); i > 0; i-- {
			v.files[in+"/"+simrt.Pick(s, "README.md", "notes.txt", "Makefile", "a.go", "sub/x.txt", ".hidden")] = "other\n"
		}
	}
	if s.N(3) == 1 {
		v.spoil(s, &args, &inputs, confPath)
	}
	v.cmd.args = append(args, inputs...)
	return v
}

// spoil adds something that makes success impossible.
func (v *invocation) spoil(s *simrt.Stream, args, inputs *[]string, confPath string) {
	add := func(p string) {
		if s.N(2) == 1 {
			*inputs = append(*inputs, p)
		} else {
			*inputs = append([]string{p}, *inputs...)
		}
	}
	switch s.N(12) {
	case 0:
		v.bad = "an input file does not exist"
		add("/work/in/missing" + simrt.Pick(s, ".sadl", ".json", ".yaml", ".graphql", "", ".txt"))
	case 1:
		v.bad = "an input file is of no known type"
		p := "/work/more/" + simrt.Pick(s, "a.txt", "b.go", "c")
		v.files[p] = "type X String\n"
		add(p)
	case 2:
		v.bad = "an input file cannot be read"
		v.modes[v.op.Main] = 0
	case 3:
		v.bad = "an input directory cannot be read"
		v.files["/work/more/x.txt"] = "x"
		v.modes["/work/more"] = 0
		add("/work/more")
	case 4:
		v.bad = "an input file cannot be recognised"
		p := "/work/more/" + simrt.Pick(s, "odd.json", "odd.yaml")
		v.files[p] = simrt.Pick(s, "{", "{\"a\": 1}", "[]", "12", "")
		add(p)
	case 5:
		if v.inDir {
			return
		}
		v.bad = "two input files"
		p := "/work/more/" + simrt.Pick(s, "more.sadl", "more.graphql")
		v.files[p] = simrt.Pick(s, "name more\n\ntype A String\n", "type A { x: Int }\n")
		add(p)
	case 6:
		v.bad = "the generator does not exist"
		*args = append(*args, "-g", simrt.Pick(s, "cobol", "Java", "go-everything", "swagger"))
	case 7:
		v.bad = "the option does not exist"
		*args = append(*args, simrt.Pick(s, "-q", "-bogus=1", "--all"))
	case 8:
		if confPath == "" {
			confPath = "/work/etc/none.yaml"
			*args = append(*args, "-c", confPath)
		} else if strings.HasPrefix(confPath, home) {
			v.modes[confPath] = 0
		} else {
			delete(v.files, confPath)
		}
		v.bad = "the configuration cannot be read"
	case 9:
		if confPath == "" {
			confPath = home + "/.sadl-config.yaml"
		}
		v.bad = "the configuration makes no sense"
		v.files[confPath] = simrt.Pick(s, "{", "a: [", "\tx: 1\n y", "just words", "{\"a\":")
	case 10:
		v.bad = "the input is an empty directory"
		v.dirs = append(v.dirs, "/work/empty")
		*inputs = []string{"/work/empty"}
	case 11:
		if v.toOut {
			return
		}
		v.bad = "the output directory is a file"
		v.files[v.outDir] = "a file"
	}
}

func (v *invocation) prepare(k *simrt.Kernel) {
	k.MkdirAll(home)
	k.MkdirAll("/tmp")
	if _, ok := v.files[v.outDir]; !ok {
		k.MkdirAll(v.outDir)
	}
	for _, d := range v.dirs {
		k.MkdirAll(d)
	}
	for _, p := range simrt.SortedKeys(v.files) {
		k.Put(p, v.files[p])
	}
	for _, p := range simrt.SortedKeys(v.modes) {
		k.SetMode(p, v.modes[p])
	}
}

// expected calls the library the way the command is documented to.
func (r *Run) expected(v *invocation) (out string, files simrt.Tree, fail string) {
	k := simrt.NewKernel()
	v.prepare(k)
	w := simrt.PlainWorld(k)
	w.Budget = stepBudget(k) - 500000
	var err error
	r.Exec(w, func() {
		ic := sadl.NewData()
		if v.name != "" {
			ic.Put("name", v.name)
		}
		if v.ns != "" {
			ic.Put("namespace", v.ns)
		}
		var m *sadl.Model
		switch v.op.Name {
		case "load-json":
			m, err = sadl.LoadModel(v.op.Main)
		case "parse-sadl":
			m, err = sadl.ParseSadlFile(v.op.Main, ic)
		case "import-graphql":
			m, err = graphql.Import([]string{v.op.Main}, ic)
		case "import-swagger":
			m, err = openapi.ImportSwagger([]string{v.op.Main}, ic)
		default:
			m, err = openapi.Import([]string{v.op.Main}, ic)
		}
		if err != nil {
			return
		}
		gc := (&Op{Conf: v.conf}).conf()
		gc.Put("force-overwrite", v.force)
		for _, o := range v.opts {
			n, x, ok := strings.Cut(o, "=")
			if ok {
				gc.Put(n, x)
			} else {
				gc.Put(n, true)
			}
		}
		family, part, _ := strings.Cut(v.gen, "-")
		if part == "server" || part == "client" {
			gc.Put(part, true)
		}
		k.Stdout = nil
		switch {
		case v.gen == "sadl":
			_, err = fmt.Println(sadl.DecompileSadl(m))
		case v.gen == "json" || v.gen == "sadl-ast":
			_, err = fmt.Println(sadl.Pretty(m))
		case v.gen == "openapi":
			err = openapi.Export(m, gc)
		case v.gen == "graphql":
			err = graphql.Export(m, gc)
		case v.gen == "http-trace":
			err = httptrace.Export(m, gc)
		case family == "go":
			err = golang.Export(m, v.outDir, gc)
		case family == "java":
			err = java.Export(m, v.outDir, gc)
		}
	})
	if err != nil {
		return "", nil, err.Error()
	}
	if w.Killed != "" {
		return "", nil, w.Killed + ": " + w.Crash
	}
	return string(k.Stdout), k.Snapshot(v.outDir).Files(), ""
}

func (r *Run) invoke(v *invocation, k *simrt.Kernel) *simrt.World {
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	w.Budget = stepBudget(k)
	r.Exec(w, v.cmd.task())
	return w
}

// p15browse asks for a browser of a description that cannot be shown.
func p15browse(r *Run) {
	br := r.browser()
	var m J
	dec := json.NewDecoder(strings.NewReader(text(services[simrt.Pick(r.In, simrt.SortedKeys(services)...)])))
	dec.UseNumber()
	if err := dec.Decode(&m); err != nil {
		panic(err)
	}
	acts := m["http"].([]any)
	what := "an action is there twice"
	if r.In.N(2) == 1 {
		what = "an example has no place"
		m["examples"] = []any{J{"target": strings.ToUpper(acts[0].(J)["name"].(string)[:1]) + acts[0].(J)["name"].(string)[1:] + "Request", "name": "e", "example": "text"}}
	} else {
		m["http"] = append(acts, acts[r.In.N(len(acts))])
	}
	br.cmd.args[len(br.cmd.args)-1] = "/work/in/api.json"
	br.api = text(m)
	k := simrt.NewKernel()
	br.prepare(k, r.In.N(2) == 1)
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	w.MainExits = true
	served := false
	http.SimTransport = okNet(br.b.zip).roundTrip
	http.SimServe = func(addr string, h http.Handler) error {
		served = true
		return http.ErrServerClosed
	}
	r.Exec(w, br.cmd.task())
	r.browserEnded(w)
	r.Desc("API browser; %s", what)
	r.St.Fired["unusable-description"]++
	if st := cmdStatus(w); st == 0 || served {
		r.Failf("ignored", "the API browser starts (status %d), although %s", st, what)
	} else if len(k.Stdout)+len(k.Stderr) == 0 {
		r.Failf("silent", "the API browser exits with %d and says nothing", st)
	}
}

func p15(r *Run) {
	if r.In.N(60) == 1 {
		p15browse(r)
		return
	}
	v := r.invocation()
	line := "sadl " + strings.Join(v.cmd.args, " ")
	wantOut, wantFiles, why := r.expected(v)
	r.Desc("%s; %s %s; %s", line, v.op.Name, v.bad, why)
	check := func(k *simrt.Kernel, w *simrt.World, when string) {
		st := cmdStatus(w)
		if w.Killed == "crash" || w.Killed == "hang" || w.Killed == "deadlock" {
			if !strings.HasPrefix(why, w.Killed) {
				r.Failf(w.Killed, "%s%s: %s in %s", line, when, firstLine(w.Crash), simrt.TopFrames(w.Stack, 4))
			}
			return // the library does not convert this model; the runtime prints why
		}
		if st != 0 {
			if len(k.Stdout)+len(k.Stderr) == 0 && !outFault(k) {
				r.Failf("silent", "%s%s exits with %d and says nothing", line, when, st)
			}
			return
		}
		if v.bad != "" {
			r.Failf("ignored", "%s%s exits with zero, although %s", line, when, v.bad)
		}
		if why != "" {
			r.Failf("ignored", "%s%s exits with zero, although the library reports %s", line, when, quote(why))
		}
		if v.toOut {
			if got := string(k.Stdout); got != wantOut {
				r.Failf("incomplete output", "%s%s exits with zero, but its output differs: %s", line, when, textDiff(wantOut, got))
			}
		} else {
			got := k.Snapshot(v.outDir).Files()
			for _, n := range simrt.SortedKeys(wantFiles) {
				if g, ok := got[n]; !ok || g != wantFiles[n] {
					r.Failf("incomplete output", "%s%s exits with zero, but %s is %s: %s", line, when, n, state(k, n), textDiff(wantFiles[n], g))
				}
			}
		}
	}
	k := simrt.NewKernel()
	v.prepare(k)
	w := r.invoke(v, k)
	st := cmdStatus(w)
	check(k, w, "")
	if st != 0 && v.bad == "" && why == "" {
		r.Failf("rejected", "%s exits with %d although nothing is wrong: %s%s", line, st, quote(string(k.Stdout)), quote(string(k.Stderr)))
	}
	r.St.Outcomes[fmt.Sprintf("%s without faults: status %d", v.gen, st)]++
	ops, size := k.Ops, len(wantOut)
	for _, t := range wantFiles {
		size += len(t)
	}
	r.trivial = v.bad == ""
	for i := r.Fl.N(3); i > 0; i-- {
		k := simrt.NewKernel()
		v.prepare(k)
		mode := r.Fl.N(5)
		switch {
		case mode == 0 && v.toOut:
			k.OutCap = r.Fl.N(size + 2)
		case mode == 0:
			k.FullAt = r.Fl.N(size + 2)
		case v.inDir:
			k.OutCap = r.Fl.N(size + 2)
		default:
			r.faultPlan(k, ops, 3)
		}
		when := fmt.Sprintf(" with %s, output takes %d", describeFaults(k), k.OutCap)
		w := r.invoke(v, k)
		check(k, w, when)
		if len(k.Fired) > 0 {
			r.trivial = false
			r.St.Outcomes[fmt.Sprintf("%s with faults: status %d", v.gen, cmdStatus(w))]++
		}
	}
}
