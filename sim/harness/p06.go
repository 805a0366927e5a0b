package main

import (
	"fmt"
	"path"
	"strings"

	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/java"
	"simrt"
)

func init() {
	real := []string{"all converters of the library (golang, java, openapi, graphql, httptrace, parser, unparser, validation, data), instrumented but otherwise unchanged"}
	stub := []string{genStub}
	register(&Prop{ID: "P06", Run: p06, Quick: 96000, Deep: 50000000, QuickS: 110, DeepS: 600,
		Rule: "A run performs 2-7 operations one after the other in one process, several of them on one shared model and one shared configuration, some on damaged inputs or hit by disk and output faults; every undisturbed result is compared with the result of the same operation in a fresh process, and model and configuration with what they were. Trivial: no operation followed another.",
		Real: real, Stub: stub})
	register(&Prop{ID: "P07", Run: p07, Quick: 160000, Deep: 50000000, QuickS: 120, DeepS: 600,
		Rule: "A run performs 2-4 operations as concurrent tasks of one process, possibly sharing a model and configuration; a seeded scheduler decides at every statement, system call, lock and channel operation which task goes on. Every result is compared with that of the operation alone. Trivial: no task was preempted.",
		Real: real, Stub: stub})
}

// sharedOp is an export of a given model with a given configuration.
func sharedOp(s *simrt.Stream, g *gen, model string, conf J, dir string) *Op {
	o := &Op{Kind: "export", Conf: conf, Model: model}
	switch s.N(9) {
	case 7, 8:
		o.Name, o.Kind, o.Do = "validate", "validate", doValidate
		o.Type = g.types[s.N(len(g.types))]["name"].(string)
		o.Arg = text(g.value(J{"type": o.Type}, 0, s.Odds(1, 2)))
	case 0, 1:
		o.Name, o.Kind, o.Dir = "java", "generate", dir
		o.Do = func(o *Op, e *Env, r *Result) error { return java.Export(e.M, o.Dir, e.Conf) }
	case 2:
		o.Name, o.Kind, o.Dir = "go", "generate", dir
		o.Do = func(o *Op, e *Env, r *Result) error { return golang.Export(e.M, o.Dir, e.Conf) }
	case 3:
		o.Name, o.Do = "openapi", doOpenAPI
	case 4:
		o.Name, o.Do = "graphql", doGraphQL
	case 5:
		o.Name, o.Do = "httptrace", doTrace
	default:
		o.Name, o.Do = "sadl", doSadl
	}
	return o
}

func sharedConf(s *simrt.Stream) J {
	conf := J{}
	subset(s, conf, 2, "server", "client")
	subset(s, conf, 4, "runtime", "lombok", "getters", "immutable", "instants", "maven", "json")
	if s.Odds(1, 3) {
		conf["custom-scalars"] = J{"UUID": "ID", "Timestamp": "Time"}
	}
	if s.Odds(1, 4) {
		conf["package"] = "com.acme.api"
	}
	return conf
}

type step struct {
	op     *Op
	shared bool
	hurt   bool
	want   *Result
	got    *Result
}

// plan makes the operations of a history, and learns what each gives alone.
// inPlace: a document may get another content between two operations.
func (r *Run) plan(n int, inPlace bool) []*step {
	var steps []*step
	var model string
	var conf J
	var g *gen
	if r.In.N(4) != 1 {
		g = newGen(r.In, simrt.Pick(r.In, "httptrace", "java", "openapi", "any", "go", "graphql"))
		g.wild = r.In.Odds(1, 6)
		model = text(g.model())
		conf = sharedConf(r.In)
	}
	kin := r.In.N(4) == 1 // all of a kind
	for i := 0; i < n; i++ {
		st := &step{}
		dir := fmt.Sprintf("/work/t%d", i)
		switch {
		case model != "" && !kin && r.In.N(3) != 1:
			st.op = sharedOp(r.In, g, model, conf, dir)
			st.shared = true
		case len(steps) > 0 && (kin || r.In.N(3) == 1):
			st.op = twin(r.In, steps[r.In.N(len(steps))].op) // nearly the same
			if st.op.Dir != "" {
				st.op.Dir = dir + strings.TrimPrefix(st.op.Dir, path.Dir(st.op.Dir))
				if st.op.Kind == "save" {
					st.op.Files = map[string]string{dir + "/.keep": ""}
				}
			}
			if st.op.Main != "" && !inPlace {
				old := path.Dir(st.op.Main)
				fs := map[string]string{}
				for _, p := range simrt.SortedKeys(st.op.Files) { // included files are named by their whole path
					fs[dir+strings.TrimPrefix(p, old)] = strings.ReplaceAll(st.op.Files[p], old[1:], dir[1:])
				}
				st.op.Files, st.op.Main = fs, dir+strings.TrimPrefix(st.op.Main, old)
			}
		case len(steps) > 0 && r.In.N(4) == 1 && steps[len(steps)-1].op.Dir == "":
			st.op = steps[len(steps)-1].op // the same again
			st.shared = steps[len(steps)-1].shared
		default:
			st.op = opAny(r.In, dir)
		}
		want, _, w := r.alone(st.op, nil)
		if w.Exited || strings.HasPrefix(want.Err, "harness model") {
			continue
		}
		st.want = want
		mask(st.op, want)
		steps = append(steps, st)
	}
	return steps
}

func p06(r *Run) {
	steps := r.plan(2+r.In.N(6), true)
	k := simrt.NewKernel()
	fl := make([]int, len(steps))
	for i, st := range steps {
		if r.Fl.N(4) == 1 {
			fl[i] = 1 + r.Fl.N(30)
			_ = st
		}
	}
	r.Desc("%s", describeSteps(steps))
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	bad := ""
	r.Exec(w, func() {
		root := simrt.TaskID()
		var shared *Env
		for i, st := range steps {
			e, err := st.op.env()
			if err != nil {
				return
			}
			if st.shared {
				if shared == nil {
					shared = e
				}
				e = shared
			}
			var m0, c0 string
			if e.M != nil {
				m0 = modelText(e.M)
			}
			c0 = e.Conf.String()
			before := len(k.OutBy[root])
			k.Heal()
			st.op.prepare(k)
			nf := fired(k)
			if fl[i] > 0 {
				k.Faults = []simrt.Fault{{Op: k.Ops + fl[i] - 1, Kind: r.Fl.N(64)}}
			}
			st.got = &Result{}
			st.op.task(k, e, st.got)()
			st.hurt = fired(k) > nf
			st.got.Out = string(k.OutBy[root][before:])
			mask(st.op, st.got)
			if e.M != nil && bad == "" {
				if m1 := modelText(e.M); m1 != m0 {
					bad = fmt.Sprintf("%s changes the model: %s", st.op.Name, textDiff(m0, m1))
				}
			}
			if st.got.Hurt != "" && bad == "" {
				bad = fmt.Sprintf("%s changes the value it is given: %s", st.op.Name, st.got.Hurt)
			}
			if c1 := e.Conf.String(); c1 != c0 && bad == "" {
				bad = fmt.Sprintf("%s changes the configuration: %s", st.op.Name, textDiff(c0, c1))
			}
			if bad != "" {
				return
			}
		}
	})
	for _, st := range steps {
		r.ended(w, st.op)
	}
	if bad != "" {
		r.Failf("argument changed", "%s", bad)
	}
	for i, st := range steps {
		if st.got == nil {
			r.Failf("not reached", "%s ends the process in this history", steps[i-1].op.Name)
		}
		o := st.op.Name + " " + faultOutcome(st.got)
		if st.hurt {
			o += " (fault)"
		}
		r.St.Outcomes[o]++
		if st.hurt {
			continue
		}
		if d := st.want.diff(st.got); d != "" {
			r.Failf(st.op.Name+" depends on history", "after %s: %s", describeSteps(steps[:i]), d)
		}
	}
	r.trivial = len(steps) < 2
}

func fired(k *simrt.Kernel) int {
	n := 0
	for _, c := range k.Fired {
		n += c
	}
	return n
}

func describeSteps(steps []*step) string {
	var s []string
	for _, st := range steps {
		n := st.op.Name
		if st.shared {
			n += " of the shared model"
		}
		s = append(s, n)
	}
	return strings.Join(s, ", ")
}

// sameDir lets generations of different files into one directory run concurrently.
func (r *Run) sameDir() {
	var steps []*step
	want := simrt.Tree{}
	for i := 2 + r.In.N(2); i > 0; i-- {
		st := &step{op: opGenerate(r.In, "/work/out")}
		res, _, _ := r.alone(st.op, nil)
		if res.Err != "" || res.Panic != "" {
			continue
		}
		fresh := true
		for p := range res.Files {
			fresh = fresh && want[p] == ""
		}
		if !fresh {
			continue
		}
		for p, text := range res.Files {
			want[p] = text
		}
		st.want = res
		steps = append(steps, st)
	}
	if len(steps) < 2 {
		r.trivial = true
		return
	}
	k := simrt.NewKernel()
	for _, st := range steps {
		st.op.prepare(k)
	}
	r.Desc("concurrently into one directory: %s", describeSteps(steps))
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	var fns []func()
	for _, st := range steps {
		st.got = &Result{}
		fns = append(fns, st.op.task(k, nil, st.got))
	}
	r.Exec(w, fns...)
	r.ended(w, steps[0].op)
	r.trivial = w.Preempts == 0
	for _, st := range steps {
		r.St.Outcomes["one directory: "+st.op.Name+" "+faultOutcome(st.got)]++
		if st.got.Err != "" || st.got.Panic != "" {
			r.Failf(st.op.Name+" disturbed", "%s, concurrently into one directory: %s%s", describeSteps(steps), st.got.Err, st.got.Panic)
		}
	}
	for _, p := range simrt.SortedKeys(want) {
		if got, ok := k.Get(p); !ok || got != want[p] {
			r.Failf("file disturbed", "%s, concurrently into one directory: %s is %s instead of %d bytes", describeSteps(steps), p, state(k, p), len(want[p]))
		}
	}
}

func p07(r *Run) {
	if r.In.N(8) == 1 {
		r.sameDir()
		return
	}
	steps := r.plan(2+r.In.N(3), false)
	if len(steps) < 2 {
		r.trivial = true
		return
	}
	k := simrt.NewKernel()
	for _, st := range steps {
		st.op.prepare(k)
	}
	r.Desc("concurrently: %s", describeSteps(steps))
	var shared *Env
	for _, st := range steps {
		if st.shared {
			m, err := buildModel(st.op.Model)
			if err != nil {
				r.trivial = true
				return
			}
			shared = &Env{M: m, Conf: st.op.conf()}
		}
	}
	for i := range steps {
		if r.Fl.N(6) == 1 {
			if k.ByRoot == nil {
				k.ByRoot = map[int][]simrt.Fault{}
			}
			k.ByRoot[i] = []simrt.Fault{{Op: r.Fl.N(30), Kind: r.Fl.N(64)}}
		}
	}
	var m0, c0 string
	if shared != nil {
		m0, c0 = modelText(shared.M), shared.Conf.String()
	}
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	var fns []func()
	var op *Op
	for _, st := range steps {
		st.got = &Result{}
		var e *Env
		if st.shared {
			e = shared
		}
		op = st.op
		fns = append(fns, st.op.task(k, e, st.got))
	}
	r.Exec(w, fns...)
	r.ended(w, op)
	r.trivial = w.Preempts == 0
	for i, st := range steps {
		mask(st.op, st.got)
		if k.HurtRoot[i] {
			r.St.Outcomes[st.op.Name+" "+faultOutcome(st.got)+" (fault)"]++
			continue
		}
		r.St.Outcomes[st.op.Name+" "+faultOutcome(st.got)]++
		if d := st.want.diff(st.got); d != "" {
			r.Failf(st.op.Name+" disturbed", "%s, concurrently: %s", describeSteps(steps), d)
		}
	}
	if shared != nil && (modelText(shared.M) != m0 || shared.Conf.String() != c0) {
		r.Failf("argument changed", "the shared model or configuration changes: %s", textDiff(m0+c0, modelText(shared.M)+shared.Conf.String()))
	}
}
