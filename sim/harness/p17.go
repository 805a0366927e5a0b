//go:build simcmd

package main

import (
	"fmt"
	"net/http"
	"os"
	"path"
	"strings"

	"simrt"
)

func init() {
	register(&Prop{ID: "P17", Run: p17, Quick: 128000, Deep: 50000000, QuickS: 80, DeepS: 600,
		Rule: "A run performs 1-3 operations (imports, loads, validations, exports, generations, saves) one after the other in one process on sound or damaged documents while up to 3 system calls of each fail, or starts the API browser under network and disk faults and asks it for documents; after every operation and every request it looks at what the process still holds. Trivial: no fault fired.",
		Real: []string{genReal, cmdReal}, Stub: []string{genStub, cmdStub},
		Assume: []string{"A temporary file that the file system refuses to remove may stay."}})
}

// held is what a process has that an operation could have left behind.
func held(k *simrt.Kernel) string {
	var t []string
	for _, p := range k.OpenFiles() {
		t = append(t, "open file "+p)
	}
	return strings.Join(t, ", ")
}

// surroundings is what belongs to the whole process.
func surroundings(k *simrt.Kernel) string {
	return fmt.Sprintf("working directory %s; environment %s; standard streams %p %p %p; arguments %q", k.Cwd(), strings.Join(os.Environ(), " "), os.Stdin, os.Stdout, os.Stderr, os.Args)
}

// changed shows the parts of two surroundings that differ.
func changed(a, b string) string {
	x, y := strings.Split(a, "; "), strings.Split(b, "; ")
	for i := range x {
		if i < len(y) && x[i] != y[i] {
			p, q := strings.Split(x[i], " "), strings.Split(y[i], " ")
			for j := 0; j < len(p) && j < len(q); j++ {
				if p[j] != q[j] {
					return fmt.Sprintf("%s: %q instead of %q", strings.Join(p[:1], " "), q[j], p[j])
				}
			}
			return p[0] + " has other entries"
		}
	}
	return "other entries"
}

func refused(k *simrt.Kernel) bool {
	for f := range k.Fired {
		if strings.HasPrefix(f, "unlink") || strings.HasPrefix(f, "rename") && strings.Contains(f, "after") {
			return true
		}
	}
	return false
}

func p17(r *Run) {
	if r.In.N(6) == 1 {
		p17browse(r)
		return
	}
	type step struct {
		o       *Op
		ops     int
		allowed map[string]bool // names that the operation makes without faults
		faults  []simrt.Fault
	}
	var steps []*step
	n := 1 + r.In.N(3)
	damaged := false
	k := simrt.NewKernel()
	k.MkdirAll("/tmp")
	for i := 0; i < n; i++ {
		dir := fmt.Sprintf("/work/%d", i)
		o := opAny(r.In, dir)
		if r.In.N(3) == 1 {
			o = opGenerate(r.In, dir+"/out")
			if r.In.N(3) == 1 {
				o.Conf["force-overwrite"] = true
			}
		}
		st := &step{o: o, allowed: map[string]bool{}}
		if o.Name == "save-data" {
			st.allowed[o.Dir] = true
		} else if o.Dir != "" {
			// a temporary file has another name in another process
			res, rk, _ := r.alone(o, func(k *simrt.Kernel) { k.MkdirAll("/tmp") })
			st.ops = rk.Ops
			k2 := simrt.NewKernel()
			k2.MkdirAll("/tmp")
			o.prepare(k2)
			k2.Pid, k2.Host = 77, "other"
			w2 := simrt.PlainWorld(k2)
			w2.RandSeed, w2.Base = 99, 1600000000987654321
			res2 := &Result{}
			r.Exec(w2, o.task(k2, nil, res2))
			for p := range rk.Snapshot("/").Files() {
				if k2.Exists(p) {
					st.allowed[p] = true
				} else if res.Done {
					r.Failf("left behind", "%s without faults leaves %s", o.Name, p)
				}
			}
		}
		if st.ops == 0 {
			st.ops = 12
		}
		o.prepare(k)
		if (o.Kind == "import" || o.Kind == "load") && o.Main != "" && r.Fl.N(3) == 1 { // errors of the content, not of the disk
			ps := simrt.SortedKeys(o.Files)
			k.Corrupt(ps[r.Fl.N(len(ps))], func(b []byte) []byte { return damage(r.Fl, append([]byte(nil), b...), "}") })
			r.St.Fired["damaged-document"]++
			damaged = true
		}
		if o.Dir != "" && r.In.N(4) == 1 {
			for _, p := range simrt.SortedKeys(st.allowed) {
				if r.In.N(6) == 1 {
					k.Put(p, "was there")
				}
			}
		}
		for i := r.Fl.N(4); i > 0; i-- {
			st.faults = append(st.faults, simrt.Fault{Op: r.Fl.N(st.ops + 3), Kind: r.Fl.N(64)})
		}
		steps = append(steps, st)
	}
	if r.Fl.N(8) == 1 {
		k.FullAt = r.Fl.N(20000)
	}
	k.TmpDev = r.Fl.N(4) == 1
	before := map[string]bool{}
	for p := range k.Snapshot("/").Files() {
		before[p] = true
	}
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	w.Budget = 5000000
	type found struct {
		op, what string
		res      *Result
	}
	var finds []found
	r.Exec(w, func() {
		for _, st := range steps {
			now := surroundings(k)
			k.Faults = nil
			for _, f := range st.faults {
				k.Faults = append(k.Faults, simrt.Fault{Op: k.Ops + f.Op, Kind: f.Kind})
			}
			res := &Result{}
			st.o.task(k, nil, res)()
			h := held(k)
			if s := surroundings(k); s != now {
				h += " the process is not as before: " + changed(now, s)
			}
			finds = append(finds, found{st.o.Name, h, res})
		}
	})
	fired := len(k.Fired) > 0
	r.trivial = !fired && !damaged
	switch w.Killed {
	case "deadlock":
		r.Failf("goroutine left", "after %s: %s", steps[len(steps)-1].o.Name, w.Crash)
	case "hang":
		if damaged {
			r.skip() // whether a damaged document is ever done with is the business of P09
		}
		r.Failf("hang", "%s: %s in %s", steps[len(finds)].o.Name, w.Crash, simrt.TopFrames(w.Stack, 4))
	case "crash":
		r.skip() // the business of other properties
	}
	for i, f := range finds {
		r.Desc("%s: %s", steps[i].o, faultOutcome(f.res))
		r.St.Outcomes[f.op+" "+faultOutcome(f.res)]++
		if f.res.Panic != "" {
			return // an input that is not supported: nothing is promised
		}
		if f.what != "" {
			r.Failf("not given back", "%s %s and leaves %s", f.op, faultOutcome(f.res), f.what)
		}
	}
	if w.Exited || refused(k) {
		return
	}
	for _, p := range simrt.SortedKeys(k.Snapshot("/").Files()) {
		ok := before[p]
		for _, st := range steps {
			ok = ok || st.allowed[p]
		}
		if !ok {
			r.Failf("left behind", "%s is left behind", p)
		}
	}
}

// p17browse looks at what a running API browser holds.
func p17browse(r *Run) {
	br := r.browser()
	r.learn(br)
	k := simrt.NewKernel()
	cached := r.In.N(2) == 1
	br.prepare(k, cached)
	before := map[string]bool{}
	for p := range k.Snapshot("/").Files() {
		before[p] = true
	}
	n := r.netPlan(br.b.zip)
	r.faultPlan(k, 14, 2)
	if r.Fl.N(6) == 1 {
		k.FullAt = r.Fl.N(len(br.b.zip) + 1)
	}
	paths := append(simrt.SortedKeys(br.docs), "/nothing", "/"+br.name+".json")
	count := 2 + r.In.N(6)
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	http.SimTransport = n.roundTrip
	what := ""
	served := false
	http.SimServe = func(addr string, h http.Handler) error {
		served = true
		if n.open > 0 {
			what = fmt.Sprintf("%d answers of the download are still open while the server runs", n.open)
		}
		base := ""
		for i := 0; i < count; i++ {
			var fs []simrt.Fault
			for j := r.Fl.N(3); j > 0; j-- {
				fs = append(fs, simrt.Fault{Op: k.Ops + r.Fl.N(6), Kind: r.Fl.N(16)})
			}
			k.Faults = fs
			a := &answer{method: "GET", path: paths[r.In.N(len(paths))]}
			c := &conn{piece: 1 << 20, leave: -1}
			if r.In.N(3) == 1 {
				c.piece, c.leave = 100, r.In.N(500)
			}
			ask(h, a, c, nil)
			h := held(k)
			if i == 0 {
				base = h
				if strings.Count(h, "open file") > 1 {
					what = "after the first request: " + h
				}
			} else if h != base && what == "" {
				what = fmt.Sprintf("after request %d for %s: %s instead of %s", i+1, a.path, h, base)
			}
		}
		return http.ErrServerClosed
	}
	r.Exec(w, br.cmd.task())
	r.browserEnded(w)
	for f, c := range n.fired {
		r.St.Fired[f] += c
	}
	r.trivial = len(k.Fired) == 0 && len(n.fired) == 0
	r.St.Outcomes[map[bool]string{true: "browser serves", false: "browser fails"}[served]]++
	if what != "" {
		r.Failf("not given back", "the API browser: %s", what)
	}
	if w.Killed == "killed" || refused(k) {
		return
	}
	for _, p := range simrt.SortedKeys(k.Snapshot("/").Files()) {
		if !before[p] && p != br.cache && path.Dir(p) != "/dev" {
			r.Failf("left behind", "the API browser leaves %s (status %d)", p, cmdStatus(w))
		}
	}
}
