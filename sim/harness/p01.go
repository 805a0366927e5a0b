package main

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"simrt"
)

const genReal = "generator.go, golang/*, java/*, data.go, model.go and everything they use, instrumented but otherwise unchanged; package os, bufio, text/template of the standard library"
const genStub = "operating system below package syscall (file system, clock, randomness, scheduler); the third-party scanner and Smithy modules, which are not installed here"

func init() {
	register(&Prop{ID: "P01", Run: p01, Quick: 128000, Deep: 50000000, QuickS: 100, DeepS: 600,
		Rule: "A run generates a model, a configuration and an output tree, generates code (or saves a document) once without faults to learn the system calls and the expected bytes, then again with 1-3 faults placed on those system calls or with a disk that fills up. Trivial: no fault fired.",
		Real: []string{genReal}, Stub: []string{genStub},
		Assume: []string{"A disk that reports every operation including fsync and close as successful has stored the data."}})
	register(&Prop{ID: "P02", Run: p02, Quick: 128000, Deep: 50000000, QuickS: 100, DeepS: 600,
		Rule: "A run generates a model, a configuration and an output tree in which some generated names and other files already exist, and generates code while faults hit its system calls and another process creates files between them. Trivial: no file existed or appeared at a generated name.",
		Real: []string{genReal}, Stub: []string{genStub},
		Assume: []string{"With force-overwrite, generated names are regular files, not links."}})
	register(&Prop{ID: "P03", Run: p03, Quick: 128000, Deep: 50000000, QuickS: 100, DeepS: 600,
		Rule: "A run generates code into a tree, kills the process at a system call (before, after, or in the middle of a write), optionally loses unsynced data and names as a power failure may, or injects disk errors; then inspects the tree, repeats up to twice and finally reruns without faults. Trivial: nothing interrupted the generation.",
		Real: []string{genReal}, Stub: []string{genStub},
		Assume: []string{"After a power loss, the name space is that of some moment since the last sync, and a file not synced after its last write may have lost any of its content (ext4 data=writeback, XFS)."}})
}

// files that generation does not produce
var unrelated = []string{"README.md", "src/notes.txt", ".gitignore", "src/main/java/Keep.java", "keep_test.go"}

// faultPlan puts a few faults on the first n operations of a process.
func (r *Run) faultPlan(k *simrt.Kernel, n, max int) {
	k.TmpDev = r.Fl.N(4) == 1
	for i := r.Fl.N(max + 1); i > 0; i-- {
		k.Faults = append(k.Faults, simrt.Fault{Op: r.Fl.N(n + 4), Kind: r.Fl.N(64)})
	}
}

func describeFaults(k *simrt.Kernel) string {
	var fs []string
	for _, f := range k.Faults {
		fs = append(fs, fmt.Sprintf("%d/%d", f.Op, f.Kind))
	}
	s := "faults at " + strings.Join(fs, " ")
	if k.FullAt >= 0 {
		s += fmt.Sprintf(", disk full after %d bytes", k.FullAt)
	}
	return s
}

type genCase struct {
	op    *Op
	force bool
	ref   simrt.Tree        // what a run without faults leaves in an empty tree, by path below the output directory
	names []string          // sorted names of ref
	pre   map[string]string // what is there before, by path below the output directory
	links map[string]string
	modes map[string]uint32
	times map[string]int64
	dirs  []string
	ops   int // kernel operations of a run without faults on the prepared tree
	bytes int
}

// genCase plans a generation and learns what it does without faults.
func (r *Run) genCase(pre int) *genCase {
	c := &genCase{op: opGenerate(r.In, "/work/out"), pre: map[string]string{}, links: map[string]string{}, modes: map[string]uint32{}, times: map[string]int64{}}
	c.force = r.In.N(3) == 1
	if c.force {
		c.op.Conf["force-overwrite"] = true
	}
	ref, _, _ := r.alone(c.op, nil)
	if ref.Err != "" || ref.Panic != "" || len(ref.Files) == 0 {
		return nil // a model that cannot be exported: nothing to see here
	}
	c.ref = simrt.Tree{}
	for _, p := range simrt.SortedKeys(ref.Files) {
		c.ref[strings.TrimPrefix(p, c.op.Dir+"/")] = ref.Files[p]
	}
	c.names = simrt.SortedKeys(c.ref)
	for _, n := range c.names {
		c.bytes += len(c.ref[n])
	}
	if pre > 0 {
		for _, n := range c.names {
			if r.In.N(pre) == 1 {
				switch r.In.N(8) {
				case 1:
					c.pre[n] = ""
				case 2:
					c.pre[n] = c.ref[n]
				case 3:
					c.pre[n] = c.ref[n][:len(c.ref[n])/2]
				default:
					c.pre[n] = "edited by hand: " + n + strings.Repeat(" x", r.In.N(40))
				}
			}
		}
		for _, n := range unrelated {
			if _, ok := c.ref[n]; !ok && r.In.N(4) == 1 {
				c.pre[n] = "mine: " + n
			}
		}
		for i := r.In.N(8) - 4; i > 0; i-- { // names that belong to the user, although they look like generation's own
			n := c.names[r.In.N(len(c.names))]
			d, b := path.Split(n)
			stem := strings.TrimSuffix(b, path.Ext(b))
			n = d + simrt.Pick(r.In, b+".bak", b+".tmp", b+"~", b+".orig", b+".old", b+".new", "."+b+".tmp", "."+b, stem+".bak", stem+".tmp", stem+".orig"+path.Ext(b), b+".1", b+".lock", "."+b+".swp", b+".sav", b+".part", "_"+b, "tmp", ".tmp", b+"-old", b+".backup", b+".prev",
				".sadl-7.tmp", ".sadl-mine.tmp", "package-info.java", "doc.go", "README.md", "go.mod", stem+"_test"+path.Ext(b), stem+"Test"+path.Ext(b), ".gitkeep", strings.ToUpper(b), "generated"+path.Ext(b))
			if _, ok := c.ref[n]; !ok {
				c.pre[n] = "mine: " + n
			}
		}
		if r.In.N(4) == 1 { // what another generation left there
			n := c.names[r.In.N(len(c.names))]
			text := c.ref[n]
			d, b := path.Split(n)
			n = d + simrt.Pick(r.In, "Older", "older_", "a", "Zz") + b
			if _, ok := c.ref[n]; !ok {
				c.pre[n] = text[:len(text)-r.In.N(len(text))/2]
			}
		}
		for _, n := range simrt.SortedKeys(c.pre) {
			switch r.In.N(12) {
			case 1:
				c.modes[n] = simrt.Pick(r.In, uint32(0444), 0600, 0755, 0400)
			case 2:
				c.times[n] = simrt.Pick(r.In, int64(0), 1, 1699999999e9, 1700000001e9, 1900000000e9)
			}
		}
	}
	return c
}

func (c *genCase) prepare(k *simrt.Kernel) {
	c.op.prepare(k)
	for _, n := range simrt.SortedKeys(c.pre) {
		k.Put(path.Join(c.op.Dir, n), c.pre[n])
	}
	for _, n := range simrt.SortedKeys(c.modes) {
		k.SetMode(path.Join(c.op.Dir, n), c.modes[n])
	}
	for _, n := range simrt.SortedKeys(c.times) {
		k.SetTime(path.Join(c.op.Dir, n), c.times[n])
	}
	for _, n := range simrt.SortedKeys(c.links) {
		k.MkdirAll(path.Dir(path.Join(c.op.Dir, n)))
		k.PutLink(path.Join(c.op.Dir, n), c.links[n])
	}
}

// rehearse learns how many operations the generation takes on the prepared tree.
func (r *Run) rehearse(c *genCase) {
	k := simrt.NewKernel()
	c.prepare(k)
	w := simrt.PlainWorld(k)
	res := &Result{}
	r.Exec(w, c.op.task(k, nil, res))
	r.ended(w, c.op)
	c.ops = k.Ops
	if res.Err != "" || res.Panic != "" {
		r.Failf("fails on this tree", "%s succeeds in an empty tree, but not in this one without any fault: %s%s", c.op.Name, res.Err, res.Panic)
	}
}

// final is what a generated name has to hold after a generation that succeeded.
func (c *genCase) final(n string) string {
	if old, ok := c.pre[n]; ok && !c.force {
		return old
	}
	return c.ref[n]
}

func (r *Run) gen(c *genCase, k *simrt.Kernel) (*Result, *simrt.World) {
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	if k.Record != nil {
		w.RandSeed, w.Base = 99, w.Base+77777
	}
	res := &Result{}
	r.Exec(w, c.op.task(k, nil, res))
	r.ended(w, c.op)
	return res, w
}

// bursts lets another process run its recorded program in up to three bursts between the next operations.
func (r *Run) bursts(k *simrt.Kernel, p *simrt.Prog, ops int) *simrt.Other {
	o := k.Other(p)
	k.Events = map[int][]func(){}
	at, done := k.Ops, 0
	for i := 1 + r.Fl.N(3); i > 0; i-- {
		at += r.Fl.N(ops)
		done += 1 + r.Fl.N(p.Len()+1)
		to := done
		k.Events[at] = append(k.Events[at], func() {
			o.RunTo(to)
			r.St.Fired["other-process"]++
		})
	}
	r.Desc("another process does the same, in bursts, %d of %d calls", done, p.Len())
	return o
}

func state(k *simrt.Kernel, p string) string {
	s, ok := k.Get(p)
	if !ok {
		return "missing"
	}
	return fmt.Sprintf("%d bytes %s", len(s), quote(s))
}

// p01hopeless generates code for a model that the generator cannot turn into code: some file is not made, so it is an error.
func p01hopeless(r *Run) {
	o := opGenerate(r.In, "/work/out")
	var m J
	dec := json.NewDecoder(strings.NewReader(o.Model))
	dec.UseNumber()
	if dec.Decode(&m) != nil {
		r.trivial = true
		return
	}
	what := ""
	if o.Name == "java" {
		t := J{"name": "hopeless", "type": "Struct", "fields": []any{J{"name": "one", "type": "String"}}}
		ts, _ := m["types"].([]any)
		i := r.In.N(len(ts) + 1)
		m["types"] = append(append(append([]any(nil), ts[:i]...), J{"name": "Hopeless", "type": "Struct", "fields": []any{t}}), ts[i:]...)
		delete(o.Conf, "model")
		what = "an inner class would have the name of its class"
	} else {
		acts, _ := m["http"].([]any)
		if len(acts) == 0 {
			r.trivial = true
			return
		}
		a := acts[r.In.N(len(acts))].(J)
		ins, _ := a["inputs"].([]any)
		a["inputs"] = append(append([]any(nil), ins...), J{"name": "hopeless", "type": simrt.Pick(r.In, "Bool", "Float64"), "query": "hopeless"})
		o.Conf["server"] = true
		what = "a query parameter has a type that servers cannot take"
	}
	o.Model = text(m)
	ref, rk, _ := r.alone(o, nil)
	if strings.HasPrefix(ref.Err, "harness model") || ref.Panic != "" {
		r.trivial = true
		return
	}
	r.St.Fired["ungeneratable-model"]++
	if ref.Err == "" {
		r.Failf("silent loss", "%s reports success, although %s", o.Name, what)
	}
	k := simrt.NewKernel()
	o.prepare(k)
	r.faultPlan(k, rk.Ops, 3)
	r.Desc("%s: %s; %s", o, what, describeFaults(k))
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	res := &Result{}
	r.Exec(w, o.task(k, nil, res))
	r.ended(w, o)
	r.St.Outcomes[o.Name+" "+faultOutcome(res)]++
	if res.Done && res.Err == "" && res.Panic == "" {
		r.Failf("silent loss", "%s reports success, although %s", o.Name, what)
	}
}

func p01(r *Run) {
	if r.In.N(5) == 1 {
		p01save(r)
		return
	}
	if r.In.N(12) == 1 {
		p01hopeless(r)
		return
	}
	c := r.genCase(8)
	if c == nil {
		r.trivial = true
		return
	}
	r.rehearse(c)
	k := simrt.NewKernel()
	c.prepare(k)
	if r.Fl.N(4) == 1 {
		k.FullAt = r.Fl.N(c.bytes + 1)
	}
	r.faultPlan(k, c.ops, 3)
	r.Desc("%s; %d files exist; %s", c.op, len(c.pre), describeFaults(k))
	res, w := r.gen(c, k)
	r.St.Outcomes[c.op.Name+" "+faultOutcome(res)]++
	r.trivial = len(k.Fired) == 0
	if res.Panic != "" {
		r.Failf("panic", "%s panics on a disk fault instead of returning an error: %s", c.op.Name, quote(res.Panic))
	}
	if w.Exited {
		r.Failf("exit", "%s ends the process with status %d on a disk fault instead of returning an error", c.op.Name, w.ExitCode)
	}
	if res.Err != "" {
		return
	}
	for _, n := range c.names {
		p := path.Join(c.op.Dir, n)
		if got, ok := k.Get(p); !ok || got != c.final(n) {
			r.Failf("silent loss", "%s reports success, but %s is %s instead of %d bytes", c.op.Name, n, state(k, p), len(c.final(n)))
		}
	}
}

func faultOutcome(res *Result) string {
	switch {
	case res.Panic != "":
		return "panics"
	case !res.Done:
		return "interrupted"
	case res.Err != "":
		return "reports an error"
	}
	return "succeeds"
}

func p01save(r *Run) {
	o := opSaveData(r.In, "/work")
	ref, rk, _ := r.alone(o, func(k *simrt.Kernel) { k.MkdirAll("/work") })
	want, ok := rk.Get(o.Dir)
	if ref.Err != "" || !ok {
		r.Failf("no document", "saving a document without faults gives error %q and file %s", ref.Err, state(rk, o.Dir))
	}
	k := simrt.NewKernel()
	k.MkdirAll("/work")
	if r.In.N(3) == 1 {
		k.Put(o.Dir, "{\"old\": true}"+strings.Repeat(" ", r.In.N(3)*4000))
	}
	if r.Fl.N(4) == 1 {
		k.FullAt = r.Fl.N(len(want) + 1)
	}
	r.faultPlan(k, rk.Ops, 2)
	r.Desc("%s; %s", o, describeFaults(k))
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	res := &Result{}
	r.Exec(w, o.task(k, nil, res))
	r.ended(w, o)
	r.St.Outcomes["save-data "+faultOutcome(res)]++
	r.trivial = len(k.Fired) == 0
	if res.Panic != "" || w.Exited {
		r.Failf("panic", "saving a document does not return on a disk fault: %s", quote(res.Panic))
	}
	if res.Err == "" {
		if got, ok := k.Get(o.Dir); !ok || got != want {
			r.Failf("silent loss", "saving a document reports success, but the file is %s instead of %d bytes", state(k, o.Dir), len(want))
		}
	}
}

func p02(r *Run) {
	c := r.genCase(3)
	if c == nil {
		r.trivial = true
		return
	}
	if !c.force && r.In.N(6) == 1 {
		n := c.names[r.In.N(len(c.names))]
		delete(c.pre, n)
		c.pre["elsewhere/precious.txt"] = "precious"
		c.links[n] = simrt.Pick(r.In, "/work/out/elsewhere/precious.txt", "/work/out/elsewhere/nothing.txt")
	}
	inTheWay := ""
	if len(c.links) == 0 && r.In.N(8) == 1 { // a file where a directory is needed
		n := c.names[r.In.N(len(c.names))]
		if ps := strings.Split(path.Dir(n), "/"); ps[0] != "." {
			inTheWay = path.Join(ps[:1+r.In.N(len(ps))]...)
			for _, p := range simrt.SortedKeys(c.pre) {
				if strings.HasPrefix(p, inTheWay+"/") {
					delete(c.pre, p)
				}
			}
			c.pre[inTheWay] = "a file called " + inTheWay
		}
	}
	if len(c.links) == 0 && inTheWay == "" {
		r.rehearse(c)
	} else {
		c.ops = 40
	}
	k := simrt.NewKernel()
	c.prepare(k)
	keep := map[string]string{}
	for n, s := range c.pre {
		if _, generated := c.ref[n]; !generated || !c.force {
			keep[n] = s
		}
	}
	if r.Fl.N(3) == 1 {
		r.faultPlan(k, c.ops, 3)
	}
	k.Events = map[int][]func(){}
	if !c.force {
		for i := r.Fl.N(4); i > 0; i-- {
			n := c.names[r.Fl.N(len(c.names))]
			at := r.Fl.N(c.ops + 2)
			text := fmt.Sprint("written by someone else at ", at)
			k.Events[at] = append(k.Events[at], func() {
				p := path.Join(c.op.Dir, n)
				if !k.Exists(p) && c.links[n] == "" && !(inTheWay != "" && strings.HasPrefix(n, inTheWay+"/")) {
					k.Put(p, text)
					keep[n] = text
					k.Fired["other-process-creates"]++
				}
			})
		}
	}
	r.Desc("%s; %d files exist; %d links; %d events; %s", c.op, len(c.pre), len(c.links), len(k.Events), describeFaults(k))
	res, w := r.gen(c, k)
	r.St.Outcomes[c.op.Name+" "+faultOutcome(res)]++
	r.trivial = len(keep) == 0 && len(c.pre) == 0
	for _, n := range simrt.SortedKeys(keep) {
		p := path.Join(c.op.Dir, n)
		if got, ok := k.Get(p); !ok || got != keep[n] {
			what := "file that generation does not produce"
			if _, generated := c.ref[n]; generated {
				what = "existing file"
			}
			r.Failf("altered", "%s %s held %s and is now %s", what, n, quote(keep[n]), state(k, p))
		}
	}
	if c.force && res.Err == "" && res.Panic == "" && !w.Exited {
		for _, n := range c.names {
			p := path.Join(c.op.Dir, n)
			if got, ok := k.Get(p); !ok || got != c.ref[n] {
				r.Failf("not replaced", "with force-overwrite, %s reports success, but %s is %s", c.op.Name, n, state(k, p))
			}
		}
	}
}

// whole checks that every generated name holds the old or the new content.
func (r *Run) whole(c *genCase, k *simrt.Kernel, when string) {
	for _, n := range c.names {
		p := path.Join(c.op.Dir, n)
		got, ok := k.Get(p)
		old, had := c.pre[n]
		switch {
		case had && !c.force:
			if !ok || got != old {
				r.Failf("altered", "after %s, the existing file %s is %s", when, n, state(k, p))
			}
		case !ok && !had:
		case ok && had && got == old:
		case ok && got == c.ref[n]:
		default:
			r.Failf("partial", "after %s, %s is %s: neither what it was nor the complete %d bytes", when, n, state(k, p), len(c.ref[n]))
		}
	}
	for _, n := range simrt.SortedKeys(c.pre) {
		if _, generated := c.ref[n]; !generated {
			p := path.Join(c.op.Dir, n)
			if got, ok := k.Get(p); !ok || got != c.pre[n] {
				r.Failf("altered", "after %s, %s, which generation does not produce, is %s", when, n, state(k, p))
			}
		}
	}
}

func p03(r *Run) {
	c := r.genCase(5)
	if c == nil {
		r.trivial = true
		return
	}
	r.rehearse(c)
	k := simrt.NewKernel()
	c.prepare(k)
	interrupted := false
	for i := 1 + r.Fl.N(3); i > 0; i-- {
		power := false
		when := ""
		switch r.Fl.N(4) {
		case 0:
			r.faultPlan(k, c.ops, 2)
			if r.Fl.N(3) == 1 {
				k.FullAt = r.Fl.N(c.bytes + 1)
			}
			when = "disk errors"
		case 1:
			power = true
			fallthrough
		default:
			k.KillAt = r.Fl.N(c.ops)
			k.KillMode = r.Fl.N(3)
			when = "being killed"
			if power {
				when = "a power loss"
				k.StartJournal()
			}
			if r.Fl.N(4) == 1 {
				r.faultPlan(k, c.ops, 1)
				when += " with disk errors"
			}
		}
		r.Desc("%s; %d files exist; kill at %d/%d; %s", c.op, len(c.pre), k.KillAt, k.KillMode, describeFaults(k))
		n0 := 0
		for _, n := range k.Fired {
			n0 += n
		}
		var other *simrt.Other
		if r.Fl.N(6) == 1 {
			b := k.Clone()
			b.Pid, b.Record = k.Pid+1, &simrt.Prog{}
			r.gen(c, b)
			other = r.bursts(k, b.Record, c.ops)
			when += " beside another generation"
		}
		res, w := r.gen(c, k)
		k.Events = nil
		if other != nil && !power && r.Fl.N(2) == 1 {
			other.RunTo(1 << 30)
		}
		n1 := 0
		for _, n := range k.Fired {
			n1 += n
		}
		interrupted = interrupted || n1 > n0
		if res.Panic != "" {
			r.Failf("panic", "%s panics on %s: %s", c.op.Name, when, quote(res.Panic))
		}
		r.St.Outcomes[c.op.Name+" "+when+": "+faultOutcome(res)]++
		_ = w
		if power {
			k.PowerLoss(r.Ch.S("power"))
		}
		r.whole(c, k, when)
		k.Reboot()
		k.KillAt, k.FullAt, k.Faults = -1, -1, nil
	}
	r.trivial = !interrupted
	res, _ := r.gen(c, k)
	if res.Err != "" || res.Panic != "" {
		r.Failf("cannot be rerun", "%s without faults on the tree left by interrupted ones: %s%s", c.op.Name, res.Err, res.Panic)
	}
	for _, n := range c.names {
		p := path.Join(c.op.Dir, n)
		if got, ok := k.Get(p); !ok || got != c.final(n) {
			r.Failf("rerun differs", "after interruption and a rerun that reports success, %s is %s instead of %d bytes", n, state(k, p), len(c.final(n)))
		}
	}
}
