package main

import (
	"fmt"
	"os"
	"path"
	"regexp"
	"strings"
	"time"

	"simrt"
)

var dateLine = regexp.MustCompile(`(?m)^Date: .*$`)

func init() {
	os.Unsetenv("DOMAIN")
	os.Setenv("HOSTNAME", "build.example.org")
	register(&Prop{ID: "P04", Run: p04, Quick: 144000, Deep: 50000000, QuickS: 90, DeepS: 600,
		Rule: "A run generates a model and configuration, exports it once in a reference process and then in 2-4 more processes with seeded map-iteration and directory order, clock, zone, pid, host name, random numbers and unrelated environment, and compares everything. Trivial: no order choice was made and the export failed."})
	register(&Prop{ID: "P05", Run: p05, Quick: 144000, Deep: 50000000, QuickS: 90, DeepS: 600,
		Rule: "A run generates a document or value, imports, loads or validates it in a reference process and then in 2-4 more processes with seeded map-iteration order, clock, zone, pid, host name and environment, and compares model, error and output."})
}

var zones = []*time.Location{time.UTC, time.FixedZone("EST", -5*3600), time.FixedZone("IST", 5*3600+1800), time.FixedZone("NZ", 13*3600), time.FixedZone("", -3600*11)}

// vary makes a process that differs from the reference in everything that must not matter.
func (r *Run) vary(k *simrt.Kernel) *simrt.World {
	s := r.Ch.S("env")
	w := simrt.NewWorld(r.Ch, k)
	w.Base = 1600000000000000000 + int64(s.N(1<<30))*500000000
	w.Zone = zones[s.N(len(zones))]
	k.Pid = 100 + s.N(30000)
	k.Host = simrt.Pick(s, fmt.Sprint("host-", s.N(100)), "h", "localhost", "node.example.com", "build-agent-0123456789.internal.corp.example.org")
	w.RandSeed = s.U()
	os.Setenv("USER", fmt.Sprint("user", s.N(9)))
	os.Setenv("LANG", simrt.Pick(s, "C", "de_DE.UTF-8", "tr_TR"))
	os.Setenv("TZ", simrt.Pick(s, "", "Asia/Tokyo"))
	return w
}

var numbers = regexp.MustCompile(`[0-9]+`)

func setenv(k, v string) {
	if v == "" {
		os.Unsetenv(k)
	} else {
		os.Setenv(k, v)
	}
}

// obstacle is something in the output tree that lets the generation fail in the same way every time.
func (r *Run) obstacle(o *Op) (func(k *simrt.Kernel), simrt.Tree) {
	res, _, _ := r.alone(o, nil)
	files := simrt.SortedKeys(res.Files)
	if len(files) == 0 {
		return nil, nil
	}
	f := files[r.In.N(len(files))]
	if !strings.HasPrefix(f, "/") {
		f = o.Dir + "/" + f
	}
	switch r.In.N(4) {
	case 0:
		r.Desc("a directory instead of %s", f)
		return func(k *simrt.Kernel) { k.MkdirAll(f) }, res.Files
	case 1:
		d := path.Dir(f)
		if d == o.Dir {
			return nil, nil
		}
		r.Desc("a file instead of the directory %s", d)
		return func(k *simrt.Kernel) { k.MkdirAll(path.Dir(d)); k.Put(d, "in the way") }, res.Files
	case 2:
		r.Desc("no permission to write in %s", path.Dir(f))
		return func(k *simrt.Kernel) { k.MkdirAll(path.Dir(f)); k.SetMode(path.Dir(f), 0555) }, res.Files
	}
	n := 0
	for _, c := range res.Files {
		n += len(c)
	}
	at := 1 + r.In.N(n)
	r.Desc("the disk is full after %d bytes", at)
	return func(k *simrt.Kernel) { k.FullAt = at }, res.Files
}

func mask(o *Op, res *Result) {
	if o.Name == "httptrace" {
		res.Out = dateLine.ReplaceAllString(res.Out, "Date: *")
	}
}

func (r *Run) same(o *Op) {
	r.Desc("%s", o)
	// documented defaults of the Java generator: part of the configuration
	setenv("DOMAIN", simrt.Pick(r.In, "", "", "acme.org"))
	setenv("HOSTNAME", simrt.Pick(r.In, "build.example.org", "", "box"))
	var in func(k *simrt.Kernel)
	var files simrt.Tree
	if o.Kind == "generate" && r.In.Odds(1, 4) {
		in, files = r.obstacle(o)
	}
	// names of temporary files are random
	blur := func(res *Result) {
		mask(o, res)
		if in == nil {
			return
		}
		res.Err = numbers.ReplaceAllString(res.Err, "#")
		res.Out = numbers.ReplaceAllString(res.Out, "#")
		for _, p := range simrt.SortedKeys(res.Files) {
			if _, ok := files[p]; !ok {
				delete(res.Files, p)
			}
		}
	}
	ref, _, _ := r.alone(o, in)
	blur(ref)
	r.St.Outcomes[o.Name+" "+ref.outcome()]++
	draws := 0
	for i := 2 + r.In.N(3); i > 0; i-- {
		k := simrt.NewKernel()
		o.prepare(k)
		if in != nil {
			in(k)
		}
		w := r.vary(k)
		res := &Result{}
		r.Exec(w, o.task(k, nil, res))
		r.ended(w, o)
		blur(res)
		draws += w.OrderDraws
		if d := ref.diff(res); d != "" {
			r.Failf(o.Name+" varies", "%s", d)
		}
	}
	r.mix(ref.Err + ref.Val + ref.Out + ref.Panic + fmt.Sprint(len(ref.Files)))
	r.trivial = draws == 0 && (ref.Err != "" || ref.Panic != "")
}

func p04(r *Run) { r.same(wildly(r.In, opExport(r.In, "/work/out"))) }

func p05(r *Run) {
	switch r.In.N(6) {
	case 1:
		r.same(opValidate(r.In, "/work"))
	case 2:
		r.same(opLoadData(r.In, "/work/in"))
	default:
		r.same(opImport(r.In, "/work/in"))
	}
}
