//go:build simcmd

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"simrt"
)

func init() {
	register(&Prop{ID: "P13", Run: p13, Quick: 160000, Deep: 50000000, QuickS: 90, DeepS: 600,
		Rule: "A run makes an API description and a bundle, starts the command with the swagger-ui generator and lets 1-5 concurrent clients send 1-4 requests each (pages, the description, unknown paths, HEAD, ranges, conditional), reading slowly or going away, while read errors hit the bundle. Trivial: a single request.",
		Real: []string{cmdReal}, Stub: []string{cmdStub},
		Assume: []string{"A response writer takes bytes out of the buffer it is given only during Write."}})
	register(&Prop{ID: "P14", Run: p14, Quick: 120000, Deep: 50000000, QuickS: 90, DeepS: 600,
		Rule: "A run starts the command with the swagger-ui generator 1-4 times on one home directory while the network refuses, answers with an error or ends the download early, the disk fails or fills up, the process is killed or power is lost; then once more without faults. Trivial: nothing went wrong.",
		Real: []string{cmdReal}, Stub: []string{cmdStub},
		Assume: []string{"The HTTP transport reports a body that ends before its announced or chunked end as an error, as net/http does.",
			"After a power loss, the name space is that of some moment since the last sync, and a file not synced after its last write may have lost any of its content."}})
}

type browser struct {
	cmd   *command
	b     *bundle
	cache string
	docs  map[string]string // what a client has to get, by path
	api   string
	name  string
	ver   string
	other *browser // for another release, in the same home directory
}

const defaultRelease = "v3.43.0"

func (r *Run) browser() *browser {
	if r.In.N(4) == 1 {
		return r.browserOf("v4.1.3")
	}
	return r.browserOf(defaultRelease)
}

func (r *Run) browserOf(version string) *browser {
	s := r.In
	br := &browser{cmd: &command{env: map[string]string{}}, ver: version}
	dir := home + "/Downloads"
	if version != defaultRelease {
		br.cmd.env["SWAGGER_RELEASE"] = version
	}
	if s.N(4) == 1 {
		dir = "/work/cache"
		br.cmd.env["DOWNLOAD_DIRECTORY"] = dir
	}
	br.cache = dir + "/" + version + ".zip"
	br.b = makeBundle(s, version)
	in := "/work/in/api.json"
	m := services[simrt.Pick(s, simrt.SortedKeys(services)...)]
	br.api = text(m)
	br.name = fmt.Sprint(m["name"])
	if s.N(4) == 1 {
		in = "/work/in/api.sadl"
		br.api = "name hello\n\ntype Hello Struct {\n  to String (required)\n}\n\nhttp GET \"/hello/{to}\" {\n  to String (required)\n  expect 200 {\n    body Hello\n  }\n}\n"
		br.name = "hello"
	}
	br.cmd.args = []string{"-g", "swagger-ui", in}
	br.show()
	return br
}

// show notes what clients have to get of the bundle.
func (br *browser) show() {
	br.docs = map[string]string{}
	for p, t := range br.b.docs {
		br.docs[p] = t
	}
	br.docs["/index.html"] = strings.ReplaceAll(br.docs["/index.html"], petstore, br.name+".json")
	br.docs["/"] = br.docs["/index.html"]
}

// republish puts another bundle on the network, under the same release.
func (r *Run) republish(br *browser) {
	api := "/" + br.name + ".json"
	doc := br.docs[api]
	br.b = makeBundle(r.In, br.ver)
	br.show()
	br.docs[api] = doc
	r.St.Fired["bundle-republished"]++
}

// rename makes it show the API description that another one shows.
func (br *browser) rename(o *browser) {
	br.api, br.name = o.api, o.name
	br.cmd.args = o.cmd.args
	br.docs["/index.html"] = strings.ReplaceAll(br.b.docs["/index.html"], petstore, br.name+".json")
	br.docs["/"] = br.docs["/index.html"]
}

// net is a network that has the releases.
func (br *browser) net(n *netPlan) *netPlan {
	n.path = "/" + br.ver + ".zip"
	n.others = map[string]string{}
	if br.other != nil {
		n.others["/"+br.other.ver+".zip"] = br.other.b.zip
	}
	return n
}

func (br *browser) prepare(k *simrt.Kernel, cached bool) {
	k.MkdirAll(home + "/Downloads")
	k.MkdirAll("/work/cache")
	k.MkdirAll("/tmp")
	k.Put(br.cmd.args[len(br.cmd.args)-1], br.api)
	if cached {
		k.Put(br.cache, br.b.zip)
	}
}

// learn starts the browser without faults and looks at every document once.
func (r *Run) learn(br *browser) {
	k := simrt.NewKernel()
	br.prepare(k, true)
	w := simrt.PlainWorld(k)
	var as []*answer
	http.SimTransport = okNet(br.b.zip).roundTrip
	http.SimServe = func(addr string, h http.Handler) error {
		for _, p := range append(simrt.SortedKeys(br.docs), "/"+br.name+".json") {
			a := &answer{method: "GET", path: p}
			ask(h, a, &conn{piece: 1 << 20, leave: -1}, nil)
			as = append(as, a)
		}
		return http.ErrServerClosed
	}
	r.Exec(w, br.cmd.task())
	r.browserEnded(w)
	if len(as) == 0 {
		r.Failf("no server", "the API browser does not start without faults: status %d, %s%s", cmdStatus(w), quote(string(k.Stdout)), quote(string(k.Stderr)))
	}
	for _, a := range as {
		want, ok := br.docs[a.path]
		if !ok {
			want = string(a.body)
			var j map[string]any
			if err := json.Unmarshal(a.body, &j); err != nil || j["openapi"] == nil {
				r.Failf("no description", "%s is not an API description: %v %s", a.path, err, quote(want))
			}
			br.docs[a.path] = want
		}
		if e := a.judge(want, true, false); e != "" {
			r.Failf("wrong document", "a single request for %s: %s", a.path, e)
		}
	}
}

func (r *Run) browserEnded(w *simrt.World) {
	switch w.Killed {
	case "hang", "deadlock", "crash":
		r.Failf(w.Killed, "the API browser: %s in %s", firstLine(w.Crash), simrt.TopFrames(w.Stack, 4))
	}
}

func p13(r *Run) {
	br := r.browser()
	r.learn(br)
	k := simrt.NewKernel()
	br.prepare(k, true)
	clients := r.In.Range(1, 5)
	paths := simrt.SortedKeys(br.docs)
	type todo struct {
		a      *answer
		c      *conn
		head   map[string]string
		stalls bool
	}
	waited := 0
	var plans [][]todo
	total := 0
	for i := 0; i < clients; i++ {
		var ts []todo
		for j := r.In.Range(1, 4); j > 0; j-- {
			s := r.In
			a := &answer{method: "GET", path: paths[s.N(len(paths))]}
			if s.N(3) == 1 {
				a.path = "/" + br.name + ".json"
			}
			c := &conn{piece: simrt.Pick(s, 1<<20, 1000, 300, 4096), pause: time.Duration(s.N(3)) * time.Millisecond, leave: -1}
			head := map[string]string{}
			n := len(br.docs[a.path])
			mode := s.N(12)
			if n == 0 && mode > 2 {
				mode = 0 // no ranges of nothing
			}
			switch mode {
			case 1:
				a.path = simrt.Pick(s, "/nothing", "/README.md", "/index.htm", "/dist/index.html", "/swagger-ui.css/x", "/src/main.js", "/swagger-ui")
			case 2:
				a.method = "HEAD"
			case 3:
				from := s.N(n + 2)
				a.rng = fmt.Sprintf("bytes=%d-%d", from, from+s.N(500))
				head["Range"] = a.rng
			case 4:
				a.rng = fmt.Sprintf("bytes=-%d", 1+s.N(300))
				head["Range"] = a.rng
			case 5:
				head["If-Modified-Since"] = time.Unix(1700000000+int64(s.N(3)-1)*86400*365, 0).UTC().Format(http.TimeFormat)
			case 6:
				c.leave = s.N(n + 1)
				c.piece = min(c.piece, 300)
			}
			ts = append(ts, todo{a: a, c: c, head: head})
			total++
			waited++
		}
		if r.Fl.N(6) == 1 { // the last request of the client stalls until all others are answered
			waited--
			c := ts[len(ts)-1].c
			c.stall = func() {
				r.St.Fired["stalled-client"]++
				simrt.Block(func() bool { return waited == 0 })
			}
			ts[len(ts)-1].stalls = true
		}
		plans = append(plans, ts)
	}
	k.ByRoot = map[int][]simrt.Fault{}
	for i := r.Fl.N(4) - 1; i > 0; i-- {
		root := 1 + r.Fl.N(clients)
		k.ByRoot[root] = append(k.ByRoot[root], simrt.Fault{Op: r.Fl.N(12), Kind: r.Fl.N(16)})
	}
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	w.MainExits = true
	var handler http.Handler
	busy := clients
	http.SimTransport = okNet(br.b.zip).roundTrip
	http.SimServe = func(addr string, h http.Handler) error {
		handler = h
		simrt.Block(func() bool { return busy == 0 })
		return http.ErrServerClosed
	}
	fns := []func(){br.cmd.task()}
	for i := range plans {
		ts := plans[i]
		r.Desc("client %d: %s", i+1, describeTodo(len(ts), func(j int) string { return ts[j].a.method + " " + ts[j].a.path + " " + ts[j].a.rng }))
		fns = append(fns, func() {
			simrt.Block(func() bool { return handler != nil || br.cmd.ended })
			if handler != nil {
				for _, t := range ts {
					ask(handler, t.a, t.c, t.head)
					if !t.stalls {
						waited--
					}
				}
			}
			busy--
		})
	}
	r.Exec(w, fns...)
	r.browserEnded(w)
	if handler == nil {
		r.Failf("no server", "the API browser does not start: status %d", cmdStatus(w))
	}
	r.trivial = total < 2
	faulty := len(k.Fired) > 0
	for i, ts := range plans {
		for _, t := range ts {
			want, known := br.docs[t.a.path]
			r.St.Outcomes[fmt.Sprintf("%s %d", t.a.method, t.a.status)]++
			if e := t.a.judge(want, known, faulty); e != "" {
				r.Failf("wrong document", "client %d, %s %s %s: %s", i+1, t.a.method, t.a.path, t.a.rng, e)
			}
			if t.a.left {
				r.St.Fired["client-leaves"]++
			}
			if t.c.pause > 0 {
				r.St.Fired["slow-client"]++
			}
		}
	}
}

func describeTodo(n int, f func(int) string) string {
	var t []string
	for i := 0; i < n; i++ {
		t = append(t, strings.TrimSpace(f(i)))
	}
	return strings.Join(t, ", ")
}

// cacheWhole checks that the place of the cached bundle is empty or holds the whole bundle.
func (r *Run) cacheWhole(br *browser, k *simrt.Kernel, had bool, when string) bool {
	got, ok := k.Get(br.cache)
	if ok && got != br.b.zip {
		r.Failf("incomplete bundle", "after %s, the cached bundle is %s instead of %s", when, crc(got), crc(br.b.zip))
	}
	if !ok && k.Exists(br.cache) {
		r.Failf("incomplete bundle", "after %s, %s is not a file", when, br.cache)
	}
	if !ok && had {
		r.Failf("bundle lost", "after %s, the complete cached bundle is gone", when)
	}
	return ok
}

// browse starts the browser once and looks at two documents if it serves.
func (r *Run) browse(br *browser, k *simrt.Kernel, n *netPlan) (*simrt.World, bool) {
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	if k.Record != nil {
		w.RandSeed, w.Base = 99, w.Base+77777
	}
	served := false
	var as []*answer
	http.SimTransport = n.roundTrip
	http.SimServe = func(addr string, h http.Handler) error {
		served = true
		k.KillAt = -1
		k.Faults = nil
		for _, p := range []string{"/index.html", "/swagger-ui-bundle.js"} {
			a := &answer{method: "GET", path: p}
			ask(h, a, &conn{piece: 1 << 20, leave: -1}, nil)
			as = append(as, a)
		}
		return http.ErrServerClosed
	}
	k.Stdout, k.Stderr = nil, nil
	r.Exec(w, br.cmd.task())
	r.browserEnded(w)
	for f, c := range n.fired {
		r.St.Fired[f] += c
	}
	for _, a := range as {
		if e := a.judge(br.docs[a.path], true, false); e != "" {
			r.Failf("serves an incomplete bundle", "%s: %s", a.path, e)
		}
	}
	return w, served
}

// beside records what another start of the same command does on this disk by itself, and
// lets it do that in up to three bursts between the operations of the next start.
func (r *Run) beside(br *browser, k *simrt.Kernel, ops int) *simrt.Other {
	c := k.Clone()
	c.Pid = k.Pid + 1
	c.Record = &simrt.Prog{}
	if br.other != nil && r.Fl.N(4) == 1 {
		br = br.other
	}
	r.browse(br, c, br.net(r.netPlan(br.b.zip)))
	return r.bursts(k, c.Record, ops)
}

// outFault reports that a message may have been lost to a fault.
func outFault(k *simrt.Kernel) bool {
	for f := range k.Fired {
		if strings.HasPrefix(f, "stdout:") || strings.HasPrefix(f, "stderr:") {
			return true
		}
	}
	return false
}

func p14(r *Run) {
	br := r.browser()
	r.learn(br)
	if r.In.N(3) == 1 {
		br.other = r.browserOf(map[bool]string{true: "v3.20.1", false: defaultRelease}[br.ver == defaultRelease])
		br.other.other = br
		br.other.rename(br)
		r.learn(br.other)
	}
	// how many kernel operations a download takes
	k0 := simrt.NewKernel()
	br.prepare(k0, false)
	if _, ok := r.browse(br, k0, okNet(br.b.zip)); !ok {
		r.Failf("no server", "the API browser does not download its bundle without faults: %s%s", quote(string(k0.Stdout)), quote(string(k0.Stderr)))
	}
	r.cacheWhole(br, k0, true, "a download without faults")
	ops := k0.Ops
	k := simrt.NewKernel()
	cached := r.In.N(6) == 1
	br.prepare(k, cached)
	main, had := br, map[*browser]bool{br: cached}
	if br.other != nil {
		br.other.prepare(k, false)
	}
	wrong := false
	for i := 1 + r.Fl.N(4); i > 0; i-- {
		br := main
		if br.other != nil && r.Fl.N(2) == 1 {
			br = br.other
		}
		if !had[br] && r.In.N(4) == 1 {
			r.republish(br)
		}
		n := br.net(r.netPlan(br.b.zip))
		when := n.String()
		if br != main {
			when += " (" + br.ver + ")"
		}
		power := false
		switch r.Fl.N(5) {
		case 1:
			k.KillAt, k.KillMode = r.Fl.N(ops), r.Fl.N(3)
			when += ", killed"
		case 2:
			k.KillAt, k.KillMode = r.Fl.N(ops+2), r.Fl.N(3)
			power = true
			k.StartJournal()
			when += ", power lost"
		case 3:
			r.faultPlan(k, ops, 2)
			when += ", disk errors"
		case 4:
			k.FullAt = r.Fl.N(len(br.b.zip) + 1)
			when += ", disk full"
		}
		before := 0
		for _, c := range k.Fired {
			before += c
		}
		var other *simrt.Other
		if r.Fl.N(4) == 1 {
			other = r.beside(br, k, ops)
			when += ", another start at the same time"
		}
		w, served := r.browse(br, k, n)
		k.Events = nil
		if other != nil && !power && r.Fl.N(2) == 1 {
			other.RunTo(1 << 30)
		}
		after := len(n.fired)
		for _, c := range k.Fired {
			after += c
		}
		r.Desc("start %d: %s: kill at %d/%d; %s", i, when, k.KillAt, k.KillMode, describeFaults(k))
		wrong = wrong || after > before || power
		what := "fails"
		if served {
			what = "serves"
		} else if w.Killed == "killed" {
			what = "is killed"
		} else if st := cmdStatus(w); st == 0 {
			r.Failf("silent", "after %s, the command does not serve and exits with zero", when)
		} else if len(k.Stdout)+len(k.Stderr) == 0 && !outFault(k) {
			r.Failf("silent", "after %s, the command does not serve and says nothing", when)
		}
		r.St.Outcomes[what]++
		if power {
			k.PowerLoss(r.Ch.S("power"))
			k.Fired["power-loss"]++
			r.St.Fired["power-loss"]++
		}
		for _, b := range []*browser{main, main.other} {
			if b != nil {
				had[b] = r.cacheWhole(b, k, had[b] && !power, when)
			}
		}
		k.Reboot()
		k.Heal()
		k.KillAt = -1
	}
	r.trivial = !wrong
	for _, br := range []*browser{main, main.other} {
		if br == nil {
			continue
		}
		if !had[br] && r.In.N(4) == 1 {
			r.republish(br)
		}
		_, served := r.browse(br, k, br.net(okNet(br.b.zip)))
		if !served {
			r.Failf("does not recover", "a start without faults after failed ones does not serve: %s%s", quote(string(k.Stdout)), quote(string(k.Stderr)))
		}
		r.cacheWhole(br, k, true, "a start without faults")
	}
}
