package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"simrt"
)

const impReal = "the importers and loaders of the library (openapi, graphql, SADL parser, data.go, model.go) with the real YAML and GraphQL libraries, instrumented but otherwise unchanged; package os and encoding/json of the standard library"

func init() {
	register(&Prop{ID: "P08", Run: p08, Quick: 128000, Deep: 50000000, QuickS: 90, DeepS: 600,
		Rule: "A run generates a document (or several files), imports it without faults, then again with an input file missing, unreadable, replaced by a directory or dangling link, or with 1-3 faults on the open, stat and read calls. Trivial: nothing was wrong with the input and no fault fired.",
		Real: []string{impReal}, Stub: []string{genStub}})
	register(&Prop{ID: "P09", Run: p09, Quick: 640000, Deep: 50000000, QuickS: 75, DeepS: 600,
		Rule: "A run generates a valid document and damages its stored bytes: cut at any point, blocks zeroed, repeated, lost or taken from another document, bits flipped, up to 3 times; then imports it with at most 3 million statements. Trivial: the damage left the bytes as they were.",
		Real: []string{impReal}, Stub: []string{genStub}})
	register(&Prop{ID: "P10", Run: p10, Quick: 120000, Deep: 50000000, QuickS: 60, DeepS: 600,
		Rule: "A run sets process zone and clock, lets the clock jump, takes timestamps from the clock and from arbitrary instants in several zones, prints, marshals and reads them back, or exports HTTP traces two or three times in one process while the clock moves between and during the exports. Trivial: no timestamp or date was printed.",
		Real: []string{"timestamp.go, httptrace, instrumented but otherwise unchanged; package time of the standard library"}, Stub: []string{genStub}})
	register(&Prop{ID: "P11", Run: p11, Quick: 96000, Deep: 50000000, QuickS: 90, DeepS: 600,
		Rule: "A run generates a model, possibly one the exporter cannot convert, exports it without faults, then again into a standard output that takes a limited number of bytes or fails at one of the writes. Trivial: no fault fired and the conversion succeeds.",
		Real: []string{"openapi, graphql and httptrace exporters, instrumented but otherwise unchanged"}, Stub: []string{genStub}})
}

func opRead(s *simrt.Stream) *Op {
	if s.N(6) == 1 {
		return opLoadData(s, "/work/in")
	}
	o := opImport(s, "/work/in")
	if s.Odds(1, 8) {
		switch o.Name {
		case "import-openapi":
			loadOnly(s, o, openapi.Load, openapi.IsValidFile)
		case "import-swagger":
			loadOnly(s, o, openapi.LoadSwagger, openapi.IsValidSwaggerFile)
		}
	}
	return o
}

func p08(r *Run) {
	o := opRead(r.In)
	if r.In.Odds(1, 60) {
		r.padded(o)
	}
	doc := simrt.SortedKeys(o.Files)
	if r.Fl.N(2) == 1 {
		beside(r.Fl, o)
	}
	ref, rk, _ := r.alone(o, nil)
	k := simrt.NewKernel()
	o.prepare(k)
	var used []string // files that were read
	for _, p := range doc {
		if rk.ReadFully[p] > 0 {
			used = append(used, p)
		}
	}
	gone := ""
	if len(used) > 0 && r.Fl.N(5) == 1 {
		gone = used[r.Fl.N(len(used))]
		if r.Fl.N(3) == 1 {
			gone = used[len(used)-1]
		}
		what := simrt.Pick(r.Fl, "missing", "unreadable", "a directory", "a dangling link")
		switch what {
		case "missing":
			k.Remove(gone)
		case "unreadable":
			k.SetMode(gone, 0)
		case "a directory":
			k.Remove(gone)
			k.MkdirAll(gone)
		default:
			k.Remove(gone)
			k.PutLink(gone, "/nowhere/at/all")
		}
		r.St.Fired["input-"+strings.ReplaceAll(what, " ", "-")]++
		r.Desc("%s; %s is %s", o, gone, what)
	} else {
		r.faultPlan(k, rk.Ops, 3)
		r.Desc("%s; %s", o, describeFaults(k))
	}
	pre := fired(k)
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	res := &Result{}
	r.Exec(w, o.task(k, nil, res))
	r.ended(w, o)
	r.St.Outcomes[o.Name+" "+faultOutcome(res)]++
	r.trivial = fired(k) == pre && gone == ""
	if w.Exited {
		r.Failf("exit", "%s ends the process with status %d", o.Name, w.ExitCode)
	}
	if gone != "" {
		if res.Panic != "" {
			r.Failf("panic", "%s panics when %s cannot be read: %s", o.Name, gone, quote(res.Panic))
		}
		if res.Err == "" {
			r.Failf("unread input accepted", "%s succeeds although %s cannot be read", o.Name, gone)
		}
		return
	}
	hard, other := 0, 0
	for _, f := range simrt.SortedKeys(k.Fired) {
		switch {
		case strings.HasSuffix(f, ":EINTR") || strings.HasSuffix(f, ":short"):
		case strings.HasPrefix(f, "read:") || strings.HasPrefix(f, "open:") || strings.HasPrefix(f, "dents:"):
			hard++
		default:
			other++
		}
	}
	if hard+other == 0 {
		if d := ref.diff(res); d != "" {
			r.Failf("short read matters", "%s gives another result when reads are short or interrupted: %s", o.Name, d)
		}
		return
	}
	if res.Panic != "" && ref.Panic == "" {
		r.Failf("panic", "%s panics on a read fault: %s", o.Name, quote(res.Panic))
	}
	if res.Err != "" || res.Panic != "" {
		return
	}
	if d := ref.diff(res); d != "" {
		r.Failf("partial input accepted", "%s succeeds after a failed read with another result: %s", o.Name, d)
	}
	if hard > 0 {
		for _, p := range used {
			if k.ReadFully[p] == 0 {
				r.Failf("partial input accepted", "%s succeeds although %s was never read to its end", o.Name, p)
			}
		}
	}
}

// padded makes a document long, with the same content; that must not matter.
func (r *Run) padded(o *Op) {
	ref, _, _ := r.alone(o, nil)
	n := simrt.Pick(r.In, 600, 5000, 33000, 70000)
	if !strings.HasSuffix(o.Main, ".json") { // read step by step
		n = min(n, 20000)
	} else if r.In.Odds(1, 10) {
		n = 1<<20 + 7000
	}
	t := o.Files[o.Main]
	at := 0
	if strings.HasPrefix(t, "{") {
		at = 1
	} else if i := strings.Index(t, "\n"); i >= 0 && strings.HasSuffix(o.Main, ".yaml") {
		at = i + 1
	}
	o.Files[o.Main] = t[:at] + strings.Repeat("\n", n) + t[at:]
	res, _, _ := r.alone(o, nil)
	if ref.Err != "" || ref.Panic != "" {
		return
	}
	r.St.Outcomes["long documents"]++
	if d := ref.diff(res); d != "" {
		r.Desc("%s, with %d empty lines", o, n)
		r.Failf("partial input accepted", "%s gives another result for a document with %d empty lines: %s", o.Name, n, d)
	}
}

// beside puts other files next to the ones of an operation.
func beside(s *simrt.Stream, o *Op) {
	other := opRead(s)
	for _, p := range simrt.SortedKeys(o.Files) {
		stem := p
		if i := strings.LastIndex(p, "."); i > strings.LastIndex(p, "/") {
			stem = p[:i]
		}
		t := o.Files[p]
		if s.N(3) == 1 {
			t = other.Files[other.Main]
		}
		for _, q := range []string{stem, stem + ".yaml", stem + ".yml", stem + ".json", stem + ".sadl", stem + ".graphql", p + ".bak", p + "~", p + ".orig", p + ".tmp", p + ".old", p + ".new", p + ".gz", strings.ToUpper(p), strings.Replace(p, "/in/", "/", 1)} {
			if _, ok := o.Files[q]; !ok && s.N(4) != 1 {
				o.Files[q] = t
			}
		}
	}
}

// damage is what bad storage does to a file.
func damage(s *simrt.Stream, b []byte, other string) []byte {
	if len(b) == 0 {
		return b
	}
	at := s.N(len(b))
	n := 1 + s.N(64)
	if s.N(4) == 1 {
		at = at / 512 * 512
		n = 512
	}
	end := at + n
	if end > len(b) {
		end = len(b)
	}
	switch s.N(18) {
	case 0:
		return b[:at]
	case 1:
		b[at] ^= 1 << s.N(8)
	case 2:
		for i := 1 + s.N(8); i > 0; i-- {
			b[s.N(len(b))] ^= 1 << s.N(8)
		}
	case 3: // zeroed block
		for i := at; i < end; i++ {
			b[i] = 0
		}
	case 4: // lost block
		return append(b[:at:at], b[end:]...)
	case 5: // repeated block
		return append(append(append([]byte(nil), b[:end]...), b[at:end]...), b[end:]...)
	case 6: // block of another file
		if len(other) > 0 {
			o := s.N(len(other))
			copy(b[at:end], other[o:])
		}
	case 7: // byte replaced by one that means something
		b[at] = "{}[]\":,()<>=/#@!|$ \n0-9e.&*?"[s.N(28)]
	case 8, 9, 10: // a letter or digit turned into another
		for i := 1 + s.N(3); i > 0; i-- {
			at := s.N(len(b))
			for j := 0; j < 64 && !alnum(b[at]); j++ {
				at = (at + 1) % len(b)
			}
			if c := b[at] ^ 1<<s.N(3); alnum(b[at]) && alnum(c) {
				b[at] = c
			}
		}
	case 11: // a line lost
		from, to := lineAt(b, at)
		return append(b[:from:from], b[to:]...)
	case 12: // a line in the place of another
		from, to := lineAt(b, at)
		f2, t2 := lineAt(b, s.N(len(b)))
		return append(append(append([]byte(nil), b[:from]...), b[f2:t2]...), b[to:]...)
	case 13: // a string in the place of another
		x, y := stringsOf(b), stringsOf(b)
		if len(x) > 1 {
			i, j := x[s.N(len(x))], y[s.N(len(y))]
			return append(append(append([]byte(nil), b[:i[0]]...), b[j[0]:j[1]]...), b[i[1]:]...)
		}
	case 14: // a number in the place of another
		if x := numberRe.FindAllIndex(b, -1); len(x) > 0 {
			i := x[s.N(len(x))]
			n := simrt.Pick(s, "0", "-1", "99999999999999999999", "9223372036854775807", "2147483648", "-9223372036854775808", "1e9", "1e400", "0.5", "1e5000", "00")
			return append(append(append([]byte(nil), b[:i[0]]...), n...), b[i[1]:]...)
		}
	case 15, 16, 17: // a value lost, or in the place of another
		return misplace(s, b)
	}
	return b
}

var numberRe = regexp.MustCompile(`[0-9]+`)

// misplace puts nothing or another value of the document in the place of a value.
func misplace(s *simrt.Stream, b []byte) []byte {
	var v any
	if json.Unmarshal(b, &v) == nil {
		var nodes []any
		var count func(x any)
		count = func(x any) {
			nodes = append(nodes, x)
			switch x := x.(type) {
			case map[string]any:
				for _, k := range simrt.SortedKeys(x) {
					count(x[k])
				}
			case []any:
				for _, y := range x {
					count(y)
				}
			}
		}
		count(v)
		at, with := s.N(len(nodes)), any(nil)
		switch s.N(8) {
		case 1:
			with = map[string]any{}
		case 2:
			with = []any{}
		case 3:
			with = ""
		case 4, 5:
			with = nodes[s.N(len(nodes))]
		case 6:
			with = []any{nil}
		}
		i := -1
		var change func(x any) any
		change = func(x any) any {
			i++
			if i == at {
				return with
			}
			switch x := x.(type) {
			case map[string]any:
				m := map[string]any{}
				for _, k := range simrt.SortedKeys(x) {
					m[k] = change(x[k])
				}
				return m
			case []any:
				a := []any{}
				for _, y := range x {
					a = append(a, change(y))
				}
				return a
			}
			return x
		}
		if t, err := json.Marshal(change(v)); err == nil {
			return t
		}
		return b
	}
	// a line of YAML or of another language: what is after the key, and below it, is lost
	lines := strings.SplitAfter(string(b), "\n")
	i := s.N(len(lines))
	for j := 0; j < 40 && !strings.Contains(lines[i], ":") && !strings.Contains(lines[i], "- "); j++ {
		i = (i + 1) % len(lines)
	}
	body := strings.TrimLeft(lines[i], " ")
	ind := len(lines[i]) - len(body)
	for strings.HasPrefix(body, "- ") && s.N(2) == 0 {
		ind, body = ind+2, body[2:]
	}
	keep := lines[i][:ind]
	if k := strings.Index(body, ":"); k >= 0 && !strings.HasPrefix(body, "- ") {
		keep += body[:k+1]
	} else {
		keep += "-"
	}
	keep += simrt.Pick(s, "", " null", " {}", " []", " ''", " [null]", " 0") + "\n"
	j := i + 1
	for j < len(lines) && len(lines[j])-len(strings.TrimLeft(lines[j], " ")) > ind && s.N(20) != 1 {
		j++
	}
	return []byte(strings.Join(lines[:i], "") + keep + strings.Join(lines[j:], ""))
}

func alnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func lineAt(b []byte, at int) (int, int) {
	from, to := at, at
	for from > 0 && b[from-1] != '\n' {
		from--
	}
	for to < len(b) && b[to] != '\n' {
		to++
	}
	if to < len(b) {
		to++
	}
	return from, to
}

var wordForm = regexp.MustCompile(`"[^"\n]*"|[A-Za-z0-9_$#/.]+`)

func stringsOf(b []byte) [][]int {
	return wordForm.FindAllIndex(b, -1)
}

func p09(r *Run) {
	o := opRead(r.In)
	o2 := opRead(r.In)
	k := simrt.NewKernel()
	o.prepare(k)
	changed := false
	for i := 1 + r.Fl.N(3); i > 0; i-- {
		ps := simrt.SortedKeys(o.Files)
		p := ps[r.Fl.N(len(ps))]
		k.Corrupt(p, func(b []byte) []byte {
			c := damage(r.Fl, append([]byte(nil), b...), o2.Files[o2.Main])
			changed = changed || string(c) != o.Files[p]
			return c
		})
	}
	if o.Name == "parse-sadl" && r.Fl.N(4) == 1 { // files that include each other, or themselves
		ps := simrt.SortedKeys(o.Files)
		for i := 1 + r.Fl.N(2); i > 0; i-- {
			p, q := ps[r.Fl.N(len(ps))], ps[r.Fl.N(len(ps))]
			k.Corrupt(p, func(b []byte) []byte {
				return append(b[:len(b):len(b)], "\ninclude \""+simrt.Pick(r.Fl, q, q[1:])+"\"\n"...)
			})
		}
		changed = true
		r.St.Fired["circular-include"]++
	}
	r.St.Fired["damaged-document"]++
	r.Desc("%s, damaged", o)
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	w.Budget = stepBudget(k)
	res := &Result{}
	r.Exec(w, o.task(k, nil, res))
	got, _ := k.Get(o.Main)
	if r.tracing {
		r.Desc("document: %s", got)
	}
	r.ended(w, o)
	r.St.Outcomes[o.Name+" "+faultOutcome(res)]++
	r.trivial = !changed
	if res.Panic != "" {
		r.Failf("panic in "+o.Name, "%s panics on a damaged document: %s in %s", o.Name, quote(res.Panic), res.Where)
	}
	if w.Exited {
		r.Failf("exit", "%s ends the process on a damaged document with status %d", o.Name, w.ExitCode)
	}
}

var stampForm = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)\.(\d{3})Z$`)

// instant reads a printed timestamp without the help of the code under test.
func instant(s string) (int64, bool) {
	m := stampForm.FindStringSubmatch(s)
	if m == nil {
		return 0, false
	}
	var n [8]int
	for i := 1; i < 8; i++ {
		n[i], _ = strconv.Atoi(m[i])
	}
	t := time.Date(n[1], time.Month(n[2]), n[3], n[4], n[5], n[6], n[7]*1000000, time.UTC)
	if int(t.Month()) != n[2] || t.Day() != n[3] || t.Hour() != n[4] || t.Minute() != n[5] || t.Second() != n[6] {
		return 0, false
	}
	return t.UnixMilli(), true
}

var allZones = append([]*time.Location{time.FixedZone("X", 14*3600), time.FixedZone("Y", -12*3600), time.FixedZone("Z", 20700), time.FixedZone("odd", 4*3600+1172)}, zones...)

func (r *Run) clock(w *simrt.World) {
	s := r.Ch.S("env")
	w.Zone = allZones[s.N(len(allZones))]
	w.Base = int64(s.N(1<<31))*1000000000*2 + int64(s.N(1000000000))
	if s.N(3) == 1 {
		w.Base = 1700000000123456789
	}
	if s.N(8) == 1 { // just before the turn of a year, day or second
		w.Base = time.Date(1970+s.N(200), 12, 31, 23, 59, 59, 999999000+s.N(1000), time.UTC).UnixNano()
	}
	if s.N(2) == 1 {
		w.Jump = func() int64 {
			switch s.N(8) {
			case 1:
				return int64(s.N(86400*400)) * 1000000000
			case 2:
				return -int64(s.N(86400)) * 1000000000
			case 3:
				return int64(s.N(2000)) * 1000000
			case 4:
				return -int64(s.N(2000)) * 1000000
			}
			return 0
		}
	}
}

func p10(r *Run) {
	if r.In.N(3) == 1 {
		p10trace(r)
		return
	}
	k := simrt.NewKernel()
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	r.clock(w)
	fail := ""
	what := ""
	r.Exec(w, func() {
		for i := 1 + r.In.N(6); i > 0 && fail == ""; i-- {
			var t time.Time
			switch r.In.N(5) {
			case 0, 1:
				t = time.Now()
			case 2:
				t = time.Now().In(allZones[r.In.N(len(allZones))])
			case 3:
				// any instant from year 1 to 9999
				t = time.Unix(-62135596800+86400+int64(r.In.N(1<<20))*300000+int64(r.In.N(300000)), int64(r.In.N(1000000000))).In(allZones[r.In.N(len(allZones))])
			default:
				t = time.Unix(int64(r.In.N(1<<31)), int64(r.In.N(1000))*1000000)
			}
			if t.IsZero() || t.UTC().Year() > 9999 || t.UTC().Year() < 1 {
				continue
			}
			r.St.Outcomes["timestamps"]++
			ts := sadl.Timestamp{Time: t}
			what = t.Format(time.RFC3339Nano)
			want := t.UnixMilli()
			s := ts.String()
			if ms, ok := instant(s); !ok || ms != want {
				fail = fmt.Sprintf("%s prints as %q", what, s)
				return
			}
			b, err := json.Marshal(struct {
				T *sadl.Timestamp `json:"t"`
				U sadl.Timestamp  `json:"u"`
			}{&ts, ts})
			if err != nil || string(b) != fmt.Sprintf(`{"t":%q,"u":%q}`, s, s) {
				fail = fmt.Sprintf("%s is marshalled as %s, %v", what, b, err)
				return
			}
			back, err := sadl.ParseTimestamp(s)
			if err != nil || back.UnixMilli() != want || back.Nanosecond()%1000000 != 0 {
				fail = fmt.Sprintf("%q is read as %s, %v", s, back.Time, err)
				return
			}
			var js sadl.Timestamp
			if err := json.Unmarshal([]byte(strconv.Quote(s)), &js); err != nil || !js.Equal(back.Time) {
				fail = fmt.Sprintf("%q is unmarshalled as %s, %v", s, js.Time, err)
				return
			}
			if back.String() != s {
				fail = fmt.Sprintf("%q prints as %q after reading", s, back.String())
				return
			}
			if x, at := otherForm(r.In, t); true { // another way to write it: understood or rejected
				if back, err := sadl.ParseTimestamp(x); err == nil && back.UnixMilli() != at {
					fail = fmt.Sprintf("%q is read as %s", x, back.Time.UTC().Format(time.RFC3339Nano))
					return
				}
				var js sadl.Timestamp
				if err := json.Unmarshal([]byte(strconv.Quote(x)), &js); err == nil && js.UnixMilli() != at {
					fail = fmt.Sprintf("%q is unmarshalled as %s", x, js.Time.UTC().Format(time.RFC3339Nano))
					return
				}
				if len(genStamps) > 0 {
					if back, err := genStamps[r.In.N(len(genStamps))].parse(x); err == nil && back.UnixMilli() != at {
						fail = fmt.Sprintf("in a generated service, %q is read as %s", x, back.UTC().Format(time.RFC3339Nano))
						return
					}
				}
			}
			if len(genStamps) > 0 {
				if fail = genStamps[r.In.N(len(genStamps))].check(t); fail != "" {
					return
				}
			}
		}
	})
	r.ended(w, &Op{Name: "timestamps"})
	r.Desc("timestamps in zone %s at %d", w.Zone, w.Base)
	r.mix(what)
	if fail != "" {
		r.Failf("wrong instant", "%s (process zone %s)", fail, w.Zone)
	}
}

// otherForm writes an instant in a form that some programs use, and gives the instant it means.
func otherForm(s *simrt.Stream, t time.Time) (string, int64) {
	frac := simrt.Pick(s, "", "", ".0", ".000", ".000000", ".000000000", ".999", ".999999999")
	var u time.Time
	if s.N(2) == 0 {
		u = t.UTC()
	} else {
		u = t.In(time.FixedZone("", 60*(s.N(27*60)-12*60)))
	}
	x := u.Format("2006-01-02T15:04:05" + frac)
	if u.Year() < 1 || u.Year() > 9999 {
		u = t.UTC()
		x = u.Format("2006-01-02T15:04:05" + frac)
	}
	_, off := u.Zone()
	sign, o := "+", off/60
	if off < 0 || off == 0 && s.N(2) == 1 {
		sign, o = "-", -off/60
	}
	z := simrt.Pick(s, "%s%02d:%02d", "%s%02d%02d", "Z")
	if z == "Z" && off == 0 {
		x += "Z"
	} else if z == "Z" {
		x += fmt.Sprintf("%s%02d:%02d", sign, o/60, o%60)
	} else {
		x += fmt.Sprintf(z, sign, o/60, o%60)
	}
	digits := map[string]int{"": 0, ".0": 1, ".000": 3, ".000000": 6, ".000000000": 9, ".999": 3, ".999999999": 9}[frac]
	ns := t.Nanosecond()
	for i := digits; i < 9; i++ {
		ns /= 10
	}
	for i := digits; i < 9; i++ {
		ns *= 10
	}
	return x, time.Unix(t.Unix(), int64(ns)).UnixMilli()
}

// genStamp is the timestamp code of a generated service, if one is built in.
type genStamp struct {
	name   string
	str    func(time.Time) string
	js     func(time.Time) string
	parse  func(string) (time.Time, error)
	header func(time.Time) string
}

var genStamps []genStamp

func (g genStamp) check(t time.Time) string {
	what := "in generated service " + g.name + ", " + t.Format(time.RFC3339Nano)
	s := g.str(t)
	if ms, ok := instant(s); !ok || ms != t.UnixMilli() {
		return fmt.Sprintf("%s prints as %q", what, s)
	}
	if js := g.js(t); js != strconv.Quote(s) {
		return fmt.Sprintf("%s is marshalled as %s", what, js)
	}
	if back, err := g.parse(s); err != nil || back.UnixMilli() != t.UnixMilli() || back.Nanosecond()%1000000 != 0 {
		return fmt.Sprintf("%s: %q is read as %s, %v", what, s, back, err)
	}
	h := g.header(t)
	if d, err := time.Parse(http.TimeFormat, h); err != nil || d.Unix() != t.Unix() || d.UTC().Format(http.TimeFormat) != h {
		return fmt.Sprintf("%s is %q in an HTTP header", what, h)
	}
	if back, err := g.parse(h); err != nil || back.Unix() != t.Unix() {
		return fmt.Sprintf("%s: HTTP date %q is read as %s, %v", what, h, back, err)
	}
	return ""
}

func p10trace(r *Run) {
	o := opTrace(r.In)
	k := simrt.NewKernel()
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	r.clock(w)
	fail := ""
	n := 1 + r.In.N(3)
	dates := 0
	r.Desc("%d HTTP traces in zone %s at %d", n, w.Zone, w.Base)
	r.Exec(w, func() {
		root := simrt.TaskID()
		for i := 0; i < n && fail == ""; i++ {
			before := len(k.OutBy[root])
			w.Leap()
			lo := w.Clock()
			hi := lo
			w.OnClock = func(ns int64) {
				lo, hi = min(lo, ns), max(hi, ns)
			}
			res := &Result{}
			o.task(k, nil, res)()
			w.OnClock = nil
			end := w.Clock()
			lo, hi = min(lo, end), max(hi, end)
			out := string(k.OutBy[root][before:])
			for _, l := range strings.Split(out, "\n") {
				d, ok := strings.CutPrefix(l, "Date: ")
				if !ok {
					continue
				}
				dates++
				t, err := time.Parse(http.TimeFormat, d)
				if err != nil || t.UTC().Format(http.TimeFormat) != d {
					fail = fmt.Sprintf("Date header %q is not an HTTP date", d)
					break
				}
				if t.UnixNano() < lo-1000000000 || t.UnixNano() > hi {
					fail = fmt.Sprintf("Date header %q, but the clock shows between %s and %s", d, time.Unix(0, lo).UTC().Format(time.RFC3339Nano), time.Unix(0, hi).UTC().Format(time.RFC3339Nano))
					break
				}
			}
			simrt.Sleep(time.Duration(r.In.N(4)) * time.Duration(r.In.N(1<<20)) * time.Second)
		}
	})
	r.ended(w, o)
	r.St.Outcomes["dates"] += dates
	r.trivial = dates == 0
	if fail != "" {
		r.Failf("wrong date", "%s (process zone %s)", fail, w.Zone)
	}
}

// wildExamples gives a model examples that fit nothing.
func wildExamples(s *simrt.Stream, model string) string {
	var m J
	if json.Unmarshal([]byte(model), &m) != nil {
		return model
	}
	xs, _ := m["examples"].([]any)
	for i := 1 + s.N(3); i > 0; i-- {
		bad := []any{"text", 12.5, nil, true, []any{}, []any{J{"a": 1}}, J{}, J{"body": nil}, J{"nothing": J{"x": []any{1}}}}[s.N(9)]
		if len(xs) > 0 && s.N(3) != 1 {
			x := xs[s.N(len(xs))].(J)
			if s.N(4) == 1 {
				x["target"] = simrt.Pick(s, "Nothing", "NothingRequest", "NothingResponse", "", "Request", "Response")
			}
			x["example"] = bad
		} else {
			xs = append(xs, J{"target": simrt.Pick(s, "Nothing", "NothingRequest", "Nothing.field", "Response"), "name": "odd", "example": bad})
		}
	}
	m["examples"] = xs
	if hs, ok := m["http"].([]any); ok && len(hs) > 0 && s.N(3) == 1 {
		delete(hs[s.N(len(hs))].(J), "expected")
	}
	return text(m)
}

// hopeless adds to a model what its exporter cannot express, and says what; "" if there is no place for it.
func hopeless(s *simrt.Stream, o *Op) string {
	var m J
	dec := json.NewDecoder(strings.NewReader(o.Model))
	dec.UseNumber()
	if dec.Decode(&m) != nil {
		return ""
	}
	insert := func(key string, v any) {
		xs, _ := m[key].([]any)
		i := s.N(len(xs) + 1)
		m[key] = append(append(append([]any(nil), xs[:i]...), v), xs[i:]...)
		o.Model = text(m)
	}
	if o.Name == "graphql" {
		t := simrt.Pick(s, "Map", "Timestamp", "UUID", "UnitValue")
		td := J{"name": "Hopeless", "type": t}
		switch t {
		case "Map":
			td["keys"], td["items"] = "String", "String"
		case "UnitValue":
			td["unit"], td["value"] = "String", "Decimal"
		}
		insert("types", td)
		return "a type of kind " + t
	}
	acts, _ := m["http"].([]any)
	if len(acts) == 0 {
		return ""
	}
	a := acts[s.N(len(acts))].(J)
	name := a["name"].(string)
	if method, _ := a["method"].(string); o.Name == "openapi" && s.N(2) == 1 && (method == "GET" || method == "PUT" || method == "POST" || method == "DELETE") {
		b := J{}
		for k, v := range a {
			b[k] = v
		}
		b["name"] = "hopeless"
		insert("http", b)
		return "two actions with the same method and path"
	}
	insert("examples", J{"target": strings.ToUpper(name[:1]) + name[1:] + "Request", "name": "hopeless", "example": simrt.Pick[any](s, "text", 12, []any{"a"}, true)})
	return "an example of a request that is none"
}

func p11(r *Run) {
	var o *Op
	switch r.In.N(4) {
	case 0:
		o = opOpenAPI(r.In)
	case 1:
		o = opGraphQL(r.In)
	case 2:
		o = opTrace(r.In)
	default:
		// a model that was not made for this exporter
		m := modelFor(r.In, simrt.Pick(r.In, "any", "java", "openapi", "httptrace", "graphql", "sadl"))
		switch r.In.N(3) {
		case 0:
			o = &Op{Name: "openapi", Kind: "export", Conf: J{}, Model: m, Do: doOpenAPI}
		case 1:
			o = &Op{Name: "graphql", Kind: "export", Conf: gqlConf(r.In), Model: m, Do: doGraphQL}
		default:
			o = &Op{Name: "httptrace", Kind: "export", Conf: J{}, Model: m, Do: doTrace}
		}
	}
	why := ""
	if r.In.N(4) == 1 {
		o.Model = wildExamples(r.In, o.Model)
	} else if r.In.N(6) == 1 {
		why = hopeless(r.In, o)
	}
	ref, rk, rw := r.alone(o, nil)
	if strings.HasPrefix(ref.Err, "harness model") {
		r.trivial = true
		return
	}
	if ref.Panic != "" || rw.Exited {
		r.Failf(o.Name+" ends the process", "%s does not return its error: %s exit %v %d", o.Name, quote(ref.Panic), rw.Exited, rw.ExitCode)
	}
	if why != "" {
		r.St.Fired["unconvertible-model"]++
		if ref.Err == "" {
			r.Failf("conversion error lost", "%s succeeds for a model with %s", o.Name, why)
		}
	}
	mask(o, ref)
	k := simrt.NewKernel()
	o.prepare(k)
	if n := len(rk.Stdout); r.Fl.N(2) == 1 {
		k.OutCap = r.Fl.N(n + 2)
	} else {
		r.faultPlan(k, rk.Ops, 2)
	}
	r.Desc("%s; output takes %d of %d bytes; %s", o, k.OutCap, len(rk.Stdout), describeFaults(k))
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	res := &Result{}
	r.Exec(w, o.task(k, nil, res))
	r.ended(w, o)
	r.St.Outcomes[o.Name+" "+faultOutcome(res)]++
	r.trivial = fired(k) == 0 && ref.Err == ""
	if res.Panic != "" || w.Exited {
		r.Failf(o.Name+" ends the process", "%s does not return when output fails: %s exit %v %d", o.Name, quote(res.Panic), w.Exited, w.ExitCode)
	}
	if res.Err == "" {
		got := &Result{Out: string(k.Stdout)}
		mask(o, got)
		if ref.Err != "" {
			r.Failf("conversion error lost", "%s fails with %q, but not when output fails too", o.Name, ref.Err)
		}
		if got.Out != ref.Out {
			r.Failf("output lost", "%s succeeds, but of %d bytes %d were delivered: %s", o.Name, len(ref.Out), len(got.Out), textDiff(ref.Out, got.Out))
		}
	}
}

// stepBudget is the number of steps after which an endless recursion is taken
// for what it is; long documents have more.
func stepBudget(k *simrt.Kernel) int {
	n := 3000000
	for _, b := range k.Snapshot("/").Files() {
		n += 400 * len(b)
	}
	return n
}
