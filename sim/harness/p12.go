//go:build simgen

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"syscall"
	"time"

	"simgen/catalog"
	"simgen/ledger"
	"simgen/notes"
	"simgen/store"
	"simgen/wild1"
	"simgen/wild2"
	"simgen/wild3"
	"simrt"
)

type service struct {
	name   string
	base   string
	server func(f func(action string, req, res interface{}) error, base string) http.Handler
	err    func(name, text string) error
	model  J
}

var svcs = []*service{
	{"ledger", "", ledger.SimServer, ledger.SimError, services["ledger"]},
	{"notes", "/api/", notes.SimServer, notes.SimError, services["notes"]},
	{"catalog", "/c", catalog.SimServer, catalog.SimError, services["catalog"]},
	{"store", "/v1", store.SimServer, store.SimError, services["store"]},
	{"wild1", "/w", wild1.SimServer, wild1.SimError, wild(wild1.SimSeed, "wild1")},
	{"wild2", "", wild2.SimServer, wild2.SimError, wild(wild2.SimSeed, "wild2")},
	{"wild3", "/x/y/", wild3.SimServer, wild3.SimError, wild(wild3.SimSeed, "wild3")},
}

func init() {
	genStamps = []genStamp{
		{"ledger", ledger.SimStamp, ledger.SimStampJSON, ledger.SimParse, ledger.SimHeader},
		{"catalog", catalog.SimStamp, catalog.SimStampJSON, catalog.SimParse, catalog.SimHeader},
		{"store", store.SimStamp, store.SimStampJSON, store.SimParse, store.SimHeader},
	}
	register(&Prop{ID: "P12", Run: p12, Quick: 360000, Deep: 50000000, QuickS: 75, DeepS: 600,
		Rule:   "A run starts one of seven services whose code was generated from the tree at build time, three of them made up from the seed, and serves 1-4 concurrent clients with 1-3 requests each: well-formed ones, ones for no action, and ones whose body is cut off, corrupted or followed by other bytes. Bodies arrive in pieces, clients go away while they are answered, the implementation takes its time. Trivial: fewer than two requests.",
		Real:   []string{"the server and model code that golang.Export of the working tree generates (adaptors, routing table, decoding, encoding), instrumented but otherwise unchanged; net/http request types and encoding/json of the standard library"},
		Stub:   []string{"gorilla/mux and gorilla/handlers (not installed here); the connection: requests are handed to the handler, bodies and responses go through simulated streams; scheduler and clock"},
		Assume: []string{"The HTTP server below the handler parses request lines and headers correctly and signals a lost connection as a read error, as net/http does."}})
}

// request is one request and what has to come of it.
type request struct {
	id      string
	size    int
	args    J // the inputs that are sent
	act     J
	method  string
	url     string
	header  http.Header
	body    string
	breakAt int   // the connection is lost after that many bytes of the body; -1: never
	lost    error // what reading then gives
	piece   int
	leave   int // the client goes away after that many bytes of the answer; -1: never
	want    any // what the implementation has to be given, nil if it must not be called
	kind    string
	result  string // what the implementation does: "ok", "error" or the name of an exception
	status  int
	entity  any
	spec    J // type of the entity
	headers map[string]string

	calls []string
	got   *answer

	stall   string // where it stalls until all that do not stall are over: upload, work, answer
	busy    *int   // how many those are
	stalled bool
}

// wait is where a request may stall.
func (q *request) wait(at string) {
	if q.stall == at && !q.stalled {
		q.stalled = true
		simrt.Block(func() bool { return *q.busy == 0 })
	}
}

// stalls makes the last request of some clients stall. Each of the others has to say when it is over.
func (r *Run) stalls(clients [][]*request, places ...string) *int {
	busy := 0
	for _, qs := range clients {
		busy += len(qs)
		if len(qs) > 0 && r.Fl.Odds(1, 6) {
			q := qs[len(qs)-1]
			q.stall = simrt.Pick(r.Fl, places...)
			busy--
		}
	}
	for _, qs := range clients {
		for _, q := range qs {
			q.busy = &busy
		}
	}
	return &busy
}

func (q *request) over() {
	if q.stall == "" {
		*q.busy--
	}
}

type answer struct {
	r      *request
	hdr    http.Header
	status int
	body   bytes.Buffer
	wrote  int
	gone   bool
	done   bool
}

func (a *answer) Header() http.Header { return a.hdr }
func (a *answer) WriteHeader(s int) {
	if a.status == 0 {
		a.status = s
		a.hdr = a.hdr.Clone()
	}
}
func (a *answer) Write(b []byte) (int, error) {
	if a.status == 0 {
		a.WriteHeader(200)
	}
	simrt.Sleep(time.Millisecond)
	a.r.wait("answer")
	if a.r.leave >= 0 && a.body.Len()+len(b) > a.r.leave {
		n := a.r.leave - a.body.Len()
		a.body.Write(b[:n])
		a.gone = true
		return n, syscall.EPIPE
	}
	return a.body.Write(b)
}

type bodyReader struct {
	r   *request
	pos int
}

func (b *bodyReader) Close() error { return nil }
func (b *bodyReader) Read(p []byte) (int, error) {
	simrt.Sleep(time.Duration(1+b.r.piece) * 100 * time.Microsecond)
	b.r.wait("upload")
	end := len(b.r.body)
	if b.r.breakAt >= 0 && b.r.breakAt < end {
		end = b.r.breakAt
	}
	if b.pos >= end {
		if b.r.breakAt >= 0 {
			return 0, b.r.lost
		}
		return 0, io.EOF
	}
	n := end - b.pos
	if n > len(p) {
		n = len(p)
	}
	if b.r.piece > 0 && n > b.r.piece {
		n = b.r.piece
	}
	copy(p, b.r.body[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

// plain reduces a value to what JSON says, without what stands for nothing.
func plain(v any) any {
	switch x := v.(type) {
	case J:
		m := J{}
		for k, e := range x {
			if p := plain(e); p != nil {
				m[k] = p
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	case []any:
		var a []any
		for _, e := range x {
			a = append(a, plain(e))
		}
		if len(a) == 0 {
			return nil
		}
		return a
	case string:
		if x == "" {
			return nil
		}
	case bool:
		if !x {
			return nil
		}
	case int:
		if x == 0 {
			return nil
		}
		return fmt.Sprint(x)
	case json.Number:
		if x == "0" {
			return nil
		}
		return x.String()
	}
	return v
}

type svcGen struct {
	*gen
	tok    string
	place  string // where the value goes: path, query, header, body
	plain  bool   // only strings that carry the token
	big    int    // strings of about that many bytes
	client bool   // for the generated client: well-formed, and what is not set is not sent
	used   bool   // the big string was made
}

// str makes a string that may stand in the place.
func (g *svcGen) str() string {
	if g.plain {
		return g.tok
	}
	if g.odds(1, 12) {
		return simrt.Pick(g.s, "null", "true", "0", "010", "0x1F", "-5", "1e3", "{}", "undefined", "nil", "%s", "%d%%", "a b", "A", "a")
	}
	t := g.tok
	if !g.odds(1, 2) {
		return t
	}
	switch g.place {
	case "path":
		return t + simrt.Pick(g.s, " &?", "%2f/", "ü\"", "+", ";a=b", ".json", ":", "%", " ", "#x", "日本")
	case "query":
		return simrt.Pick(g.s, "", "", " ", "+", "\n", "%20") + t + simrt.Pick(g.s, " &?", "%2f/", "ü\"", " ", "  ", "+", ";a=b", "=", "\t", "&limit=7", "#x", "日本", "\u2028")
	case "header":
		return t + simrt.Pick(g.s, " x", "\"q\"", ", y", ";z=1", "%20", "+", "/", "=", "'", "*")
	}
	if g.big > 0 && !g.used {
		g.used = true
		return t + strings.Repeat(simrt.Pick(g.s, "0123456789abcdef", "ü<&>\n\"\\ \t\r", "日本 "), 1+g.big/16)
	}
	return simrt.Pick(g.s, "", "", " ", "\n") + t + simrt.Pick(g.s, " ", "\n", "<b>&amp;</b>", "\u2028\u2029", "ü日本\U0001F600", "\"quoted\"", "\\n", "\x00\x01\x1f", "\r\n\t", "/", "'", "%s%d", "\u0085\u00a0", "\ufeff", "{\"a\":1}", "\x7f")
}

func (g *svcGen) number(bits int) json.Number {
	n := int64(g.n(100000) - 50)
	if g.odds(1, 4) {
		n = []int64{0, 1, -1, 127, -128, 255, 256, 32767, -32768, 65536, 1<<31 - 1, -1 << 31, 1 << 31, 1 << 32, 1<<53 - 1, 1<<53 + 1, -1<<53 - 1, 1<<63 - 1, -1 << 63, 9007199254740993, 1234567890123456789}[g.n(21)]
	}
	if bits < 64 && (n >= 1<<(bits-1) || n < -1<<(bits-1)) {
		n %= 1 << (bits - 1)
	}
	return json.Number(fmt.Sprint(n))
}

func (g *svcGen) float() json.Number {
	b, _ := json.Marshal([]float64{float64(g.n(1000)) + 0.25, 0, -1.5, 1e21, 1.5e-7, 123456789, 0.0009765625, 3e10, -2e-3}[g.n(9)])
	return json.Number(b)
}

// resolve finds the base type and where it is defined.
func (g *svcGen) resolve(spec J) (string, J) {
	t := spec["type"].(string)
	if td, ok := g.byName[t]; ok {
		spec, t = td, td["type"].(string)
	}
	return t, spec
}

// put makes a value of a type that carries the token of its request.
func (g *svcGen) put(spec J, depth int) any {
	t, spec := g.resolve(spec)
	switch t {
	case "String":
		if spec["pattern"] != nil {
			return g.tok
		}
		return g.str()
	case "UUID":
		return fmt.Sprintf("%08x-0000-4000-8%03x-%012x", g.s.N(1<<30), g.n(4096), g.n(1<<30))
	case "Timestamp":
		return fmt.Sprintf("20%02d-0%d-04T05:06:07.%03dZ", 1+g.n(60), 1+g.n(9), g.n(1000))
	case "Decimal":
		if g.odds(1, 3) {
			return simrt.Pick(g.s, "0.1", "-0.001", "9007199254740993", "12345678901234567890123456789.000000001", "-99999999999999999999.99", "1000000", "0.30000000000000004")
		}
		return fmt.Sprintf("%d.5", 1+g.n(900))
	case "Int64":
		return g.number(64)
	case "Int32":
		return g.number(32)
	case "Int16":
		return g.number(16)
	case "Int8":
		return g.number(8)
	case "Float32":
		return json.Number(fmt.Sprintf("%d.25", g.n(1000)))
	case "Float64":
		return g.float()
	case "Bool":
		return g.n(2) == 1
	case "Enum":
		es := spec["elements"].([]any)
		e := es[g.n(len(es))].(J)
		if a, ok := e["annotations"].(J); ok {
			return a["x_enumValue"]
		}
		return e["symbol"]
	case "Array":
		a := []any{}
		for i := 1 + g.n(2); i > 0; i-- {
			a = append(a, g.put(J{"type": spec["items"]}, depth+1))
		}
		return a
	case "Map":
		m := J{}
		for i := 0; i <= g.n(3); i++ {
			m[[]string{"k", "l", "m", "n"}[i]] = g.put(J{"type": spec["items"]}, depth+1)
		}
		return m
	case "Union":
		vs := spec["variants"].([]any)
		v := vs[g.n(len(vs))].(J)
		return J{v["name"].(string): g.put(v, depth+1)}
	case "Struct":
		m := J{}
		for _, fd := range spec["fields"].([]any) {
			fd := fd.(J)
			if fd["required"] == nil && (fd["type"] != "String" && g.odds(1, 3) || depth > 2) {
				continue
			}
			m[fd["name"].(string)] = g.put(fd, depth+1)
		}
		return m
	}
	panic(t)
}

func (g *svcGen) request(s *service, id string) *request {
	q := &request{id: id, size: g.big, args: J{}, breakAt: -1, leave: -1, header: http.Header{}, headers: map[string]string{}}
	as := s.model["http"].([]any)
	a := as[g.n(len(as))].(J)
	q.act, q.method = a, a["method"].(string)
	path, _, _ := strings.Cut(a["path"].(string), "?")
	want := J{}
	args := url.Values{}
	hasBody, bodySpec, bodyVal := false, J(nil), any(nil)
	hasQuery := false
	carried := false // the path tells the request from others
	for _, in := range a["inputs"].([]any) {
		if in := in.(J); in["path"] != nil {
			switch t, _ := g.resolve(in); t {
			case "String", "UUID":
				carried = true
			}
		}
	}
	for _, in := range a["inputs"].([]any) {
		in := in.(J)
		name := in["name"].(string)
		switch {
		case in["path"] != nil:
			g.place = "path"
		case in["query"] != nil:
			g.place = "query"
			hasQuery = true
		case in["header"] != nil:
			g.place = "header"
		default:
			g.place = "body"
		}
		v := g.put(in, 0)
		txt := fmt.Sprint(v)
		if n, ok := v.(json.Number); ok && g.odds(1, 8) { // the same number in other digits
			if m, neg := strings.CutPrefix(n.String(), "-"); neg {
				txt = "-0" + m
			} else {
				txt = simrt.Pick(g.s, "0", "00") + m
			}
		}
		set := func(send func()) {
			if (in["type"] != "String" || carried) && in["required"] == nil && g.odds(1, 3) || g.client && plain(v) == nil {
				if d := in["default"]; d != nil {
					want[name] = d
				}
				return
			}
			want[name], q.args[name] = v, v
			send()
		}
		switch {
		case in["path"] != nil:
			want[name], q.args[name] = v, v
			path = strings.Replace(path, "{"+name+"}", url.PathEscape(txt), 1)
		case in["query"] != nil:
			set(func() { args.Set(in["query"].(string), txt) })
		case in["header"] != nil:
			set(func() { q.header.Set(in["header"].(string), txt) })
		default:
			want[name], q.args[name] = v, v
			b, _ := json.Marshal(g.natural(in, v))
			q.body = string(b)
			if g.odds(1, 4) {
				q.body += simrt.Pick(g.s, "\n", "  \r\n", "   ")
			}
			hasBody, bodySpec, bodyVal = true, in, v
			q.header.Set("Content-Type", "application/json")
		}
	}
	if g.odds(1, 8) { // something the service does not know
		args.Set(simrt.Pick(g.s, "zz", "Limit", "TOKEN", "filter2", "skip ", "_"), "other"+g.tok)
	}
	if g.odds(1, 8) {
		q.header.Set(simrt.Pick(g.s, "X-Other", "Accept", "User-Agent", "Cookie", "X-Trac", "If-None-Match"), "other"+g.tok)
	}
	q.url = "http://host" + strings.TrimSuffix(s.base, "/") + path
	if len(args) > 0 {
		q.url += "?" + args.Encode()
	}
	q.want = plain(want)
	q.kind = "well-formed"
	exp := a["expected"].(J)
	q.result, q.status = "ok", exp["status"].(int)
	switch excs, _ := a["exceptions"].([]any); {
	case g.odds(1, 10):
		q.result, q.status = "error", 500
	case len(excs) > 0 && g.odds(1, 3):
		e := excs[g.n(len(excs))].(J)
		q.result, q.status = e["type"].(string), e["status"].(int)
		g.place = "body"
		q.entity = g.put(J{"type": e["type"]}, 0)
		q.spec = J{"type": e["type"]}
	}
	if g.client {
	} else if g.odds(1, 12) {
		q.kind = "no action"
		q.url = strings.Replace(q.url, "http://host", "http://host/nowhere/at/all/x", 1)
		q.status = 404
	} else if hasBody && g.odds(1, 12) {
		b, _ := json.Marshal(g.mistype(bodySpec, bodyVal))
		q.kind, q.body, q.status = "mistyped", string(b), 400
	} else if hasQuery && g.odds(1, 8) {
		q.kind, q.status = "damaged query", 400
		mark := "?"
		if len(args) > 0 {
			mark = "&"
		}
		q.url += mark + simrt.Pick(g.s, "zz=%", "zz=%4", "%zz=1", "a=%g1", "zz=a;b=c", "%")
	} else if hasBody && g.odds(1, 3) {
		g.damage(q)
	}
	if q.kind != "well-formed" {
		q.want, q.result = nil, ""
	}
	if g.odds(1, 3) {
		q.piece = 1 + g.n(20) + len(q.body)/60
	}
	if g.odds(1, 10) {
		q.leave = g.n(30)
	}
	return q
}

// natural writes some decimals as JSON numbers, which is as good as text for a few digits.
func (g *svcGen) natural(spec J, v any) any {
	if g.client {
		return v
	}
	t, _ := spec["type"].(string)
	if td, ok := g.byName[t]; ok {
		spec, t = td, td["type"].(string)
	}
	switch x := v.(type) {
	case J:
		m := J{}
		fs, _ := spec["fields"].([]any)
		if t == "Union" {
			fs = spec["variants"].([]any)
		}
		for _, k := range simrt.SortedKeys(x) {
			sub := J{"type": spec["items"]}
			for _, f := range fs {
				if f.(J)["name"] == k {
					sub = f.(J)
				}
			}
			m[k] = g.natural(sub, x[k])
		}
		return m
	case []any:
		var a []any
		for _, e := range x {
			a = append(a, g.natural(J{"type": spec["items"]}, e))
		}
		if a == nil {
			return x
		}
		return a
	case string:
		if t == "Decimal" && len(x) < 12 && g.odds(1, 2) {
			return json.Number(x)
		}
	}
	return v
}

// damage does to the body of a request what a connection or a bad client does.
func (g *svcGen) damage(q *request) {
	b := q.body
	switch g.n(5) {
	case 0:
		q.kind, q.breakAt = "connection lost", g.n(len(b)+1)
		q.lost = simrt.Pick[error](g.s, io.ErrUnexpectedEOF, syscall.ECONNRESET, errors.New("i/o timeout"))
	case 1:
		q.kind, q.body = "cut off", b[:g.n(len(b))]
	case 2:
		q.kind, q.body = "followed by other bytes", b+simrt.Pick(g.s, "}", "]", "x", "\x00", ",", b, " {", "\"")
	case 3:
		x := []byte(b)
		i := g.n(len(x))
		x[i] ^= 1 << g.n(8)
		q.kind, q.body = "corrupted", string(x)
	case 4:
		i, n := g.n(len(b)), 1+g.n(8)
		if i+n > len(b) {
			n = len(b) - i
		}
		q.kind, q.body = "corrupted", b[:i]+strings.Repeat("\x00", n)+b[i+n:]
	}
	if q.breakAt < 0 && json.Valid([]byte(q.body)) {
		q.kind, q.body = "well-formed", b
		return
	}
	q.status = 400
}

// mistype puts a value that is not of its type somewhere into a body.
func (g *svcGen) mistype(spec J, v any) any {
	t := spec["type"].(string)
	if td, ok := g.byName[t]; ok {
		spec, t = td, td["type"].(string)
	}
	switch x := v.(type) {
	case J:
		ks := simrt.SortedKeys(x)
		if len(ks) == 0 || g.odds(1, 4) {
			return simrt.Pick[any](g.s, "text", []any{}, 1, true)
		}
		k := ks[g.n(len(ks))]
		m := J{}
		for _, o := range ks {
			m[o] = x[o]
		}
		sub := J{"type": spec["items"]}
		fs, _ := spec["fields"].([]any)
		if t == "Union" {
			fs = spec["variants"].([]any)
		}
		for _, f := range fs {
			if f.(J)["name"] == k {
				sub = f.(J)
			}
		}
		m[k] = g.mistype(sub, x[k])
		return m
	case []any:
		if len(x) == 0 || g.odds(1, 4) {
			return simrt.Pick[any](g.s, "text", J{"a": 1}, 1, true)
		}
		a := append([]any(nil), x...)
		i := g.n(len(a))
		a[i] = g.mistype(J{"type": spec["items"]}, a[i])
		return a
	}
	switch t {
	case "String", "UUID":
		return simrt.Pick[any](g.s, 5, true, J{}, []any{"a"})
	case "Enum":
		return simrt.Pick[any](g.s, 1, "NOSUCH", "red", J{}, []any{})
	case "Timestamp":
		return simrt.Pick[any](g.s, 1, "yesterday", "2020-13-01T00:00:00.000Z", "2020-01-01", "", J{})
	case "Decimal":
		return simrt.Pick[any](g.s, "twelve", "", "1.2.3", J{}, []any{}, true)
	case "Int8", "Int16", "Int32":
		return simrt.Pick[any](g.s, "5", json.Number("5.5"), json.Number("3000000000"), json.Number("-3000000000"), true, J{})
	case "Int64":
		return simrt.Pick[any](g.s, "5", json.Number("5.5"), json.Number("9223372036854775808"), true, []any{})
	case "Bool":
		return simrt.Pick[any](g.s, "true", 1, J{})
	}
	return simrt.Pick[any](g.s, "1.5", true, []any{1}, J{})
}

// missing names a required field that a value lacks.
func (g *gen) missing(spec J, v any) string {
	if spec == nil {
		return ""
	}
	t, _ := spec["type"].(string)
	if td, ok := g.byName[t]; ok {
		spec, t = td, td["type"].(string)
	}
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			if m := g.missing(J{"type": spec["items"]}, e); m != "" {
				return m
			}
		}
	case J:
		if t == "Map" {
			for _, k := range simrt.SortedKeys(x) {
				if m := g.missing(J{"type": spec["items"]}, x[k]); m != "" {
					return m
				}
			}
			return ""
		}
		fs, _ := spec["fields"].([]any)
		if t == "Union" {
			fs = spec["variants"].([]any)
		}
		for _, f := range fs {
			f := f.(J)
			e, ok := x[f["name"].(string)]
			if !ok && f["required"] != nil {
				return f["name"].(string)
			}
			if m := g.missing(f, e); ok && m != "" {
				return m
			}
		}
	}
	return ""
}

// same tells whether a request cannot be told from one of the others.
func same(q *request, all []*request) bool {
	if q.want == nil {
		return false
	}
	t := text(q.want)
	for _, o := range all {
		if o.want != nil && o.act["name"] == q.act["name"] && text(o.want) == t {
			return true
		}
	}
	return false
}

// svcAnswers makes up what the implementation is going to answer.
func svcAnswers(sg *gen, all []*request) map[*request]any {
	answers := map[*request]any{}
	for _, q := range all {
		if q.result != "ok" {
			continue
		}
		res := J{}
		g := &svcGen{gen: sg, tok: q.id, place: "body", big: q.size}
		outs, _ := q.act["expected"].(J)["outputs"].([]any)
		for _, o := range outs {
			o := o.(J)
			g.place = "body"
			if o["header"] != nil {
				g.place = "header"
			}
			v := g.put(o, 0)
			res[o["name"].(string)] = v
			if o["header"] == nil {
				q.entity, q.spec = v, o
			} else if h := strings.ToLower(o["header"].(string)); o["type"] == "Timestamp" && (h == "last-modified" || h == "date" || h == "expires") {
				t, _ := time.Parse(time.RFC3339, v.(string))
				q.headers[o["header"].(string)] = t.UTC().Format(http.TimeFormat)
			} else {
				q.headers[o["header"].(string)] = fmt.Sprint(v)
			}
		}
		answers[q] = res
	}
	return answers
}

// svcImpl is the implementation of a service: it knows every request and its answer.
func svcImpl(delay *simrt.Stream, s *service, all []*request, answers map[*request]any, stray *[]string) func(action string, req, res interface{}) error {
	return func(action string, req, res interface{}) error {
		b, err := json.Marshal(req)
		if err != nil {
			*stray = append(*stray, err.Error())
			return err
		}
		v, _ := fromJSON(string(b))
		var q *request
		got := text(plain(v))
		for _, c := range all {
			if c.want != nil && c.act["name"] == action && text(c.want) == got {
				q = c
			}
		}
		if q == nil {
			*stray = append(*stray, action+" with "+string(b))
			return errors.New("nobody asked for this")
		}
		q.calls = append(q.calls, string(b))
		q.wait("work")
		simrt.Sleep(time.Duration(delay.N(20)) * 500 * time.Microsecond)
		switch q.result {
		case "ok":
			if err := json.Unmarshal([]byte(text(answers[q])), res); err != nil {
				panic(fmt.Sprint("harness: ", err, text(answers[q])))
			}
			return nil
		case "error":
			return errors.New("failed for " + q.id)
		}
		return s.err(q.result, text(q.entity))
	}
}

func p12(r *Run) {
	s := svcs[r.In.N(len(svcs))]
	sg := newGen(r.In, "svc")
	for _, t := range s.model["types"].([]any) {
		td := t.(J)
		sg.types = append(sg.types, td)
		sg.byName[td["name"].(string)] = td
	}
	var clients [][]*request
	var all []*request
	for c := 1 + r.In.N(4); c > 0; c-- {
		var qs []*request
		for i := 1 + r.In.N(3); i > 0; i-- {
			id := fmt.Sprintf("tok%02d%s", len(all), simrt.Pick(r.In, "", "x", "longer"))
			size := 0
			if r.In.Odds(1, 16) {
				size = simrt.Pick(r.In, 2000, 5000, 10000, 20000, 70000)
				if r.In.Odds(1, 16) {
					size = 1<<20 + 5000
				}
			}
			q := (&svcGen{gen: sg, tok: id, big: size}).request(s, id)
			if same(q, all) {
				q = (&svcGen{gen: sg, tok: id, plain: true}).request(s, id)
			}
			qs = append(qs, q)
			all = append(all, q)
		}
		clients = append(clients, qs)
	}
	r.trivial = len(all) < 2
	var ds []string
	for _, q := range all {
		ds = append(ds, q.act["name"].(string)+" ("+q.kind+")")
	}
	r.Desc("%s: %d clients, requests %s", s.name, len(clients), strings.Join(ds, ", "))
	busy := r.stalls(clients, "upload", "work", "answer")
	k := simrt.NewKernel()
	w := simrt.NewWorld(r.Ch, k)
	w.Canon = true
	var stray []string
	answers := svcAnswers(sg, all)
	impl := svcImpl(r.Ch.S("delay"), s, all, answers, &stray)
	var handler http.Handler
	var fns []func()
	pan := ""
	fns = append(fns, func() { handler = s.server(impl, "http://host"+s.base) })
	for _, qs := range clients {
		qs := qs
		fns = append(fns, func() {
			defer func() {
				if x := recover(); x != nil && pan == "" {
					pan = fmt.Sprint(x)
					*busy = 0 // nobody waits for what is lost
				}
			}()
			simrt.Block(func() bool { return handler != nil })
			for _, q := range qs {
				u, err := url.Parse(q.url)
				if err != nil {
					panic("harness: " + err.Error())
				}
				hr := &http.Request{Method: q.method, URL: u, Host: "host", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: q.header.Clone(), RequestURI: u.RequestURI(), RemoteAddr: "client", Body: http.NoBody}
				if q.body != "" || q.kind == "cut off" {
					hr.Body = &bodyReader{r: q}
					hr.ContentLength = int64(len(q.body))
				}
				q.got = &answer{r: q, hdr: http.Header{}}
				handler.ServeHTTP(q.got, hr)
				q.got.done = true
				q.over()
			}
		})
	}
	r.Exec(w, fns...)
	r.ended(w, &Op{Name: "service " + s.name})
	if pan != "" {
		r.Failf("panic", "the service panics: %s", quote(pan))
	}
	if len(stray) > 0 {
		r.Failf("wrong inputs", "the implementation is called for no request that was sent: %s", quote(stray[0]))
	}
	for _, q := range all {
		r.St.Outcomes[fmt.Sprintf("%s %s: %d", q.act["method"], q.kind, q.got.status)]++
		if q.stalled {
			r.St.Fired["stalled-"+q.stall]++
		}
		n := 0
		if q.want != nil {
			n = 1
		}
		if len(q.calls) != n {
			r.Failf("calls", "%s (%s, body %s): the implementation is called %d times instead of %d", q.act["name"], q.kind, quote(q.body), len(q.calls), n)
		}
		if q.got.gone || q.leave >= 0 {
			r.St.Fired["client-leaves"]++
			continue
		}
		if q.kind != "well-formed" && q.kind != "no action" {
			r.St.Fired["request-"+strings.ReplaceAll(q.kind, " ", "-")]++
		}
		if q.got.status != q.status {
			r.Failf("status", "%s (%s, body %s) is answered with %d instead of %d: %s", q.act["name"], q.kind, quote(q.body), q.got.status, q.status, quote(q.got.body.String()))
		}
		body := q.got.body.String()
		switch q.result {
		case "":
			continue
		case "error":
			if !strings.Contains(body, "failed for ") {
				r.Failf("answer", "%s fails, but its answer is %s", q.act["name"], quote(body))
			}
			if m, err := fromJSON(body); err != nil || !strings.Contains(text(m), strings.Trim(text("failed for "+q.id), `"`)) {
				r.Failf("answer", "%s of %s fails, but its answer is %s", q.act["name"], q.id, quote(body))
			}
			continue
		}
		v, err := fromJSON(body)
		if err != nil || text(plain(v)) != text(plain(q.entity)) {
			if !(q.entity == nil && q.status == 204) {
				r.Failf("answer", "%s of %s is answered with %s instead of %s", q.act["name"], q.id, quote(body), quote(text(q.entity)))
			}
		}
		if m := sg.missing(q.spec, v); q.spec != nil && m != "" {
			r.Failf("answer", "%s of %s is answered with %s, where the required %s is missing", q.act["name"], q.id, quote(body), m)
		}
		for _, h := range simrt.SortedKeys(q.headers) {
			if got := q.got.hdr.Get(h); got != q.headers[h] {
				r.Failf("answer", "%s of %s is answered with %s %s instead of %s", q.act["name"], q.id, h, quote(got), quote(q.headers[h]))
			}
		}
	}
}
