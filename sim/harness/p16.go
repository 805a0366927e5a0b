//go:build simgen && simclient

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"syscall"
	"time"

	"simgen/catalog"
	"simgen/ledger"
	"simgen/notes"
	"simgen/store"
	"simgen/wild1"
	"simgen/wild2"
	"simgen/wild3"
	"simrt"
)

var svcClients = map[string]func(target string) func(action, req string) (string, error){
	"catalog": catalog.SimClient, "ledger": ledger.SimClient, "notes": notes.SimClient, "store": store.SimClient,
	"wild1": wild1.SimClient, "wild2": wild2.SimClient, "wild3": wild3.SimClient,
}

func init() {
	register(&Prop{ID: "P16", Run: p16, Quick: 360000, Deep: 50000000, QuickS: 75, DeepS: 600,
		Rule:   "A run starts one of seven services, three of them made up from the seed, and lets 1-4 concurrent callers make 1-3 calls each through one generated client. The network between them refuses connections, loses requests on the way, loses or cuts answers, delivers bodies in pieces, and a gateway answers in the place of the service. Trivial: one call.",
		Real:   []string{"the client, server and model code that golang.Export of the working tree generates, instrumented but otherwise unchanged; http.Client and encoding/json of the standard library"},
		Stub:   []string{"http.Transport (the simulated network takes its place); gorilla/mux and gorilla/handlers (not installed here); scheduler and clock"},
		Assume: []string{"The transport signals a lost connection and an incomplete body as errors, as net/http does."}})
}

// call is a call of the generated client and what became of it.
type call struct {
	*request
	fault  string
	at     int
	page   int
	res    string
	err    error
	pan    string
	sent   int // requests on the network
	opened int // answers handed out
	closed int // answers given back
}

// reply is the body of an answer on its way to the client.
type reply struct {
	c    *call
	text string
	end  error
	pos  int
	shut bool
}

func (b *reply) Read(p []byte) (int, error) {
	if b.shut {
		return 0, errors.New("http: read on closed response body")
	}
	simrt.Sleep(100 * time.Microsecond)
	b.c.wait("answer")
	if b.pos >= len(b.text) {
		return 0, b.end
	}
	n := len(b.text) - b.pos
	if b.c.piece > 0 {
		n = min(n, b.c.piece+len(b.text)/60)
	}
	n = copy(p, b.text[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

func (b *reply) Close() error {
	if !b.shut {
		b.shut = true
		b.c.closed++
	}
	return nil
}

func p16(r *Run) {
	s := svcs[r.In.N(len(svcs))]
	sg := newGen(r.In, "svc")
	for _, t := range s.model["types"].([]any) {
		td := t.(J)
		sg.types = append(sg.types, td)
		sg.byName[td["name"].(string)] = td
	}
	var callers [][]*call
	var all []*request
	calls := map[string]*call{}
	for c := 1 + r.In.N(4); c > 0; c-- {
		var cs []*call
		for i := 1 + r.In.N(3); i > 0; i-- {
			id := fmt.Sprintf("tok%02d%s", len(all), simrt.Pick(r.In, "", "x", "longer"))
			size := 0
			if r.In.Odds(1, 16) {
				size = simrt.Pick(r.In, 2000, 5000, 10000, 70000)
			}
			g := &svcGen{gen: sg, tok: id, big: size, client: true}
			q := g.request(s, id)
			if same(q, all) {
				q = (&svcGen{gen: sg, tok: id, plain: true, client: true}).request(s, id)
			}
			if same(q, all) {
				continue
			}
			ca := &call{request: q}
			if r.Fl.Odds(1, 3) {
				ca.fault = simrt.Pick(r.Fl, "refused", "request lost", "answer lost", "answer cut", "answer cut", "gateway", "portal")
				ca.at, ca.page = r.Fl.N(1<<20), r.Fl.N(10)
			}
			cs = append(cs, ca)
			all = append(all, q)
			calls[id] = ca
		}
		callers = append(callers, cs)
	}
	r.trivial = len(all) < 2
	var ds []string
	for _, q := range all {
		ds = append(ds, strings.TrimSuffix(q.act["name"].(string)+" ("+calls[q.id].fault+")", " ()"))
	}
	r.Desc("%s: %d callers, calls %s", s.name, len(callers), strings.Join(ds, ", "))
	var waiting [][]*request
	for _, cs := range callers {
		var qs []*request
		for _, c := range cs {
			qs = append(qs, c.request)
		}
		waiting = append(waiting, qs)
	}
	r.stalls(waiting, "work", "answer")
	w := simrt.NewWorld(r.Ch, simrt.NewKernel())
	w.Canon = true
	answers := svcAnswers(sg, all)
	var stray []string
	impl := svcImpl(r.Ch.S("delay"), s, all, answers, &stray)
	var handler http.Handler
	current := map[int]*call{}
	http.SimTransport = func(hr *http.Request) (*http.Response, error) {
		c := current[simrt.TaskID()]
		if c == nil {
			return nil, errors.New("simulated network: nobody's request")
		}
		c.sent++
		simrt.Sleep(time.Millisecond)
		body := ""
		if hr.Body != nil {
			b, err := io.ReadAll(hr.Body)
			hr.Body.Close()
			if err != nil {
				return nil, err
			}
			body = string(b)
		}
		fault := c.fault
		if c.sent > 1 {
			fault = ""
		}
		if fault != "" {
			r.St.Fired["net-"+strings.ReplaceAll(fault, " ", "-")]++
		}
		lost := []error{syscall.ECONNRESET, io.ErrUnexpectedEOF, io.EOF, errors.New("i/o timeout")}[c.page%4]
		gone := &net.OpError{Op: "read", Net: "tcp", Err: lost}
		if fault == "refused" {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
		}
		if fault == "gateway" || fault == "portal" {
			return c.instead(hr), nil
		}
		sr := &http.Request{Method: hr.Method, URL: hr.URL, Host: hr.Host, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: hr.Header.Clone(), RequestURI: hr.URL.RequestURI(), RemoteAddr: "client", Body: http.NoBody}
		if body != "" {
			down := &request{body: body, piece: c.piece, breakAt: -1}
			if fault == "request lost" {
				down.breakAt, down.lost = c.at%len(body), lost
				if lost == io.EOF { // as net/http has it
					down.lost = io.ErrUnexpectedEOF
				}
			}
			sr.Body = &bodyReader{r: down}
			sr.ContentLength = int64(len(body))
		} else if fault == "request lost" {
			return nil, gone
		}
		a := &answer{r: &request{leave: -1}, hdr: http.Header{}}
		handler.ServeHTTP(a, sr)
		if a.status == 0 {
			a.WriteHeader(200)
		}
		simrt.Sleep(time.Millisecond)
		if fault == "request lost" || fault == "answer lost" {
			return nil, gone
		}
		b := &reply{c: c, text: a.body.String(), end: io.EOF}
		if fault == "answer cut" && len(b.text) > 0 {
			b.text, b.end = b.text[:c.at%len(b.text)], lost
			if lost == io.EOF {
				b.end = io.ErrUnexpectedEOF
			}
		}
		c.opened++
		return &http.Response{Status: http.StatusText(a.status), StatusCode: a.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: a.hdr.Clone(), Body: b, ContentLength: int64(a.body.Len()), Request: hr}, nil
	}
	var client func(action, req string) (string, error)
	fns := []func(){func() {
		handler = s.server(impl, "http://host"+s.base)
		client = svcClients[s.name]("http://host" + strings.TrimSuffix(s.base, "/"))
	}}
	for _, cs := range callers {
		cs := cs
		fns = append(fns, func() {
			simrt.Block(func() bool { return client != nil })
			for _, c := range cs {
				c := c
				current[simrt.TaskID()] = c
				func() {
					defer func() {
						if x := recover(); x != nil {
							c.pan = fmt.Sprint(x)
						}
					}()
					defer c.over()
					c.res, c.err = client(c.act["name"].(string), text(c.args))
				}()
			}
		})
	}
	r.Exec(w, fns...)
	http.SimTransport = nil
	r.ended(w, &Op{Name: "client of " + s.name})
	if len(stray) > 0 {
		r.Failf("wrong inputs", "the implementation is called for no call that was made: %s", quote(stray[0]))
	}
	for _, q := range all {
		r.judge(sg, calls[q.id], answers[q])
	}
}

// instead is the answer of something between client and service.
func (c *call) instead(hr *http.Request) *http.Response {
	status := []int{502, 503, 504, 407, 511, 500, 203, 206, 304, 299}[c.page]
	text := "<html><body>" + http.StatusText(status) + "</body></html>"
	if c.fault == "portal" {
		status = c.act["expected"].(J)["status"].(int)
		text = []string{"<html><body>please log in</body></html>", "", "{\"", "[1, 2", "nul", "OK"}[c.page%6]
	}
	c.opened++
	return &http.Response{Status: http.StatusText(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"text/html"}}, Body: &reply{c: c, text: text, end: io.EOF}, ContentLength: int64(len(text)), Request: hr}
}

func (r *Run) judge(sg *gen, c *call, answer any) {
	name := c.act["name"].(string)
	outcome := "result"
	if c.err != nil {
		outcome = "error"
	}
	r.St.Outcomes[fmt.Sprintf("%s %s: %s", c.act["method"], strings.TrimSpace("call "+c.fault), outcome)]++
	if c.stalled {
		r.St.Fired["stalled-"+c.stall]++
	}
	if c.pan != "" {
		r.Failf("panic", "the call of %s panics: %s", name, quote(c.pan))
	}
	reached := c.fault == "" || c.fault == "answer lost" || c.fault == "answer cut"
	if n := len(c.calls); n > 1 || reached && n != 1 || (c.fault == "refused" || c.fault == "gateway" || c.fault == "portal") && n != 0 {
		r.Failf("calls", "the call of %s with %s (network: %s) reaches the implementation %d times", name, quote(text(c.args)), c.fault, n)
	}
	if c.opened != c.closed {
		r.Failf("connection kept", "the call of %s (network: %s) does not give its connection back", name, c.fault)
	}
	entity := false
	outs, _ := c.act["expected"].(J)["outputs"].([]any)
	for _, o := range outs {
		entity = entity || o.(J)["header"] == nil
	}
	if c.err == nil {
		switch {
		case c.fault == "portal" && !entity: // nothing that could be missing
			return
		case c.fault != "" && c.fault != "answer cut":
			r.Failf("result from nothing", "the call of %s returns %s although no answer arrived (network: %s)", name, quote(c.res), c.fault)
		case c.result != "ok":
			r.Failf("error lost", "the call of %s returns %s although the service failed with %s", name, quote(c.res), c.result)
		}
		want := J{}
		for _, o := range outs {
			o := o.(J)
			n := o["name"].(string)
			v := answer.(J)[n]
			if h, _ := o["header"].(string); o["type"] == "Timestamp" && (strings.EqualFold(h, "last-modified") || strings.EqualFold(h, "date") || strings.EqualFold(h, "expires")) {
				v = v.(string)[:20] + "000Z" // HTTP dates have whole seconds
			}
			want[n] = v
		}
		got, err := fromJSON(c.res)
		if err != nil || text(plain(got)) != text(plain(want)) {
			r.Failf("wrong result", "the call of %s with %s returns %s instead of %s (network: %s)", name, quote(text(c.args)), quote(c.res), quote(text(want)), c.fault)
		}
		return
	}
	t := fmt.Sprintf("%T", c.err)
	declared := false
	excs, _ := c.act["exceptions"].([]any)
	for _, e := range excs {
		declared = declared || strings.HasSuffix(t, "."+e.(J)["type"].(string))
	}
	if declared && c.fault != "" && c.fault != "answer cut" {
		r.Failf("exception from nothing", "the call of %s fails with %s although no answer arrived (network: %s)", name, t, c.fault)
	}
	if c.fault != "" && !declared {
		return
	}
	switch c.result {
	case "ok":
		r.Failf("call fails", "the call of %s with %s fails: %v", name, quote(text(c.args)), c.err)
	case "error":
		return
	}
	b, _ := json.Marshal(c.err)
	v, _ := fromJSON(string(b))
	if !strings.HasSuffix(t, "."+c.result) || text(plain(v)) != text(plain(c.entity)) {
		r.Failf("wrong error", "the call of %s fails with %s %s instead of %s %s", name, t, quote(string(b)), c.result, quote(text(c.entity)))
	}
}
