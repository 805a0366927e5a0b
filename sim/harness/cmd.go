//go:build simcmd

package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"flag"
	"fmt"
	"hash/crc32"
	"io"
	"mime"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	sadlcmd "github.com/boynton/sadl/cmd/sadl"
	"simrt"
)

const cmdReal = "cmd/sadl/* and everything it uses, started from its main function with a command line; packages flag, log, net/http (client without transport, server mux, ServeContent), archive/zip of the standard library"
const cmdStub = "operating system below package syscall; sockets (http.Transport.RoundTrip and http.Server.Serve); starting a browser; the third-party scanner and Smithy modules, which are not installed here"

const home = "/work/home"

// command starts the command in the simulated process.
type command struct {
	args  []string
	env   map[string]string
	ended bool
}

func init() {
	mime.TypeByExtension(".html") // the tables are loaded once per real process
}

var cmdEnv = []string{"HOME", "PATH", "DOWNLOAD_DIRECTORY", "SWAGGER_RELEASE"}

func (c *command) task() func() {
	os.Args = append([]string{"sadl"}, c.args...)
	for _, n := range cmdEnv {
		os.Unsetenv(n)
	}
	os.Setenv("HOME", home)
	os.Setenv("PATH", "/nonexistent")
	for n, v := range c.env {
		os.Setenv(n, v)
	}
	fs := flag.NewFlagSet("sadl", flag.ExitOnError)
	fs.Usage = func() { flag.Usage() }
	flag.CommandLine = fs
	http.DefaultServeMux = http.NewServeMux()
	c.ended = false
	return func() {
		defer func() { c.ended = true }()
		sadlcmd.SimMain()
	}
}

// cmdStatus is the exit status the shell sees.
func cmdStatus(w *simrt.World) int {
	switch {
	case w.Exited:
		return w.ExitCode & 0xff // what the operating system hands on
	case w.Killed == "crash":
		return 2
	case w.Killed != "":
		return 137
	}
	return 0
}

// ---- the network ----

type netPlan struct {
	connect  int // which request fails to connect; <0: none
	status   int // a status other than 200
	statusAt int // at which request
	cutAt    int // bytes of the body that arrive; <0: all
	cutErr   error
	chunk    int
	redirect bool
	length   bool // Content-Length is known
	requests int
	fired    map[string]int
	open     int // bodies not closed
	body     string
	path     string            // of the bundle
	others   map[string]string // what else there is, by path
}

func okNet(body string) *netPlan {
	return &netPlan{connect: -1, cutAt: -1, chunk: 4096, redirect: true, length: true, body: body, fired: map[string]int{}}
}

func (r *Run) netPlan(body string) *netPlan {
	n := okNet(body)
	s := r.Fl
	n.redirect = s.N(3) != 1
	n.length = s.N(3) != 1
	n.chunk = simrt.Pick(s, 4096, 1, 100, 700, 1<<20)
	switch s.N(6) {
	case 0:
	case 1:
		n.connect = s.N(2)
	case 2:
		n.status, n.statusAt = simrt.Pick(s, 503, 404, 500, 403, 429, 502, 206, 204), s.N(2)
	case 3, 4:
		n.cutAt = s.N(len(body))
		n.cutErr = simrt.Pick[error](s, io.ErrUnexpectedEOF, syscall.ECONNRESET, errors.New("i/o timeout"))
	}
	return n
}

func (n *netPlan) String() string {
	switch {
	case n.connect >= 0:
		return fmt.Sprintf("request %d cannot connect", n.connect)
	case n.status != 0:
		return fmt.Sprintf("request %d gets status %d", n.statusAt, n.status)
	case n.cutAt >= 0:
		return fmt.Sprintf("download ends after %d of %d bytes: %v", n.cutAt, len(n.body), n.cutErr)
	}
	return "network works"
}

type slowBody struct {
	n      *netPlan
	off    int
	closed bool
}

func (b *slowBody) Read(p []byte) (int, error) {
	simrt.Sleep(time.Millisecond)
	n := b.n
	end := len(n.body)
	if n.cutAt >= 0 {
		end = n.cutAt
	}
	if b.off >= end {
		if n.cutAt >= 0 {
			n.fired["net:cut"]++
			return 0, n.cutErr
		}
		return 0, io.EOF
	}
	c := min(len(p), n.chunk, end-b.off)
	copy(p, n.body[b.off:b.off+c])
	b.off += c
	return c, nil
}

func (b *slowBody) Close() error {
	if !b.closed {
		b.n.open--
	}
	b.closed = true
	return nil
}

func (n *netPlan) roundTrip(req *http.Request) (*http.Response, error) {
	simrt.Sleep(20 * time.Millisecond)
	i := n.requests
	n.requests++
	if i == n.connect {
		n.fired["net:connect"]++
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	res := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, ContentLength: -1}
	page := func(status int, text string) {
		res.StatusCode, res.Status = status, fmt.Sprintf("%d %s", status, http.StatusText(status))
		res.Body = io.NopCloser(strings.NewReader(text))
		res.ContentLength = int64(len(text))
		res.Header.Set("Content-Length", strconv.Itoa(len(text)))
	}
	switch {
	case n.status != 0 && i == n.statusAt:
		n.fired["net:status"]++
		switch n.status {
		case 206:
			page(206, n.body[:len(n.body)/2])
		case 204:
			page(204, "")
		default:
			page(n.status, "<html><body>"+http.StatusText(n.status)+"</body></html>\n")
		}
	case n.redirect && req.URL.Host == "github.com":
		page(302, "")
		res.Header.Set("Location", "https://codeload.github.com"+req.URL.Path)
	case n.path != "" && !strings.HasSuffix(req.URL.Path, n.path):
		for p, t := range n.others {
			if strings.HasSuffix(req.URL.Path, p) {
				page(200, t)
				return res, nil
			}
		}
		page(404, "no "+req.URL.Path)
	default:
		page(200, "")
		res.Body = &slowBody{n: n}
		n.open++
		res.ContentLength = -1
		res.Header.Del("Content-Length")
		if n.length {
			res.ContentLength = int64(len(n.body))
			res.Header.Set("Content-Length", strconv.Itoa(len(n.body)))
		}
	}
	return res, nil
}

// ---- the bundle ----

type bundle struct {
	docs map[string]string // by path below dist, as stored
	zip  string
}

const petstore = "https://petstore.swagger.io/v2/swagger.json"

func makeBundle(s *simrt.Stream, version string) *bundle {
	b := &bundle{docs: map[string]string{}}
	fill := func(n int) string {
		var t strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&t, "%d:%d\n", i, s.N(1000))
		}
		return t.String()
	}
	b.docs["/index.html"] = "<html><script>ui({ url: \"" + petstore + "\" })</script>" + fill(s.N(20)) + "</html>\n"
	b.docs["/swagger-ui.css"] = "body { margin: 0 }\n" + fill(40+s.N(60))
	b.docs["/swagger-ui-bundle.js"] = "var x = 1;\n" + fill(100+s.N(300))
	b.docs["/favicon-32x32.png"] = "\x89PNG\r\n" + fill(10+s.N(20))
	b.docs["/oauth2-redirect.html"] = "<html>" + fill(s.N(40)) + "</html>"
	b.docs["/empty.txt"] = ""
	if s.N(5) == 1 { // more than any buffer or window between the archive and the client
		b.docs["/swagger-ui.js"] = strings.Repeat(fill(20), 150+s.N(400)) + fill(s.N(30))
	}
	if s.N(4) == 1 {
		b.docs["/index.html"] += "<a href='" + petstore + "'>again</a>\n"
	}
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	prefix := "swagger-ui-" + strings.TrimPrefix(version, "v")
	add := func(name, text string, method uint16) {
		w, err := z.CreateHeader(&zip.FileHeader{Name: name, Method: method, Modified: time.Unix(1600000000, 0).UTC()})
		if err == nil {
			_, err = w.Write([]byte(text))
		}
		if err != nil {
			panic(err)
		}
	}
	add(prefix+"/README.md", "read me\n", zip.Store)
	for _, p := range simrt.SortedKeys(b.docs) {
		m := zip.Deflate
		if s.N(3) == 1 {
			m = zip.Store
		}
		add(prefix+"/dist"+p, b.docs[p], m)
	}
	add(prefix+"/src/main.js", "main\n", zip.Deflate)
	if err := z.Close(); err != nil {
		panic(err)
	}
	b.zip = buf.String()
	return b
}

// ---- the clients of the server ----

type answer struct {
	method, path, rng string
	status            int
	header            http.Header
	body              []byte
	panicked          string
	left              bool // the client went away
	done              bool
}

// conn is the server's end of one connection.
type conn struct {
	a      *answer
	hdr    http.Header
	wrote  bool
	piece  int
	pause  time.Duration
	leave  int    // the client goes away after this many bytes; <0: it stays
	stall  func() // waits after the first piece of the answer, if set
	length int64
	sent   int64
}

func (c *conn) Header() http.Header { return c.hdr }

func (c *conn) WriteHeader(status int) {
	if c.wrote || status < 200 {
		return
	}
	c.wrote = true
	c.a.status = status
	c.a.header = c.hdr.Clone()
	c.length = -1
	if v := c.a.header.Get("Content-Length"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			c.length = n
		}
	}
	if c.pause > 0 {
		simrt.Sleep(c.pause)
	}
}

func (c *conn) Write(p []byte) (int, error) {
	if !c.wrote {
		c.WriteHeader(200)
	}
	if c.a.status == 204 || c.a.status == 304 {
		return 0, http.ErrBodyNotAllowed
	}
	c.sent += int64(len(p))
	if c.length >= 0 && c.sent > c.length {
		return 0, http.ErrContentLength
	}
	if c.a.method == "HEAD" {
		return len(p), nil
	}
	for n := 0; n < len(p); {
		if c.leave >= 0 && len(c.a.body) >= c.leave {
			c.a.left = true
			return n, syscall.EPIPE
		}
		k := min(c.piece, len(p)-n)
		c.a.body = append(c.a.body, p[n:n+k]...)
		n += k
		if c.pause > 0 {
			simrt.Sleep(c.pause)
		}
		if c.stall != nil {
			c.stall()
			c.stall = nil
		}
	}
	return len(p), nil
}

// ask sends one request and waits for the end of the answer.
func ask(h http.Handler, a *answer, c *conn, head map[string]string) {
	u, err := url.Parse("http://localhost:8080" + a.path)
	if err != nil {
		panic(err)
	}
	req := &http.Request{Method: a.method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost:8080",
		RequestURI: a.path, RemoteAddr: "127.0.0.1:4000", Body: http.NoBody}
	for k, v := range head {
		req.Header.Set(k, v)
	}
	c.a, c.hdr = a, http.Header{}
	defer func() {
		if x := recover(); x != nil {
			if x == http.ErrAbortHandler {
				a.left = true
				return
			}
			a.panicked = fmt.Sprint(x)
		}
	}()
	h.ServeHTTP(c, req)
	if !c.wrote {
		c.WriteHeader(200)
	}
	a.done = true
}

// judge says what is wrong with an answer, or "". faulty: an error status is excusable.
func (a *answer) judge(want string, known, faulty bool) string {
	switch {
	case a.panicked != "":
		return "the server drops the connection: " + firstLine(a.panicked)
	case a.left:
		return ""
	case !a.done:
		return "no answer"
	}
	body := string(a.body)
	switch {
	case !known:
		if a.status >= 200 && a.status < 400 {
			return fmt.Sprintf("status %d for a document that does not exist", a.status)
		}
	case a.status >= 500 && faulty:
	case a.status == 304:
		if body != "" {
			return "304 with a body"
		}
	case a.method == "HEAD" && a.status < 300:
		if l := a.header.Get("Content-Length"); l != "" && l != strconv.Itoa(len(want)) && a.rng == "" {
			return fmt.Sprintf("HEAD announces %s bytes of %d", l, len(want))
		}
		return ""
	case a.status == 200:
		if body != want {
			return "200 with " + textDiff(want, body)
		}
	case a.status == 206 && a.rng != "":
		var from, to, size int
		if n, _ := fmt.Sscanf(a.header.Get("Content-Range"), "bytes %d-%d/%d", &from, &to, &size); n != 3 || size != len(want) || from > to || to >= size || body != want[from:to+1] {
			return fmt.Sprintf("206 %q with %d bytes that are not this range of the %d bytes", a.header.Get("Content-Range"), len(body), len(want))
		}
		var f, t int
		if n, _ := fmt.Sscanf(a.rng, "bytes=%d-%d", &f, &t); n == 2 && (from != f || to != min(t, len(want)-1)) {
			return fmt.Sprintf("%s asked, %s answered", a.rng, a.header.Get("Content-Range"))
		}
	case a.status == 416 && a.rng != "":
	default:
		return fmt.Sprintf("status %d without any fault", a.status)
	}
	if l := a.header.Get("Content-Length"); l != "" && l != strconv.Itoa(len(body)) && a.status != 304 && a.method != "HEAD" {
		return fmt.Sprintf("%s bytes announced, %d sent", l, len(body))
	}
	return ""
}

func crc(s string) string {
	return fmt.Sprintf("%d bytes, crc %08x", len(s), crc32.ChecksumIEEE([]byte(s)))
}
