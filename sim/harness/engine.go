package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"simrt"
)

// Prop is one property: a simulated run that panics with a *Failure when the
// property does not hold.
type Prop struct {
	ID     string
	Run    func(r *Run)
	Quick  int // runs
	Deep   int
	QuickS int // seconds at most
	DeepS  int
	Rule   string
	Real   []string
	Stub   []string
	Assume []string
	RunS   int // seconds one run may take
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Run is one simulated run: every choice comes from Ch.
type Run struct {
	Ch      *simrt.Choices
	In      *simrt.Stream // what the system is asked to do
	Fl      *simrt.Stream // what goes wrong
	St      *Stats
	Index   int
	hash    uint64
	trivial bool
	desc    []string
	trace   []string
	tracing bool
	hooks   []func()
	prop    string
}

type Stats struct {
	Runs     int
	Trivial  int
	Worlds   int
	Steps    int64
	SimNs    int64
	Preempts int64
	Orders   int64
	Fired    map[string]int
	Outcomes map[string]int
	Known    map[string]int
	Samples  []string
	Replayed int
	Unstable int
	Hashes   map[uint64]bool `json:"-"`
	HashList []uint64
	Sites    []uint64
	Fail     *Failure
	FailRun  int
	WallS    float64
}

func newStats() *Stats {
	return &Stats{Fired: map[string]int{}, Outcomes: map[string]int{}, Known: map[string]int{}, Hashes: map[uint64]bool{}, FailRun: -1}
}

type skipped struct{}

// skip ends a run in which there is nothing to judge.
func (r *Run) skip() {
	r.trivial = true
	panic(skipped{})
}

func (r *Run) Failf(class, format string, args ...any) {
	panic(&Failure{class, fmt.Sprintf(format, args...)})
}

// Desc describes the run for humans.
func (r *Run) Desc(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	r.desc = append(r.desc, s)
	if r.tracing {
		r.trace = append(r.trace, s)
	}
}

func (r *Run) mix(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	r.hash = (r.hash*31 + 7) ^ h.Sum64()
}

// Exec runs tasks in a world and accounts for them.
// restore undoes what a simulated process did to its own environment: the next process starts from the shell's.
func restore(env []string) {
	now := os.Environ()
	same := len(now) == len(env)
	for i := 0; same && i < len(now); i++ {
		same = now[i] == env[i]
	}
	if same {
		return
	}
	os.Clearenv()
	for _, e := range env {
		if i := strings.IndexByte(e, '='); i > 0 {
			os.Setenv(e[:i], e[i+1:])
		}
	}
}

func (r *Run) Exec(w *simrt.World, fns ...func()) {
	k := w.K
	k.Tracing = r.tracing
	n := len(k.Trace)
	before := map[string]int{}
	for f, c := range k.Fired {
		before[f] = c
	}
	env := os.Environ()
	w.Run(fns...)
	restore(env)
	for _, f := range simrt.SortedKeys(k.Fired) {
		if d := k.Fired[f] - before[f]; d > 0 {
			r.St.Fired[f] += d
		}
	}
	r.St.Worlds++
	r.St.Steps += int64(w.Steps)
	e := w.Elapsed()
	if e < 0 {
		e = 0
	}
	r.St.SimNs += e
	r.St.Preempts += int64(w.Preempts)
	r.St.Orders += int64(w.OrderDraws)
	r.hash = (r.hash*31 + k.Hash()) ^ (w.SchedHash * 7) ^ uint64(w.Steps)
	if r.tracing {
		r.trace = append(r.trace, fmt.Sprintf("-- simulated process: %d steps, %d kernel operations, %d preemptions, end %q %s", w.Steps, k.Ops, w.Preempts, w.Killed, firstLine(w.Crash)))
		r.trace = append(r.trace, k.Trace[n:]...)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func runSeed(seed uint64, prop string, idx int) uint64 {
	h := fnv.New64a()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	binary.LittleEndian.PutUint64(b[8:], uint64(idx))
	h.Write(b[:])
	h.Write([]byte(prop))
	x := h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	return x ^ (x >> 32)
}

// one executes a run.
func one(p *Prop, ch *simrt.Choices, idx int, st *Stats, tracing bool) (r *Run, f *Failure) {
	r = &Run{prop: p.ID, Ch: ch, In: ch.S("in"), Fl: ch.S("fault"), St: st, Index: idx, tracing: tracing, hash: 14695981039346656037}
	defer func() {
		for _, h := range r.hooks {
			h()
		}
		if x := recover(); x != nil {
			if ff, ok := x.(*Failure); ok {
				f = ff
				return
			}
			if _, ok := x.(skipped); ok {
				return
			}
			panic(x)
		}
	}()
	p.Run(r)
	return r, nil
}

func gcIfNeeded() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 300<<20 {
		runtime.GC()
	}
}

type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type KnownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func loadKnown(path, prop string) []Known {
	var kf KnownFile
	b, err := os.ReadFile(path)
	if err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fatal("known findings: %v", err)
		}
	}
	var r []Known
	for _, k := range kf.Findings {
		if k.Property == prop {
			r = append(r, k)
		}
	}
	return r
}

func matchKnown(ks []Known, f *Failure) *Known {
	for i := range ks {
		if ks[i].Class == f.Class && strings.Contains(f.Msg, ks[i].Contains) {
			return &ks[i]
		}
	}
	return nil
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(2)
}

type Replay struct {
	Property string              `json:"property"`
	Class    string              `json:"class"`
	Message  string              `json:"message"`
	Seed     uint64              `json:"seed"`
	Run      int                 `json:"run"`
	RunSeed  uint64              `json:"run_seed"`
	Choices  map[string][]uint64 `json:"choices"`
	Original int                 `json:"choices_before_minimising"`
	Desc     []string            `json:"scenario"`
	Trace    []string            `json:"trace"`
}

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fRuns    = flag.Int("runs", 0, "number of runs, overriding the tier")
	fTime    = flag.Int("time", 0, "seconds, overriding the tier")
	fWorkers = flag.Int("workers", 0, "worker processes")
	fWorker  = flag.String("worker", "", "internal: i/n")
	fState   = flag.String("state", "", "internal: where a worker notes its present run")
	fOne     = flag.Int("one", -1, "execute one run of the search and print it")
	fReplay  = flag.String("replay", "", "execute a replay file")
	fShrink  = flag.String("shrink", "", "internal: minimise a replay file")
	fEvid    = flag.String("evidence", "", "evidence file")
	fReplays = flag.String("replays", "", "directory for replay files")
	fKnown   = flag.String("known", "", "known findings")
	fBuild   = flag.String("build", "", "build directory")
	fT0      = flag.Int64("t0", 0, "when the check began, in unix seconds")
	fCollect = flag.Bool("collect", false, "go on after failures and list them (for development)")
	fVerbose = flag.Bool("v", false, "print more")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(1 << 30)
	if extraMain() {
		return
	}
	p := props[*fProp]
	if *fReplay != "" {
		doReplay()
		return
	}
	if *fShrink != "" {
		doShrink()
		return
	}
	if p == nil {
		fatal("unknown property %q", *fProp)
	}
	if *fOne >= 0 {
		doOne(p)
		return
	}
	if *fWorker != "" {
		work(p)
		return
	}
	drive(p)
}

func loadSites() {
	var sites []string
	b, err := os.ReadFile(filepath.Join(*fBuild, "sites.json"))
	if err == nil {
		json.Unmarshal(b, &sites)
	}
	simrt.SiteName = func(s uint32) string {
		if s > 0 && int(s) <= len(sites) {
			return sites[s-1]
		}
		return "a kernel operation"
	}
}

func limits(p *Prop) (runs, secs int) {
	runs, secs = p.Quick, p.QuickS
	if *fTier == "thorough" {
		runs, secs = p.Deep, p.DeepS
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fTime > 0 {
		secs = *fTime
	}
	return
}

// work is a worker process: it executes every n-th run.
func work(p *Prop) {
	var i, n int
	fmt.Sscanf(*fWorker, "%d/%d", &i, &n)
	runs, secs := limits(p)
	st := newStats()
	known := loadKnown(*fKnown, p.ID)
	t0 := time.Now()
	state, err := os.OpenFile(*fState, os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		fatal("%v", err)
	}
	var buf [8]byte
	for idx := i; idx < runs; idx += n {
		if time.Since(t0) > time.Duration(secs)*time.Second {
			break
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(idx)+1)
		state.WriteAt(buf[:], 0)
		ch := simrt.NewChoices(runSeed(*fSeed, p.ID, idx))
		r, f := one(p, ch, idx, st, false)
		st.Runs++
		if r.trivial {
			st.Trivial++
		} else {
			st.Hashes[r.hash] = true
		}
		if len(st.Samples) < 2 && !r.trivial && idx%13 < n {
			st.Samples = append(st.Samples, fmt.Sprintf("run %d: %s", idx, strings.Join(r.desc, "; ")))
		}
		if f != nil {
			if k := matchKnown(known, f); k != nil {
				st.Known[k.Class+"\x00"+k.Contains]++
				continue
			}
			if *fCollect {
				st.Outcomes[fmt.Sprintf("FAIL %s: %.140s [run %d]", f.Class, f.Msg, idx)]++
				if len(st.Outcomes) > 400 {
					break
				}
				continue
			}
			st.Fail, st.FailRun = f, idx
			break
		}
		if idx%(n*40) < n {
			// one seed, one execution: repeat the run from its record
			h := r.hash
			r2, f2 := one(p, simrt.ReplayChoices(ch.Seed, ch.Record()), idx, newStats(), false)
			st.Replayed++
			if f2 != nil || r2.hash != h {
				st.Unstable++
				if *fVerbose {
					fmt.Fprintf(os.Stderr, "run %d is not repeatable: %v\n", idx, f2)
				}
			}
		}
		gcIfNeeded()
	}
	st.WallS = time.Since(t0).Seconds()
	for h := range st.Hashes {
		st.HashList = append(st.HashList, h)
	}
	st.Sites = simrt.Sites
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	json.NewEncoder(w).Encode(st)
	w.Flush()
}

// drive is the parent: it starts the workers, confirms and minimises failures
// and writes the evidence.
func drive(p *Prop) {
	if *fT0 == 0 {
		*fT0 = time.Now().Unix()
	}
	t0 := time.Now()
	n := *fWorkers
	if n == 0 {
		n = runtime.NumCPU()
	}
	_, secs := limits(p)
	tmp, err := os.MkdirTemp("", "sim")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	type res struct {
		i    int
		st   *Stats
		err  error
		errs string
		idx  int
	}
	ch := make(chan res, n)
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	stop := func() {
		mu.Lock()
		defer mu.Unlock()
		for _, c := range procs {
			c.Process.Kill()
		}
	}
	for i := 0; i < n; i++ {
		args := []string{}
		flag.Visit(func(f *flag.Flag) { args = append(args, "-"+f.Name+"="+f.Value.String()) })
		sf := filepath.Join(tmp, fmt.Sprint("state", i))
		args = append(args, fmt.Sprintf("-worker=%d/%d", i, n), "-state="+sf)
		cmd := exec.Command(self(), args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		var out strings.Builder
		errf := &tailWriter{}
		cmd.Stdout, cmd.Stderr = &out, errf
		if err := cmd.Start(); err != nil {
			fatal("%v", err)
		}
		mu.Lock()
		procs[i] = cmd
		mu.Unlock()
		go func(i int) {
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var err error
			last, since := -1, time.Now()
			limit := time.Duration(p.RunS) * time.Second
			if limit == 0 {
				limit = 60 * time.Second
			}
			hung := false
		loop:
			for {
				select {
				case err = <-done:
					break loop
				case <-time.After(500 * time.Millisecond):
					b, _ := os.ReadFile(sf)
					if len(b) == 8 {
						if x := int(binary.LittleEndian.Uint64(b)); x != last {
							last, since = x, time.Now()
						}
					}
					if time.Since(since) > limit && last >= 0 {
						hung = true
						cmd.Process.Kill()
					}
				}
			}
			mu.Lock()
			delete(procs, i)
			mu.Unlock()
			r := res{i: i, idx: -1, errs: errf.String()}
			b, _ := os.ReadFile(sf)
			if len(b) == 8 {
				r.idx = int(binary.LittleEndian.Uint64(b)) - 1
			}
			st := newStats()
			if e := json.Unmarshal([]byte(out.String()), st); e == nil && st.Runs+st.Worlds >= 0 && out.Len() > 0 {
				r.st = st
			} else {
				r.err = fmt.Errorf("worker ended: %v (stuck: %v)", err, hung)
			}
			ch <- r
		}(i)
	}
	tot := newStats()
	var fail *Failure
	failRun := -1
	var dead []res
	stopped := false
	for c := 0; c < n; c++ {
		r := <-ch
		if r.st == nil {
			if !stopped {
				dead = append(dead, r)
			}
			continue
		}
		tot.merge(r.st)
		if r.st.Fail != nil && (failRun < 0 || r.st.FailRun < failRun) {
			fail, failRun = r.st.Fail, r.st.FailRun
		}
		if fail != nil && !stopped {
			stopped = true
			stop()
		}
	}
	viol := 0
	status := 0
	var lines []string
	if fail != nil {
		rp, ok := confirm(p, failRun, fail, tmp)
		if ok {
			viol = 1
			lines = append(lines, report(p, rp))
			status = 1
		} else {
			fmt.Fprintf(os.Stderr, "sim: run %d failed (%s: %s) but does not fail again\n", failRun, fail.Class, fail.Msg)
			status = 2
		}
	}
	if status != 1 {
		for _, d := range dead {
			if d.idx < 0 {
				fmt.Fprintf(os.Stderr, "sim: worker %d: %v\n%s\n", d.i, d.err, d.errs)
				status = 2
				continue
			}
			// the run took the whole process down: does it do so again?
			f := &Failure{"fatal", "run ends the process: " + fatalLine(d.errs, d.err)}
			rp, ok := confirmFatal(p, d.idx, f, tmp, secs)
			if ok {
				viol = 1
				status = 1
				lines = append(lines, report(p, rp))
				break
			}
			fmt.Fprintf(os.Stderr, "sim: worker %d died in run %d: %v\n%s\n", d.i, d.idx, d.err, d.errs)
			status = 2
		}
	}
	for _, k := range loadKnown(*fKnown, p.ID) {
		// listed whether or not this search came across it
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", p.ID, k.What, tot.Known[k.Class+"\x00"+k.Contains])
	}
	writeEvidence(p, tot, viol, time.Since(t0).Seconds(), n)
	fmt.Printf("%s: %d runs, %d simulated processes, %d distinct, %d outcomes, %.1fs\n", p.ID, tot.Runs, tot.Worlds, len(tot.Hashes), len(tot.Outcomes), time.Since(t0).Seconds())
	if *fVerbose {
		for _, k := range simrt.SortedKeys(tot.Outcomes) {
			fmt.Printf("   %8d %s\n", tot.Outcomes[k], k)
		}
		fmt.Println("   fired:", tot.Fired, "unstable:", tot.Unstable, "of", tot.Replayed)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	os.RemoveAll(tmp)
	os.Exit(status)
}

func fatalLine(errs string, err error) string {
	for _, l := range strings.Split(errs, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return err.Error()
}

type tailWriter struct {
	mu   sync.Mutex
	head []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 6000 {
		t.head = append(t.head, p...)
		if len(t.head) > 6000 {
			t.head = t.head[:6000]
		}
	}
	return len(p), nil
}
func (t *tailWriter) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.head) }

func self() string {
	e, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return e
}

func (t *Stats) merge(o *Stats) {
	t.Runs += o.Runs
	t.Trivial += o.Trivial
	t.Worlds += o.Worlds
	t.Steps += o.Steps
	t.SimNs += o.SimNs
	t.Preempts += o.Preempts
	t.Orders += o.Orders
	t.Replayed += o.Replayed
	t.Unstable += o.Unstable
	for k, v := range o.Fired {
		t.Fired[k] += v
	}
	for k, v := range o.Outcomes {
		t.Outcomes[k] += v
	}
	for k, v := range o.Known {
		t.Known[k] += v
	}
	for _, h := range o.HashList {
		t.Hashes[h] = true
	}
	if len(t.Samples) < 6 {
		t.Samples = append(t.Samples, o.Samples...)
	}
	for len(t.Sites) < len(o.Sites) {
		t.Sites = append(t.Sites, 0)
	}
	for i, w := range o.Sites {
		t.Sites[i] |= w
	}
}

// sub runs this program again and returns its output.
func sub(timeout time.Duration, args ...string) (string, string, error) {
	cmd := exec.Command(self(), args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var out strings.Builder
	errf := &tailWriter{}
	cmd.Stdout, cmd.Stderr = &out, errf
	if err := cmd.Start(); err != nil {
		return "", "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return out.String(), errf.String(), err
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return out.String(), errf.String(), fmt.Errorf("timeout")
	}
}

func common() []string {
	return []string{"-prop=" + *fProp, "-tier=" + *fTier, fmt.Sprint("-seed=", *fSeed), "-build=" + *fBuild, "-known=" + *fKnown}
}

// confirm repeats a failing run in a fresh process, minimises it and returns
// the replay, which has been seen to fail in yet another process.
func confirm(p *Prop, idx int, f *Failure, tmp string) (*Replay, bool) {
	file := filepath.Join(tmp, "fail.json")
	ok := false
	for try := 0; try < 3 && !ok; try++ {
		_, _, err := sub(180*time.Second, append(common(), fmt.Sprint("-one=", idx), "-replays="+file)...)
		if err == nil {
			ok = true
		}
	}
	if !ok {
		return nil, false
	}
	var orig Replay
	readJSON(file, &orig)
	sub(90*time.Second, append(common(), "-shrink="+file)...)
	for try := 0; try < 3; try++ {
		out, _, _ := sub(180*time.Second, append(common(), "-replay="+file)...)
		if strings.Contains(out, "REPRODUCED") {
			var rp Replay
			readJSON(file, &rp)
			return &rp, true
		}
	}
	// the minimised record does not fail in a fresh process; the original does
	return &orig, true
}

func readJSON(file string, v any) {
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fatal("%s: %v", file, err)
	}
}

func writeJSON(file string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		tmp := file + ".tmp"
		if err = os.WriteFile(tmp, b, 0644); err == nil {
			err = os.Rename(tmp, file)
		}
	}
	if err != nil {
		fatal("%s: %v", file, err)
	}
}

// confirmFatal repeats a run that took its process down.
func confirmFatal(p *Prop, idx int, f *Failure, tmp string, secs int) (*Replay, bool) {
	limit := time.Duration(p.RunS) * time.Second
	if limit == 0 {
		limit = 60 * time.Second
	}
	_, errs, err := sub(limit+30*time.Second, append(common(), fmt.Sprint("-one=", idx), "-replays="+filepath.Join(tmp, "x.json"))...)
	if err == nil {
		return nil, false
	}
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 9 {
		return nil, false // the run ended normally
	}
	if strings.Contains(errs, "sim:") {
		return nil, false
	}
	rp := &Replay{Property: p.ID, Class: f.Class, Message: "run ends the process: " + fatalLine(errs, err), Seed: *fSeed, Run: idx, RunSeed: runSeed(*fSeed, p.ID, idx)}
	rp.Trace = strings.Split(errs, "\n")
	if len(rp.Trace) > 40 {
		rp.Trace = rp.Trace[:40]
	}
	return rp, true
}

func report(p *Prop, rp *Replay) string {
	dir := *fReplays
	os.MkdirAll(dir, 0755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-run%d.json", p.ID, sanitize(rp.Class), rp.Seed, rp.Run))
	writeJSON(file, rp)
	fmt.Printf("%s violated: %s: %s\n", p.ID, rp.Class, rp.Message)
	for _, d := range rp.Desc {
		fmt.Println("   ", firstLine(d))
	}
	return fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, file)
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '-'
	}, s)
}

// doOne executes run -one of the search; exit 0 if it fails and the replay was
// written, 9 if it does not fail.
func doOne(p *Prop) {
	loadSites()
	ch := simrt.NewChoices(runSeed(*fSeed, p.ID, *fOne))
	r, f := one(p, ch, *fOne, newStats(), true)
	if *fReplays == "" {
		for _, l := range append(r.desc, r.trace...) {
			fmt.Println(l)
		}
		fmt.Println("result:", f)
		return
	}
	if f == nil {
		os.Exit(9)
	}
	rec := ch.Record()
	writeJSON(*fReplays, &Replay{Property: p.ID, Class: f.Class, Message: f.Msg, Seed: *fSeed, Run: *fOne, RunSeed: ch.Seed, Choices: rec, Original: count(rec), Desc: r.desc, Trace: clip(r.trace)})
}

func clip(t []string) []string {
	if len(t) > 600 {
		t = append(append([]string{}, t[:300]...), append([]string{fmt.Sprintf("... %d lines ...", len(t)-600)}, t[len(t)-300:]...)...)
	}
	return t
}

func count(m map[string][]uint64) int {
	n := 0
	for _, v := range m {
		n += len(v)
	}
	return n
}

func doReplay() {
	loadSites()
	var rp Replay
	readJSON(*fReplay, &rp)
	p := props[rp.Property]
	if p == nil {
		fatal("unknown property %q", rp.Property)
	}
	var ch *simrt.Choices
	if rp.Choices == nil {
		ch = simrt.NewChoices(rp.RunSeed) // a run that takes the process down is repeated from its seed
	} else {
		ch = simrt.ReplayChoices(rp.RunSeed, rp.Choices)
	}
	r, f := one(p, ch, rp.Run, newStats(), true)
	for _, l := range r.desc {
		fmt.Println(l)
	}
	if *fVerbose {
		for _, l := range r.trace {
			fmt.Println(l)
		}
	}
	if f == nil {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("%s: %s\n", f.Class, f.Msg)
	if f.Class == rp.Class && f.Msg == rp.Message {
		fmt.Println("REPRODUCED exactly")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *fReplay)
	os.Exit(1)
}

// doShrink makes the record of a failing run smaller while it still fails in
// the same way, writing every improvement to the file.
func doShrink() {
	loadSites()
	var rp Replay
	readJSON(*fShrink, &rp)
	p := props[rp.Property]
	deadline := time.Now().Add(60 * time.Second)
	best := rp.Choices
	tries := 0
	try := func(c map[string][]uint64) bool {
		if time.Now().After(deadline) || tries > 4000 {
			return false
		}
		tries++
		ch := simrt.ReplayChoices(rp.RunSeed, c)
		_, f := one(p, ch, rp.Run, newStats(), false)
		gcIfNeeded()
		if f != nil && f.Class == rp.Class {
			rec := ch.Record()
			if smaller(rec, best) {
				best = rec
				return true
			}
		}
		return false
	}
	with := func(name string, v []uint64) map[string][]uint64 {
		m := map[string][]uint64{}
		for k, x := range best {
			m[k] = x
		}
		if len(v) == 0 {
			delete(m, name)
		} else {
			m[name] = v
		}
		return m
	}
	lastWrite := time.Now()
	save := func() {
		ch := simrt.ReplayChoices(rp.RunSeed, best)
		r, f := one(p, ch, rp.Run, newStats(), true)
		if f != nil && f.Class == rp.Class {
			rp.Choices, rp.Message, rp.Desc, rp.Trace = best, f.Msg, r.desc, clip(r.trace)
			writeJSON(*fShrink, &rp)
		}
		lastWrite = time.Now()
	}
	for round := 0; round < 6; round++ {
		before := fmt.Sprint(best)
		names := simrt.SortedKeys(best)
		sort.Slice(names, func(i, j int) bool { return len(best[names[i]]) > len(best[names[j]]) })
		for _, n := range names {
			try(with(n, nil))
			for size := len(best[n]); size >= 1; size /= 2 {
				for at := 0; at < len(best[n]); at += size {
					v := best[n]
					end := at + size
					if end > len(v) {
						end = len(v)
					}
					cut := append(append([]uint64{}, v[:at]...), v[end:]...)
					if try(with(n, cut)) {
						at -= size
						continue
					}
					z := append([]uint64{}, v...)
					any := false
					for i := at; i < end; i++ {
						any = any || z[i] != 0
						z[i] = 0
					}
					if any {
						try(with(n, z))
					}
				}
			}
			for i := 0; i < len(best[n]) && i < 400; i++ {
				for _, f := range []func(uint64) uint64{func(x uint64) uint64 { return 1 }, func(x uint64) uint64 { return x / 2 }, func(x uint64) uint64 { return x - 1 }} {
					if i >= len(best[n]) {
						break
					}
					v := append([]uint64{}, best[n]...)
					if v[i] == 0 {
						break
					}
					nv := f(v[i])
					if nv >= v[i] {
						continue
					}
					v[i] = nv
					try(with(n, v))
				}
			}
			if time.Since(lastWrite) > 5*time.Second {
				save()
			}
		}
		if fmt.Sprint(best) == before || time.Now().After(deadline) {
			break
		}
	}
	save()
}

func smaller(a, b map[string][]uint64) bool {
	if x, y := count(a), count(b); x != y {
		return x < y
	}
	sa, sb := uint64(0), uint64(0)
	for _, v := range a {
		for _, x := range v {
			sa += x + 1
		}
	}
	for _, v := range b {
		for _, x := range v {
			sb += x + 1
		}
	}
	return sa < sb
}

func writeEvidence(p *Prop, t *Stats, viol int, wall float64, workers int) {
	if *fEvid == "" {
		return
	}
	nsites := 0
	var sites []string
	if b, err := os.ReadFile(filepath.Join(*fBuild, "sites.json")); err == nil {
		json.Unmarshal(b, &sites)
	}
	nsites = len(sites)
	hitn := 0
	for _, w := range t.Sites {
		for ; w != 0; w &= w - 1 {
			hitn++
		}
	}
	lvl, _ := os.ReadFile(filepath.Join(*fBuild, "level"))
	total := time.Since(time.Unix(*fT0, 0)).Seconds()
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "wall_s": total, "violations": viol,
		"assumptions": p.Assume,
		"coverage": map[string]any{
			"evaluations":               t.Runs,
			"distinct_nontrivial":       len(t.Hashes),
			"rule":                      p.Rule + " Two runs are the same if every kernel operation with its result, every scheduling decision and the number of steps of each simulated process agree (64-bit hash).",
			"samples":                   t.Samples,
			"simulated_processes":       t.Worlds,
			"runs_per_hour":             int(float64(t.Runs) / wall * 3600),
			"seeds_per_hour":            int(float64(t.Runs) / wall * 3600),
			"simulated_seconds":         float64(t.SimNs) / 1e9,
			"simulated_steps":           t.Steps,
			"faults_injected":           t.Fired,
			"preemptions":               t.Preempts,
			"order_choices":             t.Orders,
			"outcomes":                  t.Outcomes,
			"trivial_runs":              t.Trivial,
			"statements_instrumented":   nsites,
			"statements_reached":        hitn,
			"runs_repeated_from_record": t.Replayed,
			"runs_not_repeatable":       t.Unstable,
			"workers":                   workers,
			"instrumentation_level":     strings.TrimSpace(string(lvl)),
			"search_wall_s":             wall,
			"real_components":           p.Real,
			"stub_components":           p.Stub,
			"known_findings_met":        t.Known,
		},
	}
	os.MkdirAll(filepath.Dir(*fEvid), 0755)
	writeJSON(*fEvid, ev)
}
