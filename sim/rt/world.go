package simrt

import (
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// W is the world of the run in progress; nil outside runs.
var W *World

// Multi is true while more than one task exists.
var Multi bool

// World is one simulated process: its tasks, clock and kernel.
type World struct {
	K        *Kernel
	Ch       *Choices
	sched    *Stream
	order    *Stream
	Canon    bool // canonical map and directory order
	Reset    bool // start from freshly initialised packages
	Budget   int
	Steps    int
	Base     int64 // wall clock at start, ns
	skew     int64
	jumped   int64          // how much of it the monotonic clock does not know
	Jump     func() int64   // clock jump added when the clock is read
	OnClock  func(ns int64) // told every clock reading
	Zone     *time.Location
	RandSeed uint64
	rnd      rng
	Mode     int // preemption mode

	tasks    []*Task
	cur      *Task
	finished chan struct{}
	killed   bool
	Killed   string // why the process ended early: "", killed, exit, crash, hang, deadlock
	Crash    string
	Stack    string
	ExitCode int
	Exited   bool

	gapAny, gapShared, gapSys int
	gapVar                    int
	rAny, rShared, rSys, rVar int
	Preempts                  int
	SchedHash                 uint64
	OrderDraws                int
	access                    map[unsafe.Pointer][]access
	vars                      map[any]any // state of channels
	keep                      []any
	MainExits                 bool // the process ends when the first task returns
}

type Task struct {
	ID    int
	Root  int // the task given to Run that this one descends from
	wake  chan struct{}
	ready func() bool
	until int64
	done  bool
}

var resets []func()

// RegisterReset is called by every instrumented package, in dependency order.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetAll gives every instrumented package its initial state.
func ResetAll() {
	for _, f := range resets {
		f()
	}
}

// Sites counts statements executed at least once, over all runs of this process.
var Sites []uint64

func hit(site uint32) {
	i := int(site >> 6)
	if i >= len(Sites) {
		Sites = append(Sites, make([]uint64, i+64-len(Sites))...)
	}
	Sites[i] |= 1 << (site & 63)
}

func SitesHit() int {
	n := 0
	for _, w := range Sites {
		for ; w != 0; w &= w - 1 {
			n++
		}
	}
	return n
}

func NewWorld(ch *Choices, k *Kernel) *World {
	w := &World{K: k, Ch: ch, sched: ch.S("sched"), order: ch.S("order"), Budget: 20000000, Reset: true, Base: 1700000000123456789, Zone: time.UTC, RandSeed: 1}
	w.access = map[unsafe.Pointer][]access{}
	return w
}

// PlainWorld makes no choices at all: canonical order, no preemption, no faults.
func PlainWorld(k *Kernel) *World {
	w := NewWorld(ReplayChoices(0, nil), k)
	w.Canon = true
	return w
}

func (w *World) nowNs() int64 { return w.Base + int64(w.Steps)*1000 + w.skew }

// Clock is the simulated wall clock.
func (w *World) Clock() int64 { return w.nowNs() }

// Elapsed is the simulated time covered.
func (w *World) Elapsed() int64 { return int64(w.Steps)*1000 + w.skew }

// Leap lets the wall clock jump.
func (w *World) Leap() {
	if w.Jump != nil {
		j := w.Jump()
		w.skew += j
		w.jumped += j
	}
}

// mono is the simulated monotonic clock.
func (w *World) mono() int64 { return time.SimEpoch + int64(w.Steps)*1000 + w.skew - w.jumped }

func (w *World) now() (int64, int32, int64) {
	w.Leap()
	n := w.nowNs()
	if w.OnClock != nil {
		w.OnClock(n)
	}
	s := n / 1e9
	r := n % 1e9
	if r < 0 {
		r += 1e9
		s--
	}
	return s, int32(r), w.mono()
}

func (w *World) Rand() uint64 { return w.rnd.next() }

// Run executes the functions as tasks of one process until all have ended.
func (w *World) Run(fns ...func()) {
	if W != nil {
		panic("nested simulation")
	}
	w.rnd = rng{w.RandSeed}
	w.finished = make(chan struct{})
	w.killed = false
	w.Killed = ""
	w.tasks = nil
	w.cur = nil
	w.access = map[unsafe.Pointer][]access{}
	Multi = false
	loc := time.Local
	time.Local = w.Zone
	W = w
	syscall.Sim = w.K
	if w.K.Record != nil {
		syscall.Sim = &recorder{w.K, w.K.Record}
	}
	time.SimNow = w.now
	time.SimMono = w.mono
	rand.SimRand = w.Rand
	randv2.SimRand = w.Rand
	so, se := os.Stdout, os.Stderr
	if simOut == nil || simOut.Fd() == ^uintptr(0) {
		simOut = os.NewFile(1, "/dev/stdout")
		keepStd = append(keepStd, simOut)
	}
	if simErr == nil || simErr.Fd() == ^uintptr(0) {
		simErr = os.NewFile(2, "/dev/stderr")
		keepStd = append(keepStd, simErr)
	}
	os.Stdout, os.Stderr = simOut, simErr
	nf := w.K.NoFaults
	w.K.NoFaults = true
	w.K.quiet = true
	if w.Reset {
		ResetAll()
	}
	w.K.quiet = false
	w.K.NoFaults = nf
	w.Steps = 0
	w.planPreempt(len(fns))
	for _, f := range fns {
		w.spawn(f)
	}
	if len(w.tasks) > 0 {
		w.cur = w.tasks[w.sched.N(len(w.tasks))]
		w.cur.wake <- struct{}{}
		<-w.finished
	}
	os.Stdout, os.Stderr = so, se
	W = nil
	Multi = false
	syscall.Sim = nil
	time.SimNow = nil
	time.SimMono = nil
	rand.SimRand = nil
	randv2.SimRand = nil
	time.Local = loc
}

// keepStd keeps the stand-ins for standard output reachable: a finalizer would
// close the real descriptor.
var keepStd []*os.File
var simOut, simErr *os.File

func (w *World) planPreempt(n int) {
	w.gapAny, w.gapShared, w.gapSys = 0, 0, 0
	w.rAny, w.rShared, w.rSys, w.rVar = 0, 0, 0, 0
	w.gapVar = 0
	if n < 2 {
		return
	}
	switch w.sched.N(9) {
	case 1:
		w.rAny = 60
	case 2:
		w.rAny = 1500
	case 3:
		w.rShared = 3
	case 4:
		w.rSys = 4
	case 5:
		w.rShared, w.rSys = 12, 3
	case 6:
		w.rAny, w.rShared = 300, 30
	case 7:
		w.rVar, w.rAny = 2, 800
	case 8:
		w.rVar, w.rSys = 3, 20
	}
	w.gapVar = w.gap(w.rVar)
	w.gapAny, w.gapShared, w.gapSys = w.gap(w.rAny), w.gap(w.rShared), w.gap(w.rSys)
}

func (w *World) gap(r int) int {
	if r == 0 {
		return 0
	}
	v := w.sched.N(2048)
	if v == 0 {
		return 0
	}
	return 1 + (v-1)%r
}

func (w *World) spawn(f func()) *Task {
	t := &Task{ID: len(w.tasks), wake: make(chan struct{}, 1)}
	t.Root = t.ID
	if w.cur != nil {
		t.Root = w.cur.Root
	}
	w.tasks = append(w.tasks, t)
	if len(w.tasks) > 1 {
		Multi = true
	}
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil && !w.killed {
				w.Crash = fmt.Sprint("panic: ", r)
				w.Stack = string(debug.Stack())
				w.killed = true
				w.Killed = "crash"
			}
			t.done = true
			if t.ID == 0 && w.MainExits && !w.killed {
				w.killed = true
			}
			w.next(t)
		}()
		if w.killed {
			return
		}
		f()
	}()
	return t
}

// Go starts a task.
func Go(f func()) {
	w := W
	if w == nil {
		go f()
		return
	}
	if w.killed {
		return
	}
	if len(w.tasks) == 1 && w.rAny+w.rShared+w.rSys+w.rVar == 0 {
		w.planPreempt(2)
	}
	w.spawn(f)
	w.preempt(0)
}

// next passes the token on; the caller holds it.
func (w *World) next(me *Task) {
	for {
		var run []*Task
		undone := false
		var first int64
		for _, t := range w.tasks {
			if t.done {
				continue
			}
			undone = true
			if w.killed {
				run = append(run, t)
				break
			}
			if t.until != 0 {
				if t.until <= w.nowNs() {
					t.until = 0
				} else {
					if first == 0 || t.until < first {
						first = t.until
					}
					continue
				}
			}
			if t.ready == nil || t.ready() {
				run = append(run, t)
			}
		}
		if !undone {
			close(w.finished)
			return
		}
		if len(run) == 0 {
			if first != 0 {
				w.skew += first - w.nowNs()
				continue
			}
			w.killed = true
			w.Killed = "deadlock"
			w.Crash = "all tasks are blocked"
			continue
		}
		t := run[0]
		if !w.killed {
			t = run[w.sched.N(len(run))]
		}
		w.hand(me, t)
		return
	}
}

func (w *World) hand(me, t *Task) {
	if t == me {
		return
	}
	w.cur = t
	w.SchedHash = (w.SchedHash^uint64(t.ID+1))*0x100000001b3 + uint64(w.Steps)
	t.ready = nil
	t.wake <- struct{}{}
	if me.done {
		return
	}
	<-me.wake
	if w.killed {
		runtime.Goexit()
	}
}

// preempt lets another task run, if there is one.
func (w *World) preempt(site uint32) {
	me := w.cur
	var run []*Task
	for _, t := range w.tasks {
		if t == me || t.done {
			continue
		}
		if t.until != 0 {
			if t.until > w.nowNs() {
				continue
			}
			t.until = 0
		}
		if t.ready == nil || t.ready() {
			run = append(run, t)
		}
	}
	if len(run) == 0 {
		return
	}
	i := w.sched.N(len(run) + 1)
	if i == 0 {
		return
	}
	w.Preempts++
	w.K.noteSwitch(site, me.ID, run[i-1].ID)
	w.hand(me, run[i-1])
}

// block parks the current task until ready.
func (w *World) block(ready func() bool) {
	if w.killed {
		return
	}
	if ready() {
		return
	}
	me := w.cur
	me.ready = ready
	w.next(me)
	me.ready = nil
	if w.killed {
		runtime.Goexit()
	}
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	w := W
	if w == nil {
		time.Sleep(d)
		return
	}
	if w.killed || d <= 0 {
		return
	}
	w.cur.until = w.nowNs() + int64(d)
	w.next(w.cur)
	if w.killed {
		runtime.Goexit()
	}
}

func (w *World) kill(why string) {
	if !w.killed {
		w.killed = true
		w.Killed = why
	}
	runtime.Goexit()
}

func (w *World) fatal(why, msg string) {
	if !w.killed {
		w.killed = true
		w.Killed = why
		w.Crash = msg
		w.Stack = string(debug.Stack())
	}
	runtime.Goexit()
}

// Abort ends the run from inside a task.
func (w *World) Abort() { w.kill("abort") }

// Alive is false once the process was killed or has exited.
func (w *World) Alive() bool { return !w.killed }

func (w *World) tick() {
	w.Steps++
	if w.Steps >= w.Budget && !w.killed {
		w.fatal("hang", fmt.Sprintf("no end after %d steps", w.Steps))
	}
}

// Y marks a statement.
func Y(site uint32) {
	w := W
	if w == nil || w.killed {
		return
	}
	hit(site)
	w.tick()
	if Multi && w.gapAny > 0 {
		w.gapAny--
		if w.gapAny == 0 {
			w.gapAny = w.gap(w.rAny)
			w.preempt(site)
		}
	}
}

// Y2 marks a statement that touches state other tasks may share.
func Y2(site uint32) {
	Y(site)
	w := W
	if w == nil || w.killed || !Multi {
		return
	}
	if w.gapShared > 0 {
		w.gapShared--
		if w.gapShared == 0 {
			w.gapShared = w.gap(w.rShared)
			w.preempt(site)
		}
	}
}

// Y3 marks a statement that touches a package variable which functions change.
func Y3(site uint32) {
	Y2(site)
	w := W
	if w == nil || w.killed || !Multi {
		return
	}
	if w.gapVar > 0 {
		w.gapVar--
		if w.gapVar == 0 {
			w.gapVar = w.gap(w.rVar)
			w.preempt(site)
		}
	}
}

// Yd marks a statement of a dependency: it only counts.
func Yd() {
	w := W
	if w == nil || w.killed {
		return
	}
	w.tick()
}

func (w *World) sysYield() {
	if !Multi || w.killed || w.gapSys == 0 {
		return
	}
	w.gapSys--
	if w.gapSys == 0 {
		w.gapSys = w.gap(w.rSys)
		w.preempt(0)
	}
}

func (w *World) permute(xs []string) {
	p := w.perm(len(xs))
	if p == nil {
		return
	}
	c := append([]string(nil), xs...)
	for i, j := range p {
		xs[i] = c[j]
	}
}

// perm draws an order for n things; nil is the canonical one.
func (w *World) perm(n int) []int {
	if w == nil || w.Canon || n < 2 || w.killed {
		return nil
	}
	w.OrderDraws++
	v := w.order.N(1 << 20)
	if v == 0 {
		return nil
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	switch {
	case v%8 == 1: // reversed
		for i := range p {
			p[i] = n - 1 - i
		}
	case v%8 == 2: // rotated
		r := v / 8
		for i := range p {
			p[i] = (i + r) % n
		}
	default:
		r := rng{uint64(v)}
		for i := n - 1; i > 0; i-- {
			j := int(r.next() % uint64(i+1))
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// TopFrames returns the functions of a stack that belong to the code under test.
func TopFrames(stack string, n int) string {
	var out []string
	count := map[string]int{}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/") || strings.HasPrefix(l, "gopkg.in/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			count[l]++
			if count[l] == 25 {
				return "the recursion of " + l
			}
			if len(out) > 0 && out[len(out)-1] == l {
				continue
			}
			out = append(out, l)
		}
	}
	if len(out) > n {
		out = out[:n]
	}
	return strings.Join(out, " < ")
}
