package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// A Prop is one property with all the parts which decide it.
type Prop struct {
	ID    string
	Title string
	Rule  string // how cases are made and what makes one non-trivial
	Race  bool   // needs the race detector
	Parts []*Part
	Notes []string // assumptions
	// Known is called once on the parent and returns lines for findings that
	// are listed in the known findings file and still fail.
	Known func(listed map[string]string) []string
}

// A Part generates one kind of case and checks it. Run must be a function of the
// case only: a case is marshaled to JSON and replayed from it.
type Part struct {
	Name     string
	Quick    int // number of random cases
	Thorough int
	Gen      func(t *rapid.T) any
	Fixed    func(tier string, emit func(any)) // enumerated cases
	New      func() any
	Run      func(x *X, c any)
	Threads  bool // failures may depend on the schedule: replay several times
	Measured bool // memory or allocations are measured
	Sched    bool // schedules are controlled, needs a program with yields
}

func part[C any](name string, quick, thorough int, gen func(t *rapid.T) C, run func(x *X, c C)) *Part {
	return &Part{
		Name: name, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) any { return gen(t) },
		New: func() any { return new(C) },
		Run: func(x *X, c any) {
			if p, ok := c.(*C); ok {
				run(x, *p)
				return
			}
			run(x, c.(C))
		},
	}
}

// threads marks a part whose failures may depend on the schedule
func threads(p *Part) *Part {
	p.Threads = true
	return p
}

// measured marks a part which measures memory or allocations
func measured(p *Part) *Part {
	p.Measured = true
	return p
}

// sched marks a part which controls the schedule
func sched(p *Part) *Part {
	p.Sched = true
	return p
}

// fixed adds enumerated cases to the part
func fixed[C any](p *Part, f func(tier string, emit func(C))) *Part {
	p.Fixed = func(tier string, emit func(any)) {
		f(tier, func(c C) { emit(c) })
	}
	return p
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// X collects what happens in one case
type X struct {
	labels     []string
	nontrivial bool
}

type checkFailed struct{ msg string }

func (x *X) Fail(format string, a ...any) {
	panic(checkFailed{fmt.Sprintf(format, a...)})
}

func (x *X) Label(l string) { x.labels = append(x.labels, l) }
func (x *X) LabelIf(b bool, l string) {
	if b {
		x.labels = append(x.labels, l)
	}
}
func (x *X) NonTrivial(b bool) {
	if b {
		x.nontrivial = true
	}
}

// mustPanic runs f and returns whether it panicked
func mustPanic(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(checkFailed); ok {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

func runCase(p *Part, c any) (msg string, x *X) {
	x = &X{}
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(checkFailed); ok {
				msg = f.msg
				return
			}
			// A panic in the code under test (the harness itself is run on
			// every commit and doesn't panic on the unchanged tree)
			st := string(debug.Stack())
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	p.Run(x, c)
	return "", x
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// ---- replay files

type Replay struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message"`
	Seed     string          `json:"verif_seed"`
	Case     json.RawMessage `json:"case"`
	// Worker is set if the failure needs the cases which came before it in the
	// same process. The whole sequence is generated again.
	Worker *workerSpec `json:"worker,omitempty"`

	sched   bool // the process ended because of a race
	checked bool // a check failed, the process didn't die
}

type workerSpec struct {
	Tier    string  `json:"tier"`
	Seed    uint64  `json:"seed"`
	Worker  int     `json:"worker"`
	Workers int     `json:"workers"`
	Scale   float64 `json:"scale"`
	Only    string  `json:"only"`
}

// ---- worker

type workerOut struct {
	Evaluations int64
	Enumerated  int64
	Nontrivial  int64
	Hashes      []uint64
	Labels      map[string]int64
	Samples     []sample
	PartEvals   map[string]int64
	Failures    []Replay
	Error       string
}

type sample struct {
	Part string          `json:"part"`
	Case json.RawMessage `json:"case"`
}

type tbT struct {
	failed bool
	log    []string
}

func (t *tbT) Helper()                   {}
func (t *tbT) Name() string              { return "verif" }
func (t *tbT) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tbT) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tbT) Skipf(string, ...any)      {}
func (t *tbT) Skip(...any)               {}
func (t *tbT) SkipNow()                  {}
func (t *tbT) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tbT) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tbT) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tbT) Fatal(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tbT) FailNow()                  { t.failed = true }
func (t *tbT) Fail()                     { t.failed = true }
func (t *tbT) Failed() bool              { return t.failed }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func deriveSeed(seed uint64, parts ...string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", seed)
	for _, p := range parts {
		h.Write([]byte{0})
		h.Write([]byte(p))
	}
	s := splitmix(h.Sum64())
	if s == 0 {
		s = 1
	}
	return s
}

// current is the case that's being checked, for the watchdog and journal
var current struct {
	sync.Mutex
	prop    string
	part    string
	c       any
	serial  int64
	journal string
}

func setCurrent(prop, part string, c any) {
	current.Lock()
	defer current.Unlock()
	current.prop, current.part, current.c = prop, part, c
	atomic.AddInt64(&current.serial, 1)
	if current.journal != "" {
		dumpCurrentLocked(current.journal, "the process died")
	}
}

func dumpCurrentLocked(path, msg string) {
	b, err := json.Marshal(current.c)
	if err != nil {
		return
	}
	r := Replay{Property: current.prop, Part: current.part, Message: msg, Case: b, Seed: os.Getenv("VERIF_SEED")}
	out, _ := json.Marshal(r)
	os.WriteFile(path, out, 0644)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	exitHang = 77
	exitHeap = 78
)

// watchdog ends this process if a single case takes an excessive amount of CPU
// time or memory. The limits are orders of magnitude above what any case takes.
func watchdog(cpu time.Duration, heap uint64, dump string) {
	go func() {
		serial := int64(-1)
		var start time.Duration
		ticks := 0
		for {
			time.Sleep(100 * time.Millisecond)
			now := cpuTime()
			s := atomic.LoadInt64(&current.serial)
			ticks++
			if s != serial {
				serial, start, ticks = s, now, 0
			}
			var ms runtime.MemStats
			code, msg := 0, ""
			if now-start > cpu {
				code, msg = exitHang, fmt.Sprintf("no result after %v of CPU time", cpu)
			} else if ticks > 600 && now-start < time.Second {
				// counted in ticks so that time when this process was stopped
				// doesn't count
				code, msg = exitHang, "deadlock: no result after a minute and no CPU used"
			} else if runtime.ReadMemStats(&ms); ms.HeapAlloc > heap {
				code, msg = exitHeap, fmt.Sprintf("used more than %d MB of memory", heap>>20)
			}
			if code != 0 {
				if current.TryLock() {
					if dump != "" {
						dumpCurrentLocked(dump, msg)
					}
				}
				fmt.Fprintln(os.Stderr, msg)
				os.Exit(code)
			}
		}
	}()
}

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		panic(err)
	}
}

func caseHash(part string, b []byte) uint64 {
	h := fnv.New64a()
	h.Write([]byte(part))
	h.Write([]byte{0})
	h.Write(b)
	return h.Sum64()
}

func runWorker(prop *Prop, tier string, seed uint64, worker, workers int, scale float64, onlyPart string) *workerOut {
	out := &workerOut{Labels: map[string]int64{}, PartEvals: map[string]int64{}}
	hashes := map[uint64]struct{}{}
	testing.Init()
	flag.CommandLine.Parse(nil)
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "12s")

	for _, p := range prop.Parts {
		if onlyPart != "" && p.Name != onlyPart || p.Sched != schedBuild {
			continue
		}
		p := p
		var failing any
		var failMsg string
		nsample, picked := 0, 0
		var large []byte // the smallest of those too large for a sample
		account := func(c any, x *X, enum bool) {
			out.Evaluations++
			out.PartEvals[p.Name]++
			if enum {
				out.Enumerated++
			}
			for _, l := range x.labels {
				out.Labels[p.Name+": "+l]++
			}
			if x.nontrivial {
				out.Nontrivial++
				b, err := json.Marshal(c)
				if err != nil {
					panic(err)
				}
				hashes[caseHash(p.Name, b)] = struct{}{}
				nsample++
				if picked == 0 && nsample >= 3+worker || picked == 1 && nsample >= 40+10*worker {
					if len(b) < 6000 {
						out.Samples = append(out.Samples, sample{p.Name, b})
						picked++
					} else if len(large) == 0 || len(b) < len(large) {
						large = b
					}
				}
			}
		}
		if p.Fixed != nil {
			i := 0
			p.Fixed(tier, func(c any) {
				i++
				if failing != nil || i%workers != worker {
					return
				}
				setCurrent(prop.ID, p.Name, c)
				msg, x := runCase(p, c)
				if msg != "" {
					failing, failMsg = c, msg
					return
				}
				account(c, x, true)
			})
		}
		n := p.Quick
		if tier == "thorough" {
			n = p.Thorough
		}
		n = int(float64(n) * scale)
		n = (n + workers - 1) / workers
		if failing == nil && n > 0 && p.Gen != nil {
			setFlag("rapid.checks", strconv.Itoa(n))
			s := deriveSeed(seed, prop.ID, p.Name, strconv.Itoa(worker))
			setFlag("rapid.seed", strconv.FormatUint(s, 10))
			tb := &tbT{}
			rapid.Check(tb, func(t *rapid.T) {
				c := p.Gen(t)
				setCurrent(prop.ID, p.Name, c)
				msg, x := runCase(p, c)
				if msg != "" {
					failing, failMsg = c, msg
					t.Fatal("the property does not hold")
				}
				if failing == nil {
					account(c, x, false)
				}
			})
			if tb.failed && failing == nil {
				out.Error += fmt.Sprintf("part %s: %s\n", p.Name, strings.Join(tb.log, "\n"))
			}
		}
		setCurrent(prop.ID, p.Name, nil)
		if picked == 0 && 0 < len(large) && len(large) < 40000 {
			out.Samples = append(out.Samples, sample{p.Name, large})
		}
		if failing != nil {
			b, err := json.Marshal(failing)
			if err != nil {
				panic(err)
			}
			out.Failures = append(out.Failures, Replay{
				Property: prop.ID, Part: p.Name, Message: failMsg, Case: b, Seed: strconv.FormatUint(seed, 10),
				Worker: &workerSpec{tier, seed, worker, workers, scale, onlyPart},
			})
		}
	}
	for h := range hashes {
		out.Hashes = append(out.Hashes, h)
	}
	return out
}

// replay runs a single case from a file. It returns the failure message.
func replay(path string) (r Replay, msg string, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return r, "", err
	}
	if err = json.Unmarshal(b, &r); err != nil {
		return r, "", err
	}
	prop := findProp(r.Property)
	if prop == nil {
		return r, "", fmt.Errorf("no property %q", r.Property)
	}
	if w := r.Worker; w != nil {
		out := runWorker(prop, w.Tier, w.Seed, w.Worker, w.Workers, w.Scale, w.Only)
		for _, f := range out.Failures {
			if f.Part == r.Part {
				return r, f.Message, nil
			}
		}
		return r, "", nil
	}
	for _, p := range prop.Parts {
		if p.Name != r.Part {
			continue
		}
		if p.Sched && !schedBuild {
			return r, "", fmt.Errorf("part %q needs a build with yields", r.Part)
		}
		c := p.New()
		if err = json.Unmarshal(r.Case, c); err != nil {
			return r, "", err
		}
		n := 1
		if p.Threads {
			n = 300
		}
		for i := 0; i < n; i++ {
			setCurrent(prop.ID, p.Name, c)
			if msg, _ = runCase(p, c); msg != "" {
				break
			}
		}
		return r, msg, nil
	}
	return r, "", fmt.Errorf("no part %q", r.Part)
}
