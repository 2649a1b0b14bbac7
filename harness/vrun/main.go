// Command vrun generates and runs cases of one property against the library.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"aaa.verif/harness/ref"
	"pgregory.net/rapid"
)

// Exit codes understood by check.py.
const (
	exitOK        = 0
	exitViolation = 10 // fail.json holds the case
	exitHang      = 11 // fail.json holds the case
	exitInternal  = 3
)

// obs collects what a case exercised.
type obs struct {
	labels     map[string]int
	nontrivial bool
	known      map[string]string
	held       []func() error // checks of earlier results, made again after later calls
}

// hold makes the check once more after the case and its sibling.
func (o *obs) hold(f func() error) { o.held = append(o.held, f) }

func (o *obs) recheck() error {
	for _, f := range o.held {
		if err := f(); err != nil {
			return fmt.Errorf("an earlier result changed by itself: %w", err)
		}
	}
	return nil
}

func (o *obs) tag(l string) { o.labels[l]++ }

func (o *obs) tagIf(c bool, l string) {
	if c {
		o.tag(l)
	}
}

// nt marks the case as non-trivial.
func (o *obs) nt(c bool) {
	if c {
		o.nontrivial = true
	}
}

func (o *obs) knownFinding(id, what string) { o.known[id] = what }

// property is what the engine needs from a property.
type property interface {
	id() string
	rule() string
	draw(t *rapid.T) any
	run(c any, o *obs) error
	decode(b []byte) (any, error)
	cases(tier string) int
	enumerate(tier string, shard, shards int, yield func(any) bool)
	exhaustive() bool
	hangCPU() float64
}

// spec is a property over cases of type C.
type spec[C any] struct {
	ID       string
	Rule     string
	Gen      func(*rapid.T) C
	Run      func(C, *obs) error
	Quick    int // generated cases per shard
	Thorough int
	// Enum yields cases run before the generated ones.
	Enum       func(tier string, yield func(C) bool)
	Sib        func(C, dice) (C, bool) // see sib.go
	Exhaustive bool
	HangCPU    float64
}

func (s *spec[C]) id() string   { return s.ID }
func (s *spec[C]) rule() string { return s.Rule }
func (s *spec[C]) draw(t *rapid.T) any {
	return s.Gen(t)
}
func (s *spec[C]) run(c any, o *obs) error {
	o.held = nil
	if err := s.Run(c.(C), o); err != nil {
		return err
	}
	if s.Sib != nil {
		if err := s.sibling(c.(C), o); err != nil {
			return err
		}
	}
	return o.recheck()
}
func (s *spec[C]) decode(b []byte) (any, error) {
	var c C
	err := json.Unmarshal(b, &c)
	return c, err
}
func (s *spec[C]) cases(tier string) int {
	if tier == "thorough" {
		return s.Thorough
	}
	return s.Quick
}
func (s *spec[C]) exhaustive() bool { return s.Exhaustive }
func (s *spec[C]) hangCPU() float64 {
	if s.HangCPU > 0 {
		return s.HangCPU
	}
	return 60
}
func (s *spec[C]) enumerate(tier string, shard, shards int, yield func(any) bool) {
	if s.Enum == nil {
		return
	}
	i := 0
	s.Enum(tier, func(c C) bool {
		i++
		if i%shards != shard {
			return true
		}
		return yield(c)
	})
}

var registry = map[string]property{}

func register[C any](s *spec[C]) bool {
	registry[s.ID] = s
	return true
}

type record struct {
	Property string          `json:"property"`
	Seed     uint64          `json:"seed,omitempty"` // rapid seed of the failing iteration
	Shard    int             `json:"shard"`
	Iter     int             `json:"iter"` // -1-k: k-th enumerated case
	Base     uint64          `json:"base,omitempty"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error,omitempty"`
}

type stats struct {
	Property    string            `json:"property"`
	Evaluations int               `json:"evaluations"`
	Enumerated  int               `json:"enumerated"`
	Nontrivial  int               `json:"nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Known       map[string]string `json:"known"`
	Samples     []json.RawMessage `json:"samples"`
	Rule        string            `json:"rule"`
	Exhaustive  bool              `json:"exhaustive"`
	Cut         bool              `json:"cut,omitempty"` // the time budget ended the run early
}

var (
	outDir   = flag.String("out", "", "output directory")
	mode     = flag.String("mode", "", "run, replay, isolate, regress, list")
	propID   = flag.String("prop", "", "property")
	tier     = flag.String("tier", "quick", "quick or thorough")
	baseSeed = flag.Uint64("seed", 1, "rapid seed")
	shard    = flag.Int("shard", 0, "shard")
	shards   = flag.Int("shards", 1, "number of shards")
	checks   = flag.Int("checks", 0, "override the number of cases")
	file     = flag.String("file", "", "case file")
	budget   = flag.Int("budget", 0, "start no new case after this many seconds (0: no limit)")
	maxIter  = flag.Int("maxiter", -1, "stop after this iteration (history replay)")
)

// watchdog state
var (
	caseNo    atomic.Int64
	caseAlive atomic.Bool
	curRec    atomic.Pointer[record]
)

func cpuSeconds() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, rss int64
	fmt.Sscan(string(b), &size, &rss)
	return rss * int64(os.Getpagesize())
}

// watchdog ends a case that spins (CPU time), blocks (ticks without CPU use)
// or eats memory. It never looks at the wall clock.
func watchdog(limit float64) {
	var no int64 = -1
	var start float64
	var ticks int
	for {
		time.Sleep(500 * time.Millisecond)
		if n := caseNo.Load(); n != no || !caseAlive.Load() {
			no, start, ticks = n, cpuSeconds(), 0
			continue
		}
		ticks++
		cpu := cpuSeconds() - start
		why := ""
		switch {
		case cpu > limit:
			why = fmt.Sprintf("hang: the case used more than %.0f s of CPU time without returning", limit)
		case ticks > 150 && cpu < 1:
			why = "hang: the case blocked without returning"
		case rssBytes() > 3<<30:
			why = "the case used more than 3 GB of memory without returning"
		}
		if why != "" {
			if r := curRec.Load(); r != nil {
				rr := *r
				rr.Error = why
				writeJSON("fail.json", rr)
			}
			os.Exit(exitHang)
		}
	}
}

func writeJSON(name string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(filepath.Join(*outDir, name), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vrun:", err)
		os.Exit(exitInternal)
	}
}

var journal *os.File

func journalise(r *record) {
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vrun: case cannot be serialised:", err)
		os.Exit(exitInternal)
	}
	if journal == nil {
		journal, err = os.Create(filepath.Join(*outDir, "journal.json"))
		if err != nil {
			fmt.Fprintln(os.Stderr, "vrun:", err)
			os.Exit(exitInternal)
		}
	}
	// fixed-width padding instead of truncation: one write, never a torn record
	b = append(b, '\n')
	if _, err := journal.WriteAt(b, 0); err == nil {
		err = journal.Truncate(int64(len(b)))
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vrun:", err)
		os.Exit(exitInternal)
	}
}

// internalError is thrown by a harness when it is itself at fault.
type internalError struct{ msg string }

func internalf(f string, a ...any) { panic(internalError{fmt.Sprintf(f, a...)}) }

// runCase runs one case and turns panics of the library into violations.
func runCase(p property, c any, o *obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(internalError); ok {
				fmt.Fprintln(os.Stderr, "vrun: internal:", ie.msg)
				os.Exit(exitInternal)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.run(c, o)
}

func trimStack(b []byte) string {
	var keep []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/") && (strings.Contains(l, ".go:")) {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 14 {
		keep = keep[:14]
	}
	return strings.Join(keep, "\n")
}

// tb lets rapid run outside "go test".
type tb struct{ failed bool }

func (*tb) Helper()                     {}
func (*tb) Name() string                { return *propID }
func (*tb) Logf(string, ...any)         {}
func (*tb) Log(...any)                  {}
func (*tb) Skipf(string, ...any)        { panic("skip") }
func (*tb) Skip(...any)                 { panic("skip") }
func (*tb) SkipNow()                    { panic("skip") }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; lastTB = fmt.Sprintf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; lastTB = fmt.Sprint(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

var lastTB string

func rapidCheck(seed uint64, n int, prop func(*rapid.T)) (ok bool) {
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			internalf("%v", err)
		}
	}
	set("rapid.seed", fmt.Sprint(seed))
	set("rapid.checks", fmt.Sprint(n))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "40s")
	t := &tb{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(t, prop)
	}()
	<-done
	return !t.failed
}

func main() {
	testing.Init()
	flag.Parse()
	if *mode == "literals" { // prints the literals of VERIF_SRC, for literals.json
		b, _ := json.Marshal(literals(os.Getenv("VERIF_SRC")))
		fmt.Println(string(b))
		return
	}
	if *mode == "envnames" {
		loadDict()
		fmt.Println(strings.Join(envNames(), " "))
		return
	}
	if *mode == "list" {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if err := ref.SelfTest(); err != nil {
		fmt.Fprintln(os.Stderr, "vrun:", err)
		os.Exit(exitInternal)
	}
	loadTables()
	loadDict()
	switch *mode {
	case "run":
		os.Exit(modeRun())
	case "replay":
		os.Exit(modeReplay())
	case "isolate":
		os.Exit(modeIsolate())
	case "effects":
		os.Exit(modeEffects())
	case "quietfault":
		os.Exit(modeQuietFault())
	case "fault":
		os.Exit(modeFault())
	}
	fmt.Fprintln(os.Stderr, "vrun: unknown mode")
	os.Exit(exitInternal)
}

func getProp(id string) property {
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "vrun: unknown property", id)
		os.Exit(exitInternal)
	}
	return p
}

func modeRun() int {
	p := getProp(*propID)
	st := stats{Property: p.id(), Labels: map[string]int{}, Known: map[string]string{}, Rule: p.rule(), Exhaustive: p.exhaustive()}
	seen := map[uint64]bool{}
	go watchdog(p.hangCPU())
	var failed bool
	one := func(c any, iter int, seed uint64) bool {
		raw, err := json.Marshal(c)
		if err != nil {
			internalf("%v", err)
		}
		r := &record{Property: p.id(), Seed: seed, Shard: *shard, Iter: iter, Base: *baseSeed, Case: raw}
		journalise(r)
		curRec.Store(r)
		o := &obs{labels: st.Labels, known: st.Known}
		caseNo.Add(1)
		caseAlive.Store(true)
		err = runCase(p, c, o)
		caseAlive.Store(false)
		st.Evaluations++
		if err != nil {
			r.Error = err.Error()
			writeJSON("fail.json", r)
			failed = true
			return false
		}
		if o.nontrivial {
			h := fnv.New64a()
			h.Write(raw)
			if !seen[h.Sum64()] {
				seen[h.Sum64()] = true
				st.Nontrivial++
				if n := st.Nontrivial; n <= 2 || n == 17 || n == 133 {
					st.Samples = append(st.Samples, raw)
				}
			}
		}
		return true
	}
	began := time.Now()
	spent := func() bool { // bounds the effort on a slow machine; it decides nothing
		if *budget > 0 && !st.Exhaustive && time.Since(began) > time.Duration(*budget)*time.Second {
			st.Cut = true
		}
		return st.Cut
	}
	k := 0
	p.enumerate(*tier, *shard, *shards, func(c any) bool {
		if spent() {
			return false
		}
		k++
		st.Enumerated++
		if *maxIter <= -2 && k > -*maxIter-1 {
			return false
		}
		return one(c, -k, 0)
	})
	n := p.cases(*tier)
	if *checks > 0 {
		n = *checks
	}
	if *maxIter >= 0 && n > *maxIter+1 {
		n = *maxIter + 1
	}
	if *maxIter <= -2 {
		n = 0
	}
	if !failed && n > 0 {
		iter := 0
		seed := *baseSeed
		ok := rapidCheck(*baseSeed, n, func(t *rapid.T) {
			i := iter
			iter++
			seed += uint64(i)
			if spent() {
				return
			}
			c := p.draw(t)
			if !one(c, i, seed) {
				os.Exit(exitViolation) // shrinking happens in fresh processes
			}
		})
		if !ok {
			fmt.Fprintln(os.Stderr, "vrun: rapid:", lastTB)
			return exitInternal
		}
	}
	if failed {
		return exitViolation
	}
	writeJSON("stats.json", st)
	hs := make([]uint64, 0, len(seen))
	for h := range seen {
		hs = append(hs, h)
	}
	writeJSON("hashes.json", hs)
	return exitOK
}

// modeReplay runs one saved case without rapid.
func modeReplay() int {
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vrun:", err)
		return exitInternal
	}
	var r record
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, "vrun:", err)
		return exitInternal
	}
	p := getProp(r.Property)
	c, err := p.decode(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vrun:", err)
		return exitInternal
	}
	go watchdog(p.hangCPU())
	curRec.Store(&r)
	caseNo.Add(1)
	caseAlive.Store(true)
	o := &obs{labels: map[string]int{}, known: map[string]string{}}
	err = runCase(p, c, o)
	caseAlive.Store(false)
	for id, w := range o.known {
		fmt.Fprintf(os.Stderr, "known finding %s: %s\n", id, w)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitViolation
	}
	return exitOK
}

// modeIsolate re-generates one failing iteration and lets rapid shrink it, with
// every candidate run in a fresh process.
func modeIsolate() int {
	p := getProp(*propID)
	cand := filepath.Join(*outDir, "candidate.json")
	found := false
	deadline := time.Now().Add(120 * time.Second) // effort bound of the shrinker only
	ok := rapidCheck(*baseSeed, 1, func(t *rapid.T) {
		c := p.draw(t)
		raw, _ := json.Marshal(c)
		r := record{Property: p.id(), Seed: *baseSeed, Shard: *shard, Iter: 0, Case: raw}
		if found && time.Now().After(deadline) {
			return
		}
		b, _ := json.Marshal(r)
		if err := os.WriteFile(cand, b, 0o644); err != nil {
			internalf("%v", err)
		}
		cmd := exec.Command(os.Args[0], "-mode", "replay", "-file", cand, "-out", *outDir, "-known", *knownFlag)
		var out strings.Builder
		cmd.Stderr = &out
		if err := cmd.Start(); err != nil {
			internalf("%v", err)
		}
		timer := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		if !timer.Stop() || err == nil {
			return
		}
		if ee, isExit := err.(*exec.ExitError); !isExit || ee.ExitCode() == exitInternal || ee.ExitCode() == exitHang || (ee.ProcessState.Sys().(syscall.WaitStatus).Signaled()) {
			return
		}
		found = true
		r.Error = tail(out.String(), 2000)
		writeJSON("shrunk.json", r)
		t.Fatalf("violation")
	})
	if ok || !found {
		return exitOK
	}
	return exitViolation
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
