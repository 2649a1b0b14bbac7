package main

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"log"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"syscall"
	"time"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

// c26 is a history whose system calls are watched, or rounds of one kind of call
// with ever new arguments after which the process is measured.
type c26 struct {
	History *history `json:"history,omitempty"`
	Fail    int      `json:"fail,omitempty"` // >0: the random source fails after Fail-1 bytes in NewMnemonic
	Grow    string   `json:"grow,omitempty"`
	Bad     bool     `json:"bad,omitempty"` // arguments that are refused
	Seed    string   `json:"seed,omitempty"`
}

// growth is one kind of call; run makes the i-th.
type growth struct {
	calls int // per round
	run   func(i int, bad bool, seed string)
}

func growKey(seed string, i int) *big.Int {
	k := new(big.Int).SetBytes(expand(fmt.Sprint(seed, "/", i), 32))
	k.Mod(k, ref.N)
	if k.Sign() == 0 {
		k.Set(one)
	}
	return k
}

// growNet gives a network object of its own for every call.
func growNet(i int) (*btc.Network, byte) {
	v := byte(i)
	return &btc.Network{PrivKeyPrefix: fmt.Sprintf("%02X", v), PubKeyHashPrefix: fmt.Sprintf("%02X", byte(i/256))}, v
}

func growPriv(k *big.Int, l *btc.Network, v byte) *btc.PrivateKey {
	return &btc.PrivateKey{Key: k, Hex: ref.Hex64(k), WIF: ref.WIF(v, k, false), Network: l}
}

// growPoint gives a new point cheaply: seed point plus i times the generator is
// costly, so x is searched from a fresh start.
func growPoint(seed string, i int) ref.Point {
	x := growKey(seed, i)
	for {
		if p, ok := ref.LiftX(x, i%2 == 0); ok {
			return p
		}
		x.Add(x, one)
		x.Mod(x, ref.P)
	}
}

func growNoPoint(x *big.Int) *big.Int {
	x = new(big.Int).Set(x)
	for {
		if _, ok := ref.LiftX(x, true); !ok {
			return x
		}
		x.Add(x, one)
		x.Mod(x, ref.P)
	}
}

var growths = map[string]growth{
	"hex": {1500, func(i int, bad bool, seed string) {
		l, _ := growNet(i)
		s := ref.Hex64(growKey(seed, i))
		if bad {
			s = []string{s[:63] + "g", s[1:], s + "00", "f" + strings.Repeat("f", 31) + s[:32]}[i%4]
		}
		btc.PrivateFromHex(s, l)
	}},
	"wif": {700, func(i int, bad bool, seed string) {
		l, v := growNet(i)
		if bad {
			v += byte(i % 2)
		}
		s := ref.WIF(v, growKey(seed, i), i%3 == 0)
		if bad && i%2 == 0 {
			s = []string{s[:len(s)-1], ref.B58CheckEncode(append([]byte{v}, expand(s, 20+i%50)...)), ref.B58CheckEncode(append([]byte{v, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}, expand(s, 16)...))}[i/2%3]
		}
		btc.PrivateFromWIF(s, l)
	}},
	"checkwif": {1500, func(i int, bad bool, seed string) {
		s := ref.WIF(0x80, growKey(seed, i), i%3 == 0)
		if bad {
			s = s[1:]
		}
		btc.CheckWIF(s)
	}},
	"gen": {700, func(i int, _ bool, _ string) {
		l, _ := growNet(i)
		btc.GeneratePrivateKey(l)
	}},
	"add": {700, func(i int, bad bool, seed string) { growCombine(btc.AddPrivateKeys, i, bad, seed) }},
	"mul": {700, func(i int, bad bool, seed string) { growCombine(btc.MultiplyPrivateKeys, i, bad, seed) }},
	"pub": {40, func(i int, _ bool, seed string) {
		l, v := growNet(i)
		growPriv(growKey(seed, i), l, v).GetPublicKey()
	}},
	"pubhex": {150, func(i int, bad bool, seed string) {
		l, _ := growNet(i)
		s := ref.Hex(ref.SEC1(growPoint(seed, i), i%3 != 0))
		if bad {
			p := growPoint(seed, i)
			s = []string{"04" + s[2:66], s[:len(s)-1] + "x", s[2:], "00" + s[2:], "04" + ref.Hex64(p.Y) + ref.Hex64(p.X), "02" + ref.Hex64(growNoPoint(p.X))}[i%6]
		}
		btc.PublicFromHex(s, l)
	}},
	"addpub": {150, func(i int, bad bool, seed string) {
		l, _ := growNet(i)
		a, b := growPoint(seed, i), growPoint(seed+"b", i)
		l2 := l
		if !bad && i%5 == 4 { // the same object twice
			p := &btc.PublicKey{X: a.X, Y: a.Y, Network: l}
			btc.AddPublicKeys(p, p, i%2 == 0)
			return
		} else if !bad && i%5 == 3 {
			b = ref.Point{X: new(big.Int).Set(a.X), Y: new(big.Int).Set(a.Y)}
		}
		if bad && i%2 == 0 {
			b = a.Neg()
		} else if bad {
			l2, _ = growNet(i + 1)
		}
		btc.AddPublicKeys(&btc.PublicKey{X: a.X, Y: a.Y, Network: l}, &btc.PublicKey{X: b.X, Y: b.Y, Network: l2}, i%4 < 2)
	}},
	"fmt": {400, func(i int, _ bool, seed string) {
		l, _ := growNet(i)
		a := growPoint(seed, i)
		p := &btc.PublicKey{X: a.X, Y: a.Y, Network: l}
		p.Format(true)
		p.Format(false)
		p.Address(true)
		p.Address(false)
	}},
	"newmn": {250, func(i int, bad bool, seed string) {
		n := wordCounts[i%5]
		if bad {
			n += i + 1
		}
		btc.NewMnemonic(n, growList(i))
	}},
	"newmnfault": {250, func(i int, _ bool, seed string) {
		withRandom(Stream{Seed: fmt.Sprint(seed, i), Fail: 1 + i%16}.reader(), func() { btc.NewMnemonic(24, growList(i)) })
	}},
	"seed": {40, func(i int, bad bool, seed string) {
		n := wordCounts[i%5]
		l := ref.Languages[i%len(ref.Languages)]
		p := ref.Encode(expand(fmt.Sprint(seed, i), ref.EntropyBytes(n)), ref.Words[l])
		if bad {
			switch i / 5 % 5 {
			case 0: // no such word
				p += fmt.Sprint(i)
			case 1: // a list word too much
				p += " " + ref.Words[l][i%2048]
			case 2: // most likely a wrong checksum
				p = p[:strings.LastIndexByte(p, ' ')+1] + ref.Words[l][i*7%2048]
			case 3:
				p = strings.Replace(p, " ", "  ", 1)
			case 4: // another language
				l = ref.Languages[(i+1)%len(ref.Languages)]
			}
		}
		btc.NewSeedFromMnemonic(p, fmt.Sprint("pass", i), *libLists[l])
	}},
	"history": {}, // that of the case
	"list": {60, func(i int, _ bool, seed string) { // a list object of its own for every call
		l := slices.Clone(btc.EnglishWordlist)
		l[i%2048] = fmt.Sprint("own", i)
		btc.NewMnemonic(12, l)
		btc.NewSeedFromMnemonic(ref.Encode(expand(fmt.Sprint(seed, i), 16), ref.Words["english"])+"x", "", l)
	}},
}

var growListCache []btc.Wordlist

func growList(i int) btc.Wordlist {
	if growListCache == nil {
		for _, l := range ref.Languages {
			growListCache = append(growListCache, *libLists[l])
		}
	}
	return growListCache[i%len(growListCache)]
}

func growCombine(f func(a, b *btc.PrivateKey) (*btc.PrivateKey, error), i int, bad bool, seed string) {
	l, v := growNet(i)
	a := growPriv(growKey(seed, i), l, v)
	b := growPriv(growKey(seed+"b", i), l, v)
	if bad {
		switch i % 4 {
		case 3:
			b = a
		case 0:
			b = growPriv(a.Key, l, v)
		case 1:
			b = growPriv(new(big.Int).Sub(ref.N, a.Key), l, v)
		case 2:
			b.Network, _ = growNet(i + 1)
		}
	}
	f(a, b)
}

// noneLeft says that no more files can be opened.
const noneLeft = 1 << 30

// measure gives memory in use, goroutines and open files, once they have settled.
func measure() [3]int {
	var m runtime.MemStats
	n := runtime.NumGoroutine()
	for i := 0; i < 20 && n > 1; i++ { // goroutines that are about to end
		time.Sleep(time.Millisecond)
		if k := runtime.NumGoroutine(); k < n {
			n = k
		} else if i > 2 {
			break
		}
	}
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	fds, err := os.ReadDir("/proc/self/fd")
	open := len(fds)
	if errors.Is(err, syscall.EMFILE) {
		open = noneLeft
	} else if err != nil {
		open = 0
	}
	return [3]int{int(m.HeapAlloc), n, open}
}

// c26grow runs rounds of calls. What grows with their number, up to a bound far
// beyond any cache worth its name, is being left behind.
func c26grow(c c26, o *obs) error {
	g, ok := growths[c.Grow]
	must(ok, "unknown kind of call "+c.Grow)
	o.nt(true)
	o.tag("grow-" + c.Grow)
	names := [3]string{"bytes of memory", "goroutines", "open files"}
	i := 0
	calls := g.calls
	if c.Grow == "history" {
		must(c.History != nil, "no history")
		calls = 8 * len(c.History.Ops)
		g.run = nil
	}
	limit := [3]int{max(4096, 24*calls), 1, 1}
	round := func() [3]int {
		for n := 0; g.run == nil && n < 8; n++ {
			func() {
				defer func() { recover() }() // other properties judge that
				runQuiet(*c.History, c.Fail)
			}()
			i += len(c.History.Ops)
		}
		if g.run == nil {
			return measure()
		}
		for n := 0; n < g.calls; n++ {
			g.run(i, c.Bad, c.Seed)
			i++
		}
		return measure()
	}
	round()
	start := round()
	last, now := start, start
	grows := [3]bool{true, true, true}
	done := 0
	// each stretch is four times the one before, so that growth in leaps shows too
	for _, r := range []int{3, 12, 48, 192} {
		span := r - done
		for ; done < r; done++ {
			if now = round(); now[2] == noneLeft {
				return fmt.Errorf("calls of %s (refused: %v) leave files open until no more can be opened: %d files after %d calls, none is left after %d", c.Grow, c.Bad, start[2], 2*calls, i)
			}
		}
		any := false
		for j := range now {
			if now[j]-last[j] < limit[j]*span*3/10 {
				grows[j] = false
			}
			any = any || grows[j]
		}
		last = now
		if !any {
			return nil
		}
	}
	for j := range grows {
		if grows[j] {
			return fmt.Errorf("calls of %s (refused: %v) leave something behind: %d %s after %d calls, %d after %d calls, and more all the time between", c.Grow, c.Bad, start[j], names[j], 2*calls, last[j], i)
		}
	}
	return nil
}

// settings is what belongs to the program, not to a library.
func settings() []string {
	wd, _ := os.Getwd()
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	out := append(os.Environ(), fmt.Sprintf("gc %d %d", gc, debug.SetMemoryLimit(-1)), fmt.Sprintf("profile %d", runtime.MemProfileRate))
	flag.VisitAll(func(f *flag.Flag) { out = append(out, "flag "+f.Name+" "+f.Value.String()) })
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, line := range strings.Split(string(b), "\n") {
			for _, what := range []string{"Umask", "SigIgn", "SigCgt", "Uid", "Gid", "Groups", "VmLck", "VmPin", "Cap", "NoNewPrivs", "Seccomp"} {
				if strings.HasPrefix(line, what) {
					out = append(out, line)
				}
			}
		}
	}
	for _, name := range []string{"limits", "oom_score_adj", "coredump_filter", "timerslack_ns"} {
		if b, err := os.ReadFile("/proc/self/" + name); err == nil {
			out = append(out, name+" "+string(b))
		}
	}
	nice, _ := syscall.Getpriority(syscall.PRIO_PROCESS, 0)
	stack, threads := debug.SetMaxStack(1<<29), debug.SetMaxThreads(9999)
	debug.SetMaxStack(stack)
	debug.SetMaxThreads(threads)
	trace := make([]byte, 200)
	trace = trace[:runtime.Stack(trace, false)]
	header, _, _ := strings.Cut(string(trace), "\n")
	out = append(out, fmt.Sprintf("priority %d, stack %d, threads %d, bound to its thread %v", nice, stack, threads, strings.Contains(header, "locked to thread")))
	return append(out, "wd "+wd, fmt.Sprintf("log %d %q %p", log.Flags(), log.Prefix(), log.Writer()),
		fmt.Sprintf("procs %d", runtime.GOMAXPROCS(0)), fmt.Sprintf("rand %p", rand.Reader),
		fmt.Sprintf("std %p %p %p", os.Stdin, os.Stdout, os.Stderr), fmt.Sprintf("args %q", os.Args), fmt.Sprintf("zone %p", time.Local))
}

const (
	markBegin = "/verif-effects-begin"
	markEnd   = "/verif-effects-end"
)

func mark(name string) {
	if fd, err := syscall.Open(name, syscall.O_RDONLY, 0); err == nil {
		syscall.Close(fd)
	}
}

// modeEffects runs the history of a case between two marks.
func modeEffects() int {
	b, err := os.ReadFile(*file)
	if err != nil {
		return exitInternal
	}
	var c c26
	if err := json.Unmarshal(b, &c); err != nil || c.History == nil {
		return exitInternal
	}
	before := settings()
	mark(markBegin)
	func() {
		defer func() { recover() }() // other properties judge that
		runQuiet(*c.History, c.Fail)
	}()
	time.Sleep(2 * time.Millisecond)
	mark(markEnd)
	if after := settings(); !slices.Equal(before, after) {
		for i, s := range after {
			if i >= len(before) || before[i] != s {
				fmt.Fprintf(os.Stderr, "the calls changed a setting of the process: now %s\n", s)
				break
			}
		}
		return exitViolation
	}
	return exitOK
}

// runQuiet makes the calls of a history and ignores their results.
func runQuiet(h history, fail int) {
	w := &world{}
	rnd := Stream{Seed: h.Seed}.reader()
	for _, op := range h.Ops {
		cl := w.resolve(op)
		if cl == nil {
			continue
		}
		src := rnd
		if fail > 0 && op.F == "newmn" {
			src = Stream{Seed: h.Seed, Fail: fail}.reader()
		}
		var r outcome
		withRandom(src, func() { r = cl.invoke() })
		if src == rnd && (cl.op.F != "gen" || r.priv != nil) && (r.priv == nil || r.priv.Key != nil) && (r.pub == nil || r.pub.X != nil && r.pub.Y != nil) {
			cl.add(r)
		}
	}
}

var (
	effectCalls = "trace=open,openat,openat2,creat,socket,connect,bind,sendto,sendmsg,execve,execveat,vfork,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,rmdir,link,linkat,symlink,symlinkat,truncate,ftruncate,chmod,fchmod,fchmodat,chown,fchown,lchown,fchownat,kill,mknod,mknodat,setxattr,chdir,fchdir,chroot,mount,umask,setuid,setgid,memfd_create,utimensat"
	openCall    = regexp.MustCompile(`\b(open|openat|openat2|creat)\(`)
	openWrites  = regexp.MustCompile(`\b(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND)\b|\bcreat\(`)
	straceWorks = -1
)

// c26effects watches the system calls of a history in a child process.
func c26effects(c c26, o *obs) error {
	for _, op := range c.History.Ops {
		o.tag(op.F)
	}
	o.nt(len(c.History.Ops) > 4 || c.Fail > 0)
	raw, err := json.Marshal(c)
	must(err == nil, "case cannot be serialised")
	in, out := filepath.Join(*outDir, "effects.json"), filepath.Join(*outDir, "effects.trace")
	must(os.WriteFile(in, raw, 0o644) == nil, "write")
	os.Remove(out)
	if straceWorks < 0 {
		straceWorks = 0
		if exec.Command("strace", "-f", "-qq", "-o", out, "-e", effectCalls, "true").Run() == nil {
			straceWorks = 1
		}
	}
	args := []string{os.Args[0], "-mode", "effects", "-file", in, "-out", *outDir}
	if straceWorks == 1 {
		o.tag("system-calls-watched")
		args = append([]string{"strace", "-f", "-qq", "-o", out, "-e", effectCalls}, args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	var text bytes.Buffer
	cmd.Stderr = &text
	cmd.Run()
	if cmd.ProcessState == nil {
		internalf("cannot start the watched child")
	}
	switch code := cmd.ProcessState.ExitCode(); code {
	case exitOK:
	case exitViolation:
		return fmt.Errorf("%s", strings.TrimSpace(text.String()))
	case exitInternal:
		internalf("the watched child failed: %s", text.String())
	default:
		o.tag("child-ended") // other properties judge that
	}
	if straceWorks != 1 {
		return nil
	}
	trace, err := os.ReadFile(out)
	must(err == nil, "no trace")
	_, rest, ok := strings.Cut(string(trace), markBegin)
	if !ok {
		o.tag("no-mark")
		return nil
	}
	rest, _, _ = strings.Cut(rest, markEnd)
	lines := strings.Split(rest, "\n")
	for _, l := range lines[1:max(1, len(lines)-1)] { // the ends belong to the marks
		_, call, _ := strings.Cut(l, " ")
		call = strings.TrimSpace(call)
		if call == "" || strings.HasPrefix(call, "---") || strings.HasPrefix(call, "+++") || strings.HasPrefix(call, "<...") {
			continue
		}
		if openCall.MatchString(call) && !openWrites.MatchString(call) {
			continue // reading is nobody's business here
		}
		return fmt.Errorf("the calls had an effect on the system: %s", tail(call, 300))
	}
	return nil
}

var _ = register(&spec[c26]{
	ID:    "C26",
	Rule:  "rounds of calls with ever new arguments, or a watched history of more than four calls or with a failing random source",
	Quick: 100, Thorough: 1500,
	HangCPU: 600,
	Enum: func(_ string, yield func(c26) bool) {
		for _, g := range sortedKeys(growths) {
			if g == "history" {
				continue
			}
			for _, bad := range []bool{false, true} {
				if !yield(c26{Grow: g, Bad: bad, Seed: "enum"}) {
					return
				}
			}
		}
	},
	Gen: func(t *rapid.T) c26 {
		if weighted(t, "kind", "effects*9", "grow") == "grow" {
			ks := sortedKeys(growths)
			if k := ks[uniformInt(t, len(ks), "grow")]; k != "history" {
				return c26{Grow: k, Bad: rapid.Bool().Draw(t, "bad"), Seed: genSeedText(t, "seed")}
			}
		}
		h := genHistory(t, 24, evenWeights...)
		c := c26{History: &h}
		if weighted(t, "fault", "no*4", "yes") == "yes" {
			c.Fail = 1 + uniformInt(t, 34, "fail")
		}
		if weighted(t, "again", "no*2", "yes") == "yes" { // the same calls over and over
			c.Grow = "history"
			h.Ops = slices.DeleteFunc(h.Ops, func(op Op) bool { return op.F == "pub" && op.A%4 != 0 })
		}
		return c
	},
	Run: func(c c26, o *obs) error {
		if c.Grow != "" {
			return c26grow(c, o)
		}
		must(c.History != nil, "empty case")
		return c26effects(c, o)
	},
})
