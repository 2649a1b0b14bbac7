package main

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"aaa.verif/harness/ref"
	"aaa.verif/harness/source"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

// ---- C20 ----

type c20 struct {
	history
	Fail    int `json:"fail,omitempty"`    // >0: the random source fails after Fail-1 bytes in NewMnemonic
	GenFail int `json:"genFail,omitempty"` // >0: only a key is generated, and the source fails after GenFail-1 bytes
}

var captureFile *os.File

// captured runs f with standard output and error going to a file; f can ask
// what has been written so far.
func captured(f func(soFar func() []byte)) {
	if captureFile == nil {
		var err error
		captureFile, err = os.Create(filepath.Join(*outDir, "captured"))
		must(err == nil, "cannot capture output")
	}
	must(captureFile.Truncate(0) == nil, "truncate")
	captureFile.Seek(0, 0)
	var saved [2]int
	for i := range saved {
		fd, err := syscall.Dup(i + 1)
		must(err == nil, "dup")
		saved[i] = fd
		must(syscall.Dup3(int(captureFile.Fd()), i+1, 0) == nil, "dup3")
	}
	defer func() {
		for i, fd := range saved {
			syscall.Dup3(fd, i+1, 0)
			syscall.Close(fd)
		}
	}()
	f(func() []byte {
		st, err := captureFile.Stat()
		must(err == nil, "stat")
		b := make([]byte, st.Size())
		captureFile.ReadAt(b, 0)
		return b
	})
}

var _ = register(&spec[c20]{
	ID:    "C20",
	Rule:  "the history has a refused call, or handles a phrase, a seed or a generated key, or the random source fails",
	Quick: 1600, Thorough: 25000,
	Gen: func(t *rapid.T) c20 {
		if weighted(t, "genfault", "no*60", "yes") == "yes" {
			return c20{GenFail: 1 + uniformInt(t, 34, "fail")}
		}
		c := c20{history: genHistory(t, 14, evenWeights...)}
		if weighted(t, "fault", "no*5", "yes") == "yes" {
			c.Fail = 1 + uniformInt(t, 40, "fail")
		}
		return c
	},
	Run: func(c c20, o *obs) (err error) {
		if c.GenFail > 0 {
			return c20fault(c, o)
		}
		w := &world{}
		rnd := Stream{Seed: c.Seed}.reader()
		captured(func(soFar func() []byte) {
			for _, op := range c.Ops {
				cl := w.resolve(op)
				if cl == nil {
					continue
				}
				o.tag(op.F)
				o.nt(cl.fails || op.F == "newmn" || op.F == "seed" || op.F == "reseed" || op.F == "gen")
				src := rnd
				if c.Fail > 0 && op.F == "newmn" {
					src = Stream{Seed: c.Seed, Fail: c.Fail}.reader()
					o.tag("fault")
				}
				var r outcome
				withRandom(src, func() { r = cl.invoke() })
				if out := soFar(); len(out) > 0 {
					err = fmt.Errorf("%v printed %q", op, tail(string(out), 500))
					return
				}
				if src == rnd && (cl.op.F != "gen" || r.priv != nil) && (r.priv == nil || r.priv.Key != nil) && (r.pub == nil || r.pub.X != nil && r.pub.Y != nil) {
					cl.add(r)
				}
			}
			time.Sleep(time.Millisecond) // for what a goroutine writes later
			if out := soFar(); len(out) > 0 {
				err = fmt.Errorf("after the calls was printed %q", tail(string(out), 500))
			}
		})
		return err
	},
})

// c20fault watches key generation while the random source fails, in a child
// process because the library may end it.
func c20fault(c c20, o *obs) error {
	o.nt(true)
	o.tag("generation-fault")
	cmd := exec.Command(os.Args[0], "-mode", "quietfault", "-file", fmt.Sprint(c.GenFail), "-out", *outDir)
	out, _ := cmd.CombinedOutput()
	if cmd.ProcessState == nil {
		internalf("cannot start the fault child")
	}
	text := string(out)
	if code := cmd.ProcessState.ExitCode(); code == 2 || code < 0 {
		// ended by the Go runtime, which says so; only what comes before counts
		for _, m := range []string{"panic: ", "fatal error: ", "runtime: "} {
			if i := strings.Index(text, m); i >= 0 {
				text = text[:i]
			}
		}
	}
	if text != "" {
		return fmt.Errorf("GeneratePrivateKey with a random source that fails after %d bytes printed %q", c.GenFail-1, tail(text, 500))
	}
	return nil
}

func modeQuietFault() int {
	syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: 3, Max: 3})
	r := Stream{Seed: "q", Fail: atoi(*file)}.reader()
	func() {
		defer func() { recover() }()
		withRandom(r, func() { btc.GeneratePrivateKey(btc.MainNetwork) })
	}()
	return exitOK
}

// ---- C21 ----

func scribble(n *big.Int) bool {
	if n == nil {
		return false
	}
	ws := n.Bits()
	for i := range ws {
		ws[i] = ^ws[i] | 1
	}
	return len(ws) > 0
}

func scribbleOutcome(r outcome) bool {
	did := false
	if r.priv != nil {
		did = scribble(r.priv.Key) || did
	}
	if r.pub != nil {
		did = scribble(r.pub.X) || did
		did = scribble(r.pub.Y) || did
	}
	for i := range r.seed {
		r.seed[i] ^= 0x5a
		did = true
	}
	return did
}

// probes checks calls that lean on the library's own constants.
func probes() error {
	for _, k := range []int64{1, 3} {
		p := &btc.PrivateKey{Key: big.NewInt(k), Network: btc.MainNetwork}
		q, ok := p.GetPublicKey()
		if !ok {
			return fmt.Errorf("the key %d has no public key any more", k)
		}
		if err := checkPub(q, ref.BaseMult(big.NewInt(k)), mainNet); err != nil {
			return fmt.Errorf("public key of %d: %v", k, err)
		}
	}
	pt := ref.BaseMult(big.NewInt(5))
	for _, comp := range []bool{true, false} {
		q, err := btc.PublicFromHex(ref.Hex(ref.SEC1(pt, comp)), btc.TestNetwork)
		if err != nil {
			return fmt.Errorf("importing 5G fails: %v", err)
		}
		if err := checkPub(q, pt, testNet); err != nil {
			return fmt.Errorf("importing 5G: %v", err)
		}
		q, err = btc.AddPublicKeys(q, q, false)
		if err != nil {
			return fmt.Errorf("doubling 5G fails: %v", err)
		}
		if err := checkPub(q, ref.BaseMult(big.NewInt(10)), testNet); err != nil {
			return fmt.Errorf("doubling 5G: %v", err)
		}
	}
	nm1 := new(big.Int).Sub(ref.N, one)
	a, err := btc.PrivateFromHex(ref.Hex64(nm1), btc.MainNetwork)
	if err != nil {
		return fmt.Errorf("importing n-1 fails: %v", err)
	}
	b, err := btc.PrivateFromHex(ref.Hex64(big.NewInt(9)), btc.MainNetwork)
	if err != nil {
		return fmt.Errorf("importing 9 fails: %v", err)
	}
	s, err := btc.AddPrivateKeys(a, b)
	if err != nil {
		return fmt.Errorf("adding n-1 and 9 fails: %v", err)
	}
	if _, err := btc.PrivateFromHex(ref.Hex64(ref.N), btc.MainNetwork); err == nil {
		return fmt.Errorf("n is imported as a key")
	}
	return checkPriv(s, big.NewInt(8), ref.WIF(0x80, big.NewInt(8), false), mainNet)
}

type c21 struct {
	history
	Light bool `json:"light,omitempty"` // without the costly probes
	Kept  bool `json:"kept,omitempty"`  // parts of the results outlive them
}

var _ = register(&spec[c21]{
	ID:    "C21",
	Rule:  "the numbers or bytes of a returned value were overwritten",
	Quick: 2400, Thorough: 40000,
	Enum: func(_ string, yield func(c21) bool) {
		for _, k := range tables.Keys { // every tabled key goes through every operation
			pt := ref.BaseMult(hexToInt(k.Key))
			h := history{Seed: "enum", Ops: []Op{
				{F: "hex", Text: S(k.Key), Net: mainNet}, {F: "hex", Text: S(ref.Hex64(one)), Net: mainNet}, {F: "wif", Text: S(ref.WIF(0xef, hexToInt(k.Key), true)), Net: testNet},
				{F: "pubhex", Text: S(ref.Hex(ref.SEC1(pt, true))), Net: mainNet}, {F: "pubhex", Text: S(ref.Hex(ref.SEC1(pt, false))), Net: mainNet},
				{F: "fmt", Comp: true}, {F: "fmt", A: 1}, {F: "addr", A: 1, Comp: true}, {F: "addr"}, {F: "addpub", A: 0, B: 1, Comp: true}, {F: "addpub", A: 1, B: 1},
				{F: "add", A: 0, B: 1}, {F: "mul", A: 0, B: 1}, {F: "mul", A: 1, B: 0}, {F: "rewif", A: 2}, {F: "pub"},
			}}
			if !yield(c21{h, true, false}) {
				return
			}
		}
	},
	Gen: func(t *rapid.T) c21 {
		if weighted(t, "kept", "no*4", "yes") == "yes" {
			return c21{genHistory(t, 16, "hex*4", "wif*4", "rewif*2", "gen*3", "add*5", "mul*5", "pub*2", "pubhex*5", "repub*3", "addpub*6", "fmt*5", "addr*5", "newmn*3", "seed*3", "checkwif"), true, true}
		}
		if weighted(t, "light", "yes*3", "no") == "yes" {
			return c21{genHistory(t, 12, "hex*3", "wif*4", "rewif*2", "gen*2", "add*7", "mul*7", "pubhex*6", "repub*3", "addpub*7", "fmt*6", "addr*6", "newmn*2", "seed*1", "checkwif"), true, false}
		}
		return c21{history: genHistory(t, 5, "hex*4", "wif*4", "rewif*2", "gen*2", "add*6", "mul*6", "pub*4", "pubhex*5", "repub*2", "addpub*7", "fmt*2", "addr*2", "newmn*3", "seed*3", "checkwif")}
	},
	Run: func(c c21, o *obs) error {
		if c.Kept {
			return c21kept(c, o)
		}
		w := &world{}
		rnd := Stream{Seed: c.Seed}.reader()
		for i, op := range c.Ops {
			cl := w.resolve(op)
			if cl == nil {
				continue
			}
			o.tag(op.F)
			o.tagIf(op.A == op.B, "same-operand")
			invoke := func() (r outcome) {
				withRandom(rnd, func() { r = cl.invoke() })
				return r
			}
			stage := func(what string) error {
				if err := w.intact(); err != nil {
					return fmt.Errorf("step %d, %v, %s: %v", i, op, what, err)
				}
				return nil
			}
			r1 := invoke()
			if err := stage("after the call"); err != nil {
				return err
			}
			if err := cl.judge(r1); err != nil {
				return fmt.Errorf("step %d: %v", i, err)
			}
			r2 := invoke()
			if err := stage("after the second call"); err != nil {
				return err
			}
			var keep *big.Int
			if op.F == "gen" && r2.priv != nil && r2.priv.Key != nil {
				keep = new(big.Int).Set(r2.priv.Key)
			}
			if err := cl.judge(r2); err != nil {
				return fmt.Errorf("step %d: second call: %v", i, err)
			}
			if scribbleOutcome(r1) {
				o.nt(true)
				o.tag("overwritten")
				if err := stage("after its result was overwritten"); err != nil {
					return err
				}
				if err := cl.judge(r2); err != nil {
					return fmt.Errorf("step %d: the result of a second call changed when that of the first was overwritten: %v", i, err)
				}
				if keep != nil && keep.Cmp(r2.priv.Key) != 0 {
					return fmt.Errorf("step %d: overwriting one generated key changed another", i)
				}
				r3 := invoke()
				if err := cl.judge(r3); err != nil {
					return fmt.Errorf("step %d: repeating the call after its result was overwritten: %v", i, err)
				}
				if c.Light {
					cl.add(r2)
					continue
				}
				if err := probes(); err != nil {
					return fmt.Errorf("step %d, %v: after its result was overwritten: %v", i, op, err)
				}
			}
			cl.add(r2)
		}
		return c21wide(w, c.Light)
	},
})

// partsOf makes the call and keeps the parts of its result, not the object that
// was returned.
//
//go:noinline
func partsOf(cl *call) outcome {
	r := cl.invoke()
	if r.priv != nil {
		r.priv = &btc.PrivateKey{Key: r.priv.Key, Hex: r.priv.Hex, WIF: r.priv.WIF, Network: r.priv.Network}
	}
	if r.pub != nil {
		r.pub = &btc.PublicKey{X: r.pub.X, Y: r.pub.Y, Network: r.pub.Network}
	}
	return r
}

// collect lets the garbage collector find what is unreachable and waits until
// finalizers had their turn.
func collect() {
	for i := 0; i < 2; i++ {
		done := make(chan bool)
		x := &struct {
			p *int
			b [64]byte
		}{p: new(int)}
		runtime.SetFinalizer(x, func(any) { close(done) })
		x = nil
		runtime.GC()
		select {
		case <-done:
		case <-time.After(time.Second):
		}
		runtime.Gosched()
	}
}

// c21kept checks that what a caller holds on to does not change by itself: not
// when the object it came with is collected, and not in later calls.
func c21kept(c c21, o *obs) error {
	w := &world{}
	rnd := Stream{Seed: c.Seed}.reader()
	type held struct {
		cl  *call
		r   outcome
		was string
	}
	show := func(r outcome) string {
		return fmt.Sprintf("%s %s %v %q %x", showPriv(r.priv), showPub(r.pub), r.ok, r.text, r.seed)
	}
	var all []held
	for i, op := range c.Ops {
		cl := w.resolve(op)
		if cl == nil {
			continue
		}
		o.tag(op.F)
		var r outcome
		withRandom(rnd, func() { r = partsOf(cl) })
		if err := cl.judge(r); err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		cl.add(r)
		all = append(all, held{cl, r, show(r)})
		if i == len(c.Ops)/2 {
			collect()
		}
	}
	collect()
	o.tag("kept")
	o.nt(len(all) > 2)
	for i, h := range all {
		if now := show(h.r); now != h.was {
			return fmt.Errorf("result %d of %d, of %v, changed by itself after later calls and garbage collection: it was %s and is %s", i, len(all), h.cl.op, h.was, now)
		}
	}
	return w.intact()
}

// c21wide hands over numbers outside the range of keys. What the operations make
// of them is not judged here, only that they leave them alone.
func c21wide(w *world, light bool) error {
	if len(w.privs) == 0 {
		return nil
	}
	e := w.privs[len(w.privs)-1]
	l := w.lib(e.net)
	mk := func(k *big.Int) *btc.PrivateKey { return &btc.PrivateKey{Key: k, Hex: "hex", WIF: "wif", Network: l} }
	wide := []*big.Int{new(big.Int).Add(e.k, ref.N), new(big.Int).Add(e.k, new(big.Int).Lsh(one, 256)), new(big.Int).Neg(e.k)}
	for _, k := range wide {
		a, b := mk(new(big.Int).Set(k)), mk(big.NewInt(77))
		same := func(what string) error {
			if a.Key.Cmp(k) != 0 || b.Key.Int64() != 77 || !b.Key.IsInt64() || a.Hex != "hex" || a.WIF != "wif" || b.Hex != "hex" || b.WIF != "wif" || a.Network != l || b.Network != l {
				return fmt.Errorf("%s changed a key object with the number %v (and 77): now %v, %v", what, k, showPriv(a), showPriv(b))
			}
			return nil
		}
		btc.AddPrivateKeys(a, b)
		btc.AddPrivateKeys(b, a)
		if err := same("AddPrivateKeys"); err != nil {
			return err
		}
		btc.MultiplyPrivateKeys(a, b)
		btc.MultiplyPrivateKeys(b, a)
		if err := same("MultiplyPrivateKeys"); err != nil {
			return err
		}
		if !light {
			a.GetPublicKey()
			if err := same("GetPublicKey"); err != nil {
				return err
			}
		}
	}
	return w.intact()
}

// ---- C22 ----

type c22 struct {
	history
	Clock *Clock `json:"clock,omitempty"`
}

var _ = register(&spec[c22]{
	ID:    "C22",
	Rule:  "the history contains a refused call and keys of at least two networks",
	Quick: 840, Thorough: 15000,
	Enum: func(_ string, yield func(c22) bool) {
		for _, h := range twinHistories() {
			if !yield(c22{history: h}) {
				return
			}
		}
	},
	Gen: func(t *rapid.T) c22 {
		weights := evenWeights
		changes := weighted(t, "changes", "no*2", "yes") == "yes"
		if changes {
			weights = changeWeights
		}
		c := c22{history: genHistory(t, 40, weights...), Clock: genClock(t)}
		if changes { // one of the lists is the caller's own
			var of List
			for i := range c.Ops {
				if l := c.Ops[i].List; l != "" && of == "" {
					of = l
				}
			}
			for i := range c.Ops {
				if c.Ops[i].List == of && of != "" {
					c.Ops[i].List = "own:" + of
				}
			}
		}
		if weighted(t, "long", "no*4", "yes") == "yes" {
			// some calls are made many times over, with the same or other arguments
			for n := rapid.IntRange(1, 3).Draw(t, "reps"); n > 0; n-- {
				op := &c.Ops[uniformInt(t, len(c.Ops), "which")]
				op.Vary = rapid.Bool().Draw(t, "vary")
				switch op.F {
				case "hex", "wif", "checkwif", "fmt", "addr", "gen", "rewif":
					op.Rep = pick(t, "many", 50, 150, 300, 1100, 2500)
				case "add", "mul", "newmn":
					op.Rep = pick(t, "several", 20, 100, 300)
				case "pubhex", "repub", "addpub":
					op.Rep = pick(t, "some", 20, 60, 150)
				default:
					op.Rep = pick(t, "few", 3, 10, 20)
				}
				if op.F == "hex" || op.F == "checkwif" || op.F == "wif" || op.F == "fmt" {
					if uniformInt(t, 25, "very-many") == 0 {
						op.Rep = 66000 // beyond 16-bit counters
					}
				}
				if useDict(t, "rep") {
					most := map[string]int{"hex": 6000, "wif": 3000, "checkwif": 3000, "fmt": 6000, "addr": 3000, "gen": 3000, "rewif": 3000, "add": 600, "mul": 600, "newmn": 600, "pubhex": 300, "repub": 300, "addpub": 300}[op.F]
					if v, ok := dictInt(t, "rep", 1, max(most, 40)); ok {
						op.Rep = v + 1
					}
				}
			}
		}
		return c
	},
	Run: func(c c22, o *obs) error {
		var err error
		o.tagIf(c.Clock != nil && source.SetClock != nil, "clock")
		withClock(c.Clock, func() { err = c.play(o) })
		return err
	},
})

func (c c22) play(o *obs) error {
		w := &world{}
		rnd := Stream{Seed: c.Seed}.reader()
		var done []*call
		nets := map[Net]bool{}
		failed := false
		for i, op := range c.Ops {
			if strings.HasPrefix(op.F, "ch") && op.F != "checkwif" {
				if x := w.change(op); x != nil {
					o.tag(op.F)
					done = slices.DeleteFunc(done, func(c *call) bool { return slices.Contains(c.uses, x) })
				}
				continue
			}
			if c.Clock != nil {
				time.Now() // time passes between the calls
			}
			cl := w.resolve(op)
			if cl == nil {
				continue
			}
			o.tag(op.F)
			var r outcome
			withRandom(rnd, func() { r = cl.invoke() })
			if err := cl.judge(r); err != nil {
				return fmt.Errorf("step %d: %v", i, err)
			}
			cl.add(r)
			done = append(done, cl)
			for n := 1; n < op.Rep; n++ {
				v := w.resolve(op.variant(n))
				if v == nil {
					break
				}
				o.tag("repeated")
				withRandom(rnd, func() { r = v.invoke() })
				if err := v.judge(r); err != nil {
					return fmt.Errorf("step %d, variant %d: %v", i, n, err)
				}
			}
			failed = failed || cl.fails
			if op.Net.Kind != "" {
				nets[op.Net] = true
			}
		}
		o.nt(failed && len(nets) > 1)
		if err := w.intact(); err != nil {
			return fmt.Errorf("at the end: %v", err)
		}
		for i := range done { // repeat every call, last first
			cl := done[len(done)-1-i]
			var r outcome
			withRandom(rnd, func() { r = cl.invoke() })
			if err := cl.judge(r); err != nil {
				return fmt.Errorf("repeating %v at the end: %v", cl.op, err)
			}
		}
		return nil
}

// ---- C23 ----

var c23seen = map[string]bool{}

type c23 struct {
	Privs  []string `json:"privs"`
	Points []Pt     `json:"points"`
	Nets   []Net    `json:"nets"`
	Progs  [][]Op   `json:"progs"`
	Rounds int      `json:"rounds"`
}

var _ = register(&spec[c23]{
	ID:    "C23",
	Rule:  "at least two goroutines call the same function or use the same key, network or list",
	Quick: 300, Thorough: 2500,
	HangCPU: 300,
	Enum: func(_ string, yield func(c23) bool) {
		// each function alone, called by six goroutines, before anything else in
		// the process: state built on first use is built concurrently
		k := ref.Hex(expand("c23", 32))
		mk := func(op Op) c23 {
			c := c23{Privs: []string{k, ref.Hex64(big.NewInt(7))}, Points: []Pt{toPt(ref.BaseMult(hexToInt(k))), toPt(ref.G())}, Nets: []Net{mainNet}, Rounds: 1}
			for i := 0; i < 6; i++ {
				o := op
				if i%2 == 1 {
					o.B, o.Comp = op.B+1, !op.Comp
				}
				if i%3 == 1 { // other arguments
					k7 := big.NewInt(7)
					switch op.F {
					case "seed":
						o.Pass += "y"
					case "newmn":
						o.N = map[int]int{12: 24, 5: 15}[op.N]
					case "hex":
						o.Text, o.Net = S(ref.Hex64(k7)), testNet
					case "wif", "checkwif":
						o.Text, o.Net = S(ref.WIF(0xef, k7, true)), testNet
					case "pubhex":
						o.Text, o.Net = S(ref.Hex(ref.SEC1(ref.G(), len(op.Text) > 66))), mainNet
					case "gen":
						o.Net = testNet
					}
				}
				c.Progs = append(c.Progs, []Op{o, o})
			}
			return c
		}
		ops := []Op{}
		for _, l := range ref.Languages {
			ops = append(ops, Op{F: "newmn", N: 12, List: List(l)}, Op{F: "seed", Text: S(ref.Encode(expand(l, 16), ref.Words[l])), List: List(l), Pass: "x"})
		}
		pt := ref.BaseMult(hexToInt(k))
		ops = append(ops, Op{F: "pub"}, Op{F: "hex", Text: S(k), Net: mainNet}, Op{F: "wif", Text: S(ref.WIF(0x80, hexToInt(k), false)), Net: mainNet},
			Op{F: "gen", Net: mainNet}, Op{F: "pubhex", Text: S(ref.Hex(ref.SEC1(pt, true))), Net: mainNet}, Op{F: "addr"}, Op{F: "fmt"}, Op{F: "addpub"}, Op{F: "add"}, Op{F: "mul"},
			Op{F: "pubhex", Text: S(ref.Hex(ref.SEC1(pt, false))), Net: testNet}, Op{F: "checkwif", Text: S(ref.WIF(0x80, hexToInt(k), true))},
			Op{F: "hex", Text: "zz", Net: mainNet}, Op{F: "wif", Text: "5", Net: testNet}, Op{F: "pubhex", Text: "02", Net: testNet}, Op{F: "seed", Text: "a b c", List: "english"}, Op{F: "newmn", N: 5, List: "english"})
		for _, op := range ops {
			if !yield(mk(op)) {
				return
			}
		}
	},
	Gen: func(t *rapid.T) c23 {
		p := genPalette(t)
		c := c23{Privs: p.scalars, Points: p.points, Nets: p.nets, Rounds: rapid.IntRange(1, 2).Draw(t, "rounds")}
		g := rapid.IntRange(2, 8).Draw(t, "goroutines")
		if weighted(t, "burst", "no*3", "yes") == "yes" {
			// many goroutines hammer one or two cheap functions
			g = pick(t, "many", 4, 8, 16)
			c.Rounds = rapid.IntRange(20, 120).Draw(t, "long")
			kinds := []string{pick(t, "hammer", "gen", "gen", "newmn", "hex", "wif", "fmt", "addr", "checkwif", "pubhex", "addpub", "addpub", "add", "mul", "seed")}
			if rapid.Bool().Draw(t, "two") {
				kinds = append(kinds, pick(t, "hammer2", "gen", "newmn", "hex", "wif", "fmt", "addr", "checkwif"))
			}
			var prog []Op
			for _, k := range kinds {
				prog = append(prog, genOp(t, p, k))
			}
			for i := range prog {
				if f := prog[i].F; (f == "addpub" || f == "add" || f == "mul") && weighted(t, "pair", "yes*3", "no") == "yes" {
					prog[i].A, prog[i].B = 0, len(c.Nets) // the first two keys of the first network
				}
			}
			turned := slices.Clone(prog) // operands in the other order
			for i := range turned {
				turned[i].A, turned[i].B = turned[i].B, turned[i].A
			}
			progs := [][]Op{prog, turned}
			for rapid.Bool().Draw(t, "more") && len(progs) < 5 { // other arguments
				var other []Op
				for _, k := range kinds {
					other = append(other, genOp(t, p, k))
				}
				progs = append(progs, other)
			}
			for i := 0; i < g; i++ {
				c.Progs = append(c.Progs, progs[i%len(progs)])
			}
			if slices.Contains(kinds, "seed") {
				c.Rounds = 1 + c.Rounds/20
			}
			return c
		}
		same := weighted(t, "same", "no*2", "yes") == "yes" // all run one program
		for i := 0; i < g; i++ {
			var prog []Op
			if same && i > 0 {
				prog = c.Progs[0]
			} else {
				for j := rapid.IntRange(1, 6).Draw(t, "n"); j > 0; j-- {
					prog = append(prog, genOp(t, p, "hex*4", "wif*4", "rewif*2", "checkwif*2", "gen*4", "add*4", "mul*4", "pub*2", "pubhex*8", "repub*2", "addpub*5", "fmt*4", "addr*4", "newmn*4", "seed*3"))
				}
			}
			c.Progs = append(c.Progs, prog)
		}
		return c
	},
	Run: func(c c23, o *obs) error {
		// operands are made without calling the library
		w := &world{}
		for i, s := range c.Privs {
			for j, n := range c.Nets {
				if i > 0 && j > 0 {
					continue
				}
				k := hexToInt(s)
				wif := ref.WIF(n.privByte(), k, false)
				w.privs = append(w.privs, privEnt{&btc.PrivateKey{Key: new(big.Int).Set(k), Hex: s, WIF: wif, Network: w.lib(n)}, k, wif, n})
			}
		}
		for i, s := range c.Points {
			for j, n := range c.Nets {
				if i > 0 && j > 0 {
					continue
				}
				pt := s.point()
				w.pubs = append(w.pubs, pubEnt{&btc.PublicKey{X: new(big.Int).Set(pt.X), Y: new(big.Int).Set(pt.Y), Network: w.lib(n)}, pt, n})
			}
		}
		type job struct {
			cl *call
			r  outcome
		}
		var progs [][]*job
		use := map[string]int{}
		for _, prog := range c.Progs {
			var jobs []*job
			mine := map[string]bool{}
			for r := 0; r < c.Rounds; r++ {
				for _, op := range prog {
					if cl := w.resolve(op); cl != nil {
						jobs = append(jobs, &job{cl: cl})
						mine[op.F] = true
						o.tag(op.F)
					}
				}
			}
			for f := range mine {
				use[f]++
			}
			progs = append(progs, jobs)
		}
		for _, n := range use {
			o.nt(n > 1)
		}
		start := make(chan struct{})
		panics := make([]any, len(progs))
		var wg sync.WaitGroup
		for i, jobs := range progs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { panics[i] = recover() }()
				<-start
				for _, j := range jobs {
					j.r = j.cl.invoke()
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, p := range panics {
			if p != nil {
				return fmt.Errorf("goroutine %d: panic: %v", i, p)
			}
		}
		for i, jobs := range progs {
			for _, j := range jobs {
				if err := j.cl.judge(j.r); err != nil {
					return fmt.Errorf("goroutine %d: %v", i, err)
				}
				fresh := ""
				switch {
				case j.cl.op.F == "gen":
					fresh = j.r.priv.Hex
				case j.cl.op.F == "newmn" && j.r.err == nil:
					fresh = string(j.cl.op.List) + ":" + j.r.text
				}
				if fresh != "" {
					if c23seen[fresh] {
						return fmt.Errorf("generated twice by concurrent calls: %s", fresh)
					}
					c23seen[fresh] = true
				}
			}
		}
		return w.intact()
	},
})

// ---- C24 ----

type c24 struct {
	Texts []S    `json:"texts"`
	Count int    `json:"count"`
	List  List   `json:"list"`
	Net   Net    `json:"net"`
	Seed  string `json:"seed"`
	Head  string `json:"head,omitempty"` // first bytes of the random source
}

// oddList gives lists that are not usable for BIP-39 but must not crash.
func oddList(name List) btc.Wordlist {
	kind, arg, _ := strings.Cut(string(name), "=")
	var l btc.Wordlist
	fill := func(f func(i int) string) btc.Wordlist {
		for i := 0; i < 2048; i++ {
			l = append(l, f(i))
		}
		return l
	}
	switch kind {
	case "same":
		return fill(func(int) string { return arg })
	case "half":
		return fill(func(i int) string { return fmt.Sprint("w", i/2) })
	case "blank":
		return fill(func(i int) string { return fmt.Sprint("w ", i) })
	case "bytes":
		return fill(func(i int) string { return string([]byte{0xff, byte(i), byte(i >> 8)}) })
	}
	return name.get().lib
}

func xor(what string, has, complete bool, err error) error {
	switch {
	case has && err != nil:
		return fmt.Errorf("%s gave a result together with the error %q", what, err)
	case !has && err == nil:
		return fmt.Errorf("%s gave neither a result nor an error", what)
	case has && !complete:
		return fmt.Errorf("%s gave an incomplete result", what)
	}
	return nil
}

func anyText(t *rapid.T, l string, n Net) string {
	switch weighted(t, l+"-any", "hex*2", "wif*3", "pub*3", "phrase*2", "arb*3", "huge", "blanks", "empty", "short*2") {
	case "hex":
		return hexKeyText(t, l)
	case "wif":
		return wifText(t, l, n.privByte())
	case "pub":
		return pubText(t, l)
	case "phrase":
		s, _ := phraseText(t, l)
		return string(s)
	case "huge":
		return strings.Repeat(pick(t, l+"-u", "1", "z", "0", "f", "02", "04", "abandon ", " ", "\xff", "é", "4"), 200+uniformInt(t, 3000, l+"-n"))
	case "empty": // Base58Check of (nearly) nothing
		return ref.B58CheckEncode(uniformBytes(t, uniformInt(t, 3, l+"-n"), l))
	case "blanks":
		return strings.Repeat(" ", pick(t, l+"-b", 1, 2, 11, 14, 17, 20, 23, 24, 12))
	case "short":
		return fromAlphabet(t, "0123456789abcdefABCDEFzZ1 +-_x", uniformInt(t, 9, l+"-n"), l)
	}
	return arbitraryText(t, l)
}

var _ = register(&spec[c24]{
	ID:    "C24",
	Rule:  "some parser accepts a text, or a text is a near miss (hex, Base58 or list words), or the word list is unusual",
	Quick: 3000, Thorough: 50000,
	Gen: func(t *rapid.T) c24 {
		c := c24{Net: genNet(t, "net"), Seed: genSeedText(t, "seed")}
		if rapid.Bool().Draw(t, "draws") { // special draws, for the phrase or for the key
			var head []byte
			if rapid.Bool().Draw(t, "skip") {
				head = make([]byte, pick(t, "skipn", 16, 20, 24, 28, 32))
			}
			for i := rapid.IntRange(1, 3).Draw(t, "blocks"); i > 0; i-- {
				head = append(head, ref.Bytes32(pick(t, "block", new(big.Int), one, ref.N, new(big.Int).Sub(ref.N, one), new(big.Int).Sub(ref.N, big.NewInt(2)), genInt256(t, "bv"), new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)))...)
			}
			c.Head = ref.Hex(head)
		}
		for i := rapid.IntRange(1, 4).Draw(t, "texts"); i > 0; i-- {
			c.Texts = append(c.Texts, S(anyText(t, "t", c.Net)))
		}
		if weighted(t, "fit", "no*8", "yes") == "yes" { // a network that fits a text
			for _, s := range c.Texts {
				if raw, ok := ref.B58Decode(string(s)); ok && len(raw) > 0 {
					c.Net = Net{"custom", fmt.Sprintf("%02X", raw[0]), "00"}
				}
			}
		}
		c.Count = wordCounts[uniformInt(t, 5, "n")]
		if rapid.Bool().Draw(t, "badn") {
			c.Count = rapid.Int().Draw(t, "count")
		}
		switch weighted(t, "lk", "ok*3", "odd*3", "len*2", "nil") {
		case "ok":
			c.List = genList(t, "list")
		case "odd":
			c.List = pick(t, "odd", List("same="), List("same=a"), List("same= "), List("half"), List("blank"), List("bytes"))
		case "len":
			c.List = List(fmt.Sprintf("len:%d", uniformInt(t, 3000, "len")))
		case "nil":
			c.List = "nil"
		}
		if weighted(t, "phrase", "no*2", "yes") == "yes" {
			s, l := phraseText(t, "ph")
			c.Texts, c.List = append(c.Texts, s), l
		}
		return c
	},
	Run: func(c c24, o *obs) error {
		n := c.Net.lib()
		list := oddList(c.List)
		o.nt(strings.Contains(string(c.List), "=") || c.List == "nil" || strings.HasPrefix(string(c.List), "len") || c.List == "half" || c.List == "blank" || c.List == "bytes")
		var privs []*btc.PrivateKey
		var pubs []*btc.PublicKey
		fullPriv := func(p *btc.PrivateKey) bool {
			return p != nil && p.Key != nil && p.Hex != "" && p.WIF != "" && p.Network != nil
		}
		fullPub := func(p *btc.PublicKey) bool { return p != nil && p.X != nil && p.Y != nil && p.Network != nil }
		var rest []error
		note := func(err error) {
			if err != nil {
				rest = append(rest, err)
			}
		}
		rnd := Stream{Head: c.Head, Seed: c.Seed}.reader()
		withRandom(rnd, func() {
			for _, s := range c.Texts {
				in := string(s)
				if _, hex := ref.Unhex(in); hex && in != "" {
					o.nt(true)
				}
				if _, b := ref.B58Decode(in); b {
					o.nt(true)
				}
				btc.CheckWIF(in)
				p, err := btc.PrivateFromHex(in, n)
				note(xor(fmt.Sprintf("PrivateFromHex(%q)", in), p != nil, fullPriv(p), err))
				q, err2 := btc.PrivateFromWIF(in, n)
				note(xor(fmt.Sprintf("PrivateFromWIF(%q)", in), q != nil, fullPriv(q), err2))
				k, err3 := btc.PublicFromHex(in, n)
				note(xor(fmt.Sprintf("PublicFromHex(%q)", in), k != nil, fullPub(k), err3))
				if err == nil {
					privs = append(privs, p)
					o.tag("hex-accepted")
				}
				if err2 == nil {
					privs = append(privs, q)
					o.tag("wif-accepted")
				}
				if err3 == nil {
					pubs = append(pubs, k)
					o.tag("pub-accepted")
				}
				for _, pass := range []string{"", in} {
					seed, err := btc.NewSeedFromMnemonic(in, pass, list)
					note(xor(fmt.Sprintf("NewSeedFromMnemonic(%q, %q)", in, pass), len(seed) > 0, len(seed) == 64, err))
					o.tagIf(err == nil, "phrase-accepted")
				}
				if len(rest) > 0 {
					return
				}
			}
			o.nt(len(privs)+len(pubs) > 0)
			ph, err := btc.NewMnemonic(c.Count, list)
			if err == nil && strings.Trim(ph, " ") == "" && len(list) == 2048 && strings.Trim(list[0], " ") == "" {
				o.tag("blank-words") // the phrase of a list of empty words
			} else {
				note(xor(fmt.Sprintf("NewMnemonic(%d, %s)", c.Count, c.List), ph != "", true, err))
			}
			if err == nil {
				seed, err := btc.NewSeedFromMnemonic(ph, "p", list)
				note(xor(fmt.Sprintf("NewSeedFromMnemonic(%q)", ph), len(seed) > 0, len(seed) == 64, err))
			}
			if g := btc.GeneratePrivateKey(n); !fullPriv(g) {
				note(fmt.Errorf("GeneratePrivateKey gave an incomplete key: %s", showPriv(g)))
			} else {
				privs = append(privs, g)
			}
			for i, p := range privs {
				k, ok := p.GetPublicKey()
				if ok != fullPub(k) {
					note(fmt.Errorf("GetPublicKey of %s gave %s, %v", p.Hex, showPub(k), ok))
				} else if ok {
					pubs = append(pubs, k)
				}
				for _, q := range privs[:i+1] {
					for _, f := range []string{"add", "mul"} {
						r, err := libCombine(f, p, q)
						note(xor(fmt.Sprintf("%s of %s and %s", f, p.Hex, q.Hex), r != nil, fullPriv(r), err))
					}
				}
			}
			for i, k := range pubs {
				for _, comp := range []bool{true, false} {
					note(xor("Format", k.Format(comp) != "", true, nil))
					a, err := k.Address(comp)
					note(xor("Address of "+showPub(k), a != "", true, err))
				}
				for _, j := range pubs[:i+1] {
					r, err := btc.AddPublicKeys(k, j, i%2 == 0)
					note(xor(fmt.Sprintf("AddPublicKeys(%s, %s)", showPub(k), showPub(j)), r != nil, fullPub(r), err))
				}
			}
		})
		if len(rest) > 0 {
			return rest[0]
		}
		return nil
	},
})
