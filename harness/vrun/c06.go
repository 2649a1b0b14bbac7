package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

type c06 struct {
	Real   int    `json:"real,omitempty"` // >0: that many keys from the real source
	Par    int    `json:"par,omitempty"`  // >0: from each of that many goroutines
	Stream Stream `json:"stream"`
	Net    Net    `json:"net"`
}

var c06seen = map[string]string{}

func c06check(p *btc.PrivateKey, n Net) error {
	if p == nil {
		return fmt.Errorf("GeneratePrivateKey returned no key")
	}
	if !ref.ValidScalar(p.Key) {
		return fmt.Errorf("generated number %v is not a private key", p.Key)
	}
	if err := checkPriv(p, p.Key, ref.WIF(n.privByte(), p.Key, false), n); err != nil {
		return fmt.Errorf("generated key is inconsistent: %v", err)
	}
	return nil
}

var _ = register(&spec[c06]{
	ID:    "C06",
	Rule:  "the stream begins with prepared draws (zero, leading zeros, at or above n, all ones), delivers few bytes per read, or fails",
	Quick: 2700, Thorough: 25000,
	Gen: func(t *rapid.T) c06 {
		c := c06{Net: genNet(t, "net")}
		kind := weighted(t, "kind", "stream*14", "real*3", "fault*2")
		if kind == "real" {
			c.Real = rapid.IntRange(1, 40).Draw(t, "real")
			if weighted(t, "par", "no*2", "yes") == "yes" {
				c.Real = rapid.IntRange(100, 300).Draw(t, "real2")
				c.Par = pick(t, "goroutines", 2, 4, 8, 16)
			}
			return c
		}
		var head []byte
		reps := 1
		for i := rapid.IntRange(0, 6).Draw(t, "blocks"); i > 0; i-- {
			var b []byte
			switch weighted(t, "block", "zero*2", "ones*2", "n*2", "nearn*3", "lead*4", "any*3", "bytes*2", "one*2") {
			case "zero":
				b = make([]byte, 32)
			case "ones":
				b = []byte(strings.Repeat("\xff", 32))
			case "n":
				b = ref.Bytes32(ref.N)
			case "nearn":
				v := hexToInt(ref.Hex64(ref.N))
				v.Sub(v, one)
				for j := rapid.IntRange(0, 4).Draw(t, "d"); j > 0; j-- {
					v.Sub(v, one)
				}
				b = ref.Bytes32(v)
			case "lead":
				b = uniformBytes(t, 32, "lead")
				b[0] &= 15
				for j := uniformInt(t, 32, "z"); j > 0; j-- {
					b[j-1] = 0
				}
			case "any":
				b = ref.Bytes32(genInt256(t, "any"))
			case "one":
				b = make([]byte, 32)
				b[31] = byte(rapid.IntRange(1, 3).Draw(t, "v"))
			case "bytes":
				b = uniformBytes(t, uniformInt(t, 40, "n"), "bytes")
			}
			reps = 1
			if weighted(t, "many", "no*8", "yes") == "yes" {
				reps = 1 + uniformInt(t, 150, "reps")
			}
			for ; reps > 0; reps-- {
				head = append(head, b...)
			}
		}
		c.Stream = Stream{Head: ref.Hex(head), Seed: genSeedText(t, "seed"), Chunk: pick(t, "chunk", 0, 0, 1, 7, 31, 33)}
		if kind == "fault" {
			c.Stream.Fail = 1 + uniformInt(t, 34, "fail")
			if rapid.Bool().Draw(t, "late") {
				c.Stream.Fail = 1 + uniformInt(t, len(head)+32, "fail2")
			}
			c.Stream.Err = uniformInt(t, len(streamErrs), "err")
		}
		return c
	},
	Run: func(c c06, o *obs) error {
		if c.Real > 0 {
			o.tag("real-source")
			var keys []*btc.PrivateKey
			if c.Par == 0 {
				for i := 0; i < c.Real; i++ {
					keys = append(keys, btc.GeneratePrivateKey(c.Net.lib()))
				}
			} else {
				o.nt(true)
				o.tag("concurrent")
				parts := make([][]*btc.PrivateKey, c.Par)
				start := make(chan bool)
				var wg sync.WaitGroup
				for g := range parts {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for i := 0; i < c.Real; i++ {
							parts[g] = append(parts[g], btc.GeneratePrivateKey(c.Net.lib()))
						}
					}()
				}
				close(start)
				wg.Wait()
				for _, p := range parts {
					keys = append(keys, p...)
				}
			}
			for _, p := range keys {
				if err := c06check(p, c.Net); err != nil {
					return err
				}
				h := ref.Hex64(p.Key)
				if _, dup := c06seen[h]; dup {
					return fmt.Errorf("key %s was generated twice from the real random source", h)
				}
				c06seen[h] = ""
			}
			return nil
		}
		if c.Stream.Fail > 0 {
			return c06fault(c, o)
		}
		o.nt(c.Stream.Head != "" || c.Stream.Chunk > 0)
		gen := func(flip int) (p *btc.PrivateKey, r *streamReader) {
			r = c.Stream.reader()
			r.flip = flip
			withRandom(r, func() { p = btc.GeneratePrivateKey(c.Net.lib()) })
			return p, r
		}
		p, r := gen(-1)
		if err := c06check(p, c.Net); err != nil {
			return err
		}
		used := len(r.consumed)
		o.tagIf(used > 32, "redraw")
		o.tagIf(used > 32*20, "many-redraws")
		if q, rq := gen(-1); q.Key.Cmp(p.Key) != 0 || len(rq.consumed) != used {
			// randomness is held back between calls: only the balance can be judged
			o.tag("stateful-draws")
			return c06balance(c)
		}
		if used*8 < 250 {
			return fmt.Errorf("key %s was generated from %d bytes of randomness", p.Hex, used)
		}
		flips := []int{}
		for i := 0; i < 256; i += 1 + used/64 { // fewer for long streams
			flips = append(flips, (used-32)*8+i)
		}
		seen := map[string]int{ref.Hex64(p.Key): -1}
		for _, f := range flips {
			q, rq := gen(f)
			if err := c06check(q, c.Net); err != nil {
				return err
			}
			if len(rq.consumed) != used {
				o.tag("flip-redraws") // that draw was rejected: the key comes from a later one
				continue
			}
			h := ref.Hex64(q.Key)
			if g, dup := seen[h]; dup {
				if g < 0 && used > 40 && c06effective(c, p, used) >= 250 {
					o.tag("read-ahead") // the last bytes were read but are not part of the draw
					return nil
				}
				return fmt.Errorf("different draws give the same key %s: the last draw has 32 bytes; with its bit %d and with its bit %d flipped (-1: none)", h, f-(used-32)*8, g-(used-32)*8)
			}
			seen[h] = f
		}
		return nil
	},
})

// c06effective counts the bits of the stream that decide the key (up to 256).
func c06effective(c c06, p *btc.PrivateKey, used int) int {
	seen := map[string]bool{ref.Hex64(p.Key): true}
	for f := 0; f < used*8 && len(seen) <= 256; f++ {
		r := c.Stream.reader()
		r.flip = f
		var q *btc.PrivateKey
		withRandom(r, func() { q = btc.GeneratePrivateKey(c.Net.lib()) })
		seen[ref.Hex64(q.Key)] = true
	}
	return len(seen) - 1
}

// c06balance generates many keys: over time they must use up 250 bits each.
func c06balance(c c06) error {
	const keys, held = 4000, 1 << 16
	r := c.Stream.reader()
	seen := map[string]bool{}
	var err error
	withRandom(r, func() {
		for i := 0; i < keys && err == nil; i++ {
			p := btc.GeneratePrivateKey(c.Net.lib())
			if err = c06check(p, c.Net); err == nil && seen[ref.Hex64(p.Key)] {
				err = fmt.Errorf("key %x was generated twice", p.Key)
			}
			seen[ref.Hex64(p.Key)] = true
		}
	})
	if err == nil && len(r.consumed)*8 < (keys*250-held*8) {
		err = fmt.Errorf("%d keys were generated from %d bytes of randomness", keys, len(r.consumed))
	}
	return err
}

var c06endless int

// c06fault runs a failing source in a child process: any way of not returning a
// key (panic, fatal error) is fine there.
func c06fault(c c06, o *obs) error {
	o.nt(true)
	o.tag("fault")
	if c06endless >= 6 {
		o.tag("fault-skipped") // it retries for ever: no key, but no answer either
		return nil
	}
	b, err := json.Marshal(c)
	must(err == nil, "fault case")
	f := filepath.Join(*outDir, "fault.json")
	must(os.WriteFile(f, b, 0o644) == nil, "cannot write fault case")
	cmd := exec.Command(os.Args[0], "-mode", "fault", "-file", f, "-out", *outDir)
	out, _ := cmd.Output()
	if cmd.ProcessState == nil {
		internalf("cannot start the fault child")
	}
	o.tagIf(strings.HasPrefix(string(out), "hit"), "fault-hit")
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		c06endless++
	}
	if cmd.ProcessState.ExitCode() == exitViolation {
		return fmt.Errorf("the random source failed after %d bytes and a key was generated all the same: %s", c.Stream.Fail-1, out)
	}
	return nil
}

func modeFault() int {
	// a library that retries for ever produces no key: end it quietly
	syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: 3, Max: 3})
	b, err := os.ReadFile(*file)
	if err != nil {
		return exitInternal
	}
	var c c06
	if json.Unmarshal(b, &c) != nil {
		return exitInternal
	}
	r := c.Stream.reader()
	var p *btc.PrivateKey
	func() {
		defer func() { recover() }()
		withRandom(r, func() { p = btc.GeneratePrivateKey(c.Net.lib()) })
	}()
	if r.hit && p != nil {
		fmt.Print("hit ", showPriv(p))
		return exitViolation
	}
	// and once the source is dead no more keys than it paid for
	for n := 1; p != nil && n < 3000; n++ {
		if n*250 > len(r.consumed)*8 {
			fmt.Printf("hit: %d keys from %d bytes of randomness, last %s", n, len(r.consumed), showPriv(p))
			return exitViolation
		}
		p = nil
		func() {
			defer func() { recover() }()
			withRandom(r, func() { p = btc.GeneratePrivateKey(c.Net.lib()) })
		}()
	}
	if r.hit {
		fmt.Print("hit")
	}
	return exitOK
}
