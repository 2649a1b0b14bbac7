// Command lookalike searches once, offline, for pairs of different private keys
// whose WIF texts differ only in letter case. Its output goes into
// vrun/tables.json under "lookalikes".
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
	"sync"

	"aaa.verif/harness/ref"
)

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

type pair struct {
	Version    string `json:"version"`
	Compressed bool   `json:"compressed"`
	A          string `json:"a"`
	B          string `json:"b"`
}

func other(c byte) byte {
	o := c ^ 32
	if (c|32) < 'a' || (c|32) > 'z' || strings.IndexByte(alphabet, o) < 0 {
		return 0
	}
	return o
}

// words: little-endian 40-byte (5 x 64 bit) numbers.
type num [5]uint64

func toNum(n *big.Int) (w num) {
	var b [40]byte
	n.FillBytes(b[:])
	for i := range w {
		w[i] = binary.BigEndian.Uint64(b[32-8*i:])
	}
	return
}

func main() {
	want, _ := strconv.Atoi(os.Args[1])
	var out []pair
	for _, version := range []byte{0x80, 0xef} {
		for found := 0; found < want; {
			found += search(version, found, want, &out)
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func search(version byte, _, want int, out *[]pair) int {
	var mu sync.Mutex
	var wg sync.WaitGroup
	got := 0
	stop := make(chan struct{})
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for attempt := 0; ; attempt++ {
				select {
				case <-stop:
					return
				default:
				}
				h := sha256.Sum256([]byte(fmt.Sprintf("lookalike %x %d %d", version, w, attempt)))
				k := new(big.Int).SetBytes(h[:])
				text := ref.WIF(version, k, false)
				// letters with two cases, from the right; keep the first 4 characters
				var deltas []num
				var neg []num
				base, _ := ref.B58Decode(text)
				cur := toNum(new(big.Int).SetBytes(base))
				p58 := big.NewInt(1)
				for i := len(text) - 1; i >= 4 && len(deltas) < 28; i-- {
					if o := other(text[i]); o != 0 {
						d := int64(strings.IndexByte(alphabet, o) - strings.IndexByte(alphabet, text[i]))
						v := new(big.Int).Mul(p58, big.NewInt(d))
						m := new(big.Int).Lsh(big.NewInt(1), 320)
						nv := new(big.Int).Neg(v)
						deltas = append(deltas, toNum(v.Mod(v, m)))
						neg = append(neg, toNum(nv.Mod(nv, m)))
					}
					p58 = new(big.Int).Mul(p58, big.NewInt(58))
				}
				state := make([]bool, len(deltas))
				for g := uint64(1); g < 1<<len(deltas); g++ {
					i := 0
					for g>>i&1 == 0 {
						i++
					}
					d := &deltas[i]
					if state[i] {
						d = &neg[i]
					}
					state[i] = !state[i]
					var c uint64
					for j := range cur {
						s := cur[j] + d[j]
						c1 := uint64(0)
						if s < d[j] {
							c1 = 1
						}
						s += c
						if s < c {
							c1 = 1
						}
						cur[j], c = s, c1
					}
					var b [40]byte
					for j := range cur {
						binary.BigEndian.PutUint64(b[32-8*j:], cur[j])
					}
					h1 := sha256.Sum256(b[3:36])
					h2 := sha256.Sum256(h1[:])
					if h2[0] == b[36] && h2[1] == b[37] && h2[2] == b[38] && h2[3] == b[39] && b[3] == version && b[0]|b[1]|b[2] == 0 {
						k2 := new(big.Int).SetBytes(b[4:36])
						t2 := ref.WIF(version, k2, false)
						if k2.Cmp(k) != 0 && strings.EqualFold(t2, text) && ref.ValidScalar(k2) {
							mu.Lock()
							if got < want {
								*out = append(*out, pair{fmt.Sprintf("%02x", version), false, ref.Hex64(k), ref.Hex64(k2)})
								fmt.Fprintln(os.Stderr, text, t2)
								got++
								if got == want {
									close(stop)
								}
							}
							mu.Unlock()
						}
					}
					if g&0xfffff == 0 {
						select {
						case <-stop:
							return
						default:
						}
					}
				}
			}
		}(w)
	}
	wg.Wait()
	return got
}
