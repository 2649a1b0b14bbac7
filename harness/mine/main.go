// Command mine searches once, offline, for keys and entropies whose derived
// values have rare shapes. Its output is committed as vrun/tables.json.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"sync"

	"aaa.verif/harness/ref"
)

type entry struct {
	Key string `json:"key"`
	Why string `json:"why"`
	z   int
}

func lead(b []byte) int {
	n := 0
	for n < len(b) && b[n] == 0 {
		n++
	}
	return n
}

func trail(b []byte) int {
	n := 0
	for n < len(b) && b[len(b)-1-n] == 0 {
		n++
	}
	return n
}

func ones(b []byte) int {
	n := 0
	for n < len(b) && b[n] == 255 {
		n++
	}
	return n
}

const perClass = 4

func main() {
	total, _ := strconv.Atoi(os.Args[1])
	var mu sync.Mutex
	best := map[string][]entry{}
	add := func(class string, z int, key string) {
		if z < 1 {
			return
		}
		if z > 3 {
			z = 3
		}
		c := fmt.Sprintf("%s:%d", class, z)
		mu.Lock()
		if len(best[c]) < perClass {
			best[c] = append(best[c], entry{key, c, z})
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	const batch = 512
	steps := make([]ref.Point, batch)
	for i := range steps {
		steps[i] = ref.BaseMult(big.NewInt(int64(i + 1)))
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			h := sha256.Sum256([]byte(fmt.Sprintf("verif mine %d", w)))
			k := new(big.Int).SetBytes(h[:])
			k.Mod(k, ref.N)
			base := ref.BaseMult(k)
			P := ref.P
			dx := make([]*big.Int, batch)
			pre := make([]*big.Int, batch+1)
			for n := 0; n < total/8; n += batch {
				// batch inversion of x_i - x_base
				pre[0] = big.NewInt(1)
				for i := range steps {
					dx[i] = new(big.Int).Sub(steps[i].X, base.X)
					dx[i].Mod(dx[i], P)
					pre[i+1] = new(big.Int).Mul(pre[i], dx[i])
					pre[i+1].Mod(pre[i+1], P)
				}
				inv := new(big.Int).ModInverse(pre[batch], P)
				var last ref.Point
				for i := batch - 1; i >= 0; i-- {
					di := new(big.Int).Mul(inv, pre[i])
					di.Mod(di, P)
					inv.Mul(inv, dx[i])
					inv.Mod(inv, P)
					l := new(big.Int).Sub(steps[i].Y, base.Y)
					l.Mul(l, di)
					l.Mod(l, P)
					x := new(big.Int).Mul(l, l)
					x.Sub(x, steps[i].X)
					x.Sub(x, base.X)
					x.Mod(x, P)
					y := new(big.Int).Sub(base.X, x)
					y.Mul(y, l)
					y.Sub(y, base.Y)
					y.Mod(y, P)
					pt := ref.Point{X: x, Y: y}
					if i == batch-1 {
						last = pt
					}
					kk := new(big.Int).Add(k, big.NewInt(int64(i+1)))
					kk.Mod(kk, ref.N)
					key := ref.Hex64(kk)
					xb, yb := ref.Bytes32(x), ref.Bytes32(y)
					add("x-lead", lead(xb), key)
					add("y-lead", lead(yb), key)
					add("x-trail", trail(xb), key)
					add("y-trail", trail(yb), key)
					add("x-ones", ones(xb), key)
					add("y-ones", ones(yb), key)
					for _, c := range []bool{true, false} {
						hh := ref.Hash160(ref.SEC1(pt, c))
						add(fmt.Sprintf("h160-lead-%v", c), lead(hh), key)
						add(fmt.Sprintf("h160-trail-%v", c), trail(hh), key)
						for _, v := range []byte{0, 0x6f} {
							s := ref.Sha256d(append([]byte{v}, hh...))
							add(fmt.Sprintf("addr-sum-lead-%v-%02x", c, v), lead(s[:4]), key)
							add(fmt.Sprintf("addr-sum-trail-%v-%02x", c, v), trail(s[:4]), key)
						}
					}
					if n < total/32 {
						for _, v := range []byte{0x80, 0xef} {
							p := append([]byte{v}, ref.Bytes32(kk)...)
							s := ref.Sha256d(p)
							add(fmt.Sprintf("wif-sum-lead-%02x", v), lead(s[:4]), key)
							add(fmt.Sprintf("wif-sum-trail-%02x", v), trail(s[:4]), key)
							s = ref.Sha256d(append(p, 1))
							add(fmt.Sprintf("wifc-sum-lead-%02x", v), lead(s[:4]), key)
							add(fmt.Sprintf("wifc-sum-trail-%02x", v), trail(s[:4]), key)
						}
					}
				}
				base = last
				k.Add(k, big.NewInt(batch))
				k.Mod(k, ref.N)
			}
		}(w)
	}
	wg.Wait()

	ents := map[string][]string{}
	for _, n := range []int{16, 20, 24, 28, 32} {
		var ewg sync.WaitGroup
		for w := 0; w < 8; w++ {
			ewg.Add(1)
			go func(w int) {
				defer ewg.Done()
				e := make([]byte, n)
				for i := uint64(0); i < 6_000_000; i++ {
					var s [17]byte
					s[0] = byte(w)
					binary.BigEndian.PutUint64(s[1:], i)
					binary.BigEndian.PutUint64(s[9:], uint64(n))
					h := sha256.Sum256(s[:])
					copy(e, h[:])
					hh := sha256.Sum256(e)
					for _, c := range []struct {
						n string
						z int
					}{{"lead", lead(hh[:])}, {"ones", ones(hh[:])}} {
						if c.z > 0 {
							if c.z > 3 {
								c.z = 3
							}
							id := fmt.Sprintf("%d-%s-%d", n, c.n, c.z)
							mu.Lock()
							if len(ents[id]) < perClass {
								ents[id] = append(ents[id], ref.Hex(e))
							}
							mu.Unlock()
						}
					}
				}
			}(w)
		}
		ewg.Wait()
	}
	out := struct {
		Keys     []entry             `json:"keys"`
		Entropie map[string][]string `json:"entropies"`
	}{Entropie: ents}
	for _, l := range best {
		out.Keys = append(out.Keys, l...)
	}
	sort.Slice(out.Keys, func(i, j int) bool {
		a, b := out.Keys[i], out.Keys[j]
		return a.Why < b.Why || a.Why == b.Why && a.Key < b.Key
	})
	for id := range ents {
		sort.Strings(ents[id])
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(os.Args[2], append(b, '\n'), 0o644)
}
