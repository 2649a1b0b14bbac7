// Command twins searches once, offline, for pairs of different private keys and
// of different entropies whose texts have the same 32-bit digest, so that a
// library which identifies a key, a point, an address or a phrase by a short
// fingerprint confuses them. Its output is committed as vrun/twins.json.
package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"aaa.verif/harness/ref"
)

type pair struct {
	Why string `json:"why"`
	A   string `json:"a"`
	B   string `json:"b"`
}

func be(b []byte) uint32 { return binary.BigEndian.Uint32(b) }

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

var digests = []struct {
	name string
	f    func([]byte) uint32
}{
	{"crc32", crc32.ChecksumIEEE},
	{"crc32c", func(b []byte) uint32 { return crc32.Checksum(b, castagnoli) }},
	{"adler32", adler32.Checksum},
	{"fnv32", func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() }},
	{"fnv32a", func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() }},
	{"times31", func(b []byte) uint32 {
		h := uint32(0)
		for _, c := range b {
			h = h*31 + uint32(c)
		}
		return h
	}},
	{"djb2", func(b []byte) uint32 {
		h := uint32(5381)
		for _, c := range b {
			h = h*33 + uint32(c)
		}
		return h
	}},
	{"sha256", func(b []byte) uint32 { h := sha256.Sum256(b); return be(h[:]) }},
	{"sha256d", func(b []byte) uint32 { return be(ref.Sha256d(b)) }},
	{"sha256-end", func(b []byte) uint32 { h := sha256.Sum256(b); return be(h[28:]) }},
	{"sha1", func(b []byte) uint32 { h := sha1.Sum(b); return be(h[:]) }},
	{"md5", func(b []byte) uint32 { h := md5.Sum(b); return be(h[:]) }},
}

func rank(n, count int, seed string) (out [][]byte) {
	for i := 0; i < count; i++ {
		var b []byte
		for j := 0; len(b) < n; j++ {
			h := sha256.Sum256([]byte(fmt.Sprintf("%s %d %d", seed, i, j)))
			b = append(b, h[:]...)
		}
		out = append(out, b[:n])
	}
	return
}

func search(why string, names []string, text func(i int) []byte, f func([]byte) uint32) (out []pair) {
	seen := map[uint32]int{}
	for i := range names {
		t := text(i)
		d := f(t)
		if j, ok := seen[d]; ok && string(text(j)) != string(t) {
			out = append(out, pair{why, names[j], names[i]})
			if len(out) == 2 {
				return
			}
		}
		seen[d] = i
	}
	fmt.Fprintln(os.Stderr, "few:", why, len(out))
	return
}

func main() {
	const count = 1 << 18
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var keys, ents []pair
	job := func(to *[]pair, why string, names []string, text func(int) []byte, f func([]byte) uint32) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			p := search(why, names, text, f)
			<-sem
			mu.Lock()
			*to = append(*to, p...)
			mu.Unlock()
		}()
	}

	// private keys
	var hexes []string
	raws := rank(32, count, "twins")
	for _, b := range raws {
		hexes = append(hexes, ref.Hex(b))
	}
	wif := func(v byte, c bool) func(int) []byte {
		return func(i int) []byte { return []byte(ref.WIF(v, new(big.Int).SetBytes(raws[i]), c)) }
	}
	payload := func(v byte, c bool) func(int) []byte {
		return func(i int) []byte {
			p := append([]byte{v}, raws[i]...)
			if c {
				p = append(p, 1)
			}
			return p
		}
	}
	for _, d := range digests {
		job(&keys, "key-bytes-"+d.name, hexes, func(i int) []byte { return raws[i] }, d.f)
		job(&keys, "key-hex-"+d.name, hexes, func(i int) []byte { return []byte(hexes[i]) }, d.f)
		job(&keys, "key-HEX-"+d.name, hexes, func(i int) []byte { return []byte(strings.ToUpper(hexes[i])) }, d.f)
		job(&keys, "key-dec-"+d.name, hexes, func(i int) []byte { return []byte(new(big.Int).SetBytes(raws[i]).String()) }, d.f)
		for _, c := range []bool{false, true} {
			for _, v := range []byte{0x80, 0xef} {
				job(&keys, fmt.Sprintf("wif-%02x-%v-%s", v, c, d.name), hexes, wif(v, c), d.f)
				if d.name == "sha256d" || d.name == "sha256" {
					job(&keys, fmt.Sprintf("payload-%02x-%v-%s", v, c, d.name), hexes, payload(v, c), d.f)
				}
			}
		}
	}
	wg.Wait()

	// public keys and addresses
	start := new(big.Int).SetBytes(raws[0])
	pts := make([]ref.Point, count)
	names := make([]string, count)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			g := ref.BaseMult(big.NewInt(1))
			k := new(big.Int).Add(start, big.NewInt(int64(w*count/8)))
			p := ref.BaseMult(k)
			for i := w * count / 8; i < (w+1)*count/8; i++ {
				pts[i], names[i] = p, ref.Hex64(k)
				p = ref.Add(p, g)
				k = new(big.Int).Add(k, big.NewInt(1))
			}
		}(w)
	}
	wg.Wait()
	for _, d := range digests {
		for _, c := range []bool{false, true} {
			job(&keys, fmt.Sprintf("sec-%v-%s", c, d.name), names, func(i int) []byte { return ref.SEC1(pts[i], c) }, d.f)
			job(&keys, fmt.Sprintf("sechex-%v-%s", c, d.name), names, func(i int) []byte { return []byte(ref.Hex(ref.SEC1(pts[i], c))) }, d.f)
			job(&keys, fmt.Sprintf("addr-%v-%s", c, d.name), names, func(i int) []byte { return []byte(ref.Address(0, pts[i], c)) }, d.f)
		}
		job(&keys, "x-"+d.name, names, func(i int) []byte { return ref.Bytes32(pts[i].X) }, d.f)
		job(&keys, "y-"+d.name, names, func(i int) []byte { return ref.Bytes32(pts[i].Y) }, d.f)
	}
	for _, c := range []bool{false, true} {
		for _, v := range []byte{0, 0x6f} {
			sum := func(i int) []byte {
				return ref.Sha256d(append([]byte{v}, ref.Hash160(ref.SEC1(pts[i], c))...))
			}
			job(&keys, fmt.Sprintf("addr-sum-%02x-%v", v, c), names, sum, be)
		}
		h := func(i int) []byte { return ref.Hash160(ref.SEC1(pts[i], c)) }
		job(&keys, fmt.Sprintf("hash160-%v", c), names, h, be)
		job(&keys, fmt.Sprintf("hash160-end-%v", c), names, h, func(b []byte) uint32 { return be(b[16:]) })
	}
	for i, at := range []int{0, 28} {
		job(&keys, fmt.Sprintf("x-part-%d", i), names, func(i int) []byte { return ref.Bytes32(pts[i].X) }, func(b []byte) uint32 { return be(b[at:]) })
		job(&keys, fmt.Sprintf("y-part-%d", i), names, func(i int) []byte { return ref.Bytes32(pts[i].Y) }, func(b []byte) uint32 { return be(b[at:]) })
	}
	wg.Wait()

	// phrases
	for _, n := range []int{16, 32} {
		es := rank(n, count, fmt.Sprint("twins", n))
		var names []string
		for _, e := range es {
			names = append(names, ref.Hex(e))
		}
		for _, d := range digests {
			job(&ents, fmt.Sprintf("entropy-%d-%s", n, d.name), names, func(i int) []byte { return es[i] }, d.f)
			job(&ents, fmt.Sprintf("phrase-%d-%s", n, d.name), names, func(i int) []byte { return []byte(ref.Encode(es[i], ref.Words["english"])) }, d.f)
		}
		wg.Wait()
	}

	// passphrases
	var passes []pair
	var ps []string
	for _, b := range rank(8, count, "pass") {
		ps = append(ps, ref.Hex(b))
	}
	for _, d := range digests {
		job(&passes, "pass-"+d.name, ps, func(i int) []byte { return []byte(ps[i]) }, d.f)
		job(&passes, "salt-"+d.name, ps, func(i int) []byte { return []byte("mnemonic" + ps[i]) }, d.f)
	}
	wg.Wait()

	// valid texts and invalid ones
	var lures []pair
	lure := func(kind string, good, bad func(i int) string) {
		gs, bs := make([]string, count), make([]string, count)
		var w8 sync.WaitGroup
		for w := 0; w < 8; w++ {
			w8.Add(1)
			go func() {
				defer w8.Done()
				for i := w; i < count; i += 8 {
					gs[i], bs[i] = good(i), bad(i)
				}
			}()
		}
		w8.Wait()
		for _, d := range digests {
			wg.Add(1)
			go func() {
				defer wg.Done()
				seen := map[uint32]string{}
				for _, g := range gs {
					seen[d.f([]byte(g))] = g
				}
				n := 0
				for _, b := range bs {
					if g, ok := seen[d.f([]byte(b))]; ok && n < 2 {
						n++
						mu.Lock()
						lures = append(lures, pair{kind + "-" + d.name, g, b})
						mu.Unlock()
					}
				}
				if n == 0 {
					fmt.Fprintln(os.Stderr, "none:", kind, d.name)
				}
			}()
		}
		wg.Wait()
	}
	for _, c := range []bool{false, true} {
		lure(fmt.Sprintf("wif-%v", c), func(i int) string { return string(wif(0x80, c)(i)) }, func(i int) string {
			p := payload(0x80, c)(i)
			return ref.B58Encode(append(p, raws[i][:4]...))
		})
		lure(fmt.Sprintf("pub-%v", c), func(i int) string { return ref.Hex(ref.SEC1(pts[i], c)) }, func(i int) string {
			b := append([]byte{2 + raws[i][0]&1}, raws[i]...)
			for x := new(big.Int).SetBytes(b[1:]); c; x.Add(x, big.NewInt(1)) {
				if _, ok := ref.LiftX(x, false); !ok {
					copy(b[1:], ref.Bytes32(x))
					break
				}
			}
			if !c {
				b[0] = 4
				b = append(b, raws[(i+1)%count]...)
			}
			return ref.Hex(b)
		})
	}
	for _, n := range []int{16, 32} {
		es := rank(n, count, fmt.Sprint("lure", n))
		lure(fmt.Sprintf("phrase-%d", n), func(i int) string { return ref.Encode(es[i], ref.Words["english"]) }, func(i int) string {
			// the last word is replaced by another with a wrong checksum
			ws := strings.Split(ref.Encode(es[i], ref.Words["english"]), " ")
			for j := 0; ; j++ {
				ws[len(ws)-1] = ref.Words["english"][(int(es[i][0])+j)%2048]
				if _, ok := ref.Decode(strings.Join(ws, " "), ref.Words["english"]); !ok {
					return strings.Join(ws, " ")
				}
			}
		})
	}

	out := map[string][]pair{"lures": lures, "keys": keys, "entropies": ents, "passphrases": passes}
	for _, l := range out {
		sort.Slice(l, func(i, j int) bool { return l[i].Why+l[i].A < l[j].Why+l[j].A })
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(os.Args[1], append(b, '\n'), 0o644)
}
