package main

import (
	_ "embed"
	"encoding/json"
	"go/scanner"
	"go/token"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"aaa.verif/harness/ref"
	"pgregory.net/rapid"
)

// The automatic dictionary, as fuzzers have it: literals that occur in the library's
// source more often than in the source for which this harness was written. A threshold or a
// special value somebody adds is worth trying, so the generators mix such values in
// as sizes, digits, remainders and pieces of text. It never judges anything, and is
// empty for the tree at hand.

//go:embed literals.json
var literalsRaw []byte

var dict struct {
	ints   []int
	strs   []string
	noStrs bool // leave the strings out
}

// literals counts the int, character and string literals of a source tree.
func literals(dir string) map[string]int {
	out := map[string]int{}
	words := map[string]bool{}
	for _, l := range ref.Languages {
		for _, w := range ref.Words[l] {
			words[w] = true
		}
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fset.AddFile(f, -1, len(src)), src, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.INT:
				if v, err := strconv.ParseInt(lit, 0, 64); err == nil {
					out["i"+strconv.FormatInt(v, 10)]++
				}
			case token.STRING, token.CHAR:
				if v, err := strconv.Unquote(lit); err == nil && v != "" && len(v) <= 200 && !words[v] {
					out["s"+v]++
				}
			}
		}
	}
	return out
}

func loadDict() {
	dir := os.Getenv("VERIF_SRC")
	if dir == "" {
		return
	}
	known := map[string]int{}
	if err := json.Unmarshal(literalsRaw, &known); err != nil {
		internalf("literals: %v", err)
	}
	now := literals(dir)
	for _, l := range sortedKeys(now) {
		if now[l] <= known[l] {
			continue
		}
		if l[0] == 'i' {
			if v, err := strconv.Atoi(l[1:]); err == nil {
				dict.ints = append(dict.ints, v)
			}
		} else if len(dict.strs) < 200 {
			dict.strs = append(dict.strs, l[1:])
		}
	}
}

func dictLoaded() bool { return len(dict.ints)+len(dict.strs) > 0 }

// useDict decides now and then to consult the dictionary.
func useDict(t *rapid.T, label string) bool {
	return dictLoaded() && uniformInt(t, 5, label+"-dict") == 0
}

// dictInt gives a number of the dictionary, or one next to it; ok is false when
// there is none from lo to hi.
func dictInt(t *rapid.T, label string, lo, hi int) (int, bool) {
	var xs []int
	for _, v := range dict.ints {
		for d := -1; d <= 1; d++ {
			if w := v + d; w >= lo && w <= hi {
				xs = append(xs, w)
			}
		}
	}
	for _, s := range dict.strs { // their lengths count too
		if len(s) >= lo && len(s) <= hi {
			xs = append(xs, len(s))
		}
	}
	if len(xs) == 0 {
		return 0, false
	}
	return xs[uniformInt(t, len(xs), label+"-di")], true
}

func dictStr(t *rapid.T, label string) (string, bool) {
	if len(dict.strs) == 0 || dict.noStrs {
		return "", false
	}
	return dict.strs[uniformInt(t, len(dict.strs), label+"-ds")], true
}

// dictBytes changes bytes so that a value of the dictionary shows in them.
func dictBytes(t *rapid.T, label string, b []byte) []byte {
	n := len(b)
	if n == 0 {
		return b
	}
	b = append([]byte{}, b...)
	v, ok := dictInt(t, label, 0, math.MaxInt/2)
	piece := new(big.Int).SetInt64(int64(v)).Bytes()
	if len(piece) == 0 {
		piece = []byte{0}
	}
	k := new(big.Int).SetBytes(b)
	bits := 8 * n
	kind := weighted(t, label+"-db", "bitlen*2", "hexlen", "place*3", "head*2", "tail*2", "mod*3", "near", "top", "popcount", "str*3", "group*2")
	if !ok {
		kind = "str"
	}
	switch kind {
	case "bitlen", "hexlen":
		l := v
		if kind == "hexlen" {
			l = 4 * v
		}
		if l > 0 && l <= bits {
			k.Rsh(k, uint(bits-l))
			k.SetBit(k, l-1, 1)
		}
	case "place", "head", "tail":
		if len(piece) > n {
			piece = piece[len(piece)-n:]
		}
		at := uniformInt(t, n-len(piece)+1, label+"-at")
		if kind == "head" {
			at = 0
		} else if kind == "tail" {
			at = n - len(piece)
		}
		copy(b[at:], piece)
		k.SetBytes(b)
	case "mod": // a remainder of interest
		if v > 1 {
			m := big.NewInt(int64(v))
			k.Sub(k, new(big.Int).Mod(k, m))
			r, _ := dictInt(t, label+"-r", 0, v-1)
			if uniformInt(t, 2, label+"-r0") == 0 {
				r = 0
			}
			k.Add(k, big.NewInt(int64(r)))
		}
	case "near":
		k.SetInt64(int64(v))
	case "top":
		k.Lsh(one, uint(bits))
		k.Sub(k, big.NewInt(int64(v)))
	case "popcount":
		if v <= bits {
			k.SetInt64(0)
			for i := 0; popcount(k) < v && i < 4000; i++ {
				k.SetBit(k, uniformInt(t, bits, label+"-pb"), 1)
			}
		}
	case "group": // an 11-bit group of a phrase
		if v < 2048 {
			at := 11 * uniformInt(t, bits/11+1, label+"-g")
			for j := 0; j < 11 && at+j < bits; j++ {
				k.SetBit(k, bits-1-at-j, uint(v>>(10-j)&1))
			}
		}
	case "str":
		s, ok := dictStr(t, label)
		if !ok {
			break
		}
		h := ref.Hex(b)
		if _, isHex := ref.Unhex(s + strings.Repeat("0", len(s)%2)); !isHex {
			s = ref.Hex([]byte(s))
		}
		if len(s) > len(h) {
			s = s[:len(h)]
		}
		at := pick(t, label+"-sat", 0, len(h)-len(s), uniformInt(t, len(h)-len(s)+1, label+"-sp"))
		k = hexToInt(strings.ToLower(h[:at] + s + h[at+len(s):]))
	}
	k.Abs(k)
	k.Mod(k, new(big.Int).Lsh(one, uint(bits)))
	return k.FillBytes(make([]byte, n))
}

// dictText changes a text so that a value of the dictionary shows in it.
func dictText(t *rapid.T, label string, s string) string {
	lit, ok := dictStr(t, label)
	kind := weighted(t, label+"-dt", "prefix*2", "suffix*2", "insert*2", "over*2", "only", "length*4", "repeat")
	if !ok {
		kind = "length"
	}
	switch kind {
	case "prefix":
		return lit + s
	case "suffix":
		return s + lit
	case "insert":
		at := uniformInt(t, len(s)+1, label+"-at")
		return s[:at] + lit + s[at:]
	case "over":
		if len(lit) > len(s) {
			return lit
		}
		at := uniformInt(t, len(s)-len(lit)+1, label+"-at")
		return s[:at] + lit + s[at+len(lit):]
	case "only":
		return lit
	case "repeat":
		return strings.Repeat(lit, 1+uniformInt(t, 30, label+"-n"))
	}
	n, ok := dictInt(t, label, 0, 20000)
	if !ok {
		return s
	}
	if s == "" {
		s = "a"
	}
	for len(s) < n {
		s += s[:min(len(s), n-len(s))]
	}
	return s[:n]
}
