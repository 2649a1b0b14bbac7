package main

import (
	"math/big"
	"strings"

	"aaa.verif/harness/ref"
	"pgregory.net/rapid"
)

// Text generators shared by the parser properties.

var oddRunes = []string{
	"", " ", "\t", "\n", "\x00", "\x7f", "\xff", "+", "-", "_", ".", "x", "X", "g", "G", "z", "0x", "0X", "0b", "%", "é", "０", "１", "Ａ", "٣", "\u200b", "\u00a0", "\u3000", "\ufeff", "𝟎", "ſ", "K", "o", "O", "l", "I", "0", "1",
}

// editText makes n drawn edits of a text.
func editText(t *rapid.T, s string, n int, alphabet string, label string) string {
	for i := 0; i < n; i++ {
		pos := 0
		if len(s) > 0 {
			pos = uniformInt(t, len(s), label+"-pos")
		}
		sub := func() string {
			if weighted(t, label+"-odd", "odd*2", "alpha*3") == "odd" {
				return pick(t, label+"-rune", oddRunes...)
			}
			return string(alphabet[uniformInt(t, len(alphabet), label+"-ch")])
		}
		op := weighted(t, label+"-op", "replace*5", "insert*2", "delete*2", "swap*2", "case*2", "dup", "head", "tail", "trunc", "wrap", "rev")
		if len(s) == 0 {
			op = "insert"
		}
		switch op {
		case "replace":
			s = s[:pos] + sub() + s[pos+1:]
		case "insert":
			s = s[:pos] + sub() + s[pos:]
		case "delete":
			s = s[:pos] + s[pos+1:]
		case "swap":
			if pos+1 < len(s) {
				s = s[:pos] + string(s[pos+1]) + string(s[pos]) + s[pos+2:]
			}
		case "case":
			if c := s[pos] | 32; c >= 'a' && c <= 'z' {
				s = s[:pos] + string(s[pos]^32) + s[pos+1:]
			}
		case "dup":
			s = s[:pos] + s[pos:pos+1] + s[pos:]
		case "head":
			s = pick(t, label+"-head", "0", "1", "00", " ", "0x", "\n", "+", "-") + s
		case "tail":
			s += pick(t, label+"-tail", "0", "1", "00", " ", "\n", "\x00", "01")
		case "trunc":
			s = s[:pos]
		case "wrap":
			q := pick(t, label+"-q", "\"", "'", " ", "\t")
			s = q + s + q
		case "rev":
			b := []byte(s)
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			s = string(b)
		}
	}
	return s
}

const (
	hexAlphabet = "0123456789abcdefABCDEF"
	b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
)

func fromAlphabet(t *rapid.T, alphabet string, n int, label string) string {
	b := uniformBytes(t, n, label)
	for i := range b {
		b[i] = alphabet[int(b[i])%len(alphabet)]
	}
	return string(b)
}

// arbitraryText draws any string, usually short.
func arbitraryText(t *rapid.T, label string) string {
	if useDict(t, label) {
		return dictText(t, label, rapid.String().Draw(t, label))
	}
	switch weighted(t, label+"-arb", "string*2", "bytes*2", "ascii*2", "long") {
	case "string":
		return rapid.String().Draw(t, label)
	case "bytes":
		return string(rapid.SliceOfN(rapid.Byte(), 0, 140).Draw(t, label))
	case "ascii":
		n := uniformInt(t, 140, label+"-n")
		b := uniformBytes(t, n, label)
		for i := range b {
			b[i] = ' ' + b[i]%95
		}
		return string(b)
	}
	unit := pick(t, label+"-unit", "0", "1", "f", "z", "a ", "\x00", "é", "04", "abandon ")
	return strings.Repeat(unit, uniformInt(t, 600, label+"-rep"))
}

// hexKeyText draws text near a private key in hex, valid or not.
func hexKeyText(t *rapid.T, l string) string {
	cs := genCase(t, l+"-case")
	if useDict(t, l+"-t") {
		return dictText(t, l+"-t", recase(cs, genScalar(t, l)))
	}
	switch weighted(t, l+"-hk", "valid*2", "range*6", "length*5", "edit*6", "sub*5", "arb*2", "other*2") {
	case "valid":
		return recase(cs, genScalar(t, l))
	case "range":
		max := new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
		var v *big.Int
		switch weighted(t, l+"-rg", "zero", "n", "n+small*2", "n+bits*3", "max-small", "uniform") {
		case "zero":
			v = new(big.Int)
		case "n":
			v = new(big.Int).Set(ref.N)
		case "n+small":
			v = new(big.Int).Add(ref.N, big.NewInt(int64(rapid.IntRange(0, 1000).Draw(t, l))))
		case "n+bits":
			d := new(big.Int).SetBytes(uniformBytes(t, 16, l))
			d.Rsh(d, uint(uniformInt(t, 128, l+"-sh")))
			v = new(big.Int).Add(ref.N, d)
		case "max-small":
			v = new(big.Int).Sub(max, big.NewInt(int64(rapid.IntRange(0, 1000).Draw(t, l))))
		default:
			gap := new(big.Int).Sub(max, ref.N)
			v = new(big.Int).SetBytes(uniformBytes(t, 32, l))
			v.Mod(v, gap)
			v.Add(v, ref.N)
		}
		if v.Cmp(max) > 0 {
			v = max
		}
		return recase(cs, ref.Hex64(v))
	case "length":
		n := pick(t, l+"-len", 0, 1, 2, 31, 32, 33, 60, 62, 63, 65, 66, 67, 68, 96, 126, 128, 130, 192, -1)
		if n < 0 {
			n = uniformInt(t, 260, l+"-n")
		}
		s := fromAlphabet(t, "0123456789abcdef", n, l)
		if n > 64 && rapid.Bool().Draw(t, l+"-pad") {
			s = strings.Repeat("0", n-64) + genScalar(t, l+"-s") // a padded valid key
		}
		if n < 64 && rapid.Bool().Draw(t, l+"-strip") {
			k := genScalar(t, l+"-s")
			s = strings.TrimLeft(k, "0") // a valid key without its leading zeros
		}
		return recase(cs, s)
	case "edit":
		return editText(t, recase(cs, genScalar(t, l)), rapid.IntRange(1, 3).Draw(t, l+"-edits"), hexAlphabet, l)
	case "sub": // exactly 64 bytes (or 64 runes) with one foreign piece
		s := recase(cs, genScalar(t, l))
		r := pick(t, l+"-rune", oddRunes...)
		pos := pick(t, l+"-where", 0, 1, 2, 63, -1)
		if pos < 0 {
			pos = uniformInt(t, 64, l+"-pos")
		}
		if rapid.Bool().Draw(t, l+"-runes") {
			return s[:pos] + r + s[min(64, pos+1):] // 64 runes
		}
		if pos+len(r) > 64 {
			pos = 64 - len(r)
		}
		return s[:pos] + r + s[pos+len(r):] // 64 bytes
	case "other":
		k := hexToInt(genScalar(t, l))
		switch weighted(t, l+"-oth", "wif", "pub", "0x", "dec", "concat") {
		case "wif":
			return ref.WIF(0x80, k, rapid.Bool().Draw(t, l+"-c"))
		case "pub":
			return ref.Hex(ref.SEC1(ref.BaseMult(k), true))
		case "0x":
			return "0x" + ref.Hex64(k)
		case "dec":
			return k.String()
		}
		return ref.Hex64(k) + ref.Hex64(k)
	}
	return arbitraryText(t, l)
}

// wifText draws text near a WIF of the network, valid or not.
func wifText(t *rapid.T, l string, version byte) string {
	k := hexToInt(genScalar(t, l))
	comp := rapid.Bool().Draw(t, l+"-c")
	base := func() []byte {
		p := append([]byte{version}, ref.Bytes32(k)...)
		if comp {
			p = append(p, 1)
		}
		return p
	}
	if s, ok := lureText(t, "wif", l); ok && version == 0x80 {
		return s
	}
	if useDict(t, l+"-t") {
		if rapid.Bool().Draw(t, l+"-sum") {
			return ref.B58CheckEncode([]byte(dictText(t, l+"-t", string(base()))))
		}
		return dictText(t, l+"-t", ref.B58CheckEncode(base()))
	}
	switch weighted(t, l+"-wk", "valid*3", "version*4", "length*4", "flag*4", "range*5", "edit*5", "sum*3", "arb*2", "other*2", "payload*3") {
	case "valid":
		return ref.B58CheckEncode(base())
	case "version":
		p := base()
		if rapid.Bool().Draw(t, l+"-vb") {
			p[0] ^= 1 << uint(uniformInt(t, 8, l+"-bit"))
		} else {
			p[0] = pick(t, l+"-v", byte(0x80), byte(0xef), byte(0), byte(0x6f), byte(0xb0), byte(0xff), uniformBytes(t, 1, l+"-vv")[0])
		}
		return ref.B58CheckEncode(p)
	case "length":
		n := uniformInt(t, 45, l+"-n")
		p := append([]byte{version}, uniformBytes(t, n, l+"-p")...)
		switch weighted(t, l+"-lk", "rand*2", "strip*2", "pad*2", "one*2") {
		case "strip": // key without leading bytes
			p = append([]byte{version}, ref.Bytes32(k)[1+uniformInt(t, 31, l+"-s"):]...)
		case "pad": // key with leading zeros
			p = append([]byte{version}, append(make([]byte, 1+uniformInt(t, 3, l+"-z")), ref.Bytes32(k)...)...)
		case "one":
			p = append(p, 1)
		}
		return ref.B58CheckEncode(p)
	case "flag":
		p := append([]byte{version}, ref.Bytes32(k)...)
		f := pick(t, l+"-f", []byte{0}, []byte{2}, []byte{3}, []byte{0xff}, []byte{0x81}, []byte{0x10}, []byte{0x11}, []byte{1, 1}, []byte{0, 1}, []byte{1, 0}, []byte{0, 0}, uniformBytes(t, 1, l+"-fb"), uniformBytes(t, 2, l+"-fb2"))
		return ref.B58CheckEncode(append(p, f...))
	case "range":
		s := pick(t, l+"-r", "0", "n", "n+", "max", "n-1", "1")
		v := new(big.Int)
		switch s {
		case "n":
			v.Set(ref.N)
		case "n+":
			d := new(big.Int).SetBytes(uniformBytes(t, 16, l+"-d"))
			d.Rsh(d, uint(uniformInt(t, 128, l+"-sh")))
			v.Add(ref.N, d)
		case "max":
			v.Sub(new(big.Int).Lsh(one, 256), big.NewInt(int64(1+rapid.IntRange(0, 500).Draw(t, l+"-d"))))
		case "n-1":
			v.Sub(ref.N, one)
		case "1":
			v.Set(one)
		}
		k = v
		return ref.B58CheckEncode(base())
	case "edit":
		return editText(t, ref.B58CheckEncode(base()), rapid.IntRange(1, 4).Draw(t, l+"-edits"), b58Alphabet, l)
	case "sum":
		p := base()
		sum := append([]byte{}, ref.Sha256d(p)[:4]...)
		switch weighted(t, l+"-sk", "flip*3", "rev", "single", "zero", "short", "long") {
		case "flip":
			sum[uniformInt(t, 4, l+"-i")] ^= 1 << uint(uniformInt(t, 8, l+"-b"))
		case "rev":
			sum[0], sum[1], sum[2], sum[3] = sum[3], sum[2], sum[1], sum[0]
		case "single":
			sum = sha256single(p)[:4]
		case "zero":
			sum = make([]byte, 4)
		case "short":
			sum = sum[:uniformInt(t, 4, l+"-n")]
		case "long":
			sum = ref.Sha256d(p)[:5+uniformInt(t, 20, l+"-n")]
		}
		return ref.B58Encode(append(p, sum...))
	case "payload": // valid checksum over anything
		return ref.B58CheckEncode(payload(t, l+"-pl"))
	case "other":
		switch weighted(t, l+"-oth", "addr", "hex", "b58", "ones", "double") {
		case "addr":
			return ref.Address(pick(t, l+"-av", byte(0), byte(0x6f), version), ref.BaseMult(k), comp)
		case "hex":
			return ref.Hex64(k)
		case "b58":
			return fromAlphabet(t, b58Alphabet, uniformInt(t, 70, l+"-n"), l+"-b58")
		case "ones":
			return strings.Repeat("1", uniformInt(t, 60, l+"-n"))
		}
		w := ref.B58CheckEncode(base())
		return w + w
	}
	return arbitraryText(t, l)
}

// payload draws bytes of length 0..60 with leading zeros now and then.
func payload(t *rapid.T, l string) []byte {
	n := uniformInt(t, 61, l+"-n")
	if weighted(t, l+"-short", "no*4", "yes") == "yes" {
		n = uniformInt(t, 5, l+"-n")
	}
	if weighted(t, l+"-long", "no*30", "yes") == "yes" {
		n = 61 + uniformInt(t, 240, l+"-ln")
	}
	if useDict(t, l) {
		if m, ok := dictInt(t, l+"-len", 0, 600); ok && rapid.Bool().Draw(t, l+"-byLen") {
			n = m
		}
		return dictBytes(t, l, uniformBytes(t, n, l))
	}
	p := uniformBytes(t, n, l)
	z := uniformInt(t, 4, l+"-z")
	for i := 0; i < z && i < n; i++ {
		p[i] = 0
	}
	return p
}
