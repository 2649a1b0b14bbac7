package main

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

// c25 is one call that handles a secret and may fail.
type c25 struct {
	Op     string `json:"op"` // hex, wif, add, mul, seed, phrase
	Text   S      `json:"text,omitempty"`
	Pass   S      `json:"pass,omitempty"`
	A      Key    `json:"a"`
	B      Key    `json:"b"`
	Net    Net    `json:"net"`
	NetB   Net    `json:"netB"`
	List   List   `json:"list,omitempty"`
	Words  int    `json:"words,omitempty"`
	Stream Stream `json:"stream"`
}

const leakLen = 12

// quotes reports whether a message has leakLen successive characters of the secret,
// in the shapes a program would print it in. With words set, a run within one word
// of a phrase does not count: it may be the word that no list has.
func quotes(msg, secret string, words bool) (string, bool) {
	sep := ""
	if words {
		sep = " "
	}
	plain := bare(msg, sep)
	msg = strings.ToLower(msg)
	shapes := []string{secret, bare(secret, sep), ref.Hex([]byte(secret)), base64.StdEncoding.EncodeToString([]byte(secret)), fmt.Sprint([]byte(secret))}
	for i, s := range shapes {
		s = strings.ToLower(s)
		in := msg
		if i == 1 {
			in = plain
		}
		for j := 0; j+leakLen <= len(s); j++ {
			w := s[j : j+leakLen]
			if i < 2 && words {
				sp := strings.IndexByte(w, ' ')
				if sp < 2 || sp > leakLen-3 {
					continue
				}
			}
			if strings.Contains(in, w) {
				return w, true
			}
		}
	}
	return "", false
}

// bare is a text in lower case with everything but letters and digits replaced.
func bare(s, sep string) string {
	return strings.Join(strings.FieldsFunc(strings.ToLower(s), func(r rune) bool {
		return !unicode.IsLetter(r) && !unicode.IsDigit(r) && !unicode.IsMark(r)
	}), sep)
}

// uniformText reports a text of one repeated character, of which a message may have
// some by chance.
func uniformText(s string) bool { return len(s) > 0 && strings.Count(s, s[:1]) == len(s) }

var _ = register(&spec[c25]{
	ID:    "C25",
	Rule:  "the call fails and its secret is at least 12 characters long",
	Quick: 36000, Thorough: 300000,
	Gen: func(t *rapid.T) c25 {
		// a secret made of the library's own words would be in its messages by chance
		defer func(old bool) { dict.noStrs = old }(dict.noStrs)
		dict.noStrs = true
		c := c25{Net: genNet(t, "net")}
		switch weighted(t, "op", "hex*4", "wif*6", "add*3", "mul*3", "seed*6", "phrase*2") {
		case "hex":
			c.Op, c.Text = "hex", S(hexKeyText(t, "text"))
		case "wif":
			c.Op, c.Text = "wif", S(wifText(t, "w", c.Net.privByte()))
		case "add", "mul":
			c.Op = pick(t, "which", "add", "mul")
			c.A, c.B = genKey(t, "a"), genKey(t, "b")
			c.Net, c.NetB = genNetPair(t, "net2")
			switch weighted(t, "rel", "free", "same*3", "opposite*2") {
			case "same":
				c.B.K = c.A.K
			case "opposite":
				c.B.K = ref.Hex64(hexToInt(ref.Hex64(ref.N)).Sub(ref.N, c.A.num()))
			}
		case "seed":
			c.Op = "seed"
			c.Text, c.List = phraseText(t, "p")
			c.Pass = genPass(t, "pass")
		case "phrase":
			c.Op, c.Words, c.List = "phrase", wordCounts[uniformInt(t, 5, "w")], genList(t, "list")
			c.Stream = Stream{Seed: genSeedText(t, "seed"), Fail: 1 + uniformInt(t, 34, "fail"), Chunk: pick(t, "chunk", 0, 1, 7, 16), Err: uniformInt(t, len(streamErrs), "err")}
			if weighted(t, "count", "no*4", "yes") == "yes" {
				c.Words++
			}
		}
		return c
	},
	Run: func(c c25, o *obs) error {
		type secret struct {
			what, text string
			words      bool
		}
		var err error
		var secrets []secret
		add := func(what, s string) {
			if !uniformText(s) {
				secrets = append(secrets, secret{what, s, false})
			}
		}
		key := func(what string, k Key, n Net) {
			add(what, k.K)
			add(what, k.num().String())
			add(what, strings.TrimLeft(k.K, "0"))
			add(what, ref.WIF(n.privByte(), k.num(), false))
			add(what, ref.WIF(n.privByte(), k.num(), true))
		}
		switch c.Op {
		case "hex":
			in := string(c.Text)
			add("the text", in)
			if k, ok := ref.ParseHexKey(in); k != nil && !ok {
				add("the number", k.String())
			}
			_, err = btc.PrivateFromHex(in, c.Net.lib())
		case "wif":
			in := string(c.Text)
			add("the text", in)
			if raw, ok := ref.B58Decode(in); ok {
				add("the bytes", ref.Hex(raw))
				for _, cut := range []int{0, 4, 5} { // with and without checksum and compression byte
					for from := 0; from < 2 && from < len(raw)-cut; from++ {
						add("the number", new(big.Int).SetBytes(raw[from:len(raw)-cut]).String())
						add("the bytes", ref.B58Encode(raw[from:len(raw)-cut]))
						add("the bytes", string(raw[from:len(raw)-cut]))
					}
				}
			}
			_, err = btc.PrivateFromWIF(in, c.Net.lib())
		case "add", "mul":
			a, err2 := c.A.build(c.Net)
			if err2 != nil {
				return nil // other properties judge this
			}
			b, err2 := c.B.build(c.NetB)
			if err2 != nil {
				return nil
			}
			key("the first key", c.A, c.Net)
			key("the second key", c.B, c.NetB)
			_, err = libCombine(c.Op, a, b)
		case "seed":
			in := string(c.Text)
			if !uniformText(in) {
				secrets = append(secrets, secret{"the phrase", in, true})
			}
			add("the passphrase", string(c.Pass))
			bits := ""
			for _, w := range strings.Split(in, " ") {
				if i, ok := c.List.get().pos[w]; ok {
					bits += fmt.Sprintf("%011b", i)
				}
			}
			if n := len(bits) / 33 * 32; n > 0 { // the entropy
				add("the entropy", bits)
				v, _ := new(big.Int).SetString(bits[:n], 2)
				add("the entropy", v.String())
				add("the entropy", v.Text(16))
			}
			_, err = btc.NewSeedFromMnemonic(in, string(c.Pass), c.List.get().lib)
		case "phrase":
			r := c.Stream.reader()
			withRandom(r, func() { _, err = btc.NewMnemonic(c.Words, c.List.get().lib) })
			add("the random bytes", string(r.consumed))
			if v := hexToInt(ref.Hex(r.consumed)); v.BitLen() > 0 {
				add("the random bytes", v.String())
				add("the random bytes", v.Text(2))
			}
		default:
			internalf("unknown operation %q", c.Op)
		}
		o.tag(c.Op)
		if err == nil {
			return nil
		}
		o.tag(c.Op + "-failed")
		msg := fmt.Sprintf("%v\n%+v\n%#v", err, err, err)
		for _, s := range secrets {
			o.nt(len(s.text) >= leakLen)
			if w, ok := quotes(msg, s.text, s.words); ok {
				return fmt.Errorf("the error of a failed call quotes %s (%q): %q", s.what, w, msg)
			}
		}
		return nil
	},
})
