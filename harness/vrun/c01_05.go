package main

import (
	"crypto/sha256"
	"fmt"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

func sha256single(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

type c01 struct {
	K    string `json:"k"`
	Case int    `json:"case"`
	Net  Net    `json:"net"`
}

var _ = register(&spec[c01]{
	ID:    "C01",
	Rule:  "the key is of a rare shape (leading or trailing zero byte, near n, sparse/dense, tabled), the letter case is not plain, or the network is user-defined",
	Quick: 200000, Thorough: 1500000,
	Gen: func(t *rapid.T) c01 {
		return c01{genScalar(t, "k"), genCase(t, "case"), genNet(t, "net")}
	},
	Sib: func(c c01, d dice) (c01, bool) {
		switch d.n(4, "what") {
		case 0, 1:
			c.Net = d.net(c.Net)
		case 2:
			c.K = d.scalar(hexToInt(c.K))
		case 3:
			c.Net = d.net(c.Net)
			c.Case++
		}
		return c, true
	},
	Run: func(c c01, o *obs) error {
		k := hexToInt(c.K)
		scalarLabels(o, k)
		o.tag("net-" + c.Net.Kind)
		o.nt(special(k) || c.Case > 1 || c.Net.Kind == "custom")
		in := recase(c.Case, c.K)
		p, err := btc.PrivateFromHex(in, c.Net.lib())
		if err != nil {
			return fmt.Errorf("PrivateFromHex(%q, %v) = error %q; it is a valid key", in, c.Net.value(), err)
		}
		if err := checkPriv(p, k, ref.WIF(c.Net.privByte(), k, false), c.Net); err != nil {
			return fmt.Errorf("PrivateFromHex(%q, %v): %v", in, c.Net.value(), err)
		}
		o.hold(func() error { return checkPriv(p, k, ref.WIF(c.Net.privByte(), k, false), c.Net) })
		return nil
	},
})

type c02 struct {
	Text S   `json:"text"`
	Net  Net `json:"net"`
}

var _ = register(&spec[c02]{
	ID:    "C02",
	Rule:  "the model refuses the text and the text is not empty",
	Quick: 200000, Thorough: 1500000,
	Gen: func(t *rapid.T) c02 { return c02{S(hexKeyText(t, "text")), genNet(t, "net")} },
	Sib: func(c c02, d dice) (c02, bool) {
		if d.n(3, "what") == 0 {
			c.Net = d.net(c.Net)
		} else {
			c.Text = S(d.text(string(c.Text)))
		}
		return c, true
	},
	Run: func(c c02, o *obs) error {
		in := string(c.Text)
		k, ok := ref.ParseHexKey(in)
		o.nt(!ok && in != "")
		o.tagIf(ok, "valid")
		o.tagIf(k != nil && !ok, "out-of-range")
		o.tagIf(k == nil && len(in) == 64, "64-bytes-not-hex")
		o.tagIf(len(in) != 64, "wrong-length")
		p, err := btc.PrivateFromHex(in, c.Net.lib())
		if ok {
			if err != nil {
				return fmt.Errorf("PrivateFromHex(%q) = error %q; it is a valid key", in, err)
			}
			return checkPriv(p, k, ref.WIF(c.Net.privByte(), k, false), c.Net)
		}
		if err == nil || p != nil {
			return fmt.Errorf("PrivateFromHex(%q) = %s, error %v; it is not a private key", in, showPriv(p), err)
		}
		return nil
	},
})

func showPriv(p *btc.PrivateKey) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("{Key:%v Hex:%q WIF:%q}", p.Key, p.Hex, p.WIF)
}

func showPub(p *btc.PublicKey) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("{X:%x Y:%x}", p.X, p.Y)
}

type c03 struct {
	K          string `json:"k"`
	Compressed bool   `json:"compressed"`
	Net        Net    `json:"net"`
}

var _ = register(&spec[c03]{
	ID:    "C03",
	Rule:  "the key is of a rare shape, the form is compressed, or the network is user-defined",
	Quick: 160000, Thorough: 1200000,
	Gen: func(t *rapid.T) c03 {
		return c03{genScalar(t, "k"), rapid.Bool().Draw(t, "compressed"), genNet(t, "net")}
	},
	Sib: func(c c03, d dice) (c03, bool) {
		switch d.n(4, "what") {
		case 0:
			c.Net = d.net(c.Net)
		case 1:
			c.K = d.scalar(hexToInt(c.K))
		case 2:
			c.Compressed = !c.Compressed
		case 3:
			c.Net = d.net(c.Net)
			c.Compressed = !c.Compressed
		}
		return c, true
	},
	Run: func(c c03, o *obs) error {
		k := hexToInt(c.K)
		scalarLabels(o, k)
		o.tagIf(c.Compressed, "compressed")
		o.tag("net-" + c.Net.Kind)
		o.nt(special(k) || c.Compressed || c.Net.Kind == "custom")
		l := c.Net.lib()
		w := ref.WIF(c.Net.privByte(), k, c.Compressed)
		p, err := btc.PrivateFromWIF(w, l)
		if err != nil {
			return fmt.Errorf("PrivateFromWIF(%q, %v) = error %q; it is the WIF of %s", w, c.Net.value(), err, c.K)
		}
		if err := checkPriv(p, k, w, c.Net); err != nil {
			return fmt.Errorf("PrivateFromWIF(%q, %v): %v", w, c.Net.value(), err)
		}
		o.hold(func() error { return checkPriv(p, k, w, c.Net) })
		// export and import again
		q, err := btc.PrivateFromHex(p.Hex, l)
		if err != nil {
			return fmt.Errorf("PrivateFromHex(%q) = error %q", p.Hex, err)
		}
		for _, x := range []*btc.PrivateKey{p, q} {
			r, err := btc.PrivateFromWIF(x.WIF, l)
			if err != nil {
				return fmt.Errorf("re-importing exported WIF %q: error %q", x.WIF, err)
			}
			if err := checkPriv(r, k, x.WIF, c.Net); err != nil {
				return fmt.Errorf("re-importing exported WIF %q: %v", x.WIF, err)
			}
		}
		return nil
	},
})

type c04 struct {
	Text S `json:"text"`
}

var _ = register(&spec[c04]{
	ID:    "C04",
	Rule:  "the text has a correct checksum, or it is Base58 of at least five bytes with a wrong one",
	Quick: 48000, Thorough: 400000,
	Gen: func(t *rapid.T) c04 {
		var s string
		switch weighted(t, "kind", "payload*4", "wif*5", "edit*4", "addr") {
		case "payload":
			s = ref.B58CheckEncode(payload(t, "p"))
		case "wif":
			s = wifText(t, "w", pick(t, "v", byte(0x80), byte(0xef), byte(0), byte(0xff)))
		case "edit":
			s = editText(t, ref.B58CheckEncode(payload(t, "p")), rapid.IntRange(1, 4).Draw(t, "edits"), b58Alphabet, "e")
		case "addr":
			s = ref.B58CheckEncode(append(make([]byte, 1+uniformInt(t, 6, "z")), uniformBytes(t, 20, "a")...))
		}
		return c04{S(s)}
	},
	Sib: func(c c04, d dice) (c04, bool) { return c04{S(d.text(string(c.Text)))}, true },
	Run: func(c c04, o *obs) error {
		in := string(c.Text)
		p, want := ref.B58CheckDecode(in)
		raw, b58 := ref.B58Decode(in)
		o.nt(want || b58 && len(raw) > 4)
		o.tagIf(want, "true")
		o.tagIf(!want && b58, "base58-false")
		o.tagIf(!b58, "not-base58")
		o.tagIf(b58 && len(raw) < 4, "short")
		if got := btc.CheckWIF(in); got != want {
			return fmt.Errorf("CheckWIF(%q) = %v, want %v", in, got, want)
		}
		if want { // each single-bit error of the checksum must be noticed
			for i := 0; i < 32; i += 1 + len(p)/100 {
				b := append([]byte{}, raw...)
				b[len(p)+i/8] ^= 1 << (i % 8)
				s := ref.B58Encode(b)
				if btc.CheckWIF(s) {
					return fmt.Errorf("CheckWIF(%q) = true although bit %d of its checksum is wrong", s, i)
				}
			}
			for i := 0; i < len(p); i += 1 + len(p)/64 { // and of the payload bytes
				b := append([]byte{}, raw...)
				b[i] ^= 1 << (i % 8)
				s := ref.B58Encode(b)
				if _, ok := ref.B58CheckDecode(s); !ok && btc.CheckWIF(s) {
					return fmt.Errorf("CheckWIF(%q) = true although byte %d of it is wrong", s, i)
				}
			}
		}
		return nil
	},
})

type c05 struct {
	Text S   `json:"text"`
	Net  Net `json:"net"`
}

var _ = register(&spec[c05]{
	ID:    "C05",
	Rule:  "the text has a correct Base58Check checksum",
	Quick: 200000, Thorough: 1500000,
	Enum: func(_ string, yield func(c05) bool) {
		for _, p := range lures["wif"] {
			if !yield(c05{S(p.A), mainNet}) || !yield(c05{S(p.B), mainNet}) {
				return
			}
		}
		// valid checksums over 0..40 bytes, on the network their first byte names
		for n := 0; n <= 40; n++ {
			for i := 0; i < 4; i++ {
				w := ref.B58CheckEncode(expand(fmt.Sprint("short", i), n))
				raw, _ := ref.B58Decode(w)
				if !yield(c05{S(w), Net{"custom", fmt.Sprintf("%02x", raw[0]), "00"}}) {
					return
				}
			}
		}
	},
	Gen: func(t *rapid.T) c05 {
		n := genNet(t, "net")
		if weighted(t, "fit", "no*15", "yes") == "yes" { // the network fits the text, whatever it is
			w := ref.B58CheckEncode(payload(t, "p"))
			raw, _ := ref.B58Decode(w)
			return c05{S(w), Net{"custom", fmt.Sprintf("%02X", raw[0]), "00"}}
		}
		return c05{S(wifText(t, "w", n.privByte())), n}
	},
	Sib: func(c c05, d dice) (c05, bool) {
		if w, ok := lureOf[string(c.Text)]; ok {
			c.Text = S(w)
			return c, true
		}
		if d.n(2, "what") == 0 {
			c.Net = d.net(c.Net)
		} else {
			c.Text = S(d.text(string(c.Text)))
		}
		return c, true
	},
	Run: func(c c05, o *obs) error {
		in := string(c.Text)
		k, comp, ok := ref.ParseWIF(c.Net.privByte(), in)
		pl, sum := ref.B58CheckDecode(in)
		o.nt(sum)
		o.tagIf(ok, "valid")
		o.tagIf(sum && !ok && len(pl) > 0 && pl[0] != c.Net.privByte(), "other-version")
		o.tagIf(sum && !ok && len(pl) != 33 && len(pl) != 34, "wrong-length")
		o.tagIf(sum && !ok && len(pl) == 34 && pl[33] != 1, "wrong-flag")
		o.tagIf(sum && !ok && len(pl) == 33 && pl[0] == c.Net.privByte(), "out-of-range")
		o.tagIf(!sum, "bad-checksum")
		_ = comp
		p, err := btc.PrivateFromWIF(in, c.Net.lib())
		if ok {
			if err != nil {
				return fmt.Errorf("PrivateFromWIF(%q, %v) = error %q; it is the WIF of %s", in, c.Net.value(), err, ref.Hex64(k))
			}
			return checkPriv(p, k, in, c.Net)
		}
		if err == nil || p != nil {
			return fmt.Errorf("PrivateFromWIF(%q, %v) = %s, error %v; it is not a WIF of that network", in, c.Net.value(), showPriv(p), err)
		}
		return nil
	},
})
