package main

import (
	"fmt"
	"math/big"
	"strings"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

type c12 struct {
	P    Pt  `json:"p"`
	Case int `json:"case"`
	Net  Net `json:"net"`
}

func shortCoord(p ref.Point) bool { return p.X.BitLen() <= 252 || p.Y.BitLen() <= 252 }

var _ = register(&spec[c12]{
	ID:    "C12",
	Rule:  "a coordinate has a leading zero digit or lies in [n, p), or the letter case of the imported text is not plain lower case",
	Quick: 15000, Thorough: 150000,
	Gen: func(t *rapid.T) c12 {
		return c12{genPoint(t, "p"), genCase(t, "case"), genNet(t, "net")}
	},
	Sib: func(c c12, d dice) (c12, bool) {
		if d.n(4, "what") == 0 {
			c.Net = d.net(c.Net)
		} else {
			c.P = d.point(c.P)
		}
		return c, true
	},
	Run: func(c c12, o *obs) error {
		pt := c.P.point()
		o.tagIf(pt.X.BitLen() <= 252, "short-x")
		o.tagIf(pt.Y.BitLen() <= 252, "short-y")
		o.tagIf(pt.X.Cmp(ref.N) >= 0, "x-above-n")
		o.nt(shortCoord(pt) || c.Case > 0 || pt.X.Cmp(ref.N) >= 0)
		text := map[bool]string{true: ref.Hex(ref.SEC1(pt, true)), false: ref.Hex(ref.SEC1(pt, false))}
		check := func(k *btc.PublicKey, what string) error {
			for _, comp := range []bool{true, false, true} {
				got, want := k.Format(comp), text[comp]
				if got != want {
					return fmt.Errorf("%s: Format(%v) = %q, want %q", what, comp, got, want)
				}
				o.hold(func() error {
					if got != want {
						return fmt.Errorf("%s: the text of Format(%v) is now %q, it was %q", what, comp, got, want)
					}
					return nil
				})
			}
			return nil
		}
		lit, _ := pubOf(pt, c.Net, "lit")
		if err := check(lit, "key from coordinates"); err != nil {
			return err
		}
		for _, comp := range []bool{true, false} {
			in := recase(c.Case, text[comp])
			k, err := btc.PublicFromHex(in, c.Net.lib())
			if err != nil {
				return fmt.Errorf("PublicFromHex(%q): error %q; it is a valid public key", in, err)
			}
			if err := checkPub(k, pt, c.Net); err != nil {
				return fmt.Errorf("PublicFromHex(%q): %v", in, err)
			}
			if err := check(k, "key imported from "+in); err != nil {
				return err
			}
			k2, err := btc.PublicFromHex(k.Format(!comp), c.Net.lib()) // convert to the other form
			if err != nil {
				return fmt.Errorf("PublicFromHex(%q): error %q", k.Format(!comp), err)
			}
			if err := checkPub(k2, pt, c.Net); err != nil {
				return fmt.Errorf("PublicFromHex(%q): %v", k.Format(!comp), err)
			}
			// the owner of a key object may put another point in it
			neg := pt.Neg()
			text[true], text[false] = ref.Hex(ref.SEC1(neg, true)), ref.Hex(ref.SEC1(neg, false))
			if comp {
				k.Y = neg.Y
			} else {
				k.Y.Set(neg.Y)
			}
			if err := check(k, "key object imported from "+in+", then given the opposite point"); err != nil {
				return err
			}
			text[true], text[false] = ref.Hex(ref.SEC1(pt, true)), ref.Hex(ref.SEC1(pt, false))
		}
		return nil
	},
})

type c13 struct {
	Text S   `json:"text"`
	Net  Net `json:"net"`
}

// pubText draws text near a public key in hex, valid or not.
func pubText(t *rapid.T, l string) string {
	cs := genCase(t, l+"-case")
	pt := genPoint(t, l).point()
	form := rapid.Bool().Draw(t, l+"-c")
	enc := ref.Hex(ref.SEC1(pt, form))
	x64, y64 := ref.Hex64(pt.X), ref.Hex64(pt.Y)
	pfx := map[bool]string{true: "03", false: "02"}[pt.Y.Bit(0) == 1]
	if useDict(t, l+"-t") {
		return dictText(t, l+"-t", recase(cs, enc))
	}
	if s, ok := lureText(t, "pub", l); ok {
		return s
	}
	switch weighted(t, l+"-pk", "valid*3", "noroot*4", "bigx*4", "bigy*3", "offy*4", "prefix*5", "mix*3", "length*4", "edit*5", "sub*3", "arb*2", "pad*3", "swapxy*2", "twist*2") {
	case "valid":
		return recase(cs, enc)
	case "noroot": // x without a point
		x := genFieldElem(t, l+"-x")
		for {
			if _, ok := ref.LiftX(x, false); !ok {
				break
			}
			x.Add(x, one)
			x.Mod(x, ref.P)
		}
		return recase(cs, pick(t, l+"-p", "02", "03")+ref.Hex64(x))
	case "bigx": // x >= p, also x' + p for a valid x' where that fits
		max := new(big.Int).Sub(new(big.Int).Lsh(one, 256), ref.P)
		d := new(big.Int).SetBytes(uniformBytes(t, 5, l+"-d"))
		d.Rsh(d, uint(uniformInt(t, 40, l+"-sh")))
		d.Mod(d, max)
		q, ok := ref.LiftX(d, rapid.Bool().Draw(t, l+"-odd"))
		x := new(big.Int).Add(ref.P, d)
		if form || !ok {
			return recase(cs, pick(t, l+"-p", "02", "03")+ref.Hex64(x))
		}
		return recase(cs, "04"+ref.Hex64(x)+ref.Hex64(q.Y))
	case "bigy": // y + p where it fits
		max := new(big.Int).Sub(new(big.Int).Lsh(one, 256), ref.P)
		d := new(big.Int).SetBytes(uniformBytes(t, 5, l+"-d"))
		d.Rsh(d, uint(uniformInt(t, 40, l+"-sh")))
		d.Mod(d, max)
		for {
			if q, ok := ref.LiftY(d, 0); ok {
				return recase(cs, "04"+ref.Hex64(q.X)+ref.Hex64(new(big.Int).Add(d, ref.P)))
			}
			d.Add(d, one)
			d.Mod(d, max)
		}
	case "offy":
		y := new(big.Int).Set(pt.Y)
		switch weighted(t, l+"-oy", "one", "bit*2", "neg", "zero", "x", "uniform") {
		case "one":
			y.Add(y, one)
		case "bit":
			i := uniformInt(t, 256, l+"-bit")
			y.SetBit(y, i, y.Bit(i)^1)
		case "neg": // the other root modulo n instead of p
			y.Sub(ref.N, y).Abs(y)
		case "zero":
			y.SetInt64(0)
		case "x":
			y.Set(pt.X)
		case "uniform":
			y.SetBytes(uniformBytes(t, 32, l+"-y"))
		}
		if y.BitLen() > 256 {
			y.SetInt64(0)
		}
		return recase(cs, "04"+x64+ref.Hex64(y))
	case "prefix":
		p := pick(t, l+"-p", "00", "01", "05", "06", "07", "08", "0a", "12", "20", "30", "40", "ff", "82", "83", "84", fmt.Sprintf("%02x", uniformBytes(t, 1, l+"-pb")[0]))
		return recase(cs, p+enc[2:])
	case "mix": // prefix of one form on the other
		if rapid.Bool().Draw(t, l+"-m") {
			return recase(cs, "04"+x64)
		}
		return recase(cs, pick(t, l+"-p", "02", "03", pfx)+x64+y64)
	case "length":
		n := pick(t, l+"-len", 0, 1, 2, 3, 4, 32, 63, 64, 65, 67, 68, 127, 128, 129, 131, 132, 134, 194, 256, -1)
		if n < 0 {
			n = uniformInt(t, 280, l+"-n")
		}
		s := pick(t, l+"-p", "02", "03", "04", "") + x64 + y64 + x64 + y64 + x64
		return recase(cs, s[:n])
	case "pad": // coordinates without or with too many zeros
		q := genPointShort(t, l+"-q")
		xs, ys := strings.TrimLeft(ref.Hex64(q.X), "0"), strings.TrimLeft(ref.Hex64(q.Y), "0")
		switch weighted(t, l+"-pd", "strip*2", "more*2", "shift*2", "ends") {
		case "strip":
			if form {
				return recase(cs, "02"+xs)
			}
			return recase(cs, "04"+xs+ys)
		case "more":
			return recase(cs, "04"+"00"+ref.Hex64(q.X)+"00"+ref.Hex64(q.Y))
		case "shift": // right total length, coordinates misaligned
			s := xs + ys
			for len(s) < 128 {
				s += "0"
			}
			return recase(cs, "04"+s)
		}
		return recase(cs, "02"+xs+strings.Repeat("0", 64-len(xs)))
	case "edit":
		return editText(t, recase(cs, enc), rapid.IntRange(1, 3).Draw(t, l+"-edits"), hexAlphabet, l)
	case "sub":
		r := pick(t, l+"-rune", oddRunes...)
		s := recase(cs, enc)
		pos := pick(t, l+"-where", 0, 1, 2, 3, 65, 66, -1)
		if pos < 0 || pos >= len(s) {
			pos = uniformInt(t, len(s), l+"-pos")
		}
		if pos+len(r) > len(s) {
			pos = len(s) - len(r)
		}
		return s[:pos] + r + s[pos+len(r):]
	case "swapxy":
		return recase(cs, "04"+y64+x64)
	case "twist": // on y^2 = x^3 + b for another b
		b := int64(pick(t, l+"-b", 0, 1, 2, 3, 5, 6, 8, 14, -7))
		x := genFieldElem(t, l+"-x")
		for {
			v := new(big.Int).Exp(x, big.NewInt(3), ref.P)
			v.Add(v, big.NewInt(b))
			v.Mod(v, ref.P)
			if y := new(big.Int).ModSqrt(v, ref.P); y != nil {
				return recase(cs, "04"+ref.Hex64(x)+ref.Hex64(y))
			}
			x.Add(x, one)
			x.Mod(x, ref.P)
		}
	}
	return arbitraryText(t, l)
}

// genPointShort draws a point with a short coordinate.
func genPointShort(t *rapid.T, label string) ref.Point {
	v := new(big.Int).SetBytes(uniformBytes(t, 32, label))
	v.Rsh(v, uint(4+uniformInt(t, 250, label+"-sh")))
	for {
		if uniformInt(t, 2, label+"-xy") == 0 {
			if p, ok := ref.LiftX(v, rapid.Bool().Draw(t, label+"-odd")); ok {
				return p
			}
		} else if p, ok := ref.LiftY(v, 0); ok {
			return p
		}
		v.Add(v, one)
	}
}

var _ = register(&spec[c13]{
	ID:    "C13",
	Rule:  "the text is refused although it is 66 or 130 characters long, or it is accepted",
	Quick: 27000, Thorough: 300000,
	Gen: func(t *rapid.T) c13 { return c13{S(pubText(t, "t")), genNet(t, "net")} },
	Sib: func(c c13, d dice) (c13, bool) {
		s := string(c.Text)
		switch d.n(4, "what") {
		case 0:
			c.Net = d.net(c.Net)
		case 1:
			c.Text = S(d.text(s))
		default: // another prefix
			if w, ok := twinText(s); ok {
				c.Text = S(w)
				return c, true
			}
			if len(s) < 2 {
				return c, false
			}
			c.Text = S([]string{"02", "03", "04", "06", "07"}[d.n(5, "prefix")] + s[2:])
		}
		return c, true
	},
	Run: func(c c13, o *obs) error {
		in := string(c.Text)
		want, ok := ref.ParseSEC1Hex(in)
		plausible := len(in) == 66 || len(in) == 130
		o.nt(ok || plausible)
		o.tagIf(ok, "valid")
		_, isHex := ref.Unhex(in)
		o.tagIf(!ok && plausible && isHex, "refused-plausible")
		o.tagIf(!ok && !isHex, "not-hex")
		k, err := btc.PublicFromHex(in, c.Net.lib())
		if ok {
			if err != nil {
				return fmt.Errorf("PublicFromHex(%q): error %q; it is a valid public key", in, err)
			}
			if err := checkPub(k, want, c.Net); err != nil {
				return fmt.Errorf("PublicFromHex(%q): %v", in, err)
			}
			return nil
		}
		if err == nil || k != nil {
			return fmt.Errorf("PublicFromHex(%q) = %s, error %v; it is not a public key", in, showPub(k), err)
		}
		return nil
	},
})

type c14 struct {
	P   Pt     `json:"p"`
	How string `json:"how"`
	Net Net    `json:"net"`
}

var _ = register(&spec[c14]{
	ID:    "C14",
	Rule:  "the network is user-defined, a coordinate has a leading zero digit, or the hash or checksum has a leading zero byte",
	Quick: 12000, Thorough: 120000,
	Enum: func(_ string, yield func(c14) bool) {
		for _, e := range tables.Keys {
			for _, n := range []Net{mainNet, testNet} {
				if !yield(c14{toPt(ref.BaseMult(hexToInt(e.Key))), "lit", n}) {
					return
				}
			}
		}
		for i := 0; i < 256; i++ { // every address version byte
			h := fmt.Sprintf("%02x", i)
			if !yield(c14{toPt(ref.BaseMult(big.NewInt(int64(i + 1)))), "lit", Net{"custom", "80", h}}) {
				return
			}
		}
	},
	Gen: func(t *rapid.T) c14 {
		return c14{genPoint(t, "p"), weighted(t, "how", "lit*3", "unc*3", "cmp*3", "refit", "reset"), genNet(t, "net")}
	},
	Sib: func(c c14, d dice) (c14, bool) {
		switch d.n(3, "what") {
		case 0:
			c.Net = d.net(c.Net)
		case 1:
			c.P = d.point(c.P)
		case 2:
			c.P = toPt(c.P.point().Neg())
			c.How = "lit"
		}
		return c, true
	},
	Run: func(c c14, o *obs) error {
		pt := c.P.point()
		k, err := pubOf(pt, c.Net, c.How)
		if err != nil {
			return err
		}
		o.tag("net-" + c.Net.Kind)
		o.nt(c.Net.Kind == "custom" || shortCoord(pt))
		for _, comp := range []bool{true, false, true} {
			h := ref.Hash160(ref.SEC1(pt, comp))
			sum := ref.Sha256d(append([]byte{c.Net.pubByte()}, h...))
			o.nt(h[0] == 0 || sum[0] == 0)
			o.tagIf(h[0] == 0, "hash-lead-zero")
			o.tagIf(sum[0] == 0, "sum-lead-zero")
			a, err := k.Address(comp)
			if err != nil {
				return fmt.Errorf("Address(%v) of %s on %v: error %q", comp, c.P, c.Net.value(), err)
			}
			want := ref.Address(c.Net.pubByte(), pt, comp)
			if a != want {
				return fmt.Errorf("Address(%v) of %s on %v = %q, want %q", comp, c.P, c.Net.value(), a, want)
			}
			o.hold(func() error {
				if a != want {
					return fmt.Errorf("the text of Address(%v) is now %q, it was %q", comp, a, want)
				}
				return nil
			})
		}
		return nil
	},
})
