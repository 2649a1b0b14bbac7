package main

import (
	_ "embed"
	"encoding/json"
	"math/big"
	"strings"
	"sync"

	"aaa.verif/harness/ref"
	"pgregory.net/rapid"
)

// Twins are pairs of different keys, entropies and passphrases with the same
// 32-bit digest of some text of theirs (harness/mine/twins found them), for a
// library that tells them apart by a short fingerprint.

//go:embed twins.json
var twinsRaw []byte

type twinPair struct {
	Why string `json:"why"`
	A   string `json:"a"`
	B   string `json:"b"`
}

var (
	twins struct {
		Keys        []twinPair `json:"keys"`
		Entropies   []twinPair `json:"entropies"`
		Passphrases []twinPair `json:"passphrases"`
		Lures       []twinPair `json:"lures"` // a valid text and an invalid one
	}
	twinOf      = map[string]string{}    // keys, entropies and passphrases
	publicTwins []twinPair               // pairs of keys whose public keys are alike
	twinPoints  = map[string]ref.Point{} // by the uncompressed form
	twinOnce    sync.Once
	lures       = map[string][]twinPair{}
	lureOf      = map[string]string{}
	entTwins    = map[int][]twinPair{}
)

func loadTwins() {
	if err := json.Unmarshal(twinsRaw, &twins); err != nil {
		internalf("twins: %v", err)
	}
	for _, l := range [][]twinPair{twins.Keys, twins.Entropies, twins.Passphrases} {
		for _, p := range l {
			twinOf[p.A], twinOf[p.B] = p.B, p.A
		}
	}
	for _, p := range twins.Lures {
		kind, _, _ := strings.Cut(p.Why, "-")
		lures[kind] = append(lures[kind], p)
		lureOf[p.A], lureOf[p.B] = p.B, p.A
	}
	for _, p := range twins.Entropies {
		entTwins[len(p.A)/2] = append(entTwins[len(p.A)/2], p)
	}
	for _, p := range twins.Keys {
		if !strings.HasPrefix(p.Why, "key") && !strings.HasPrefix(p.Why, "wif") && !strings.HasPrefix(p.Why, "payload") {
			publicTwins = append(publicTwins, p)
		}
	}
}

func (p twinPair) either(t *rapid.T, label string) string {
	if rapid.Bool().Draw(t, label+"-ab") {
		return p.A
	}
	return p.B
}

func drawTwin(t *rapid.T, l []twinPair, label string) twinPair {
	return l[uniformInt(t, len(l), label+"-twin")]
}

// lureText draws a text of the kind that has a valid or invalid twin.
func lureText(t *rapid.T, kind, label string) (string, bool) {
	if weighted(t, label+"-lure", "no*40", "yes") == "no" {
		return "", false
	}
	return drawTwin(t, lures[kind], label).either(t, label), true
}

// twinPoint gives the point that resembles p, if one is known.
func twinPoint(p ref.Point) (ref.Point, bool) {
	twinOnce.Do(func() {
		for _, w := range publicTwins {
			a, b := ref.BaseMult(hexToInt(w.A)), ref.BaseMult(hexToInt(w.B))
			twinPoints[string(ref.SEC1(a, false))], twinPoints[string(ref.SEC1(b, false))] = b, a
		}
	})
	q, ok := twinPoints[string(ref.SEC1(p, false))]
	return q, ok
}

// twinText gives the text of the same kind for the twin of the key in s.
func twinText(s string) (string, bool) {
	if w, ok := lureOf[s]; ok {
		return w, true
	}
	if k, ok := ref.ParseHexKey(s); ok {
		w, ok := twinOf[ref.Hex64(k)]
		if ok && s == strings.ToUpper(s) {
			w = strings.ToUpper(w)
		}
		return w, ok
	}
	if pl, ok := ref.B58CheckDecode(s); ok && (len(pl) == 33 || len(pl) == 34) {
		if w, ok := twinOf[ref.Hex(pl[1:33])]; ok {
			return ref.WIF(pl[0], hexToInt(w), len(pl) == 34), true
		}
	}
	if p, ok := ref.ParseSEC1Hex(s); ok {
		if q, ok := twinPoint(p); ok {
			return ref.Hex(ref.SEC1(q, len(s) == 66)), true
		}
	}
	return "", false
}

// permuted gives the key with its bytes in another order.
func (d dice) permuted(b []byte) *big.Int {
	b = append([]byte{}, b...)
	switch d.n(5, "perm") {
	case 0: // two bytes
		i, j := d.n(32, "i"), d.n(32, "j")
		b[i], b[j] = b[j], b[i]
	case 1: // two words
		i, j := 8*d.n(4, "i"), 8*d.n(4, "j")
		for k := 0; k < 8; k++ {
			b[i+k], b[j+k] = b[j+k], b[i+k]
		}
	case 2: // halves
		b = append(b[16:], b[:16]...)
	case 3: // backwards
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
	case 4: // the same change twice, for sums and exclusive ors
		i, j, m := d.n(32, "i"), d.n(32, "j"), byte(1<<d.n(8, "bit"))
		b[i] ^= m
		b[j] ^= m
	}
	return new(big.Int).SetBytes(b)
}

// twinHistories use the two values of each pair one after the other, in every
// role they can have.
func twinHistories() (out []history) {
	add := func(p twinPair, ops ...Op) {
		out = append(out, history{Seed: "twins " + p.Why, Ops: ops})
	}
	for _, p := range twins.Keys {
		net := mainNet
		if strings.Contains(p.Why, "-ef-") || strings.Contains(p.Why, "-6f-") {
			net = testNet
		}
		a, b := hexToInt(p.A), hexToInt(p.B)
		wif := func(k *big.Int, c bool) S { return S(ref.WIF(net.privByte(), k, c)) }
		add(p,
			Op{F: "hex", Text: S(p.A), Net: net}, Op{F: "hex", Text: S(p.B), Net: net},
			Op{F: "hex", Text: S(strings.ToUpper(p.A)), Net: net}, Op{F: "hex", Text: S(strings.ToUpper(p.B)), Net: net},
			Op{F: "checkwif", Text: wif(a, false), Net: net}, Op{F: "checkwif", Text: wif(b, false), Net: net},
			Op{F: "wif", Text: wif(a, false), Net: net}, Op{F: "wif", Text: wif(b, false), Net: net},
			Op{F: "wif", Text: wif(a, true), Net: net}, Op{F: "wif", Text: wif(b, true), Net: net},
			Op{F: "add", A: 0, B: 1}, Op{F: "mul", A: 0, B: 1},
			Op{F: "pub", A: 0}, Op{F: "pub", A: 1},
			Op{F: "fmt", A: 0, Comp: true}, Op{F: "fmt", A: 1, Comp: true}, Op{F: "fmt", A: 0}, Op{F: "fmt", A: 1},
			Op{F: "addr", A: 0, Comp: true}, Op{F: "addr", A: 1, Comp: true}, Op{F: "addr", A: 0}, Op{F: "addr", A: 1},
			Op{F: "repub", A: 0, Comp: true}, Op{F: "repub", A: 1, Comp: true}, Op{F: "repub", A: 0}, Op{F: "repub", A: 1},
			Op{F: "addpub", A: 0, B: 0}, Op{F: "addpub", A: 1, B: 1}, Op{F: "addpub", A: 0, B: 1})
	}
	seed := func(phrase string, pass string) Op {
		return Op{F: "seed", Text: S(phrase), List: "english", Pass: S(pass)}
	}
	for _, p := range twins.Entropies {
		a, b := ref.Encode(unhex(p.A), ref.Words["english"]), ref.Encode(unhex(p.B), ref.Words["english"])
		add(p, seed(a, ""), seed(b, ""), seed(a, "x"), seed(b, "x"))
	}
	phrase := ref.Encode(make([]byte, 16), ref.Words["english"])
	for _, p := range twins.Passphrases {
		add(p, seed(phrase, p.A), seed(phrase, p.B))
	}
	for _, p := range twins.Lures {
		switch kind, _, _ := strings.Cut(p.Why, "-"); kind {
		case "wif":
			add(p, Op{F: "checkwif", Text: S(p.A), Net: mainNet}, Op{F: "checkwif", Text: S(p.B), Net: mainNet},
				Op{F: "wif", Text: S(p.A), Net: mainNet}, Op{F: "wif", Text: S(p.B), Net: mainNet})
		case "pub":
			add(p, Op{F: "pubhex", Text: S(p.A), Net: mainNet}, Op{F: "pubhex", Text: S(p.B), Net: mainNet})
		case "phrase":
			add(p, seed(p.A, ""), seed(p.B, ""))
		}
	}
	return out
}
