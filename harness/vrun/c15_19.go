package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"unicode"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

var libLists = map[string]*btc.Wordlist{
	"english": &btc.EnglishWordlist, "french": &btc.FrenchWordlist, "japanese": &btc.JapaneseWordlist,
	"italian": &btc.ItalianWordlist, "spanish": &btc.SpanishWordlist, "korean": &btc.KoreanWordlist,
	"czech": &btc.CzechWordlist, "chinese_traditional": &btc.ChineseTraditionalWordlist, "chinese_simplified": &btc.ChineseSimplifiedWordlist,
}

// List names a word list: a built-in one, or "synth:<seed>", "rev:<lang>",
// "len:<n>" (synthetic words), "cut:<n>:<lang>", "dup:<n>:<lang>" or "nil".
type List string

var listCache = map[List]*wordList{}

type wordList struct {
	lib btc.Wordlist
	ref []string
	pos map[string]int
}

func synthWord(seed string, i int) string {
	// distinct and non-empty by construction
	h := sha256single([]byte(seed + fmt.Sprint(i)))
	return fmt.Sprintf("%s%x%x", seed, i, h[:1+int(h[0])%3])
}

func (l List) get() *wordList {
	if w := listCache[l]; w != nil {
		return w
	}
	w := &wordList{}
	kind, rest, _ := strings.Cut(string(l), ":")
	switch kind {
	case "nil":
	case "synth":
		for i := 0; i < 2048; i++ {
			w.ref = append(w.ref, synthWord(rest, i))
		}
	case "rev":
		r := ref.Words[rest]
		for i := range r {
			w.ref = append(w.ref, r[len(r)-1-i])
		}
	case "num": // numbers, not in order
		for i := 0; i < 2048; i++ {
			w.ref = append(w.ref, fmt.Sprint((i*1237+5)%2048))
		}
	case "case": // pairs that differ in letter case only
		for i := 0; i < 2048; i++ {
			w.ref = append(w.ref, fmt.Sprintf("%c%04o", "wW"[i%2], i/2))
		}
	case "swap": // two words of a list exchanged: "swap:<i>:<j>:<list>"
		is, r2, _ := strings.Cut(rest, ":")
		js, base, _ := strings.Cut(r2, ":")
		w.ref = append(w.ref, List(base).get().ref...)
		i, j := atoi(is), atoi(js)
		w.ref[i], w.ref[j] = w.ref[j], w.ref[i]
	case "len":
		n := atoi(rest)
		w.ref = []string{}
		for i := 0; i < n; i++ {
			w.ref = append(w.ref, synthWord("w", i))
		}
	case "cut":
		ns, lang, _ := strings.Cut(rest, ":")
		n, r := atoi(ns), ref.Words[lang]
		for i := 0; i < n; i++ {
			if i < len(r) {
				w.ref = append(w.ref, r[i])
			} else {
				w.ref = append(w.ref, synthWord("x", i))
			}
		}
	default:
		p := libLists[string(l)]
		must(p != nil, "unknown list "+string(l))
		w.lib, w.ref = *p, ref.Words[string(l)]
	}
	if w.lib == nil && kind != "nil" {
		w.lib = append(btc.Wordlist{}, w.ref...)
	}
	w.pos = map[string]int{}
	for i, s := range w.ref {
		w.pos[s] = i
	}
	if len(listCache) > 24 {
		listCache = map[List]*wordList{}
	}
	listCache[l] = w
	return w
}

func atoi(s string) int {
	n := 0
	_, err := fmt.Sscan(s, &n)
	must(err == nil, "bad number "+s)
	return n
}

var wordCounts = []int{12, 15, 18, 21, 24}

func genBuiltin(t *rapid.T, label string) List {
	if weighted(t, label+"-en", "yes*1", "no*2") == "yes" {
		return "english"
	}
	return List(ref.Languages[uniformInt(t, len(ref.Languages), label)])
}

// genList draws a list of 2048 distinct words.
func genList(t *rapid.T, label string) List {
	switch weighted(t, label+"-kind", "builtin*12", "synth*2", "rev", "swap", "num", "case") {
	case "synth":
		return List("synth:" + pick(t, label+"-s", "a", "Z", "e\u0301", "語", "0", "-", "%d", "%", "\\", "\xff", ",", "\x00", strings.Repeat("long", 40)))
	case "swap":
		return genTwinList(t, label+"-tw", genBuiltin(t, label))
	case "num":
		return "num"
	case "case":
		return "case"
	case "rev":
		return "rev:" + genBuiltin(t, label)
	}
	return genBuiltin(t, label)
}

// genTwinList gives a list that differs from another in the place of two words.
func genTwinList(t *rapid.T, label string, of List) List {
	return List(fmt.Sprintf("swap:%d:%d:%s", uniformInt(t, 2048, label+"-i"), uniformInt(t, 2048, label+"-j"), of))
}

// genEntropy draws entropy of n bytes as hex.
func genEntropy(t *rapid.T, n int, label string) string {
	b := uniformBytes(t, n, label)
	if useDict(t, label) {
		return ref.Hex(dictBytes(t, label, b))
	}
	switch weighted(t, label+"-ek", "uniform*4", "lead*3", "table*5", "const*1", "trail*2", "ones*1", "low*1", "bit*1", "twin*2") {
	case "twin":
		if l := entTwins[n]; len(l) > 0 {
			return drawTwin(t, l, label).either(t, label)
		}
	case "lead":
		for i := uniformInt(t, n, label+"-z"); i >= 0; i-- {
			b[i] = 0
		}
		if rapid.Bool().Draw(t, label+"-nib") {
			b[0] = byte(1 + uniformInt(t, 15, label+"-nv"))
		}
	case "ones":
		for i := uniformInt(t, n, label+"-z"); i >= 0; i-- {
			b[i] = 0xff
		}
	case "trail":
		for i := uniformInt(t, n, label+"-z"); i < n; i++ {
			b[i] = 0
		}
	case "const":
		c := pick(t, label+"-c", byte(0), byte(0xff), byte(0x7f), byte(0x80), byte(0x55), byte(0xaa))
		for i := range b {
			b[i] = c
		}
	case "low":
		for i := range b {
			b[i] = 0
		}
		b[n-1] = byte(rapid.IntRange(0, 255).Draw(t, label+"-lv"))
	case "bit":
		for i := range b {
			b[i] = 0
		}
		i := uniformInt(t, n*8, label+"-b")
		b[i/8] = 1 << (i % 8)
	case "table":
		if es := tableEntropies[n]; len(es) > 0 {
			return es[uniformInt(t, len(es), label+"-i")]
		}
	}
	return ref.Hex(b)
}

func rareEntropy(e []byte) bool {
	h := sha256single(e)
	return e[0] < 16 || e[0] == 0xff || h[0] == 0 || h[0] == 0xff
}

type c15 struct {
	Words   int    `json:"words"`
	List    List   `json:"list"`
	Entropy string `json:"entropy"` // "": the real source
	Seed    string `json:"seed"`    // continues the stream
	Chunk   int    `json:"chunk"`
}

var c15usual = map[int]int{}

// c15offset tells at which position of the stream the entropy usually begins.
func c15offset(words int) int {
	if at, ok := c15usual[words]; ok {
		return at
	}
	l := List("english").get()
	r := Stream{Seed: "usual"}.reader()
	var phrase string
	withRandom(r, func() { phrase, _ = btc.NewMnemonic(words, l.lib) })
	at := 1 << 30
	if ent, ok := ref.DecodeWith(phrase, l.pos); ok {
		if i := bytes.Index(r.consumed, ent); i >= 0 {
			at = i
		}
	}
	c15usual[words] = at
	return at
}

var c15seen = map[string]bool{}

var _ = register(&spec[c15]{
	ID:    "C15",
	Rule:  "the entropy has a leading zero digit or ff byte, or a hash with a leading 00 or ff byte, or the list is not the English one",
	Quick: 7000, Thorough: 100000,
	Enum: func(_ string, yield func(c15) bool) {
		for _, w := range wordCounts {
			for _, e := range tableEntropies[ref.EntropyBytes(w)] {
				if !yield(c15{Words: w, List: "english", Entropy: e, Seed: "s"}) {
					return
				}
			}
			for _, l := range ref.Languages {
				for i := 0; i < 8; i++ { // leading zero bits of every length 0..63
					for z := i; z < 64; z += 8 {
						b := expand(fmt.Sprint(l, w, z), ref.EntropyBytes(w))
						for j := 0; j < z; j++ {
							b[j/8] &^= 0x80 >> (j % 8)
						}
						b[z/8] |= 0x80 >> (z % 8)
						if !yield(c15{Words: w, List: List(l), Entropy: ref.Hex(b), Seed: "s"}) {
							return
						}
					}
				}
			}
		}
	},
	Gen: func(t *rapid.T) c15 {
		c := c15{Words: wordCounts[uniformInt(t, 5, "w")], List: genList(t, "list"), Seed: genSeedText(t, "seed"), Chunk: pick(t, "chunk", 0, 0, 1, 5)}
		if weighted(t, "src", "stream*8", "real") == "stream" {
			c.Entropy = genEntropy(t, ref.EntropyBytes(c.Words), "e")
		}
		return c
	},
	Sib: func(c c15, d dice) (c15, bool) {
		if c.Entropy == "" {
			return c, false
		}
		if w, ok := twinOf[c.Entropy]; ok {
			c.Entropy = w
			return c, true
		}
		switch d.n(4, "what") {
		case 0:
			c.List = "french"
		case 1: // one bit more or less
			b := unhex(c.Entropy)
			b[d.n(len(b), "at")] ^= 1 << d.n(8, "bit")
			c.Entropy = ref.Hex(b)
		case 2: // the first words stay
			b := unhex(c.Entropy)
			copy(b[len(b)/2:], expand(fmt.Sprint(d.h), len(b)))
			c.Entropy = ref.Hex(b)
		case 3: // the last words stay
			b := unhex(c.Entropy)
			copy(b[:len(b)/2], expand(fmt.Sprint(d.h), len(b)))
			c.Entropy = ref.Hex(b)
		}
		return c, true
	},
	Run: func(c c15, o *obs) error {
		l := c.List.get()
		var phrase string
		var err error
		var r *streamReader
		if c.Entropy == "" {
			o.tag("real-source")
			phrase, err = btc.NewMnemonic(c.Words, l.lib)
		} else {
			r = Stream{Head: c.Entropy, Seed: c.Seed, Chunk: c.Chunk}.reader()
			withRandom(r, func() { phrase, err = btc.NewMnemonic(c.Words, l.lib) })
		}
		if err != nil {
			return fmt.Errorf("NewMnemonic(%d, %s): error %q", c.Words, c.List, err)
		}
		ent, ok := ref.DecodeWith(phrase, l.pos)
		if !ok || len(ent) != ref.EntropyBytes(c.Words) {
			return fmt.Errorf("NewMnemonic(%d, %s) = %q (random bytes %s): not a valid phrase of that length", c.Words, c.List, phrase, c.Entropy)
		}
		was := strings.Clone(phrase)
		o.hold(func() error {
			if phrase != was {
				return fmt.Errorf("the phrase is now %q, it was %q", phrase, was)
			}
			return nil
		})
		o.nt(rareEntropy(ent) || c.List != "english")
		o.tagIf(ent[0] == 0, "leading-zero-byte")
		o.tagIf(sha256single(ent)[0] == 0, "hash-leading-zero-byte")
		o.tag(fmt.Sprintf("words-%d", c.Words))
		if r != nil {
			at := bytes.Index(r.consumed, ent)
			if at < 0 {
				return fmt.Errorf("NewMnemonic(%d, %s) = %q encodes %x, which is not what was drawn: %x", c.Words, c.List, phrase, ent, r.consumed)
			}
			// every draw counts: the entropy must not come from a later draw than usual
			if usual := c15offset(c.Words); at > usual {
				return fmt.Errorf("NewMnemonic(%d, %s) = %q encodes the random bytes from %d on instead of from %d on: the draw %s was discarded", c.Words, c.List, phrase, at, usual, c.Entropy)
			}
		} else {
			if c15seen[string(ent)] {
				return fmt.Errorf("NewMnemonic(%d, %s) = %q was generated twice from the real random source", c.Words, c.List, phrase)
			}
			c15seen[string(ent)] = true
		}
		if seed, err := btc.NewSeedFromMnemonic(phrase, "", l.lib); err != nil || len(seed) == 0 {
			return fmt.Errorf("the generated phrase %q is refused by NewSeedFromMnemonic: seed %x, error %v", phrase, seed, err)
		}
		return nil
	},
})

type c16 struct {
	Words  int    `json:"words"`
	List   List   `json:"list"`
	Stream Stream `json:"stream"`
}

var _ = register(&spec[c16]{
	ID:    "C16",
	Rule:  "the word count is within 3 of a supported one or the list has about 2048 words, or the random source fails or delivers piecemeal",
	Quick: 8000, Thorough: 120000,
	Enum: func(_ string, yield func(c16) bool) {
		for n := -40; n <= 300; n++ {
			if !yield(c16{Words: n, List: "english", Stream: Stream{Seed: "s"}}) {
				return
			}
		}
		for _, w := range wordCounts { // failure after every number of bytes
			for f := 0; f <= 33; f++ {
				for _, chunk := range []int{0, 1, 3} {
					for _, heal := range []bool{false, true} {
						if !yield(c16{Words: w, List: "english", Stream: Stream{Seed: "s", Fail: f + 1, Chunk: chunk, Err: f, Heal: heal}}) {
							return
						}
					}
				}
			}
			for n := 2040; n <= 2056; n++ {
				if !yield(c16{Words: w, List: List(fmt.Sprintf("len:%d", n)), Stream: Stream{Seed: "s"}}) {
					return
				}
			}
			for i := 0; i <= 12; i++ {
				if !yield(c16{Words: w, List: List(fmt.Sprintf("len:%d", 1<<i)), Stream: Stream{Seed: "s"}}) {
					return
				}
			}
			if !yield(c16{Words: w, List: "nil", Stream: Stream{Seed: "s"}}) || !yield(c16{Words: w, List: "len:0", Stream: Stream{Seed: "s"}}) {
				return
			}
		}
	},
	Gen: func(t *rapid.T) c16 {
		c := c16{Words: wordCounts[uniformInt(t, 5, "w")], List: genList(t, "list")}
		c.Stream = Stream{Head: genEntropy(t, ref.EntropyBytes(c.Words), "e"), Seed: genSeedText(t, "seed"), Chunk: pick(t, "chunk", 0, 1, 2, 7, 31)}
		if useDict(t, "count") {
			if v, ok := dictInt(t, "count", math.MinInt/2, math.MaxInt/2); ok {
				c.Words = v
			}
		}
		if useDict(t, "listlen") {
			if v, ok := dictInt(t, "listlen", 0, 5000); ok {
				c.List = List(fmt.Sprintf("len:%d", v))
			}
		}
		for _, k := range []string{"count", "list", "fault"} {
			if uniformInt(t, 2, "use-"+k) == 0 {
				continue
			}
			switch k {
			case "count":
				switch weighted(t, "ck", "near*3", "any*2", "mult*2", "ext") {
				case "near":
					c.Words += pick(t, "d", -2, -1, 1, 2)
				case "any":
					c.Words = rapid.Int().Draw(t, "count")
				case "mult":
					c.Words = 3 * rapid.IntRange(-4, 40).Draw(t, "m")
				case "ext":
					c.Words = int(pick[int64](t, "ext", -1, 0, 1, 1<<31-1, -1<<31, 1<<63-1, -1<<63, 128, 160, 192, 224, 256, 1<<32+12, -12, 12<<32))
				}
			case "list":
				switch weighted(t, "lk", "len*3", "near*3", "nil", "empty", "cut*2") {
				case "len":
					c.List = List(fmt.Sprintf("len:%d", uniformInt(t, 4200, "n")))
				case "near":
					c.List = List(fmt.Sprintf("len:%d", 2048+pick(t, "d", -1, 1, -2, 2, -8, 8)))
				case "nil":
					c.List = "nil"
				case "empty":
					c.List = "len:0"
				case "cut":
					c.List = List(fmt.Sprintf("cut:%d:%s", pick(t, "n", 2047, 2049, 1024, 1, 2046, 4096, 1626), genBuiltin(t, "b")))
				}
			case "fault":
				c.Stream.Fail = 1 + uniformInt(t, 34, "fail")
				c.Stream.Err = uniformInt(t, len(streamErrs), "err")
				c.Stream.Heal = rapid.Bool().Draw(t, "heal")
			}
		}
		return c
	},
	Sib: func(c c16, d dice) (c16, bool) {
		if c.Stream.Fail > 0 && d.n(2, "what") == 0 {
			c.Stream.Fail = 0
			return c, true
		}
		c.Words = append([]int{13, 27}, wordCounts...)[d.n(7, "words")]
		return c, true
	},
	Run: func(c c16, o *obs) error {
		l := c.List.get()
		r := c.Stream.reader()
		var phrase string
		var err error
		withRandom(r, func() { phrase, err = btc.NewMnemonic(c.Words, l.lib) })
		why := ""
		switch {
		case ref.EntropyBytes(c.Words) == 0:
			why = "unsupported word count"
		case len(l.ref) != 2048:
			why = "the list does not have 2048 words"
		case r.hit && c.Stream.Fail-1 < ref.EntropyBytes(c.Words):
			why = "the random source failed"
		}
		o.tag("refuse: " + why)
		o.nt(r.hit || c.Stream.Chunk > 0 || c.Words >= 9 && c.Words <= 27 || len(l.ref) != 2048)
		if why != "" {
			if err == nil || phrase != "" {
				return fmt.Errorf("NewMnemonic(%d, list of %d words) = %q, error %v; must be refused: %s", c.Words, len(l.lib), phrase, err, why)
			}
			return nil
		}
		if err != nil && r.hit && phrase == "" {
			return nil // it failed behind the bytes that were needed: either answer will do
		}
		if err != nil {
			return fmt.Errorf("NewMnemonic(%d, %s): error %q although nothing failed", c.Words, c.List, err)
		}
		ent, ok := ref.DecodeWith(phrase, l.pos)
		if !ok || len(ent) != ref.EntropyBytes(c.Words) {
			return fmt.Errorf("NewMnemonic(%d, %s) = %q: not a valid phrase", c.Words, c.List, phrase)
		}
		if !bytes.Contains(r.consumed, ent) {
			return fmt.Errorf("NewMnemonic(%d, %s) = %q encodes %x, which is not what was drawn piecemeal: %x", c.Words, c.List, phrase, ent, r.consumed)
		}
		return nil
	},
})

// Phrase is a phrase to be derived from an entropy.
type c17 struct {
	Text S    `json:"text"`
	List List `json:"list"`
	All  bool `json:"all,omitempty"` // try every last word instead of the given one
}

// encodeAny gives a phrase of n words with a BIP-39 style checksum, also for
// unsupported n that are multiples of 3.
func encodeAny(n int, seed string, list []string) string {
	return ref.Encode(expand(seed, n/3*4), list)
}

func phraseText(t *rapid.T, l string) (S, List) {
	list := genList(t, l+"-list")
	w := list.get().ref
	n := wordCounts[uniformInt(t, 5, l+"-w")]
	words := strings.Split(ref.Encode(unhex(genEntropy(t, ref.EntropyBytes(n), l+"-e")), w), " ")
	join := func(ws []string) S { return S(strings.Join(ws, " ")) }
	i, j := uniformInt(t, n, l+"-i"), uniformInt(t, n, l+"-j")
	anyWord := func() string { return w[uniformInt(t, len(w), l+"-aw")] }
	if s, ok := lureText(t, "phrase", l); ok {
		return S(s), "english"
	}
	if useDict(t, l) {
		switch weighted(t, l+"-dk", "text", "word*2", "index*2") {
		case "text":
			return S(dictText(t, l, string(join(words)))), list
		case "word":
			words[i] = strings.ReplaceAll(dictText(t, l, words[i]), " ", "")
		case "index":
			if v, ok := dictInt(t, l, 0, 2047); ok {
				words[i] = w[v]
			}
		}
		return join(words), list
	}
	switch weighted(t, l+"-ph", "valid*6", "replace*5", "near*3", "swap*3", "drop*2", "extra*2", "dup*1", "rotate*1", "count*4", "space*4", "typo*4", "case*2", "prefix*2", "list*3", "randwords*4", "mixlist*1", "arb*2", "nfc*1", "reverse*1", "same*1", "concat*1", "lastbits*4", "badlist*2", "oddword*5") {
	case "valid":
	case "replace":
		words[i] = anyWord()
	case "near": // neighbour word: one index bit flipped
		words[i] = w[list.get().pos[words[i]]^1<<uint(uniformInt(t, 11, l+"-bit"))]
	case "lastbits": // checksum bits only
		cs := n / 3
		words[n-1] = w[list.get().pos[words[n-1]]^(1+uniformInt(t, 1<<cs-1, l+"-cs"))]
	case "swap":
		words[i], words[j] = words[j], words[i]
	case "drop":
		words = append(words[:i], words[i+1:]...)
	case "extra":
		words = append(words[:i], append([]string{anyWord()}, words[i:]...)...)
	case "dup":
		words = append(words[:i+1], words[i:]...)
	case "rotate":
		words = append(words[i:], words[:i]...)
	case "reverse":
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			words[a], words[b] = words[b], words[a]
		}
	case "same":
		x := anyWord()
		for a := range words {
			words[a] = x
		}
	case "concat":
		words = append(words, words...)
	case "count":
		m := pick(t, l+"-m", 0, 3, 6, 9, 27, 30, 33, 36, 48, 96, 192, 384, 768, -1)
		if m < 0 {
			m = uniformInt(t, 40, l+"-mm")
		}
		if m%3 == 0 && m > 0 {
			return S(encodeAny(m, genSeedText(t, l+"-s"), w)), list
		}
		words = nil
		for ; m > 0; m-- {
			words = append(words, anyWord())
		}
	case "space":
		s := strings.Join(words, " ")
		switch weighted(t, l+"-sp", "lead", "trail", "double*2", "tab", "nl", "crlf", "comma", "none", "under", "nbsp") {
		case "lead":
			s = " " + s
		case "trail":
			s += pick(t, l+"-tr", " ", "\n", "  ", "\t")
		case "double":
			s = strings.Join(words[:i], " ") + "  " + strings.Join(words[i:], " ")
		case "tab":
			s = strings.Join(words, "\t")
		case "nl":
			s = strings.Replace(s, " ", "\n", 1+i)
		case "crlf":
			s += "\r\n"
		case "comma":
			s = strings.Join(words, ", ")
		case "none":
			s = strings.Join(words, "")
		case "under":
			s = strings.Join(words, "_")
		case "nbsp":
			s = strings.Join(words, "\u00a0")
		}
		return S(s), list
	case "typo":
		words[i] = editText(t, words[i], rapid.IntRange(1, 2).Draw(t, l+"-ed"), "abcdefghijklmnopqrstuvwxyz", l+"-ty")
	case "oddword": // a word no list has
		x := words[i]
		switch weighted(t, l+"-ow", "long*3", "tail*2", "repeat*1", "rune*3", "number*2", "bytes*2", "pair*1", "huge*1") {
		case "long":
			x = fromAlphabet(t, "abcdefghijklmnopqrstuvwxyz", 9+uniformInt(t, 300, l+"-n"), l+"-lw")
		case "tail":
			x += strings.Repeat(pick(t, l+"-u", "a", "x", "é", "語", "\u0301", "0"), 1+uniformInt(t, 120, l+"-n"))
		case "repeat":
			x = strings.Repeat(x, 2+uniformInt(t, 40, l+"-n"))
		case "rune":
			x = pick(t, l+"-r", oddRunes...) + pick(t, l+"-r2", oddRunes...)
		case "number":
			x = pick(t, l+"-num", "0", "1", "2047", "2048", "-1", "0x7ff", fmt.Sprint(list.get().pos[x]))
		case "bytes":
			x = strings.ReplaceAll(string(uniformBytes(t, 1+uniformInt(t, 20, l+"-n"), l+"-by")), " ", "_")
		case "pair":
			x = x + "-" + words[j]
		case "huge":
			x = strings.Repeat("a", 1<<uint(10+uniformInt(t, 4, l+"-n")))
		}
		words[i] = x
	case "case":
		if rapid.Bool().Draw(t, l+"-allc") {
			return S(strings.ToUpper(string(join(words)))), list
		}
		words[i] = strings.Title(words[i])
	case "prefix": // the unambiguous first letters only
		r := []rune(words[i])
		words[i] = string(r[:min(len(r), 1+uniformInt(t, 5, l+"-pl"))])
	case "list":
		return join(words), genList(t, l+"-l2")
	case "mixlist":
		o := genBuiltin(t, l+"-l2").get().ref
		words[i] = o[uniformInt(t, len(o), l+"-ow")]
	case "randwords":
		for a := range words {
			words[a] = anyWord()
		}
	case "nfc":
		return S(ref.NFC(string(join(words)))), list
	case "badlist":
		return join(words), List(pick(t, l+"-bl", "nil", "len:0", "len:2047", "len:2049", "len:1", "cut:2047:", "cut:2049:", "cut:4096:")).fix(list)
	case "arb":
		return S(arbitraryText(t, l+"-arb")), list
	}
	return join(words), list
}

func (l List) fix(base List) List {
	if strings.HasPrefix(string(l), "cut:") {
		if _, ok := ref.Words[string(base)]; !ok {
			base = "english"
		}
		return l + base
	}
	return l
}

var _ = register(&spec[c17]{
	ID:    "C17",
	Rule:  "the phrase is accepted, or it is refused although all its words are in the list",
	Quick: 6000, Thorough: 90000,
	Enum: func(_ string, yield func(c17) bool) {
		for _, l := range ref.Languages { // all 2048 last words
			for _, w := range wordCounts {
				if !yield(c17{S(encodeAny(w, "all"+l, ref.Words[l])), List(l), true}) {
					return
				}
			}
		}
		for _, w := range wordCounts {
			for _, e := range tableEntropies[ref.EntropyBytes(w)] {
				if !yield(c17{S(ref.Encode(unhex(e), ref.Words["english"])), "english", false}) {
					return
				}
			}
		}
		for _, p := range lures["phrase"] {
			if !yield(c17{S(p.A), "english", false}) || !yield(c17{S(p.B), "english", false}) {
				return
			}
		}
		for n := 3; n <= 99; n += 3 { // correct checksums of unsupported lengths
			if !yield(c17{S(encodeAny(n, "n", ref.Words["english"])), "english", false}) {
				return
			}
		}
	},
	Gen: func(t *rapid.T) c17 {
		s, l := phraseText(t, "p")
		c := c17{Text: s, List: l}
		c.All = weighted(t, "all", "no*150", "yes") == "yes"
		return c
	},
	Sib: func(c c17, d dice) (c17, bool) {
		if c.All || d.n(2, "use") == 0 {
			return c, false
		}
		l := c.List.get().ref
		if w, ok := lureOf[string(c.Text)]; ok {
			c.Text = S(w)
			return c, true
		}
		if e, ok := ref.Decode(string(c.Text), l); ok && twinOf[ref.Hex(e)] != "" {
			c.Text = S(ref.Encode(unhex(twinOf[ref.Hex(e)]), l))
			return c, true
		}
		ws := strings.Split(string(c.Text), " ")
		switch {
		case d.n(5, "what") == 0:
			c.List = []List{"english", "french", "rev:english", "len:2047"}[d.n(4, "list")]
		case len(l) == 0 || d.n(5, "what2") == 0:
			c.Text = S(d.text(string(c.Text)))
		default:
			ws[[]int{0, len(ws) - 1, d.n(len(ws), "at")}[d.n(3, "where")]] = l[d.n(len(l), "word")]
			c.Text = S(strings.Join(ws, " "))
		}
		return c, true
	},
	Run: func(c c17, o *obs) error {
		l := c.List.get()
		text := string(c.Text)
		texts := []string{text}
		if c.All && len(l.ref) == 2048 {
			o.tag("all-last-words")
			ws := strings.Split(text, " ")
			texts = texts[:0]
			for _, w := range l.ref {
				ws[len(ws)-1] = w
				texts = append(texts, strings.Join(ws, " "))
			}
		}
		for _, text := range texts {
			_, ok := ref.DecodeWith(text, l.pos)
			ok = ok && len(l.ref) == 2048
			if !ok {
				if n := ref.NFKD(text); n != text {
					if _, v := ref.DecodeWith(n, l.pos); v && len(l.ref) == 2048 {
						// another Unicode form of a valid phrase: either answer is defensible
						o.tag("other-normal-form")
						btc.NewSeedFromMnemonic(text, "", l.lib)
						continue
					}
				}
			}
			known := true
			for _, w := range strings.Split(text, " ") {
				if _, in := l.pos[w]; !in {
					known = false
				}
			}
			o.tagIf(ok, "valid")
			o.tagIf(!ok && known, "refused-list-words")
			o.nt(ok || known)
			seed, err := btc.NewSeedFromMnemonic(text, "", l.lib)
			if ok && (err != nil || len(seed) == 0) {
				return fmt.Errorf("NewSeedFromMnemonic(%q, %s) = %x, error %v; the phrase is valid", text, c.List, seed, err)
			}
			if !ok && (err == nil || seed != nil) {
				return fmt.Errorf("NewSeedFromMnemonic(%q, list %s of %d words) = %x, error %v; the phrase is not valid", text, c.List, len(l.lib), seed, err)
			}
		}
		return nil
	},
})

type c18 struct {
	Words   int    `json:"words"`
	Entropy string `json:"entropy"`
	List    List   `json:"list"`
	Pass    S      `json:"pass"`
}

const findingNFKD = "C18-passphrase-not-normalised"

func genPass(t *rapid.T, l string) S {
	if useDict(t, l) {
		return S(dictText(t, l, "correct horse"))
	}
	switch weighted(t, l+"-pk", "empty*2", "ascii*5", "trezor", "blank*2", "long*2", "nfkd*3", "non*2", "uni*2", "bytes", "twin") {
	case "twin":
		return S(drawTwin(t, twins.Passphrases, l).either(t, l))
	case "ascii":
		n := uniformInt(t, 40, l+"-n")
		b := uniformBytes(t, n, l)
		for i := range b {
			b[i] = ' ' + b[i]%95
		}
		return S(b)
	case "trezor":
		return "TREZOR"
	case "blank":
		return S(pick(t, l+"-b", " ", "  ", " a", "a ", " a b ", "\t", "\n", "a\nb", "\x00", "a\x00b", "\x00\x00", "mnemonic"))
	case "long":
		n := pick(t, l+"-ln", 100, 119, 120, 127, 128, 129, 255, 256, 1000, 4096, 70000)
		return S(strings.Repeat(pick(t, l+"-u", "a", "Ab", "é"), n))
	case "nfkd":
		return S(ref.NFKD(rapid.String().Draw(t, l)))
	case "non": // precomposed or compatibility characters
		s := ""
		for i := rapid.IntRange(1, 4).Draw(t, l+"-k"); i > 0; i-- {
			s += pick(t, l+"-nc", "é", "ﬁ", "①", "Å", "Å", "㍍", "ガ", "각", "ẛ̣", "\u3000", "２", "ö")
			s += pick(t, l+"-as", "", "a", " ", "1")
		}
		return S(s)
	case "uni":
		return S(rapid.String().Draw(t, l))
	case "bytes":
		return S(string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, l)))
	}
	return ""
}

var _ = register(&spec[c18]{
	ID:    "C18",
	Rule:  "the passphrase is not empty or the list is not the English one",
	Quick: 2400, Thorough: 30000,
	Enum: func(_ string, yield func(c18) bool) {
		// the recorded finding, and its NFKD twin which must work
		z := strings.Repeat("00", 16)
		yield(c18{12, z, "english", "\u00e9"})
		yield(c18{12, z, "english", "e\u0301"})
		for _, l := range ref.Languages {
			for _, w := range wordCounts {
				if !yield(c18{w, ref.Hex(expand(l, ref.EntropyBytes(w))), List(l), "TREZOR"}) {
					return
				}
			}
		}
	},
	Gen: func(t *rapid.T) c18 {
		w := wordCounts[uniformInt(t, 5, "w")]
		return c18{w, genEntropy(t, ref.EntropyBytes(w), "e"), genBuiltin(t, "list"), genPass(t, "pass")}
	},
	Sib: func(c c18, d dice) (c18, bool) {
		if d.n(2, "use") == 0 {
			return c, false
		}
		if w, ok := twinOf[c.Entropy]; ok {
			c.Entropy = w
			return c, true
		}
		if w, ok := twinOf[string(c.Pass)]; ok {
			c.Pass = S(w)
			return c, true
		}
		b := unhex(c.Entropy)
		switch d.n(6, "what") {
		case 0:
			c.Pass += "x"
		case 1:
			c.Pass = S(strings.ToUpper(string(c.Pass)))
		case 2:
			c.Pass = ""
		case 3:
			c.List = List(ref.Languages[d.n(len(ref.Languages), "list")])
		case 4: // other last words
			b[len(b)-1] ^= 1 << d.n(8, "bit")
		case 5: // other first words
			b[0] ^= 1 << d.n(8, "bit")
		}
		c.Entropy = ref.Hex(b)
		return c, true
	},
	Run: func(c c18, o *obs) error {
		l := c.List.get()
		phrase := ref.Encode(unhex(c.Entropy), l.ref)
		pass := string(c.Pass)
		o.nt(pass != "" || c.List != "english")
		o.tag("list-" + string(c.List))
		o.tagIf(len(phrase) > 128, "phrase-longer-than-hmac-block")
		want := ref.Seed(phrase, pass)
		for i := 0; i < 2; i++ {
			seed, err := btc.NewSeedFromMnemonic(phrase, pass, l.lib)
			if err != nil {
				return fmt.Errorf("NewSeedFromMnemonic(%q, %q, %s): error %q", phrase, pass, c.List, err)
			}
			was := bytes.Clone(seed)
			o.hold(func() error {
				if !bytes.Equal(seed, was) {
					return fmt.Errorf("the seed is now %x, it was %x", seed, was)
				}
				return nil
			})
			if bytes.Equal(seed, want) {
				continue
			}
			if ref.NFKD(pass) != pass && knownFinding(findingNFKD) && bytes.Equal(seed, ref.SeedRaw(phrase, pass)) {
				o.knownFinding(findingNFKD, "")
				o.tag("known-finding")
				continue
			}
			return fmt.Errorf("NewSeedFromMnemonic(%q, %q, %s) = %x, want %x", phrase, pass, c.List, seed, want)
		}
		return nil
	},
})

type c19 struct {
	List  string `json:"list"`
	Index int    `json:"index"`
}

var _ = register(&spec[c19]{
	ID:         "C19",
	Rule:       "every case: one index of one list",
	Exhaustive: true,
	Enum: func(_ string, yield func(c19) bool) {
		for _, l := range ref.Languages {
			for i := -1; i < 2048; i++ {
				if !yield(c19{l, i}) {
					return
				}
			}
		}
	},
	Run: func(c c19, o *obs) error {
		o.nt(true)
		o.tag("list-" + c.List)
		got, want := *libLists[c.List], ref.Words[c.List]
		if c.Index < 0 {
			// the lists stay what they are, also when they have been used
			for _, w := range wordCounts {
				p := ref.Encode(expand(c.List, ref.EntropyBytes(w)), want)
				btc.NewMnemonic(w, got)
				btc.NewMnemonic(w+1, got)
				btc.NewSeedFromMnemonic(p, "", got)
				btc.NewSeedFromMnemonic(p+" x", "", got)
			}
			got = *libLists[c.List]
			if len(got) != 2048 {
				return fmt.Errorf("the %s list has %d words", c.List, len(got))
			}
			seen := map[string]int{}
			for i, w := range got {
				if j, dup := seen[w]; dup {
					return fmt.Errorf("words %d and %d of the %s list are the same: %q", j, i, c.List, w)
				}
				seen[w] = i
			}
			h := sha256single([]byte(strings.Join(got, "\n") + "\n"))
			if ref.Hex(h) != ref.WordsSHA256[c.List] {
				return fmt.Errorf("the SHA-256 of the %s list is %x, that of the published file is %s", c.List, h, ref.WordsSHA256[c.List])
			}
			return nil
		}
		if c.Index >= len(got) {
			return fmt.Errorf("the %s list has no word %d", c.List, c.Index)
		}
		w := got[c.Index]
		if w != want[c.Index] {
			return fmt.Errorf("word %d of the %s list is %q, the standard has %q", c.Index, c.List, w, want[c.Index])
		}
		if w == "" || strings.ContainsFunc(w, unicode.IsSpace) || ref.NFKD(w) != w {
			return fmt.Errorf("word %d of the %s list, %q, is empty, has a blank or is not in NFKD form", c.Index, c.List, w)
		}
		return nil
	},
})
