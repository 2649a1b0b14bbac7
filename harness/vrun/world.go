package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

// Op is one call of the library's API. A and B index the pools of earlier
// results (modulo their size).
type Op struct {
	F    string `json:"f"`
	Text S      `json:"text,omitempty"`
	Net  Net    `json:"net,omitzero"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	Comp bool   `json:"comp,omitempty"`
	N    int    `json:"n,omitempty"`
	List List   `json:"list,omitempty"`
	Pass S      `json:"pass,omitempty"`
	Rep  int    `json:"rep,omitempty"`  // C22: calls in a row
	Vary bool   `json:"vary,omitempty"` // C22: with other arguments each time
}

// variant is the operation with slightly different arguments.
func (o Op) variant(n int) Op {
	if !o.Vary {
		return o
	}
	o.A += n
	o.B += 3 * n
	o.Comp = o.Comp != (n%2 == 1)
	next := func(k *big.Int) *big.Int {
		k = new(big.Int).Add(k, big.NewInt(int64(n)))
		if !ref.ValidScalar(k) {
			k = big.NewInt(int64(n))
		}
		return k
	}
	switch o.F {
	case "hex":
		if k, ok := ref.ParseHexKey(string(o.Text)); ok {
			o.Text = S(ref.Hex64(next(k)))
		} else {
			o.Text += S(fmt.Sprint(n))
		}
	case "wif", "checkwif":
		if k, comp, ok := ref.ParseWIF(o.Net.privByte(), string(o.Text)); ok {
			o.Text = S(ref.WIF(o.Net.privByte(), next(k), comp))
		} else {
			o.Text += S(fmt.Sprint(n))
		}
	case "pubhex":
		if pt, ok := ref.ParseSEC1Hex(string(o.Text)); ok {
			for x := new(big.Int).Add(pt.X, big.NewInt(int64(2*n))); x.Cmp(ref.P) < 0; x.Add(x, one) {
				if q, ok := ref.LiftX(x, n%3 == 0); ok {
					o.Text = S(ref.Hex(ref.SEC1(q, len(o.Text) == 66)))
					break
				}
			}
		} else {
			o.Text += S(fmt.Sprint(n))
		}
	case "seed", "reseed":
		o.Pass += S(fmt.Sprint(n))
	}
	return o
}

func (o Op) String() string {
	switch o.F {
	case "hex", "wif", "pubhex":
		return fmt.Sprintf("%s(%q, %v)", o.F, string(o.Text), o.Net.value())
	case "checkwif":
		return fmt.Sprintf("checkwif(%q)", string(o.Text))
	case "gen":
		return fmt.Sprintf("gen(%v)", o.Net.value())
	case "newmn":
		return fmt.Sprintf("newmn(%d, %s)", o.N, o.List)
	case "seed":
		return fmt.Sprintf("seed(%q, %q, %s)", string(o.Text), string(o.Pass), o.List)
	}
	return fmt.Sprintf("%s(#%d, #%d, %v)", o.F, o.A, o.B, o.Comp)
}

type privEnt struct {
	p   *btc.PrivateKey
	k   *big.Int
	wif string
	net Net
}

type pubEnt struct {
	p   *btc.PublicKey
	pt  ref.Point
	net Net
}

type world struct {
	privs   []privEnt
	pubs    []pubEnt
	phrases []string
	nets    []netEnt // network objects handed to the library
	share   map[Net]*btc.Network
	own     *wordList // a word list the caller changes now and then
	ownBase List
}

type netEnt struct {
	l *btc.Network
	n Net
}

func (w *world) lib(n Net) *btc.Network {
	if w.share == nil {
		w.share = map[Net]*btc.Network{}
	}
	if l := w.share[n]; l != nil {
		return l
	}
	l := n.lib()
	w.share[n] = l
	w.nets = append(w.nets, netEnt{l, n})
	return l
}

type outcome struct {
	priv *btc.PrivateKey
	pub  *btc.PublicKey
	ok   bool
	text string
	seed []byte
	err  error
}

// call is a resolved operation.
type call struct {
	op     Op
	invoke func() outcome
	judge  func(outcome) error // against the model
	add    func(outcome)       // put the result into the pool
	fails  bool                // the model expects an error
	uses   []any               // objects it works on (pointers)
}

// list resolves a list name; "own:<base>" is the list of this history that its owner changes.
func (w *world) list(l List) *wordList {
	base, ok := strings.CutPrefix(string(l), "own:")
	if !ok {
		return l.get()
	}
	if w.own == nil || w.ownBase != List(base) {
		b := List(base).get()
		w.own = &wordList{lib: append(btc.Wordlist{}, b.ref...), ref: append([]string{}, b.ref...), pos: map[string]int{}}
		for i, x := range w.own.ref {
			w.own.pos[x] = i
		}
		w.ownBase = List(base)
	}
	return w.own
}

// change does what a caller may do between calls: it overwrites a key, a network
// object or a word list of its own. It returns the changed object, or nil.
func (w *world) change(op Op) any {
	fill := func(n *big.Int, v *big.Int) *big.Int {
		if op.Comp { // the same object
			return n.Set(v)
		}
		return new(big.Int).Set(v)
	}
	switch op.F {
	case "chpriv":
		k, ok := ref.ParseHexKey(string(op.Text))
		if len(w.privs) == 0 || !ok {
			return nil
		}
		e := w.privs[op.A%len(w.privs)]
		wif := ref.WIF(e.net.privByte(), k, false)
		w.privs[op.A%len(w.privs)].k, w.privs[op.A%len(w.privs)].wif = k, wif
		e.p.Key, e.p.Hex, e.p.WIF = fill(e.p.Key, k), ref.Hex64(k), wif
		return e.p
	case "chpub":
		pt, ok := ref.ParseSEC1Hex(string(op.Text))
		if len(w.pubs) == 0 || !ok {
			return nil
		}
		e := w.pubs[op.A%len(w.pubs)]
		w.pubs[op.A%len(w.pubs)].pt = pt
		e.p.X, e.p.Y = fill(e.p.X, pt.X), fill(e.p.Y, pt.Y)
		return e.p
	case "chnet":
		if op.Net.Kind != "custom" || w.share[op.Net] != nil {
			return nil
		}
		for i, e := range w.nets {
			if e.n.Kind != "custom" || w.share[e.n] != e.l {
				continue
			}
			delete(w.share, e.n)
			w.share[op.Net] = e.l
			w.nets[i].n = op.Net
			*e.l = op.Net.value()
			for j := range w.privs {
				if w.privs[j].p.Network == e.l {
					w.privs[j].net = op.Net
				}
			}
			for j := range w.pubs {
				if w.pubs[j].p.Network == e.l {
					w.pubs[j].net = op.Net
				}
			}
			return e.l
		}
	case "chlist":
		o := w.own
		if o == nil || len(o.ref) != 2048 {
			return nil
		}
		swap := func(i, j int) {
			o.ref[i], o.ref[j] = o.ref[j], o.ref[i]
			o.lib[i], o.lib[j] = o.lib[j], o.lib[i]
			o.pos[o.ref[i]], o.pos[o.ref[j]] = i, j
		}
		i, j := op.A%2048, op.B%2048
		switch op.N % 3 {
		case 0:
			swap(i, j)
		case 1: // all of it
			for a, b := 0, 2047; a < b; a, b = a+1, b-1 {
				swap(a, b)
			}
		case 2: // a new word
			word := fmt.Sprint("neu", op.B)
			if _, dup := o.pos[word]; dup {
				return nil
			}
			delete(o.pos, o.ref[i])
			o.ref[i], o.lib[i], o.pos[word] = word, word, i
		}
		return o
	}
	return nil
}

// resolve looks up the operands; nil if the pool lacks them.
func (w *world) resolve(op Op) *call {
	c := &call{op: op, add: func(outcome) {}}
	wantPriv := func(k *big.Int, wif string, n Net, ok bool) {
		c.fails = !ok
		c.judge = func(r outcome) error {
			if !ok {
				if r.err == nil || r.priv != nil {
					return fmt.Errorf("%v = %s, error %v; must be refused", op, showPriv(r.priv), r.err)
				}
				return nil
			}
			if r.err != nil {
				return fmt.Errorf("%v: error %q", op, r.err)
			}
			if err := checkPriv(r.priv, k, wif, n); err != nil {
				return fmt.Errorf("%v: %v", op, err)
			}
			return nil
		}
		c.add = func(r outcome) {
			if r.err == nil {
				w.privs = append(w.privs, privEnt{r.priv, k, wif, n})
			}
		}
	}
	wantPub := func(pt ref.Point, n Net, ok bool) {
		c.fails = !ok
		c.judge = func(r outcome) error {
			if !ok {
				if r.err == nil || r.pub != nil {
					return fmt.Errorf("%v = %s, error %v; must be refused", op, showPub(r.pub), r.err)
				}
				return nil
			}
			if r.err != nil {
				return fmt.Errorf("%v: error %q", op, r.err)
			}
			if err := checkPub(r.pub, pt, n); err != nil {
				return fmt.Errorf("%v: %v", op, err)
			}
			return nil
		}
		c.add = func(r outcome) {
			if r.err == nil {
				w.pubs = append(w.pubs, pubEnt{r.pub, pt, n})
			}
		}
	}
	text := string(op.Text)
	use := func(xs ...any) { c.uses = append(c.uses, xs...) }
	switch op.F {
	case "hex", "wif", "gen", "pubhex":
		use(w.lib(op.Net))
	case "newmn", "seed", "reseed":
		use(w.list(op.List))
	}
	switch op.F {
	case "hex":
		l := w.lib(op.Net)
		k, ok := ref.ParseHexKey(text)
		wif := ""
		if ok {
			wif = ref.WIF(op.Net.privByte(), k, false)
		}
		wantPriv(k, wif, op.Net, ok)
		c.invoke = func() (r outcome) { r.priv, r.err = btc.PrivateFromHex(text, l); return }
	case "wif":
		l := w.lib(op.Net)
		k, _, ok := ref.ParseWIF(op.Net.privByte(), text)
		wantPriv(k, text, op.Net, ok)
		c.invoke = func() (r outcome) { r.priv, r.err = btc.PrivateFromWIF(text, l); return }
	case "rewif": // import the WIF of a pool key
		if len(w.privs) == 0 {
			return nil
		}
		a := w.privs[op.A%len(w.privs)]
		_, _, ok := ref.ParseWIF(a.net.privByte(), a.wif) // the network may have changed
		wantPriv(a.k, a.wif, a.net, ok)
		l := w.lib(a.net)
		use(a.p, l)
		c.invoke = func() (r outcome) { r.priv, r.err = btc.PrivateFromWIF(a.wif, l); return }
	case "checkwif":
		_, want := ref.B58CheckDecode(text)
		c.fails = !want
		c.invoke = func() (r outcome) { r.ok = btc.CheckWIF(text); return }
		c.judge = func(r outcome) error {
			if r.ok != want {
				return fmt.Errorf("%v = %v, want %v", op, r.ok, want)
			}
			return nil
		}
	case "gen":
		l := w.lib(op.Net)
		c.invoke = func() (r outcome) { r.priv = btc.GeneratePrivateKey(l); return }
		c.judge = func(r outcome) error { return c06check(r.priv, op.Net) }
		c.add = func(r outcome) {
			w.privs = append(w.privs, privEnt{r.priv, new(big.Int).Set(r.priv.Key), r.priv.WIF, op.Net})
		}
	case "add", "mul":
		if len(w.privs) == 0 {
			return nil
		}
		a, b := w.privs[op.A%len(w.privs)], w.privs[op.B%len(w.privs)]
		use(a.p, b.p, a.p.Network, b.p.Network)
		if ambiguousNets(a.net, b.net) {
			return nil
		}
		k := combine(op.F, a.k, b.k)
		ok := a.net.same(b.net) && a.k.Cmp(b.k) != 0 && k.Sign() > 0
		wantPriv(k, ref.WIF(a.net.privByte(), k, false), a.net, ok)
		c.invoke = func() (r outcome) { r.priv, r.err = libCombine(op.F, a.p, b.p); return }
	case "pub":
		if len(w.privs) == 0 {
			return nil
		}
		a := w.privs[op.A%len(w.privs)]
		use(a.p, a.p.Network)
		wantPub(ref.BaseMult(a.k), a.net, true)
		c.invoke = func() (r outcome) {
			r.pub, r.ok = a.p.GetPublicKey()
			if !r.ok {
				r.err = fmt.Errorf("reported as not valid")
			}
			return
		}
	case "pubhex":
		l := w.lib(op.Net)
		pt, ok := ref.ParseSEC1Hex(text)
		wantPub(pt, op.Net, ok)
		c.invoke = func() (r outcome) { r.pub, r.err = btc.PublicFromHex(text, l); return }
	case "repub": // import the serialisation of a pool key
		if len(w.pubs) == 0 {
			return nil
		}
		a := w.pubs[op.A%len(w.pubs)]
		wantPub(a.pt, a.net, true)
		l := w.lib(a.net)
		use(a.p, l)
		in := ref.Hex(ref.SEC1(a.pt, op.Comp))
		c.invoke = func() (r outcome) { r.pub, r.err = btc.PublicFromHex(in, l); return }
	case "addpub":
		if len(w.pubs) == 0 {
			return nil
		}
		a, b := w.pubs[op.A%len(w.pubs)], w.pubs[op.B%len(w.pubs)]
		use(a.p, b.p, a.p.Network, b.p.Network)
		if ambiguousNets(a.net, b.net) {
			return nil
		}
		pt := ref.Add(a.pt, b.pt)
		wantPub(pt, a.net, a.net.same(b.net) && !pt.Inf)
		c.invoke = func() (r outcome) { r.pub, r.err = btc.AddPublicKeys(a.p, b.p, op.Comp); return }
	case "fmt", "addr":
		if len(w.pubs) == 0 {
			return nil
		}
		a := w.pubs[op.A%len(w.pubs)]
		want := ref.Hex(ref.SEC1(a.pt, op.Comp))
		use(a.p, a.p.Network)
		c.invoke = func() (r outcome) { r.text = a.p.Format(op.Comp); return }
		if op.F == "addr" {
			want = ref.Address(a.net.pubByte(), a.pt, op.Comp)
			c.invoke = func() (r outcome) { r.text, r.err = a.p.Address(op.Comp); return }
		}
		c.judge = func(r outcome) error {
			if r.err != nil || r.text != want {
				return fmt.Errorf("%v = %q, error %v; want %q", op, r.text, r.err, want)
			}
			return nil
		}
	case "newmn":
		l := w.list(op.List)
		ok := ref.EntropyBytes(op.N) > 0 && len(l.ref) == 2048
		c.fails = !ok
		c.invoke = func() (r outcome) { r.text, r.err = btc.NewMnemonic(op.N, l.lib); return }
		c.judge = func(r outcome) error {
			if !ok {
				if r.err == nil || r.text != "" {
					return fmt.Errorf("%v = %q, error %v; must be refused", op, r.text, r.err)
				}
				return nil
			}
			ent, valid := ref.DecodeWith(r.text, l.pos)
			if r.err != nil || !valid || len(ent) != ref.EntropyBytes(op.N) {
				return fmt.Errorf("%v = %q, error %v: not a valid phrase", op, r.text, r.err)
			}
			return nil
		}
		c.add = func(r outcome) {
			if r.err == nil {
				w.phrases = append(w.phrases, r.text)
			}
		}
	case "seed", "reseed":
		if op.F == "reseed" { // of a generated phrase
			if len(w.phrases) == 0 {
				return nil
			}
			text = w.phrases[op.A%len(w.phrases)]
		}
		l := w.list(op.List)
		_, ok := ref.DecodeWith(text, l.pos)
		ok = ok && len(l.ref) == 2048
		if !ok && ref.NFKD(text) != text {
			if _, v := ref.DecodeWith(ref.NFKD(text), l.pos); v {
				return nil // not decided, see C17
			}
		}
		c.fails = !ok
		pass := string(op.Pass)
		c.invoke = func() (r outcome) { r.seed, r.err = btc.NewSeedFromMnemonic(text, pass, l.lib); return }
		c.judge = func(r outcome) error {
			if !ok {
				if r.err == nil || r.seed != nil {
					return fmt.Errorf("%v (phrase %q) = %x, error %v; must be refused", op, text, r.seed, r.err)
				}
				return nil
			}
			if r.err != nil {
				return fmt.Errorf("%v (phrase %q): error %q", op, text, r.err)
			}
			want := ref.Seed(text, pass)
			if !bytes.Equal(r.seed, want) && !(ref.NFKD(pass) != pass && bytes.Equal(r.seed, ref.SeedRaw(text, pass))) {
				return fmt.Errorf("%v (phrase %q) = %x, want %x", op, text, r.seed, want)
			}
			return nil
		}
	default:
		internalf("unknown operation %q", op.F)
	}
	return c
}

// intact checks that everything the library was given is as it was.
func (w *world) intact() error {
	for i, e := range w.privs {
		if err := checkPriv(e.p, e.k, e.wif, e.net); err != nil {
			return fmt.Errorf("private key #%d changed: %v", i, err)
		}
	}
	for i, e := range w.pubs {
		if err := checkPub(e.p, e.pt, e.net); err != nil {
			return fmt.Errorf("public key #%d changed: %v", i, err)
		}
	}
	for _, e := range w.nets {
		if *e.l != e.n.value() {
			return fmt.Errorf("network object %v changed to %v", e.n.value(), *e.l)
		}
	}
	if w.own != nil {
		for i := range w.own.ref {
			if len(w.own.lib) != len(w.own.ref) || w.own.lib[i] != w.own.ref[i] {
				return fmt.Errorf("word %d of the caller's list changed", i)
			}
		}
	}
	return globalsIntact()
}

var libMain, libTest = btc.MainNetwork, btc.TestNetwork

func globalsIntact() error {
	if btc.MainNetwork != libMain || btc.TestNetwork != libTest || *btc.MainNetwork != mainNet.value() || *btc.TestNetwork != testNet.value() {
		return fmt.Errorf("the built-in networks changed: %v %v", btc.MainNetwork, btc.TestNetwork)
	}
	for _, l := range ref.Languages {
		got, want := *libLists[l], ref.Words[l]
		if len(got) != len(want) {
			return fmt.Errorf("the built-in %s list changed its length to %d", l, len(got))
		}
		for i := range want {
			if got[i] != want[i] {
				return fmt.Errorf("word %d of the built-in %s list changed from %q to %q", i, l, want[i], got[i])
			}
		}
	}
	for l, w := range listCache {
		if len(w.lib) != len(w.ref) {
			return fmt.Errorf("the list %s changed its length", l)
		}
		if _, builtin := libLists[string(l)]; builtin {
			continue
		}
		for i := range w.ref {
			if w.lib[i] != w.ref[i] {
				return fmt.Errorf("word %d of the list %s changed", i, l)
			}
		}
	}
	return nil
}

// palette is a small set of values reused by the operations of one history, so
// that the same value meets different networks, lists, forms and neighbours.
type palette struct {
	scalars []string
	nets    []Net
	points  []Pt
	lists   []List
	phrases []S
	of      []List // the lists of the phrases
	passes  []S
}

func genPalette(t *rapid.T) *palette {
	p := &palette{}
	for i := rapid.IntRange(1, 3).Draw(t, "scalars"); i > 0; i-- {
		p.scalars = append(p.scalars, genScalar(t, "ps"))
	}
	for _, s := range p.scalars {
		if w, ok := twinOf[s]; ok {
			p.scalars = append(p.scalars, w)
		}
	}
	k := hexToInt(p.scalars[0])
	p.scalars = append(p.scalars, ref.Hex64(new(big.Int).Sub(ref.N, k))) // the opposite key
	// keys that agree in their low or high bits, as a careless cache would see them
	if weighted(t, "twin", "no", "yes") == "yes" {
		b := uniformBytes(t, 32, "tb")
		n := pick(t, "tn", 1, 2, 4, 8, 16, 24, 31)
		kb := ref.Bytes32(k)
		if rapid.Bool().Draw(t, "low") {
			copy(b[32-n:], kb[32-n:])
		} else {
			copy(b[:n], kb[:n])
		}
		if v := new(big.Int).SetBytes(b); ref.ValidScalar(v) {
			p.scalars = append(p.scalars, ref.Hex64(v))
		}
	}
	if rapid.Bool().Draw(t, "one") {
		p.scalars = append(p.scalars, ref.Hex64(one))
	}
	p.nets = []Net{mainNet, testNet, genNet(t, "pn")}
	for i := range p.nets {
		if i < 2 && ambiguousNets(p.nets[i], p.nets[2]) {
			p.nets[2] = mainNet
		}
	}
	for _, s := range p.scalars {
		p.points = append(p.points, toPt(ref.BaseMult(hexToInt(s))))
	}
	p.points = append(p.points, genPoint(t, "pp"))
	p.lists = []List{"english", genList(t, "pl"), pick(t, "zh", List("chinese_simplified"), List("chinese_traditional"))}
	if weighted(t, "like", "no*2", "yes") == "yes" { // a list that resembles another
		p.lists = append(p.lists, genTwinList(t, "tw", p.lists[uniformInt(t, 3, "of")]))
	}
	for _, l := range p.lists {
		n := wordCounts[uniformInt(t, 5, "pw")]
		e := genEntropy(t, ref.EntropyBytes(n), "pe")
		p.phrases = append(p.phrases, S(ref.Encode(unhex(e), l.get().ref)))
		p.of = append(p.of, l)
		if w, ok := twinOf[e]; ok {
			p.phrases = append(p.phrases, S(ref.Encode(unhex(w), l.get().ref)))
			p.of = append(p.of, l)
		}
	}
	p.passes = []S{"", genPass(t, "pass"), "TREZOR"}
	if w, ok := twinOf[string(p.passes[1])]; ok {
		p.passes = append(p.passes, S(w))
	}
	return p
}

var allFuncs = []string{"hex", "wif", "rewif", "checkwif", "gen", "add", "mul", "pub", "pubhex", "repub", "addpub", "fmt", "addr", "newmn", "seed", "reseed"}

// genOp draws one operation over the palette.
func genOp(t *rapid.T, p *palette, weights ...string) Op {
	op := Op{F: weighted(t, "f", weights...)}
	net := func() Net { return p.nets[uniformInt(t, len(p.nets), "net")] }
	scalar := func() string { return p.scalars[uniformInt(t, len(p.scalars), "scalar")] }
	good := weighted(t, "good", "yes*3", "no*2") == "yes"
	op.A, op.B = uniformInt(t, 1000, "a"), uniformInt(t, 1000, "b")
	op.Comp = rapid.Bool().Draw(t, "comp")
	switch op.F {
	case "hex":
		op.Net = net()
		if good {
			op.Text = S(recase(genCase(t, "case"), scalar()))
		} else {
			op.Text = S(hexKeyText(t, "text"))
		}
	case "wif", "checkwif":
		op.Net = net()
		switch {
		case good:
			op.Text = S(ref.WIF(op.Net.privByte(), hexToInt(scalar()), op.Comp))
		case rapid.Bool().Draw(t, "othernet"):
			op.Text = S(ref.WIF(net().privByte(), hexToInt(scalar()), op.Comp))
		default:
			op.Text = S(wifText(t, "text", op.Net.privByte()))
		}
	case "gen":
		op.Net = net()
	case "pubhex":
		op.Net = net()
		if good {
			op.Text = S(recase(genCase(t, "case"), ref.Hex(ref.SEC1(p.points[uniformInt(t, len(p.points), "pt")].point(), op.Comp))))
		} else {
			op.Text = S(pubText(t, "text"))
		}
	case "newmn":
		op.List = p.lists[uniformInt(t, len(p.lists), "l")]
		op.N = wordCounts[uniformInt(t, 5, "n")]
		if !good && rapid.Bool().Draw(t, "bad") {
			op.N = rapid.IntRange(-3, 40).Draw(t, "badn")
		} else if !good {
			op.List = List(pick(t, "badl", "nil", "len:0", "len:2047", "len:2049"))
		}
	case "seed":
		i := uniformInt(t, len(p.phrases), "ph")
		op.Text, op.List = p.phrases[i], p.of[i]
		op.Pass = p.passes[uniformInt(t, len(p.passes), "pw")]
		switch {
		case good:
		case rapid.Bool().Draw(t, "otherlist"):
			op.List = p.lists[uniformInt(t, len(p.lists), "l")]
		case rapid.Bool().Draw(t, "word"): // one word replaced in the phrase
			ws := strings.Split(string(op.Text), " ")
			l := op.List.get().ref
			ws[uniformInt(t, len(ws), "wi")] = l[uniformInt(t, len(l), "wv")]
			op.Text = S(strings.Join(ws, " "))
		default:
			op.Text, op.List = phraseText(t, "text")
		}
	case "chpriv":
		op.Text = S(scalar())
	case "chpub":
		op.Text = S(p.points[uniformInt(t, len(p.points), "pt")])
	case "chnet":
		op.Net = Net{"custom", fmt.Sprintf("%02X", uniformInt(t, 256, "np")), fmt.Sprintf("%02X", uniformInt(t, 256, "na"))}
	case "chlist":
		op.N = uniformInt(t, 6, "n")
	case "reseed":
		op.List = p.lists[uniformInt(t, len(p.lists), "l")]
		op.Pass = p.passes[uniformInt(t, len(p.passes), "pw")]
	}
	return op
}

var evenWeights = []string{"hex*5", "wif*4", "rewif*2", "checkwif*2", "gen*2", "add*3", "mul*3", "pub*2", "pubhex*5", "repub*2", "addpub*4", "fmt*3", "addr*4", "newmn*2", "seed*4", "reseed*2"}

// changeWeights is evenWeights with the caller's own changes.
var changeWeights = append([]string{"chpriv*3", "chpub*3", "chnet*2", "chlist*3"}, evenWeights...)

type history struct {
	Seed string `json:"seed"` // of the random source
	Ops  []Op   `json:"ops"`
}

func genHistory(t *rapid.T, max int, weights ...string) history {
	p := genPalette(t)
	h := history{Seed: genSeedText(t, "seed")}
	// operations on keys find something to work on
	h.Ops = append(h.Ops, genOp(t, p, "hex"), genOp(t, p, "pubhex"))
	for i := 1 + uniformInt(t, max, "len"); i > 0; i-- {
		h.Ops = append(h.Ops, genOp(t, p, weights...))
	}
	return h
}
