package main

import (
	"fmt"
	"math/big"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

type c07 struct {
	Keys []Key    `json:"keys"`
	Ops  []string `json:"ops"` // add or mul, one less than keys
	Net  Net      `json:"net"`
}

func combine(op string, a, b *big.Int) *big.Int {
	r := new(big.Int)
	if op == "add" {
		r.Add(a, b)
	} else {
		r.Mul(a, b)
	}
	return r.Mod(r, ref.N)
}

func libCombine(op string, a, b *btc.PrivateKey) (*btc.PrivateKey, error) {
	if op == "add" {
		return btc.AddPrivateKeys(a, b)
	}
	return btc.MultiplyPrivateKeys(a, b)
}

// partner gives b with a op b = r, or nil.
func partner(op string, a, r *big.Int) *big.Int {
	var b *big.Int
	if op == "add" {
		b = new(big.Int).Sub(r, a)
	} else {
		b = new(big.Int).ModInverse(a, ref.N)
		b.Mul(b, r)
	}
	b.Mod(b, ref.N)
	if b.Sign() == 0 {
		return nil
	}
	return b
}

var _ = register(&spec[c07]{
	ID:    "C07",
	Rule:  "a result has leading zero digits or is below 2^64, a sum wraps around n, an operand is of a rare shape, or operands came by different paths",
	Quick: 45000, Thorough: 500000,
	Gen: func(t *rapid.T) c07 {
		n := rapid.IntRange(1, 4).Draw(t, "ops")
		c := c07{Net: genNet(t, "net"), Keys: []Key{genKey(t, "k")}}
		acc := c.Keys[0].num()
		for i := 0; i < n; i++ {
			op := pick(t, "op", "add", "mul")
			k := genKey(t, "k")
			switch weighted(t, "rel", "free*3", "result*4", "wrap*2") {
			case "free": // or a key that resembles the other
				if w, ok := twinOf[ref.Hex64(acc)]; ok {
					k.K = w
				} else if b := (dice{uint32(uniformInt(t, 1<<30, "like"))}).scalar(acc); i == 0 && uniformInt(t, 8, "sib") == 0 {
					k.K = b
				}
			case "result": // aim at a chosen result
				if b := partner(op, acc, hexToInt(genScalar(t, "r"))); b != nil {
					k.K = ref.Hex64(b)
				}
			case "wrap": // a + b = n + d, or a * b = 1 + d
				d := big.NewInt(int64(rapid.IntRange(1, 40).Draw(t, "d")))
				if b := partner(op, acc, d); b != nil {
					k.K = ref.Hex64(b)
				}
			}
			r := combine(op, acc, k.num())
			if r.Sign() == 0 || k.num().Cmp(acc) == 0 {
				continue // refused combinations belong to C08
			}
			acc = r
			c.Ops = append(c.Ops, op)
			c.Keys = append(c.Keys, k)
		}
		return c
	},
	Sib: func(c c07, d dice) (c07, bool) {
		n := len(c.Ops)
		if n == 0 || d.n(3, "what") == 0 {
			c.Net = d.net(c.Net)
			return c, true
		}
		acc := c.Keys[0].num()
		for i, op := range c.Ops[:n-1] {
			acc = combine(op, acc, c.Keys[i+1].num())
		}
		keys, ops := append([]Key{}, c.Keys...), append([]string{}, c.Ops...)
		if d.n(2, "what2") == 0 {
			ops[n-1] = map[string]string{"add": "mul", "mul": "add"}[ops[n-1]]
		} else {
			keys[n].K = d.scalar(keys[n].num())
		}
		k := keys[n].num()
		if k.Cmp(acc) == 0 || combine(ops[n-1], acc, k).Sign() == 0 {
			return c, false
		}
		c.Keys, c.Ops = keys, ops
		return c, true
	},
	Run: func(c c07, o *obs) error {
		must(len(c.Keys) == len(c.Ops)+1, "malformed case")
		accLib, err := c.Keys[0].build(c.Net)
		if err != nil {
			return err
		}
		acc := c.Keys[0].num()
		for i, op := range c.Ops {
			k := c.Keys[i+1]
			b, err := k.build(c.Net)
			if err != nil {
				return err
			}
			sum := new(big.Int).Add(acc, k.num())
			r := combine(op, acc, k.num())
			scalarLabels(o, r)
			o.tagIf(op == "add" && sum.Cmp(ref.N) > 0, "wrap")
			o.nt(special(r) || r.BitLen() <= 252 || special(acc) || special(k.num()) || op == "add" && sum.Cmp(ref.N) > 0 || k.Path != c.Keys[0].Path)
			for _, pair := range [][2]*btc.PrivateKey{{b, accLib}, {accLib, b}} {
				x, err := libCombine(op, pair[0], pair[1])
				if err != nil {
					return fmt.Errorf("%s of %s and %s: error %q", op, pair[0].Hex, pair[1].Hex, err)
				}
				if err := checkPriv(x, r, ref.WIF(c.Net.privByte(), r, false), c.Net); err != nil {
					return fmt.Errorf("%s of %s and %s: %v", op, pair[0].Hex, pair[1].Hex, err)
				}
				o.hold(func() error { return checkPriv(x, r, ref.WIF(c.Net.privByte(), r, false), c.Net) })
				if pair[0] == accLib {
					accLib = x
				}
			}
			acc = r
		}
		return nil
	},
})

type c08 struct {
	A    Key    `json:"a"`
	B    Key    `json:"b"`
	NetA Net    `json:"netA"`
	NetB Net    `json:"netB"`
	Op   string `json:"op"`
	Same bool   `json:"same,omitempty"` // pass the same object twice
}

// flipCaseNet reports networks that differ in letter case only: undefined.
func ambiguousNets(a, b Net) bool { return !a.same(b) && isNet(a.lib(), b) }

func genNetPair(t *rapid.T, label string) (Net, Net) {
	a := genNet(t, label)
	b := a
	rel := weighted(t, label+"-rel", "equal*6", "copy*3", "priv*3", "pub*3", "other*3", "swap")
	switch rel {
	case "copy":
		v := a.value()
		b = Net{"custom", v.PrivKeyPrefix, v.PubKeyHashPrefix}
	case "priv", "pub":
		v := a.value()
		b = Net{"custom", v.PrivKeyPrefix, v.PubKeyHashPrefix}
		h := fmt.Sprintf("%02X", uniformBytes(t, 1, label+"-x")[0])
		if rapid.Bool().Draw(t, label+"-near") { // one bit away
			which := a.privByte()
			if rel == "pub" {
				which = a.pubByte()
			}
			h = fmt.Sprintf("%02X", which^1<<uint(uniformInt(t, 8, label+"-bit")))
		}
		if rel == "priv" {
			b.Priv = h
		} else {
			b.Pub = h
		}
	case "other":
		b = genNet(t, label+"-b")
	case "swap":
		v := a.value()
		b = Net{"custom", v.PubKeyHashPrefix, v.PrivKeyPrefix}
	}
	return a, b
}

var _ = register(&spec[c08]{
	ID:    "C08",
	Rule:  "the pair must be refused, or nearly must: one bit or one prefix away, look-alike WIFs, or equal networks in separate objects",
	Quick: 90000, Thorough: 900000,
	Gen: func(t *rapid.T) c08 {
		c := c08{A: genKey(t, "a"), B: genKey(t, "b"), Op: pick(t, "op", "add", "mul")}
		c.NetA, c.NetB = genNetPair(t, "net")
		a := c.A.num()
		switch weighted(t, "rel", "free*2", "same*6", "opposite*4", "bit*3", "inverse*2", "near*3", "look*3", "ends*2", "sameobj", "twin*2", "perm*1") {
		case "twin":
			w := drawTwin(t, twins.Keys, "w")
			c.A.K, c.B.K = w.A, w.B
		case "perm":
			if b := (dice{uint32(uniformInt(t, 1<<30, "perm"))}).permuted(ref.Bytes32(a)); ref.ValidScalar(b) {
				c.B.K = ref.Hex64(b)
			}
		case "same":
			c.B.K = c.A.K
		case "sameobj":
			c.B, c.NetB, c.Same = c.A, c.NetA, true
		case "opposite":
			c.B.K = ref.Hex64(new(big.Int).Sub(ref.N, a))
		case "near": // next to equal or opposite
			d := big.NewInt(int64(pick(t, "d", -2, -1, 1, 2)))
			b := new(big.Int).Add(a, d)
			if rapid.Bool().Draw(t, "opp") {
				b.Sub(ref.N, b)
			}
			if ref.ValidScalar(b) {
				c.B.K = ref.Hex64(b)
			}
		case "inverse":
			c.B.K = ref.Hex64(new(big.Int).ModInverse(a, ref.N))
		case "bit":
			b := new(big.Int).Set(a)
			i := uniformInt(t, 256, "bit")
			b.SetBit(b, i, b.Bit(i)^1)
			if ref.ValidScalar(b) {
				c.B.K = ref.Hex64(b)
			}
		case "ends": // agree in many leading or trailing bytes
			b := uniformBytes(t, 32, "b")
			n := 1 + uniformInt(t, 31, "n")
			ab := ref.Bytes32(a)
			if rapid.Bool().Draw(t, "lead") {
				copy(b[:n], ab[:n])
			} else {
				copy(b[32-n:], ab[32-n:])
			}
			if v := new(big.Int).SetBytes(b); ref.ValidScalar(v) {
				c.B.K = ref.Hex64(v)
			}
		case "look":
			if len(tables.Lookalikes) > 0 {
				e := tables.Lookalikes[uniformInt(t, len(tables.Lookalikes), "i")]
				c.A = Key{e.A, pick(t, "pa", "hex", "wif")}
				c.B = Key{e.B, pick(t, "pb", "hex", "wif")}
				c.NetA = mainNet
				if e.Version == "ef" {
					c.NetA = testNet
				}
				c.NetB = c.NetA
			}
		}
		if ambiguousNets(c.NetA, c.NetB) {
			c.NetB = c.NetA
		}
		return c
	},
	Sib: func(c c08, d dice) (c08, bool) {
		switch d.n(4, "what") {
		case 0:
			c.Op = map[string]string{"add": "mul", "mul": "add"}[c.Op]
		case 1:
			if c.Same {
				return c, false
			}
			c.B.K = d.scalar(c.B.num())
		case 2:
			if c.Same {
				return c, false
			}
			c.NetB = d.net(c.NetB)
		case 3:
			if c.Same {
				return c, false
			}
			c.B.K, c.NetB = c.A.K, c.NetA
		}
		return c, true
	},
	Run: func(c c08, o *obs) error {
		a, err := c.A.build(c.NetA)
		if err != nil {
			return err
		}
		b, err := c.B.build(c.NetB)
		if err != nil {
			return err
		}
		if c.Same {
			b = a
		}
		if ambiguousNets(c.NetA, c.NetB) {
			return nil
		}
		r := combine(c.Op, c.A.num(), c.B.num())
		why := ""
		switch {
		case !c.NetA.same(c.NetB):
			why = "their networks differ"
		case c.A.num().Cmp(c.B.num()) == 0:
			why = "they are the same key"
		case r.Sign() == 0:
			why = "the result is zero"
		}
		o.tag("refuse: " + why)
		o.nt(why != "" || c.NetA.Kind != c.NetB.Kind || c.NetA.Kind == "custom" || new(big.Int).Xor(c.A.num(), c.B.num()).BitLen() < 128)
		for _, pr := range [][2]*btc.PrivateKey{{a, b}, {b, a}} {
			x, err := libCombine(c.Op, pr[0], pr[1])
			if why != "" {
				if err == nil || x != nil {
					return fmt.Errorf("%s of %s (%v) and %s (%v) = %s, error %v; it must be refused: %s", c.Op, pr[0].Hex, pr[0].Network, pr[1].Hex, pr[1].Network, showPriv(x), err, why)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("%s of %s (%s) and %s (%s) on equal networks: error %q", c.Op, pr[0].Hex, pr[0].WIF, pr[1].Hex, pr[1].WIF, err)
			}
			if err := checkPriv(x, r, ref.WIF(c.NetA.privByte(), r, false), c.NetA); err != nil {
				return fmt.Errorf("%s of %s and %s: %v", c.Op, pr[0].Hex, pr[1].Hex, err)
			}
		}
		return nil
	},
})

type c09 struct {
	K    string `json:"k"` // 64 digits, may be zero
	Path string `json:"path"`
	Net  Net    `json:"net"`
}

var _ = register(&spec[c09]{
	ID:    "C09",
	Rule:  "the scalar is of a rare shape (near 0, n, n/2 or a power of two, short, sparse, dense, tabled), or zero",
	Quick: 2100, Thorough: 40000,
	Enum: func(tier string, yield func(c09) bool) {
		n := int64(24)
		if tier == "thorough" {
			n = 600
		}
		half := new(big.Int).Rsh(ref.N, 1)
		for i := int64(0); i <= n; i++ {
			d := big.NewInt(i)
			for _, k := range []*big.Int{d, new(big.Int).Sub(ref.N, d), new(big.Int).Add(half, d), new(big.Int).Sub(half, d)} {
				if i == 0 && k.Cmp(ref.N) == 0 {
					continue
				}
				if !yield(c09{ref.Hex64(k), "hex", mainNet}) {
					return
				}
			}
		}
		for i := uint(0); i < 256; i++ {
			if !yield(c09{ref.Hex64(new(big.Int).Lsh(one, i)), "hex", testNet}) {
				return
			}
		}
		for _, e := range tables.Keys {
			if !yield(c09{e.Key, "hex", mainNet}) {
				return
			}
		}
		for _, l := range []*big.Int{ref.Lambda, new(big.Int).Sub(ref.N, ref.Lambda), new(big.Int).Exp(ref.Lambda, big.NewInt(2), ref.N)} {
			for d := int64(-2); d <= 2; d++ {
				if !yield(c09{ref.Hex64(new(big.Int).Add(l, big.NewInt(d))), "hex", mainNet}) {
					return
				}
			}
		}
	},
	Gen: func(t *rapid.T) c09 {
		c := c09{genScalar(t, "k"), genPath(t, "path"), genNet(t, "net")}
		if weighted(t, "used", "no*9", "yes") == "yes" {
			c.Path = "repub"
		}
		return c
	},
	Sib: func(c c09, d dice) (c09, bool) {
		k := hexToInt(c.K)
		if k.Sign() == 0 {
			return c, false
		}
		if d.n(4, "what") == 0 {
			c.Net = d.net(c.Net)
		} else {
			c.K = d.scalar(k)
		}
		return c, true
	},
	Run: func(c c09, o *obs) error {
		k := hexToInt(c.K)
		if k.Sign() == 0 {
			o.tag("zero")
			o.nt(true)
			p := &btc.PrivateKey{Key: new(big.Int), Hex: c.K, WIF: ref.WIF(c.Net.privByte(), k, false), Network: c.Net.lib()}
			if q, ok := p.GetPublicKey(); ok {
				return fmt.Errorf("the zero key has the public key %s", showPub(q))
			}
			return nil
		}
		scalarLabels(o, k)
		half := new(big.Int).Rsh(ref.N, 1)
		o.nt(special(k) || new(big.Int).Sub(k, half).BitLen() < 16)
		p, err := (Key{c.K, c.Path}).build(c.Net)
		if err != nil { // not this property's concern
			o.tag("operand-literal")
			p = &btc.PrivateKey{Key: k, Hex: c.K, WIF: ref.WIF(c.Net.privByte(), k, false), Network: c.Net.lib()}
		}
		q, ok := p.GetPublicKey()
		if !ok {
			return fmt.Errorf("no public key for %s", c.K)
		}
		if err := checkPub(q, ref.BaseMult(k), c.Net); err != nil {
			return fmt.Errorf("public key of %s: %v", c.K, err)
		}
		o.hold(func() error { return checkPub(q, ref.BaseMult(k), c.Net) })
		return nil
	},
})

type c10 struct {
	P    Pt     `json:"p"`
	Q    Pt     `json:"q"`
	NetP Net    `json:"netP"`
	NetQ Net    `json:"netQ"`
	How  string `json:"how"` // lit, unc, cmp, refit, reset: how operands are made
	Same bool   `json:"same,omitempty"`
}

// pubOf makes a public key object of a point.
func pubOf(p ref.Point, n Net, how string) (*btc.PublicKey, error) {
	l := n.lib()
	var k *btc.PublicKey
	var err error
	switch how {
	case "lit":
		return &btc.PublicKey{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y), Network: l}, nil
	case "refit", "reset": // an object that was another key before, and was used as such
		k = &btc.PublicKey{X: ref.G().X, Y: ref.G().Y, Network: l}
		if how == "reset" {
			text := ref.Hex(ref.SEC1(ref.G(), true))
			if k, err = btc.PublicFromHex(text, l); err != nil || k == nil {
				return nil, fmt.Errorf("PublicFromHex(%q): %v", text, err)
			}
		}
		k.Format(true)
		k.Format(false)
		k.Address(true)
		k.Address(false)
		btc.AddPublicKeys(k, k, true)
		if how == "refit" {
			k.X, k.Y = new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
		} else {
			k.X.Set(p.X)
			k.Y.Set(p.Y)
		}
		return k, nil
	case "unc", "cmp":
		text := ref.Hex(ref.SEC1(p, how == "cmp"))
		k, err = btc.PublicFromHex(text, l)
		if err == nil && k == nil {
			err = fmt.Errorf("no key and no error")
		}
		if err != nil {
			return nil, fmt.Errorf("PublicFromHex(%q): %v", text, err)
		}
		if err := checkPub(k, p, n); err != nil {
			return nil, fmt.Errorf("PublicFromHex(%q): %v", text, err)
		}
		return k, nil
	}
	internalf("unknown construction %q", how)
	return nil, nil
}

var _ = register(&spec[c10]{
	ID:    "C10",
	Rule:  "the points are equal, opposite, share a coordinate, are small multiples of each other, differ in network, or a point involved has a coordinate with a leading zero byte",
	Quick: 7500, Thorough: 80000,
	Gen: func(t *rapid.T) c10 {
		p := genPoint(t, "p")
		pp := p.point()
		q := pp
		c := c10{P: p, How: weighted(t, "how", "lit*3", "unc*3", "cmp*3", "refit", "reset")}
		c.NetP, c.NetQ = genNetPair(t, "net")
		switch weighted(t, "rel", "free*4", "same*3", "opposite*3", "double*2", "mult*3", "lambda*3", "result*4", "g*2", "sameobj", "negmult*2") {
		case "free":
			q = genPoint(t, "q").point()
		case "sameobj":
			c.Same, c.NetQ = true, c.NetP
		case "opposite":
			q = pp.Neg()
		case "double":
			q = ref.Mult(big.NewInt(2), pp)
			if rapid.Bool().Draw(t, "neg") {
				q = q.Neg()
			}
		case "mult":
			q = ref.Mult(big.NewInt(int64(rapid.IntRange(2, 40).Draw(t, "m"))), pp)
		case "negmult":
			q = ref.Mult(big.NewInt(int64(rapid.IntRange(2, 40).Draw(t, "m"))), pp).Neg()
		case "lambda":
			q = ref.Mult(ref.Lambda, pp)
			if rapid.Bool().Draw(t, "sq") {
				q = ref.Mult(ref.Lambda, q)
			}
			if rapid.Bool().Draw(t, "neg") {
				q = q.Neg()
			}
		case "result":
			q = ref.Add(genPoint(t, "r").point(), pp.Neg())
			if q.Inf {
				q = pp
			}
		case "g":
			q = ref.BaseMult(big.NewInt(int64(rapid.IntRange(1, 20).Draw(t, "m"))))
		}
		c.Q = toPt(q)
		if ambiguousNets(c.NetP, c.NetQ) {
			c.NetQ = c.NetP
		}
		return c
	},
	Sib: func(c c10, d dice) (c10, bool) {
		if c.Same {
			c.P = d.point(c.P)
			c.Q = c.P
			return c, true
		}
		switch d.n(5, "what") {
		case 0:
			c.P = d.point(c.P)
		case 1:
			c.Q = d.point(c.Q)
		case 2:
			c.P, c.Q = d.point(c.P), d.point(c.Q)
		case 3:
			c.NetP = d.net(c.NetP)
			c.NetQ = c.NetP
		case 4:
			c.NetQ = d.net(c.NetQ)
		}
		return c, true
	},
	Run: func(c c10, o *obs) error {
		pp, qq := c.P.point(), c.Q.point()
		if ambiguousNets(c.NetP, c.NetQ) {
			return nil
		}
		p, err := pubOf(pp, c.NetP, c.How)
		if err != nil {
			return err
		}
		q, err := pubOf(qq, c.NetQ, c.How)
		if err != nil {
			return err
		}
		if c.Same {
			q = p
		}
		sum := ref.Add(pp, qq)
		why := ""
		switch {
		case !c.NetP.same(c.NetQ):
			why = "their networks differ"
		case sum.Inf:
			why = "the sum is the point at infinity"
		}
		shared := pp.X.Cmp(qq.X) == 0 || pp.Y.Cmp(qq.Y) == 0
		short := func(r ref.Point) bool { return !r.Inf && (r.X.BitLen() <= 248 || r.Y.BitLen() <= 248) }
		o.tag("refuse: " + why)
		o.tagIf(pp.Equal(qq), "doubling")
		o.tagIf(shared && !pp.Equal(qq) && !sum.Inf, "same-y")
		o.tagIf(short(sum), "short-result")
		o.nt(why != "" || shared || short(pp) || short(qq) || short(sum) || c.NetP.Kind != c.NetQ.Kind)
		for i, pr := range [][2]*btc.PublicKey{{p, q}, {q, p}} {
			for _, comp := range []bool{i == 0, i == 1} {
				r, err := btc.AddPublicKeys(pr[0], pr[1], comp)
				if why != "" {
					if err == nil || r != nil {
						return fmt.Errorf("AddPublicKeys(%s, %s, %v) = %s, error %v; it must be refused: %s", showPub(pr[0]), showPub(pr[1]), comp, showPub(r), err, why)
					}
					continue
				}
				if err != nil {
					return fmt.Errorf("AddPublicKeys(%s, %s, %v): error %q", showPub(pr[0]), showPub(pr[1]), comp, err)
				}
				if err := checkPub(r, sum, c.NetP); err != nil {
					return fmt.Errorf("AddPublicKeys(%s, %s, %v): %v", showPub(pr[0]), showPub(pr[1]), comp, err)
				}
				o.hold(func() error { return checkPub(r, sum, c.NetP) })
			}
		}
		return nil
	},
})

type c11 struct {
	Keys  []Key `json:"keys"`
	Pairs []int `json:"pairs"` // grouping: at each step, which adjacent pair is joined
	Flip  []int `json:"flip"`  // operand order at each step
	Net   Net   `json:"net"`
}

var _ = register(&spec[c11]{
	ID:    "C11",
	Rule:  "at least three keys are combined, or the keys came by different paths",
	Quick: 330, Thorough: 5000,
	Gen: func(t *rapid.T) c11 {
		c := c11{Net: genNet(t, "net")}
		n := rapid.IntRange(1, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			k := genKey(t, "k")
			if i > 0 && twinOf[c.Keys[i-1].K] != "" {
				k.K = twinOf[c.Keys[i-1].K]
			} else if i > 0 && weighted(t, "rel", "free*6", "neg", "near", "same", "lambda") != "free" {
				prev := c.Keys[i-1].num()
				v := new(big.Int).Sub(ref.N, prev)
				switch uniformInt(t, 5, "rk") {
				case 1:
					v.Add(prev, one)
				case 2:
					v.Set(prev)
				case 3: // the point with the same y
					v.Mul(prev, ref.Lambda).Mod(v, ref.N)
				case 4: // twice the point
					v.Lsh(prev, 1).Mod(v, ref.N)
				}
				if ref.ValidScalar(v) {
					k.K = ref.Hex64(v)
				}
			}
			c.Keys = append(c.Keys, k)
		}
		for m := n; m > 1; m-- {
			c.Pairs = append(c.Pairs, uniformInt(t, m-1, "pair"))
			c.Flip = append(c.Flip, uniformInt(t, 2, "flip"))
		}
		return c
	},
	Sib: func(c c11, d dice) (c11, bool) {
		if d.n(2, "use") == 0 {
			return c, false
		}
		if d.n(3, "what") == 0 {
			c.Net = d.net(c.Net)
			return c, true
		}
		c.Keys = append([]Key{}, c.Keys...)
		i := d.n(len(c.Keys), "key")
		c.Keys[i].K = d.scalar(c.Keys[i].num())
		return c, true
	},
	Run: func(c c11, o *obs) error {
		type node struct {
			k    *big.Int
			priv *btc.PrivateKey
			pub  *btc.PublicKey
			acc  *btc.PublicKey // reached by adding public keys only
		}
		check := func(p *btc.PublicKey, k *big.Int, what string) error {
			want := ref.BaseMult(k)
			if err := checkPub(p, want, c.Net); err != nil {
				return fmt.Errorf("%s for key %s: %v", what, ref.Hex64(k), err)
			}
			for _, comp := range []bool{true, false} {
				a, err := p.Address(comp)
				if err != nil {
					return fmt.Errorf("%s for key %s: address: %v", what, ref.Hex64(k), err)
				}
				if w := ref.Address(c.Net.pubByte(), want, comp); a != w {
					return fmt.Errorf("%s for key %s: address %s, want %s", what, ref.Hex64(k), a, w)
				}
			}
			return nil
		}
		derive := func(p *btc.PrivateKey, k *big.Int, how string) (*btc.PublicKey, error) {
			q, ok := p.GetPublicKey()
			if !ok {
				return nil, fmt.Errorf("no public key for %s obtained by %s", ref.Hex64(k), how)
			}
			return q, check(q, k, "public key of a private key obtained by "+how)
		}
		var nodes []node
		paths := map[string]bool{}
		for _, k := range c.Keys {
			p, err := k.build(c.Net)
			if err != nil {
				return err
			}
			q, err := derive(p, k.num(), k.Path)
			if err != nil {
				return err
			}
			paths[k.Path] = true
			o.tag("path-" + k.Path)
			nodes = append(nodes, node{k.num(), p, q, q})
		}
		o.nt(len(c.Keys) >= 3 || len(paths) > 1)
		for i, at := range c.Pairs {
			must(at+1 < len(nodes) && i < len(c.Flip), "malformed case")
			a, b := nodes[at], nodes[at+1]
			if c.Flip[i] == 1 {
				a, b = b, a
			}
			k := combine("add", a.k, b.k)
			if k.Sign() == 0 || a.k.Cmp(b.k) == 0 {
				o.tag("undefined-step")
				nodes = append(nodes[:at+1], nodes[at+2:]...) // drop the second
				continue
			}
			p, err := btc.AddPrivateKeys(a.priv, b.priv)
			if err != nil {
				return fmt.Errorf("AddPrivateKeys(%s, %s): error %q", a.priv.Hex, b.priv.Hex, err)
			}
			q, err := derive(p, k, "addition")
			if err != nil {
				return err
			}
			acc, err := btc.AddPublicKeys(a.acc, b.acc, c.Flip[i] == 1)
			if err != nil {
				return fmt.Errorf("AddPublicKeys(%s, %s): error %q", showPub(a.acc), showPub(b.acc), err)
			}
			if err := check(acc, k, "sum of public keys"); err != nil {
				return err
			}
			o.tag("joined")
			nodes[at] = node{k, p, q, acc}
			nodes = append(nodes[:at+1], nodes[at+2:]...)
		}
		return nil
	},
})
