package main

import (
	"crypto/sha256"
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"unicode"

	"aaa.verif/harness/ref"
	"github.com/aureleoules/btc"
	"pgregory.net/rapid"
)

//go:embed tables.json
var tablesRaw []byte

var tables struct {
	Keys []struct {
		Key string `json:"key"`
		Why string `json:"why"`
	} `json:"keys"`
	Entropies  map[string][]string `json:"entropies"`
	Lookalikes []struct {
		Version    string `json:"version"`
		Compressed bool   `json:"compressed"`
		A          string `json:"a"`
		B          string `json:"b"`
	} `json:"lookalikes"`
}

var (
	tableEntropies = map[int][]string{} // by length in bytes
	whyOf          = map[string]string{}
)

func loadTables() {
	if err := json.Unmarshal(tablesRaw, &tables); err != nil {
		internalf("tables: %v", err)
	}
	for _, id := range sortedKeys(tables.Entropies) {
		for _, e := range tables.Entropies[id] {
			tableEntropies[len(e)/2] = append(tableEntropies[len(e)/2], e)
		}
	}
	for _, k := range tables.Keys {
		whyOf[k.Key] = k.Why
	}
	loadTwins()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// S is a byte string that survives JSON.
type S string

// MarshalJSON quotes as Go does, so that any bytes round-trip.
func (s S) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(s))) }

// UnmarshalJSON is the inverse.
func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	*s = S(u)
	return err
}

func must(ok bool, what string) {
	if !ok {
		internalf("%s", what)
	}
}

func unhex(s string) []byte {
	b, ok := ref.Unhex(s)
	must(ok, "bad hex in case: "+s)
	return b
}

func hexToInt(s string) *big.Int { return new(big.Int).SetBytes(unhex(s)) }

// expand derives n pseudo-random bytes from a drawn value.
func expand(seed string, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d", seed, i)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

// uniformBytes draws bytes without rapid's bias towards small values.
func uniformBytes(t *rapid.T, n int, label string) []byte {
	a := rapid.Uint64().Draw(t, label)
	b := rapid.Uint64().Draw(t, label)
	c := rapid.Uint64().Draw(t, label)
	var s [24]byte
	binary.BigEndian.PutUint64(s[:], a)
	binary.BigEndian.PutUint64(s[8:], b)
	binary.BigEndian.PutUint64(s[16:], c)
	return expand(string(s[:]), n)
}

// uniformInt draws from [0,n) nearly uniformly.
func uniformInt(t *rapid.T, n int, label string) int {
	return int(binary.BigEndian.Uint64(uniformBytes(t, 8, label)) % uint64(n))
}

func pick[T any](t *rapid.T, label string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, label) }

// weighted picks a name; entries are "name*weight".
func weighted(t *rapid.T, label string, entries ...string) string {
	var xs []string
	for _, e := range entries {
		n, w, ok := strings.Cut(e, "*")
		k := 1
		if ok {
			k, _ = strconv.Atoi(w)
		}
		for ; k > 0; k-- {
			xs = append(xs, n)
		}
	}
	return xs[uniformInt(t, len(xs), label)]
}

var one = big.NewInt(1)

// genScalar draws a private key in [1, n-1] as 64 hex digits.
func genScalar(t *rapid.T, label string) string {
	k := genInt256(t, label)
	// map into [1, n-1] keeping in-range values unchanged
	if !ref.ValidScalar(k) {
		k.Mod(k, new(big.Int).Sub(ref.N, one))
		k.Add(k, one)
	}
	return ref.Hex64(k)
}

// genInt256 draws from [0, 2^256) with emphasis on structure.
func genInt256(t *rapid.T, label string) *big.Int {
	l := label
	k := new(big.Int)
	if useDict(t, l) {
		return k.SetBytes(dictBytes(t, l, uniformBytes(t, 32, l)))
	}
	small := func() *big.Int { return big.NewInt(int64(rapid.IntRange(0, 600).Draw(t, l+"-d"))) }
	switch weighted(t, l+"-kind", "uniform*6", "small*2", "near-n*3", "near-half*1", "pow2*2", "bitlen*4", "sparse*2", "dense*2", "pattern*2", "tail*3", "table*4", "digits*1", "head*2", "twin*2") {
	case "uniform":
		k.SetBytes(uniformBytes(t, 32, l))
	case "small":
		k.SetUint64(rapid.Uint64Range(1, 1<<20).Draw(t, l))
	case "near-n":
		k.Sub(ref.N, small())
		k.Sub(k, one)
	case "near-half":
		k.Rsh(ref.N, uint(rapid.IntRange(1, 3).Draw(t, l+"-sh")))
		k.Add(k, small())
		k.Sub(k, big.NewInt(3))
	case "pow2":
		k.Lsh(one, uint(uniformInt(t, 256, l+"-sh")))
		k.Add(k, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, l+"-d"))))
		k.Abs(k)
	case "bitlen":
		n := uniformInt(t, 256, l+"-bits") + 1
		k.SetBytes(uniformBytes(t, 32, l))
		k.Rsh(k, uint(256-n))
		k.SetBit(k, n-1, 1)
	case "sparse":
		for i := rapid.IntRange(1, 4).Draw(t, l+"-n"); i > 0; i-- {
			k.SetBit(k, uniformInt(t, 256, l+"-bit"), 1)
		}
	case "dense":
		k.Sub(new(big.Int).Lsh(one, uint(1+uniformInt(t, 256, l+"-len"))), one)
		for i := rapid.IntRange(0, 3).Draw(t, l+"-n"); i > 0; i-- {
			k.SetBit(k, uniformInt(t, 256, l+"-bit"), 0)
		}
	case "pattern":
		n := rapid.IntRange(1, 4).Draw(t, l+"-n")
		pat := uniformBytes(t, n, l)
		b := make([]byte, 32)
		for i := range b {
			b[i] = pat[i%n]
		}
		k.SetBytes(b)
	case "tail": // trailing bytes of interest
		b := uniformBytes(t, 32, l)
		n := rapid.IntRange(1, 8).Draw(t, l+"-n")
		f := pick(t, l+"-fill", byte(1), byte(0), byte(0), byte(0x80), byte(0xff))
		for i := 32 - n; i < 32; i++ {
			b[i] = f
		}
		if f == 1 && n > 1 {
			for i := 32 - n; i < 31; i++ {
				b[i] = 0
			}
		}
		k.SetBytes(b)
	case "head": // leading bytes of interest
		b := uniformBytes(t, 32, l)
		n := rapid.IntRange(1, 20).Draw(t, l+"-n")
		f := pick(t, l+"-fill", byte(0), byte(0), byte(1), byte(0x0f), byte(0x80), byte(0xef), byte(0xff))
		for i := 0; i < n; i++ {
			b[i] = f
		}
		k.SetBytes(b)
	case "table":
		k = hexToInt(tables.Keys[uniformInt(t, len(tables.Keys), l+"-i")].Key)
	case "twin":
		k = hexToInt(drawTwin(t, twins.Keys, l).either(t, l))
	case "digits": // hex text that consists of decimal digits only, or letters only
		set := pick(t, l+"-set", "0123456789", "abcdef", "e0123456789", "01")
		var sb strings.Builder
		for _, c := range uniformBytes(t, 64, l) {
			sb.WriteByte(set[int(c)%len(set)])
		}
		k = hexToInt(sb.String())
	}
	return k.Mod(k, new(big.Int).Lsh(one, 256))
}

// special says whether a scalar is of a shape uniform sampling hardly produces.
func special(k *big.Int) bool {
	b := ref.Bytes32(k)
	d := new(big.Int).Sub(ref.N, k)
	return b[0] == 0 || b[31] == 0 || b[31] == 1 || d.BitLen() < 16 || popcount(k) < 20 || popcount(k) > 236 || whyOf[ref.Hex64(k)] != ""
}

func popcount(k *big.Int) int {
	n := 0
	for i := 0; i < k.BitLen(); i++ {
		n += int(k.Bit(i))
	}
	return n
}

func scalarLabels(o *obs, k *big.Int) {
	b := ref.Bytes32(k)
	d := new(big.Int).Sub(ref.N, k)
	o.tagIf(b[0] == 0, "leading-zero-byte")
	o.tagIf(b[0] < 16 && b[0] > 0, "leading-zero-nibble")
	o.tagIf(b[31] == 1, "trailing-01")
	o.tagIf(b[31] == 0, "trailing-00")
	o.tagIf(d.BitLen() < 16, "near-n")
	o.tagIf(k.BitLen() < 24, "small")
	if w := whyOf[ref.Hex64(k)]; w != "" {
		o.tag("table")
	}
}

// recase changes the letter case of a text by a drawn rule.
func recase(mode int, s string) string {
	switch mode {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	h := expand(fmt.Sprint("case", mode, s), len(s))
	b := []byte(strings.ToLower(s))
	for i := range b {
		if h[i]&1 == 1 {
			b[i] = byte(unicode.ToUpper(rune(b[i])))
		}
	}
	return string(b)
}

func genCase(t *rapid.T, label string) int { return rapid.IntRange(0, 9).Draw(t, label) }

// Net names a network.
type Net struct {
	Kind string `json:"kind"`           // main, test, custom
	Priv string `json:"priv,omitempty"` // hex of one byte, any case
	Pub  string `json:"pub,omitempty"`
}

var (
	mainNet = Net{Kind: "main"}
	testNet = Net{Kind: "test"}
)

// lib gives the library's object: the built-in one, or a fresh custom one.
func (n Net) lib() *btc.Network {
	switch n.Kind {
	case "main":
		return btc.MainNetwork
	case "test":
		return btc.TestNetwork
	}
	return &btc.Network{PrivKeyPrefix: n.Priv, PubKeyHashPrefix: n.Pub}
}

func (n Net) privByte() byte {
	switch n.Kind {
	case "main":
		return 0x80
	case "test":
		return 0xef
	}
	return unhex(n.Priv)[0]
}

func (n Net) pubByte() byte {
	switch n.Kind {
	case "main":
		return 0
	case "test":
		return 0x6f
	}
	return unhex(n.Pub)[0]
}

// same compares networks by the bytes and text they consist of.
func (n Net) same(m Net) bool {
	a, b := n.value(), m.value()
	return a == b
}

func (n Net) value() btc.Network {
	switch n.Kind {
	case "main":
		return btc.Network{PrivKeyPrefix: "80", PubKeyHashPrefix: "00"}
	case "test":
		return btc.Network{PrivKeyPrefix: "EF", PubKeyHashPrefix: "6F"}
	}
	return btc.Network{PrivKeyPrefix: n.Priv, PubKeyHashPrefix: n.Pub}
}

// isNet says whether the library's network object is the network n.
func isNet(l *btc.Network, n Net) bool {
	return l != nil && strings.EqualFold(l.PrivKeyPrefix, n.value().PrivKeyPrefix) && strings.EqualFold(l.PubKeyHashPrefix, n.value().PubKeyHashPrefix)
}

// genNet draws a network; upper restricts custom prefixes to upper-case hex.
func genNet(t *rapid.T, label string) Net {
	switch weighted(t, label, "main*3", "test*3", "custom*3", "alt*1") {
	case "main":
		return mainNet
	case "test":
		return testNet
	case "alt": // well-known other coins
		return pick(t, label+"-alt", Net{"custom", "B0", "30"}, Net{"custom", "9E", "1E"}, Net{"custom", "00", "00"}, Net{"custom", "FF", "FF"}, Net{"custom", "01", "05"}, Net{"custom", "0A", "0F"})
	}
	b := uniformBytes(t, 2, label+"-b")
	if useDict(t, label) {
		b = dictBytes(t, label, b)
	}
	h := strings.ToUpper(ref.Hex(b))
	if rapid.Bool().Draw(t, label+"-lower") {
		h = strings.ToLower(h)
	}
	return Net{"custom", h[:2], h[2:]}
}

// Key is a private key to be built through a given path of the API.
type Key struct {
	K    string `json:"k"`
	Path string `json:"path"` // hex, HEX, mix, wif, wifc, add, mul
}

func (k Key) num() *big.Int { return hexToInt(k.K) }

func genPath(t *rapid.T, label string) string {
	return weighted(t, label, "hex*4", "HEX", "mix", "wif*2", "wifc*2", "add", "mul", "lit", "refit", "reset")
}

func genKey(t *rapid.T, label string) Key {
	return Key{K: genScalar(t, label), Path: genPath(t, label+"-path")}
}

// wifText is the WIF the built key must carry.
func (k Key) wifText(n Net) string { return ref.WIF(n.privByte(), k.num(), k.Path == "wifc") }

// build makes the key with the library. Failure of a step is a violation of the
// import or combination properties, reported as such by the caller.
func (k Key) build(n Net) (*btc.PrivateKey, error) { return k.buildOn(n, n.lib()) }

func (k Key) buildOn(n Net, l *btc.Network) (*btc.PrivateKey, error) {
	v := k.num()
	must(ref.ValidScalar(v), "scalar out of range in case")
	var p *btc.PrivateKey
	var err error
	switch k.Path {
	case "hex":
		p, err = btc.PrivateFromHex(recase(0, k.K), l)
	case "HEX":
		p, err = btc.PrivateFromHex(recase(1, k.K), l)
	case "mix":
		p, err = btc.PrivateFromHex(recase(2, k.K), l)
	case "wif", "wifc":
		p, err = btc.PrivateFromWIF(k.wifText(n), l)
	case "lit":
		return &btc.PrivateKey{Key: new(big.Int).Set(v), Hex: ref.Hex64(v), WIF: k.wifText(n), Network: l}, nil
	case "refit", "reset", "repub": // an object that was another key before, and was used as such
		a, _ := split(v, "add")
		if p, err = btc.PrivateFromHex(ref.Hex64(a), l); err != nil || p == nil {
			break
		}
		if k.Path == "repub" {
			p.GetPublicKey()
		}
		if k.Path != "reset" {
			p.Key = new(big.Int).Set(v)
		} else {
			p.Key.Set(v)
		}
		p.Hex, p.WIF = ref.Hex64(v), k.wifText(n)
	case "add", "mul":
		a, b := split(v, k.Path)
		var pa, pb *btc.PrivateKey
		if pa, err = btc.PrivateFromHex(ref.Hex64(a), l); err != nil {
			break
		}
		if pb, err = btc.PrivateFromHex(ref.Hex64(b), l); err != nil {
			break
		}
		if k.Path == "add" {
			p, err = btc.AddPrivateKeys(pa, pb)
		} else {
			p, err = btc.MultiplyPrivateKeys(pa, pb)
		}
	default:
		internalf("unknown path %q", k.Path)
	}
	if err == nil && p == nil {
		err = fmt.Errorf("no key and no error")
	}
	if err != nil {
		return nil, fmt.Errorf("obtaining key %s by %s on network %v: %v", k.K, k.Path, n, err)
	}
	return p, nil
}

// split writes v as a sum or product of two different valid scalars.
func split(v *big.Int, op string) (a, b *big.Int) {
	for i := 0; ; i++ {
		a = new(big.Int).SetBytes(expand(fmt.Sprintf("split%d%s", i, v), 32))
		if !ref.ValidScalar(a) {
			continue
		}
		if op == "add" {
			b = new(big.Int).Sub(v, a)
		} else {
			b = new(big.Int).ModInverse(a, ref.N)
			b.Mul(b, v)
		}
		b.Mod(b, ref.N)
		if ref.ValidScalar(b) && a.Cmp(b) != 0 {
			return a, b
		}
	}
}

// checkPriv compares a private key with the model.
func checkPriv(p *btc.PrivateKey, k *big.Int, wif string, n Net) error {
	switch {
	case p == nil:
		return fmt.Errorf("no key returned, want %s", ref.Hex64(k))
	case p.Key == nil || p.Key.Cmp(k) != 0:
		return fmt.Errorf("number is %v, want %v (%s)", p.Key, k, ref.Hex64(k))
	case !strings.EqualFold(p.Hex, ref.Hex64(k)):
		return fmt.Errorf("hex is %q, want %q", p.Hex, ref.Hex64(k))
	case p.WIF != wif:
		return fmt.Errorf("WIF is %q, want %q", p.WIF, wif)
	case !isNet(p.Network, n):
		return fmt.Errorf("network is %v, want %v", p.Network, n.value())
	}
	return nil
}

// checkPub compares a public key with the model.
func checkPub(p *btc.PublicKey, want ref.Point, n Net) error {
	switch {
	case p == nil:
		return fmt.Errorf("no public key returned")
	case p.X == nil || p.Y == nil:
		return fmt.Errorf("public key without coordinates: %v %v", p.X, p.Y)
	case p.X.Cmp(want.X) != 0 || p.Y.Cmp(want.Y) != 0:
		return fmt.Errorf("public key is (%x, %x), want (%x, %x)", p.X, p.Y, want.X, want.Y)
	case !isNet(p.Network, n):
		return fmt.Errorf("network is %v, want %v", p.Network, n.value())
	}
	return nil
}

// Pt is a curve point given by its uncompressed SEC1 hex.
type Pt string

func (p Pt) point() ref.Point {
	q, ok := ref.ParseSEC1Hex(string(p))
	must(ok, "case holds a point off the curve: "+string(p))
	return q
}

func toPt(p ref.Point) Pt { return Pt(ref.Hex(ref.SEC1(p, false))) }

// genPoint draws a curve point: of a drawn scalar, or with a drawn x or y.
func genPoint(t *rapid.T, label string) Pt {
	switch weighted(t, label+"-pk", "scalar*8", "x*7", "y*7", "twin*2") {
	case "twin":
		return toPt(ref.BaseMult(hexToInt(drawTwin(t, publicTwins, label).either(t, label))))
	case "x":
		x := genFieldElem(t, label+"-x")
		odd := rapid.Bool().Draw(t, label+"-odd")
		for {
			if p, ok := ref.LiftX(x, odd); ok {
				return toPt(p)
			}
			x.Add(x, one)
			x.Mod(x, ref.P)
		}
	case "y":
		y := genFieldElem(t, label+"-y")
		for {
			if p, ok := ref.LiftY(y, rapid.IntRange(0, 2).Draw(t, label+"-root")); ok {
				return toPt(p)
			}
			y.Add(y, one)
			y.Mod(y, ref.P)
		}
	}
	return toPt(ref.BaseMult(hexToInt(genScalar(t, label))))
}

// genFieldElem draws from [0, p).
func genFieldElem(t *rapid.T, label string) *big.Int {
	if weighted(t, label+"-top", "no*4", "yes*1") == "yes" {
		// in [n, p) or just below p
		x := new(big.Int).Sub(ref.P, big.NewInt(int64(1+rapid.IntRange(0, 2000).Draw(t, label+"-d"))))
		if rapid.Bool().Draw(t, label+"-n") {
			x.Add(ref.N, big.NewInt(int64(rapid.IntRange(0, 2000).Draw(t, label+"-d2"))))
		}
		return x
	}
	x := genInt256(t, label)
	return x.Mod(x, ref.P)
}
