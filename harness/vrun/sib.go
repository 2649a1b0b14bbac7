package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"strings"

	"aaa.verif/harness/ref"
)

// A sibling is a case that shares something with another one: the same key on
// another network, the opposite point, a text that ends differently. After a
// case its sibling is run, then the case once more, all against the same
// oracle, so that a library which remembers too much is seen in one case.

// sibling runs the case derived from c, and c again.
func (s *spec[C]) sibling(c C, o *obs) error {
	raw, err := json.Marshal(c)
	must(err == nil, "case cannot be serialised")
	h := fnv.New32a()
	h.Write(raw)
	x, ok := s.Sib(c, dice{h.Sum32()})
	if !ok {
		return nil
	}
	o.tag("with-sibling")
	quiet := &obs{labels: map[string]int{}, known: o.known}
	if err := s.Run(x, quiet); err != nil {
		y, _ := json.Marshal(x)
		return fmt.Errorf("after that case, for %s: %w", y, err)
	}
	if err := o.recheck(); err != nil {
		y, _ := json.Marshal(x)
		return fmt.Errorf("after %s: %w", y, err)
	}
	if err := s.Run(c, quiet); err != nil {
		y, _ := json.Marshal(x)
		return fmt.Errorf("the case again, after %s: %w", y, err)
	}
	return nil
}

// dice makes choices that are a function of the case.
type dice struct{ h uint32 }

func (d dice) n(n int, label string) int {
	h := fnv.New32a()
	fmt.Fprintf(h, "%d%s", d.h, label)
	v := h.Sum32()
	v ^= v >> 15
	v *= 0x2c1b3c6d
	v ^= v >> 12
	return int(v>>4) % n
}

func (d dice) scalar(k *big.Int) string {
	r := new(big.Int)
	b := ref.Bytes32(k)
	if w, ok := twinOf[ref.Hex64(k)]; ok {
		return w
	}
	switch d.n(10, "scalar") {
	case 9:
		r = d.permuted(b)
	case 0, 1:
		r.Sub(ref.N, k)
	case 2: // the low part stays
		copy(b[:8+8*d.n(3, "len")], expand(fmt.Sprint(d.h), 24))
		r.SetBytes(b)
	case 3: // the high part stays
		copy(b[8+8*d.n(3, "len"):], expand(fmt.Sprint(d.h), 24))
		r.SetBytes(b)
	case 4:
		i := d.n(256, "bit")
		r.SetBit(k, i, k.Bit(i)^1)
	case 5:
		r.Add(k, one)
	case 6:
		r.Mul(k, ref.Lambda)
	case 7: // same low word, or same high word
		i := 64*d.n(4, "word") + d.n(64, "bit")
		r.SetBit(k, i, k.Bit(i)^1)
	case 8: // the middle changes
		copy(b[8:24], expand(fmt.Sprint(d.h), 16))
		r.SetBytes(b)
	}
	r.Mod(r, ref.N)
	if r.Sign() == 0 {
		r.Set(one)
	}
	return ref.Hex64(r)
}

func (d dice) net(n Net) Net {
	v := n.value()
	switch d.n(4, "net") {
	case 0:
		return Net{"custom", v.PrivKeyPrefix, fmt.Sprintf("%02X", n.pubByte()^byte(1<<d.n(8, "bit")))}
	case 1:
		return Net{"custom", fmt.Sprintf("%02X", n.privByte()^byte(1<<d.n(8, "bit"))), v.PubKeyHashPrefix}
	}
	if n.same(mainNet) {
		return testNet
	}
	return mainNet
}

func (d dice) point(p Pt) Pt {
	q := p.point()
	if w, ok := twinPoint(q); ok {
		return toPt(w)
	}
	switch d.n(4, "point") {
	case 0: // the same y
		return toPt(ref.Mult(ref.Lambda, q))
	case 1: // the same low half of x, or the same high half
		x := new(big.Int).Set(q.X)
		odd := q.Y.Bit(0) == 1
		step := new(big.Int).Lsh(one, uint(192*d.n(2, "half")))
		for i := 0; i < 64; i++ {
			x.Add(x, step)
			x.Mod(x, ref.P)
			if r, ok := ref.LiftX(x, odd); ok {
				return toPt(r)
			}
		}
	}
	return toPt(q.Neg())
}

// text changes a text a little.
func (d dice) text(s string) string {
	if s == "" {
		return "1"
	}
	if w, ok := twinText(s); ok && d.n(4, "twin") > 0 {
		return w
	}
	i := d.n(len(s), "at")
	switch d.n(8, "text") {
	case 0:
		i = len(s) - 1
	case 1:
		i = 0
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	case 4:
		return s[:len(s)-1]
	case 5:
		return s + s[len(s)-1:]
	}
	b := []byte(s)
	switch c := b[i]; {
	case c == '9' || c == 'z' || c == 'Z' || c == 'f' || c == 'F':
		b[i]--
	default:
		b[i]++
	}
	return string(b)
}
