package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"aaa.verif/harness/ref"
	"pgregory.net/rapid"
)

// The coverage-guided stage: Go's fuzzer mutates the bit stream from which rapid
// draws the case (FuzzCase), or a text handed to the parsers as it is (FuzzText).
// The judge is the property's Run function in both.

// textCase makes a case of the property out of a text.
func textCase(id, s string, sel byte) any {
	net := []Net{mainNet, testNet, {Kind: "custom", Priv: "00", Pub: "05"}}[int(sel>>4)%3]
	list := List(ref.Languages[int(sel)%len(ref.Languages)])
	switch id {
	case "C02":
		return c02{Text: S(s), Net: net}
	case "C04":
		return c04{Text: S(s)}
	case "C05":
		return c05{Text: S(s), Net: net}
	case "C13":
		return c13{Text: S(s), Net: net}
	case "C17":
		return c17{Text: S(s), List: list}
	case "C24":
		return c24{Texts: []S{S(s)}, Count: int(sel), List: list, Net: net, Seed: "f"}
	}
	return nil
}

func judgeFuzz(p property, c any) error {
	raw, err := json.Marshal(c)
	if err != nil {
		return nil
	}
	r := &record{Property: p.id(), Case: raw, Iter: 0}
	b, _ := json.Marshal(r)
	pid := os.Getpid()
	os.WriteFile(filepath.Join(*outDir, fmt.Sprintf("fuzz-%d-journal.json", pid)), b, 0o644)
	o := &obs{labels: map[string]int{}, known: map[string]string{}}
	caseNo.Add(1)
	caseAlive.Store(true)
	err = runCase(p, c, o)
	caseAlive.Store(false)
	fuzzed++
	if o.nontrivial {
		fuzzedNT++
	}
	if fuzzed%64 == 0 {
		os.WriteFile(filepath.Join(*outDir, fmt.Sprintf("fuzz-%d-count.json", pid)), []byte(fmt.Sprintf("[%d,%d]", fuzzed, fuzzedNT)), 0o644)
	}
	if err != nil {
		r.Error = err.Error()
		b, _ := json.Marshal(r)
		os.WriteFile(filepath.Join(*outDir, fmt.Sprintf("fuzz-%d-fail.json", pid)), b, 0o644)
	}
	return err
}

var fuzzed, fuzzedNT int

func fuzzSetup(f *testing.F) property {
	id := os.Getenv("VERIF_FUZZ_PROP")
	if id == "" {
		f.Skip("run by check.py")
	}
	*outDir = os.Getenv("VERIF_FUZZ_OUT")
	*knownFlag = os.Getenv("VERIF_FUZZ_KNOWN")
	loadTables()
	loadDict()
	return getProp(id)
}

func FuzzCase(f *testing.F) {
	p := fuzzSetup(f)
	for i := 0; i < 24; i++ {
		f.Add(expand(fmt.Sprint("fuzz", os.Getenv("VERIF_SEED"), p.id(), i), 6000))
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		if err := judgeFuzz(p, p.draw(t)); err != nil {
			t.Fatalf("%v", err)
		}
	}))
}

func FuzzText(f *testing.F) {
	p := fuzzSetup(f)
	k := hexToInt(ref.Hex(expand("fuzz", 32)))
	pt := ref.BaseMult(k)
	for _, s := range []string{
		"", " ", "1", "z", "02", ref.Hex64(k), strings.ToUpper(ref.Hex64(k)), ref.Hex64(ref.N), ref.Hex64(one), strings.Repeat("0", 64),
		ref.WIF(0x80, k, false), ref.WIF(0x80, k, true), ref.WIF(0xef, k, false), ref.WIF(0xef, k, true), ref.WIF(0, k, true), ref.B58CheckEncode([]byte{0x80}), ref.B58CheckEncode(nil),
		ref.Hex(ref.SEC1(pt, true)), ref.Hex(ref.SEC1(pt, false)), strings.ToUpper(ref.Hex(ref.SEC1(pt, false))),
	} {
		f.Add(s, byte(0))
		f.Add(s, byte(16))
	}
	for i, l := range ref.Languages {
		for _, w := range wordCounts {
			f.Add(encodeAny(w, "fuzz", ref.Words[l]), byte(i))
		}
	}
	f.Add(encodeAny(9, "fuzz", ref.Words["english"]), byte(0))
	f.Fuzz(func(t *testing.T, s string, sel byte) {
		if err := judgeFuzz(p, textCase(p.id(), s, sel)); err != nil {
			t.Fatal(err)
		}
	})
}
