package ref

import (
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"embed"
	"strings"

	"golang.org/x/text/unicode/norm"
)

//go:embed words/*.txt
var wordFS embed.FS

// Languages are the BIP-39 lists, by the file names of the BIP.
var Languages = []string{"english", "french", "japanese", "italian", "spanish", "korean", "czech", "chinese_traditional", "chinese_simplified"}

// Words holds the reference copy of each list.
var Words = map[string][]string{}

// WordsSHA256 are the SHA-256 sums of the published files (one word per line).
var WordsSHA256 = map[string]string{
	"english":             "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda",
	"french":              "ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59",
	"japanese":            "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd",
	"italian":             "d392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2",
	"spanish":             "46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b",
	"korean":              "9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60",
	"czech":               "7e80e161c3e93d9554c2efb78d4e3cebf8fc727e9c52e03b83b94406bdcc95fc",
	"chinese_traditional": "417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f",
	"chinese_simplified":  "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726",
}

func init() {
	for _, l := range Languages {
		b, err := wordFS.ReadFile("words/" + l + ".txt")
		if err != nil {
			panic(err)
		}
		h := sha256.Sum256(b)
		if Hex(h[:]) != WordsSHA256[l] {
			panic("reference word list " + l + " is damaged")
		}
		Words[l] = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	}
}

// EntropyBytes maps a word count to its entropy length (0: unsupported).
func EntropyBytes(words int) int {
	switch words {
	case 12, 15, 18, 21, 24:
		return words / 3 * 4
	}
	return 0
}

// EncodeIndices gives the word indices of an entropy of 4*m bytes: 32*m+m bits.
func EncodeIndices(entropy []byte) []int {
	cs := len(entropy) / 4
	h := sha256.Sum256(entropy)
	bit := func(i int) int {
		b := entropy
		if i >= len(entropy)*8 {
			b, i = h[:], i-len(entropy)*8
		}
		return int(b[i/8]>>(7-i%8)) & 1
	}
	var out []int
	for w := 0; w < (len(entropy)*8+cs)/11; w++ {
		v := 0
		for j := 0; j < 11; j++ {
			v = v<<1 | bit(w*11+j)
		}
		out = append(out, v)
	}
	return out
}

// Encode gives the phrase of an entropy in a word list.
func Encode(entropy []byte, list []string) string {
	var ws []string
	for _, i := range EncodeIndices(entropy) {
		ws = append(ws, list[i])
	}
	return strings.Join(ws, " ")
}

// DecodeIndices checks length and checksum and gives the entropy.
func DecodeIndices(idx []int) ([]byte, bool) {
	n := EntropyBytes(len(idx))
	if n == 0 {
		return nil, false
	}
	ent := make([]byte, n)
	for i := 0; i < n*8; i++ {
		if idx[i/11]>>(10-i%11)&1 == 1 {
			ent[i/8] |= 1 << (7 - i%8)
		}
	}
	want := EncodeIndices(ent)
	for i := range want {
		if want[i] != idx[i] {
			return nil, false
		}
	}
	return ent, true
}

// Decode checks a phrase against a list of distinct words.
func Decode(phrase string, list []string) ([]byte, bool) {
	pos := make(map[string]int, len(list))
	for i, w := range list {
		pos[w] = i
	}
	return DecodeWith(phrase, pos)
}

// DecodeWith is Decode with a prepared word index.
func DecodeWith(phrase string, pos map[string]int) ([]byte, bool) {
	var idx []int
	for _, w := range strings.Split(phrase, " ") {
		i, ok := pos[w]
		if !ok {
			return nil, false
		}
		idx = append(idx, i)
	}
	return DecodeIndices(idx)
}

// NFKD normalises.
func NFKD(s string) string { return norm.NFKD.String(s) }

// NFC normalises.
func NFC(s string) string { return norm.NFC.String(s) }

// SeedRaw is PBKDF2 without normalisation.
func SeedRaw(phrase, pass string) []byte {
	k, err := pbkdf2.Key(sha512.New, phrase, []byte("mnemonic"+pass), 2048, 64)
	if err != nil {
		panic(err)
	}
	return k
}

// Seed is the BIP-39 seed.
func Seed(phrase, pass string) []byte { return SeedRaw(NFKD(phrase), NFKD(pass)) }
