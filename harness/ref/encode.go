package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"math/bits"
	"strings"
)

const hexDigits = "0123456789abcdef"

// Hex encodes bytes in lower case.
func Hex(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		sb.WriteByte(hexDigits[c>>4])
		sb.WriteByte(hexDigits[c&15])
	}
	return sb.String()
}

// Unhex decodes hex strictly: an even number of ASCII hex digits, nothing else.
func Unhex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	out := make([]byte, 0, len(s)/2)
	for i := 0; i < len(s); i += 2 {
		var v byte
		for _, c := range []byte{s[i], s[i+1]} {
			var d byte
			switch {
			case c >= '0' && c <= '9':
				d = c - '0'
			case c >= 'a' && c <= 'f':
				d = c - 'a' + 10
			case c >= 'A' && c <= 'F':
				d = c - 'A' + 10
			default:
				return nil, false
			}
			v = v<<4 | d
		}
		out = append(out, v)
	}
	return out, true
}

// Bytes32 is the 32-byte big-endian form.
func Bytes32(k *big.Int) []byte {
	b := k.Bytes()
	out := make([]byte, 32)
	copy(out[32-len(b):], b)
	return out
}

// Hex64 is the 64-digit lower-case form.
func Hex64(k *big.Int) string { return Hex(Bytes32(k)) }

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// B58Encode encodes bytes in Base58 (Bitcoin alphabet).
func B58Encode(b []byte) string {
	n := new(big.Int).SetBytes(b)
	var rev []byte
	r, base := new(big.Int), big.NewInt(58)
	for n.Sign() > 0 {
		n.DivMod(n, base, r)
		rev = append(rev, b58[r.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		rev = append(rev, b58[0])
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return string(rev)
}

// B58Decode decodes Base58; the empty string is not Base58.
func B58Decode(s string) ([]byte, bool) {
	if s == "" {
		return nil, false
	}
	n, base := new(big.Int), big.NewInt(58)
	zeros, lead := 0, true
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(b58, s[i])
		if d < 0 {
			return nil, false
		}
		if lead && d == 0 {
			zeros++
		} else {
			lead = false
		}
		n.Mul(n, base)
		n.Add(n, big.NewInt(int64(d)))
	}
	return append(make([]byte, zeros), n.Bytes()...), true
}

// Sha256d is double SHA-256.
func Sha256d(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

// B58CheckEncode appends the checksum and encodes.
func B58CheckEncode(payload []byte) string {
	return B58Encode(append(append([]byte{}, payload...), Sha256d(payload)[:4]...))
}

// B58CheckDecode verifies and strips the checksum.
func B58CheckDecode(s string) ([]byte, bool) {
	b, ok := B58Decode(s)
	if !ok || len(b) < 4 {
		return nil, false
	}
	payload, sum := b[:len(b)-4], b[len(b)-4:]
	if string(Sha256d(payload)[:4]) != string(sum) {
		return nil, false
	}
	return payload, true
}

// WIF encodes a private key.
func WIF(version byte, k *big.Int, compressed bool) string {
	p := append([]byte{version}, Bytes32(k)...)
	if compressed {
		p = append(p, 1)
	}
	return B58CheckEncode(p)
}

// ParseWIF decodes a WIF for the network with the given version byte.
func ParseWIF(version byte, s string) (k *big.Int, compressed, ok bool) {
	p, ok := B58CheckDecode(s)
	if !ok {
		return nil, false, false
	}
	switch {
	case len(p) == 33:
	case len(p) == 34 && p[33] == 1:
		compressed = true
	default:
		return nil, false, false
	}
	if p[0] != version {
		return nil, false, false
	}
	k = new(big.Int).SetBytes(p[1:33])
	if !ValidScalar(k) {
		return nil, false, false
	}
	return k, compressed, true
}

// ParseHexKey decodes a private key given as exactly 64 hex digits.
func ParseHexKey(s string) (*big.Int, bool) {
	if len(s) != 64 {
		return nil, false
	}
	b, ok := Unhex(s)
	if !ok {
		return nil, false
	}
	k := new(big.Int).SetBytes(b)
	return k, ValidScalar(k)
}

// SEC1 serialises a public key.
func SEC1(p Point, compressed bool) []byte {
	if !compressed {
		return append(append([]byte{4}, Bytes32(p.X)...), Bytes32(p.Y)...)
	}
	return append([]byte{2 + byte(p.Y.Bit(0))}, Bytes32(p.X)...)
}

// ParseSEC1Hex parses hex of a 33-byte 02/03 or 65-byte 04 key.
func ParseSEC1Hex(s string) (Point, bool) {
	b, ok := Unhex(s)
	if !ok {
		return Point{}, false
	}
	switch {
	case len(b) == 65 && b[0] == 4:
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		return Point{X: x, Y: y}, OnCurve(x, y)
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		return LiftX(new(big.Int).SetBytes(b[1:]), b[0] == 3)
	}
	return Point{}, false
}

// Hash160 is RIPEMD-160(SHA-256(b)).
func Hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	return ripemd160(h[:])
}

// Address is the P2PKH address.
func Address(version byte, p Point, compressed bool) string {
	return B58CheckEncode(append([]byte{version}, Hash160(SEC1(p, compressed))...))
}

var (
	rmdR1 = [80]uint8{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	rmdR2 = [80]uint8{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	rmdS1 = [80]uint8{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	rmdS2 = [80]uint8{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	rmdK1 = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	rmdK2 = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
)

func rmdF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

func ripemd160(msg []byte) []byte {
	m := append(append([]byte{}, msg...), 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = binary.LittleEndian.AppendUint64(m, uint64(len(msg))*8)
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	for ; len(m) > 0; m = m[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(m[4*i:])
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		a2, b2, c2, d2, e2 := a, b, c, d, e
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a+rmdF(j, b, c, d)+x[rmdR1[j]]+rmdK1[j/16], int(rmdS1[j])) + e
			a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
			t = bits.RotateLeft32(a2+rmdF(79-j, b2, c2, d2)+x[rmdR2[j]]+rmdK2[j/16], int(rmdS2[j])) + e2
			a2, e2, d2, c2, b2 = e2, d2, bits.RotateLeft32(c2, 10), b2, t
		}
		h[0], h[1], h[2], h[3], h[4] = h[1]+c+d2, h[2]+d+e2, h[3]+e+a2, h[4]+a+b2, h[0]+b+c2
	}
	var out []byte
	for _, v := range h {
		out = binary.LittleEndian.AppendUint32(out, v)
	}
	return out
}
