package ref

import (
	"fmt"
	"math/big"
)

// SelfTest checks the model against published vectors.
func SelfTest() error {
	chk := func(ok bool, what string) error {
		if !ok {
			return fmt.Errorf("reference model self-test failed: %s", what)
		}
		return nil
	}
	one := big.NewInt(1)
	g := G()
	three := Add(Add(g, g), g)
	nm1 := new(big.Int).Sub(N, one)
	ent := make([]byte, 16)
	abandon := Encode(ent, Words["english"])
	legal := Encode(mustHex("7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f"), Words["english"])
	zoo24 := Encode(mustHex("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), Words["english"])
	k := hexInt("0c28fca386c7a227600b2fe50b7cae11ec86d3bf1fbe471be89827e19d72aa1d")
	lam := BaseMult(Lambda)
	tests := []struct {
		ok   bool
		what string
	}{
		{OnCurve(gx, gy), "generator on curve"},
		{BaseMult(N).Inf && Mult(N, g).Inf, "n*G"},
		{BaseMult(nm1).Equal(g.Neg()), "(n-1)*G"},
		{Add(g, g.Neg()).Inf, "G-G"},
		{BaseMult(big.NewInt(3)).Equal(three), "3G"},
		{Mult(k, g).Equal(BaseMult(k)), "ladder agreement"},
		{Hex64(Add(g, g).X) == "c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5", "2G"},
		{lam.Y.Cmp(gy) == 0 && lam.X.Cmp(mul(Beta, gx)) == 0, "endomorphism"},
		{Hex(ripemd160([]byte("abc"))) == "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc", "ripemd160 abc"},
		{Hex(ripemd160([]byte("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"))) == "12a053384a9c0c88e405a06c27dcf49ada62eb2b", "ripemd160 long"},
		{Address(0, g, true) == "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", "address of 1, compressed"},
		{Address(0, g, false) == "1EHNa6Q4Jz2uvNExL497mE43ikXhwF6kZm", "address of 1, uncompressed"},
		{WIF(0x80, k, false) == "5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ", "WIF of the wiki"},
		{WIF(0x80, k, true) == "KwdMAjGmerYanjeui5SHS7JkmpZvVipYvB2LJGU1ZxJwYvP98617", "compressed WIF of the wiki"},
		{WIF(0x80, one, true) == "KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn", "compressed WIF of 1"},
		{abandon == "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", "BIP-39 zero entropy"},
		{legal == "legal winner thank year wave sausage worth useful legal winner thank yellow", "BIP-39 7f entropy"},
		{zoo24 == "zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo vote", "BIP-39 ff entropy"},
		{Hex(Seed(abandon, "TREZOR")) == "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04", "BIP-39 seed"},
	}
	for _, t := range tests {
		if err := chk(t.ok, t.what); err != nil {
			return err
		}
	}
	if e, ok := Decode(zoo24, Words["english"]); !ok || len(e) != 32 || e[0] != 255 {
		return chk(false, "BIP-39 decode")
	}
	if p, ok := LiftX(gx, false); !ok || !p.Equal(g) {
		return chk(false, "LiftX")
	}
	return nil
}

func mustHex(s string) []byte {
	b, ok := Unhex(s)
	if !ok {
		panic(s)
	}
	return b
}
