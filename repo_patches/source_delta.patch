From 47a9e954b8f5a5d3667432e6eee085e333004f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:07 +0000
Subject: [PATCH 01/18] fix: CheckWIF panics on text that decodes to less than
 4 bytes

---
 private_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/private_key.go b/private_key.go
index 2c61000..01024e8 100644
--- a/private_key.go
+++ b/private_key.go
@@ -18,6 +18,11 @@ func CheckWIF(wif string) bool {
 		return false
 	}
 
+	/* The checksum alone is 4 bytes long */
+	if len(bytes) < 4 {
+		return false
+	}
+
 	hexa := hex.EncodeToString(bytes)
 	checksum := hexa[len(hexa)-8 : len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
-- 
2.43.0


From acafa650e597a13b93a7a05b653a643c2a52882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:09 +0000
Subject: [PATCH 02/18] fix: PrivateFromWIF reads a wrong key from compressed
 WIFs and payloads that are not 32 bytes

---
 private_key.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/private_key.go b/private_key.go
index 01024e8..346753e 100644
--- a/private_key.go
+++ b/private_key.go
@@ -60,9 +60,22 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 
 	hexa := hex.EncodeToString(bytes)
 
+	/* At least a network byte and the checksum */
+	if len(bytes) < 5 {
+		return nil, errors.New("wif invalid")
+	}
+
 	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
 
+	/* A trailing 01 byte means that the public key is compressed, it is not part of the key */
+	if len(hexa) == 66 && hexa[64:66] == "01" {
+		hexa = hexa[0:64]
+	}
+	if len(hexa) != 64 {
+		return nil, errors.New("wif invalid")
+	}
+
 	var privateKey PrivateKey
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
-- 
2.43.0


From 6a315cb4e4a10e9a89d7d5b9bf05127e798b6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:12 +0000
Subject: [PATCH 03/18] fix: PrivateFromWIF imports keys of other networks

---
 private_key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/private_key.go b/private_key.go
index 346753e..87a2a1c 100644
--- a/private_key.go
+++ b/private_key.go
@@ -65,6 +65,10 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 		return nil, errors.New("wif invalid")
 	}
 
+	if network != nil && !strings.EqualFold(hexa[0:2], network.PrivKeyPrefix) {
+		return nil, errors.New("different network")
+	}
+
 	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
 
-- 
2.43.0


From fa681e9ddce79c8ea03b7ae9c5092feddd4db4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:35 +0000
Subject: [PATCH 04/18] fix: AddPrivateKeys and MultiplyPrivateKeys lose
 leading zeros of the result

---
 private_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/private_key.go b/private_key.go
index 87a2a1c..f44d49e 100644
--- a/private_key.go
+++ b/private_key.go
@@ -170,6 +170,9 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
@@ -191,6 +194,9 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
-- 
2.43.0


From 18a329eee0ae8c538f5eb0c911dbb6e92bc60a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:38 +0000
Subject: [PATCH 05/18] fix: PrivateFromHex and PrivateFromWIF import values
 that are not private keys

---
 private_key.go | 10 ++++++++++
 util.go        |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/private_key.go b/private_key.go
index f44d49e..fbc5f97 100644
--- a/private_key.go
+++ b/private_key.go
@@ -84,6 +84,9 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
 	privateKey.Key, _ = new(big.Int).SetString(hexa, 16)
+	if !isValidKey(privateKey.Key) {
+		return nil, errors.New("private key is out of range")
+	}
 	privateKey.Network = network
 
 	return &privateKey, nil
@@ -92,6 +95,10 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 // PrivateFromHex imports a private key from its hex value
 func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 
+	if len(hexa) != 64 {
+		return nil, errors.New("private key must be 64 hex digits long")
+	}
+
 	var p PrivateKey
 	p.Key, _ = new(big.Int).SetString(hexa, 16)
 	p.Hex = hexa
@@ -103,6 +110,9 @@ func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 		/* Retry */
 		return nil, err
 	}
+	if !isValidKey(p.Key) {
+		return nil, errors.New("private key is out of range")
+	}
 	/* Compute first hash */
 	sha := sha256.New()
 
diff --git a/util.go b/util.go
index 3b7fa9b..a3e2053 100644
--- a/util.go
+++ b/util.go
@@ -19,3 +19,8 @@ func generateRandomBigInt() *big.Int {
 func bigIntToHex(n *big.Int) string {
 	return fmt.Sprintf("%x", n)
 }
+
+/* isValidKey checks that a private key is between 1 and N - 1 */
+func isValidKey(key *big.Int) bool {
+	return key != nil && key.Sign() > 0 && key.Cmp(secp256k1.N) < 0
+}
-- 
2.43.0


From 09c5bbec8b4a52e5949ae580ad06409327ea2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:40 +0000
Subject: [PATCH 06/18] fix: identical private keys are told apart by their WIF
 text instead of their value

---
 private_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index fbc5f97..bb5e32a 100644
--- a/private_key.go
+++ b/private_key.go
@@ -171,7 +171,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
@@ -195,7 +195,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
-- 
2.43.0


From 2caed75a0cfdcf5dba4cf1b941c47ac978f331da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:09 +0000
Subject: [PATCH 07/18] fix: GetPublicKey ends the process for the private key
 N - 1

---
 public_key.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 99d8cec..777e343 100644
--- a/public_key.go
+++ b/public_key.go
@@ -60,12 +60,23 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	var publicKey PublicKey
 
-	R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
+	/* ScalarMult ends the process when an intermediate sum is the point at infinity,
+	   which happens for N - 1, so use kG = -(N - k)G for the upper half of the keys */
+	key := new(big.Int).Mod(p.Key, secp256k1.N)
+	negate := key.Cmp(new(big.Int).Rsh(secp256k1.N, 1)) > 0
+	if negate {
+		key.Sub(secp256k1.N, key)
+	}
+
+	R, valid := secp256k1.ScalarMult(key, secp256k1.G)
 	if !valid {
 		return nil, false
 	}
 	publicKey.X = R.X
 	publicKey.Y = R.Y
+	if negate {
+		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
+	}
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From fa3ed009870a30bbf4505881d636d010bcd4edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:12 +0000
Subject: [PATCH 08/18] fix: GetPublicKey returns the numbers of the generator
 point for the private key 1

---
 public_key.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/public_key.go b/public_key.go
index 777e343..bd61fd7 100644
--- a/public_key.go
+++ b/public_key.go
@@ -72,10 +72,11 @@ func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	if !valid {
 		return nil, false
 	}
-	publicKey.X = R.X
-	publicKey.Y = R.Y
+	/* For the keys 1 and N - 1, R is the generator itself, which must not be shared */
+	publicKey.X = new(big.Int).Set(R.X)
+	publicKey.Y = new(big.Int).Set(R.Y)
 	if negate {
-		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
+		publicKey.Y.Sub(secp256k1.P, R.Y)
 	}
 
 	publicKey.Network = p.Network
-- 
2.43.0


From 3c072c4ac789c7bf6848f62da04d326e98e377ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:14 +0000
Subject: [PATCH 09/18] fix: PublicFromHex panics on malformed text and imports
 points that are not on the curve

---
 public_key.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/public_key.go b/public_key.go
index bd61fd7..bf8ab97 100644
--- a/public_key.go
+++ b/public_key.go
@@ -18,21 +18,33 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 	var publicKey PublicKey
 	publicKey.Network = network
 
+	if _, err := hex.DecodeString(hexa); err != nil {
+		return nil, err
+	}
+	if len(hexa) != 66 && len(hexa) != 130 {
+		return nil, errors.New("unsupported public key format")
+	}
+
 	prefix := hexa[0:2]
 
-	if prefix == "04" {
+	if prefix == "04" && len(hexa) == 130 {
 		/* Uncompressed */
 		x := hexa[2:66]
 		y := hexa[66:130]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
 
-	} else if prefix == "03" || prefix == "02" {
+		onCurve := secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y})
+		if !onCurve || publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
+
+	} else if (prefix == "03" || prefix == "02") && len(hexa) == 66 {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 
 		y, onCurve := secp256k1.GetY(publicKey.X)
-		if !onCurve {
+		if !onCurve || publicKey.X.Cmp(secp256k1.P) >= 0 {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
 
-- 
2.43.0


From 57709f74087004656d904d90a3f7867af585db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:17 +0000
Subject: [PATCH 10/18] fix: data race between concurrent PublicFromHex calls

---
 public_key.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index bf8ab97..ff04fed 100644
--- a/public_key.go
+++ b/public_key.go
@@ -43,7 +43,11 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 
-		y, onCurve := secp256k1.GetY(publicKey.X)
+		/* GetY writes to the A of its curve, so it must not be called on the shared one */
+		curve := secp256k1
+		curve.A = new(big.Int).Set(secp256k1.A)
+
+		y, onCurve := curve.GetY(publicKey.X)
 		if !onCurve || publicKey.X.Cmp(secp256k1.P) >= 0 {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
-- 
2.43.0


From e7e08ce3b9af52685c39fb1e7e802528414cb141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 11/18] fix: AddPublicKeys ends the process when the public
 keys are opposite

---
 public_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/public_key.go b/public_key.go
index ff04fed..57c3ddb 100644
--- a/public_key.go
+++ b/public_key.go
@@ -208,6 +208,11 @@ func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, e
 		Y: p2.Y,
 	}
 
+	/* AddPoints ends the process if the sum is the point at infinity */
+	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
+		return nil, errors.New("public keys are opposite")
+	}
+
 	r, onCurve := secp256k1.AddPoints(point1, point2)
 	if !onCurve {
 		return nil, errors.New("point is not on curve")
-- 
2.43.0


From 92e150e5e6e3c46ffec5384cdac535df316e6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:50 +0000
Subject: [PATCH 12/18] fix: NewMnemonic encodes the bits of the phrase in
 reverse order

---
 mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 722a4ee..d1773bf 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -133,7 +133,7 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	for i := 0; i < len(b); i += 11 {
 		str := ""
 		for j := i; j-i < 11; j++ {
-			if binary.Bit(j) == 0 {
+			if binary.Bit(len(b)-1-j) == 0 {
 				str += "0"
 			} else {
 				str += "1"
-- 
2.43.0


From 58f873ec64ccf73c89e5ea3de6d96b7e97558192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 13/18] fix: NewMnemonic takes a wrong checksum when the hash
 has leading zeros

---
 mnemonic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mnemonic.go b/mnemonic.go
index d1773bf..0795c5b 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -118,6 +118,9 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	hashInt := new(big.Int).SetBytes(hash)
 
 	hashBinary := fmt.Sprintf("%b", hashInt)
+	for len(hashBinary) < 256 {
+		hashBinary = "0" + hashBinary
+	}
 	checksumBinary := hashBinary[0:checksumLength]
 
 	b := fmt.Sprintf("%b", entropy)
-- 
2.43.0


From 637e104bfcf0ea6c2c7b0907f99eb9cc7bc4af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:55 +0000
Subject: [PATCH 14/18] fix: NewMnemonic takes a wrong checksum when the
 entropy has leading zero bytes

---
 mnemonic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 0795c5b..53ed3fc 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -110,7 +110,10 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	}
 
 	sha := sha256.New()
-	sha.Write(entropy.Bytes())
+	/* Keep the leading zeros of the entropy */
+	entropyBytes := entropy.Bytes()
+	sha.Write(make([]byte, entropyLength/8-len(entropyBytes)))
+	sha.Write(entropyBytes)
 	hash := sha.Sum(nil)
 
 	checksumLength := entropyLength / 32
-- 
2.43.0


From f12ec070347243e9a4343d7918b82f85afced1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:57 +0000
Subject: [PATCH 15/18] fix: NewMnemonic panics on word lists that do not have
 2048 words

---
 mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 53ed3fc..c6716fb 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -76,7 +76,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 // NewMnemonic generates a new mnemonic phrase
 func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 
-	if wordlist == nil {
+	if len(wordlist) != 2048 {
 		return "", errors.New("invalid wordlist")
 	}
 
-- 
2.43.0


From 1fd5e8d91efa7bc1cb0c808c68d57068379e6e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:00 +0000
Subject: [PATCH 16/18] fix: NewSeedFromMnemonic panics on, or refuses, phrases
 that are not 24 words long

---
 mnemonic.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index c6716fb..03e4695 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -13,7 +13,17 @@ import (
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
+	if len(wordlist) != 2048 {
+		return nil, errors.New("invalid wordlist")
+	}
+
 	words := strings.Split(mnemonic, " ")
+	switch len(words) {
+	case 12, 15, 18, 21, 24:
+	default:
+		return nil, errors.New("unsupported mnemonic length")
+	}
+
 	binary := ""
 	for _, word := range words {
 		index := -1
@@ -35,6 +45,11 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		binary += indexBinary
 	}
 
+	/* The last bit of every 33 bits belongs to the checksum */
+	checksumLength := len(binary) / 33
+	checksum := binary[len(binary)-checksumLength:]
+	binary = binary[0 : len(binary)-checksumLength]
+
 	hash := ""
 	for i := 0; i < len(binary); i += 4 {
 		n := ""
@@ -47,10 +62,8 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		hash += hexa
 	}
 
-	checksum := hash[len(hash)-2 : len(hash)]
-
 	sha := sha256.New()
-	decoded, err := hex.DecodeString(hash[0 : len(hash)-2])
+	decoded, err := hex.DecodeString(hash)
 	if err != nil {
 		return nil, err
 	}
@@ -58,17 +71,17 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 	shaHash := sha.Sum(nil)
 
 	shaHashBig := new(big.Int).SetBytes(shaHash)
-	shaHashHex := bigIntToHex(shaHashBig)
+	shaHashBinary := fmt.Sprintf("%b", shaHashBig)
 
-	for len(shaHashHex) < 64 {
-		shaHashHex = "0" + shaHashHex
+	for len(shaHashBinary) < 256 {
+		shaHashBinary = "0" + shaHashBinary
 	}
 
-	if shaHashHex[0:2] != checksum {
+	if shaHashBinary[0:checksumLength] != checksum {
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashHex, len(shaHashHex))
+	log.Println(shaHashBinary, len(shaHashBinary))
 	log.Println(hash, checksum)
 	return nil, nil
 }
-- 
2.43.0


From 72ecdb1a04cc13dd8b3be700b0d12e6abcb8705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:02 +0000
Subject: [PATCH 17/18] fix: NewSeedFromMnemonic logs the secret mnemonic

---
 mnemonic.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 03e4695..abf1212 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -6,7 +6,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"math/big"
 	"strings"
 )
@@ -56,7 +55,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		for j := i; j-i < 4; j++ {
 			n += string(binary[j])
 		}
-		log.Println(n)
 		nInt, _ := new(big.Int).SetString(n, 2)
 		hexa := bigIntToHex(nInt)
 		hash += hexa
@@ -81,8 +79,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashBinary, len(shaHashBinary))
-	log.Println(hash, checksum)
 	return nil, nil
 }
 
-- 
2.43.0


From f9b4c19cac44f7af950dd3e58c9f56cad86c0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:05 +0000
Subject: [PATCH 18/18] fix: NewSeedFromMnemonic returns neither a seed nor an
 error for valid mnemonics

---
 mnemonic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index abf1212..5854f49 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,14 +3,17 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"crypto/sha512"
 	"encoding/hex"
 	"errors"
 	"fmt"
 	"math/big"
 	"strings"
+
+	"golang.org/x/crypto/pbkdf2"
 )
 
-// NewSeedFromMnemonic returns the hash of the mnemonic
+// NewSeedFromMnemonic returns the hash of the mnemonic (BIP-39 seed)
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
 	if len(wordlist) != 2048 {
 		return nil, errors.New("invalid wordlist")
@@ -79,7 +82,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	return nil, nil
+	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
 }
 
 // NewMnemonic generates a new mnemonic phrase
-- 
2.43.0

