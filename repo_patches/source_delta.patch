From 51d4ff95e39430540fe2b77f54f8ac492f8f12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 01/18] fix: do not treat the minimum int64 as a power of two

IsPowerOfTwo(math.MinInt64) returned true, so Setup(math.MinInt64, g)
went on to allocate a negative number of generators and panicked instead
of returning an error.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index c595a02..a5a09a8 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -128,5 +128,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-	return (x != 0) && ((x & (x - 1)) == 0)
+	return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 7538c0d6d85f0567431827be868948cd187f8529 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 02/18] fix: derive the second Fiat-Shamir challenge from its
 own transcript

HashBP hashed the first buffer twice, so y and z were always equal and the
constraints they are meant to separate were merged into one.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index a5a09a8..487a1c6 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -67,7 +67,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 	buffer2.WriteString(A.String())
 	buffer2.WriteString(S.String())
 	buffer2.WriteString(result1.String())
-	digest2.Write(buffer.Bytes())
+	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
 	tmp2 := output2[0:]
 	result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From bc0e03e350a75b181f857baf375c5704f432d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:08:17 +0000
Subject: [PATCH 03/18] fix: verify the inner product argument against t' and
 our own generators

The range proof verifiers checked the inner product argument with the
inner product and the generators carried by the proof, neither of which was
compared with t' or with the verifier's generators. Anyone could therefore
produce an accepted range proof for a committed value outside the range.
---
 bulletproofs/bp.go      | 12 ++++++++++--
 bulletproofs/multibp.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 19322b3..da9420c 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -324,9 +324,17 @@ func (proof *BulletProof) Verify() (bool, error) {
 	c67 := rP.IsIdentity()
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The argument must be for t' and over our generators, not those in the proof.
+	ipp, err := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if err != nil {
+		return false, err
+	}
+	ipProof := proof.InnerProductProof
+	ipProof.Params = ipp
+	c68 := ipProof.Cc.Cmp(proof.Tprime) == 0
+	ok, _ := ipProof.Verify()
 
-	result := c65 && c67 && ok
+	result := c65 && c67 && c68 && ok
 
 	return result, nil
 }
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1755a02..1dc6a92 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -318,10 +318,18 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	fmt.Println("Check 67:", c67)
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The argument must be for t' and over our generators, not those in the proof.
+	ipp, err := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if err != nil {
+		return false, err
+	}
+	ipProof := proof.InnerProductProof
+	ipProof.Params = ipp
+	c68 := ipProof.Cc.Cmp(proof.Tprime) == 0
+	ok, _ := ipProof.Verify()
 	fmt.Println("Check 68:", ok)
 
-	result := c65 && c67 && ok
+	result := c65 && c67 && c68 && ok
 
 	return result, nil
 }
-- 
2.43.0


From c72f87c64e3006b63e99b2ebb7870930c03a95b6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:08:19 +0000
Subject: [PATCH 04/18] fix: make honest aggregated range proofs verify

MultiProve committed to aR in place of aL, and the verifier added z^(2+j) to
the powers of two instead of multiplying them by it, so no aggregated proof
was ever accepted.
---
 bulletproofs/multibp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1dc6a92..d00d0ab 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -83,7 +83,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 
 	// Commitment: (A, alpha)
 	alpha, _ := rand.Int(rand.Reader, mod)                                                            // (43)
-	A := commitVector(aRConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
+	A := commitVector(aLConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
 
 	// sL, sR and commitment: (S, rho)
 	sL := sampleRandomVector(params.N, params.GP)                                          // (45)
@@ -297,7 +297,7 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	for j := 0; j < m; j++ {
 		hpSlide := hp[j*bitsPerValue : (j+1)*bitsPerValue]
 		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
-		exp := VectorAddConst(powersOfTwo, zp, mod)
+		exp, _ := VectorScalarMul(powersOfTwo, zp, mod)
 		val, _ := VectorExp(hpSlide, exp, params.GP)
 		prod.Add(prod, val)
 	}
-- 
2.43.0


From 843be2ce5c9bb376c0c4d5cf6c45cbc78a7f7041 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:08:20 +0000
Subject: [PATCH 05/18] fix: reject aggregations that do not split the range
 evenly

MultiProve and MultiBulletProof.Verify divided by zero for an empty batch
and dereferenced nil when the batch size does not divide the bit length.
---
 bulletproofs/multibp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index d00d0ab..b2fd509 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -19,6 +19,7 @@ package bulletproofs
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
@@ -54,6 +55,9 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	mod := params.GP.N()
 
 	m := len(secrets)
+	if m == 0 || int(params.N)%m != 0 {
+		return proof, nil, errors.New("number of secrets must divide the bit-length of the range")
+	}
 	bitsPerValue := int(params.N) / m
 
 	commitments := make([]group.Element, m)
@@ -229,6 +233,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	m := len(proof.Vs)
+	if m == 0 || int(params.N)%m != 0 {
+		return false, errors.New("number of commitments must divide the bit-length of the range")
+	}
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-- 
2.43.0


From 0c1d1039530b70c70fb551090c91b37d90aff0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 06/18] fix: check the vote proof against the election's
 parameters

The parameters in a decoded vote proof (challenge length, abort bound,
generators) come from the voter. With a challenge length of 0 the
proof put no constraint on the ballot at all.
---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index 697feeb..5f40c7e 100644
--- a/server.go
+++ b/server.go
@@ -41,6 +41,8 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 	}
 
 	// Verify the consistency of the shifted commitments with the ElGamal ciphertext.
+	// The parameters are those of the election, not those sent by the voter.
+	proofs.VoteProof.Params = rpParams
 	result := proofs.VoteProof.Verify(commitments)
 	durationRP := time.Since(startRP)
 
-- 
2.43.0


From 47e718f971df8da2235fe8901be4186890b34504 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:11:33 +0000
Subject: [PATCH 07/18] fix: encode ristretto255 elements in JSON by their
 binary encoding

The JSON methods assumed an uncompressed Weierstrass encoding; marshalling
panicked on the 32-byte ristretto255 encoding.
---
 group/ristretto255.go | 49 +++++++------------------------------------
 1 file changed, 7 insertions(+), 42 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index 10db44c..eb302a8 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -3,7 +3,6 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
-	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
 )
@@ -156,54 +155,20 @@ func (e *r255Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
-	xVal := big.NewInt(0)
-	yVal := big.NewInt(0)
-
-	// If the point is not 0.
-	if tmp[0] != 0 {
-		xBytes := tmp[1 : 32+1]
-		yBytes := tmp[1+32:]
-		if len(xBytes) != 32 || len(xBytes) != len(yBytes) {
-			return nil, fmt.Errorf("error in underlying binary marshalling")
-		}
-		xVal.SetBytes(xBytes)
-		yVal.SetBytes(yBytes)
-	}
-
-	point := ECPoint{
-		X: xVal,
-		Y: yVal,
+	tmp, err := e.val.MarshalBinary()
+	if err != nil {
+		return nil, err
 	}
-
-	return json.Marshal(&point)
+	return json.Marshal(tmp)
 }
 
 func (e *r255Point) UnmarshalJSON(data []byte) error {
-	point := ECPoint{}
-	err := json.Unmarshal(data, &point)
+	var tmp []byte
+	err := json.Unmarshal(data, &tmp)
 	if err != nil {
 		return err
 	}
-
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
-	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func Ristretto255() Group {
-- 
2.43.0


From 8c54ee98933c23fcf655e78515e5dccfa5d2cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 08/18] fix: encode and decode secp256k1 points faithfully

Leading zero bytes of coordinates were dropped, decoding JSON did nothing,
and decoding bytes accepted points off the curve and panicked on short input.
---
 group/p256k1.go | 55 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 233e702..96ce065 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -3,6 +3,8 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
+	"fmt"
 	"github.com/ing-bank/zkrp/crypto/p256"
 	"math/big"
 )
@@ -151,11 +153,11 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 }
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
-	tmp, _ := p256.MapToGroup(s)
-	tmpX := tmp.X.Bytes()
-	tmpY := tmp.Y.Bytes()
-	res := e.curve.Element().SetBytes(append(tmpX, tmpY...))
-	return res, nil
+	tmp, err := p256.MapToGroup(s)
+	if err != nil {
+		return nil, err
+	}
+	return &p256k1Point{curve: e.curve, val: tmp}, nil
 }
 
 func (e *p256k1Point) String() string {
@@ -170,30 +172,63 @@ func (e *p256k1Point) IsIdentity() bool {
 }
 
 func (e *p256k1Point) MarshalBinary() ([]byte, error) {
+	// Keep the leading zeroes of the coordinates.
 	xBytes := make([]byte, 32)
 	if e.val.X != nil {
-		xBytes = e.val.X.Bytes()
+		e.val.X.FillBytes(xBytes)
 	}
 
 	yBytes := make([]byte, 32)
 	if e.val.Y != nil {
-		yBytes = e.val.Y.Bytes()
+		e.val.Y.FillBytes(yBytes)
 	}
 
 	return append(xBytes, yBytes...), nil
 }
 
 func (e *p256k1Point) UnmarshalBinary(data []byte) error {
-	e.SetBytes(data)
+	if len(data) != 64 {
+		return fmt.Errorf("invalid secp256k1 point length: %d", len(data))
+	}
+	x := new(big.Int).SetBytes(data[:32])
+	y := new(big.Int).SetBytes(data[32:])
+	return e.setCoordinates(x, y)
+}
+
+// setCoordinates sets the receiver to the point (x, y), where (0, 0) stands for
+// the point at infinity. The receiver is unchanged if there is no such point.
+func (e *p256k1Point) setCoordinates(x, y *big.Int) error {
+	val := &p256.P256{X: x, Y: y}
+	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(e.curve.fieldOrder) >= 0 || y.Cmp(e.curve.fieldOrder) >= 0 {
+		return errors.New("secp256k1 coordinates out of range")
+	}
+	if !val.IsZero() && !val.IsOnCurve() {
+		return errors.New("point is not on secp256k1")
+	}
+	e.val = val
 	return nil
 }
 
 func (e *p256k1Point) MarshalJSON() ([]byte, error) {
-	return json.Marshal(e.val)
+	point := ECPoint{X: e.val.X, Y: e.val.Y}
+	// The special case encoding of the point at infinity.
+	if e.IsIdentity() {
+		point.X = big.NewInt(0)
+		point.Y = big.NewInt(0)
+	}
+	return json.Marshal(&point)
 }
 
 func (e *p256k1Point) UnmarshalJSON(data []byte) error {
-	return nil
+	point := ECPoint{}
+	err := json.Unmarshal(data, &point)
+	if err != nil {
+		return err
+	}
+	if point.X == nil || point.Y == nil {
+		return errors.New("missing point coordinate")
+	}
+	return e.setCoordinates(point.X, point.Y)
 }
 
 func SecP256k1() Group {
-- 
2.43.0


From e9e4cb5746a46dbe4ea9838ee707236e35b5fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:12:25 +0000
Subject: [PATCH 09/18] fix: reject malformed P-256 and P-384 points without
 panicking

Absent or oversized coordinates panicked and negative ones were decoded as
their absolute value. Decoding also wrote through the value of the element,
which for a generator is shared by the whole process.
---
 group/p256.go | 25 +++++++++++++++++++------
 group/p384.go | 25 +++++++++++++++++++------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index d329728..1595ee4 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -151,8 +151,14 @@ func (e *p256Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode to a fresh element: the value of a generator is shared.
+	val := group.P256.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
@@ -186,14 +192,22 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if point.X == nil || point.Y == nil {
+		return fmt.Errorf("missing point coordinate")
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
+		return e.UnmarshalBinary([]byte{0})
 	}
 
 	byteLen := 32
 
+	if point.X.Sign() < 0 || point.Y.Sign() < 0 ||
+		point.X.BitLen() > 8*byteLen || point.Y.BitLen() > 8*byteLen {
+		return fmt.Errorf("point coordinate out of range")
+	}
+
 	xBytes := point.X.Bytes()
 	yBytes := point.Y.Bytes()
 
@@ -202,8 +216,7 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P256() Group {
diff --git a/group/p384.go b/group/p384.go
index cd298b1..c88c064 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -151,8 +151,14 @@ func (e *p384Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode to a fresh element: the value of a generator is shared.
+	val := group.P384.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
@@ -186,14 +192,22 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if point.X == nil || point.Y == nil {
+		return fmt.Errorf("missing point coordinate")
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
+		return e.UnmarshalBinary([]byte{0})
 	}
 
 	byteLen := 48
 
+	if point.X.Sign() < 0 || point.Y.Sign() < 0 ||
+		point.X.BitLen() > 8*byteLen || point.Y.BitLen() > 8*byteLen {
+		return fmt.Errorf("point coordinate out of range")
+	}
+
 	xBytes := point.X.Bytes()
 	yBytes := point.Y.Bytes()
 
@@ -202,8 +216,7 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P384() Group {
-- 
2.43.0


From ecb39fa25e79b747469dca04196bc3f410013294 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 10/18] fix: decode only members of the ModP group

Any integer was accepted as a group element, including zero, negative
numbers, and elements outside of the prime-order subgroup.
---
 group/modsafeprime.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 746f4a4..9ae501b 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"math/big"
 	"strings"
 )
@@ -158,7 +159,16 @@ func (e *ModPElement) MarshalBinary() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalBinary(data []byte) error {
-	e.val = new(big.Int).SetBytes(data)
+	return e.setMember(new(big.Int).SetBytes(data))
+}
+
+// setMember sets the receiver to val if it is an element of the group, i.e. a
+// quadratic residue modulo the safe prime. The receiver is unchanged otherwise.
+func (e *ModPElement) setMember(val *big.Int) error {
+	if val.Sign() <= 0 || val.Cmp(e.group.fieldOrder) >= 0 || big.Jacobi(val, e.group.fieldOrder) != 1 {
+		return errors.New("not an element of the group")
+	}
+	e.val = val
 	return nil
 }
 
@@ -167,8 +177,12 @@ func (e *ModPElement) MarshalJSON() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalJSON(data []byte) error {
-	err := e.val.UnmarshalJSON(data)
-	return err
+	val := new(big.Int)
+	err := val.UnmarshalJSON(data)
+	if err != nil {
+		return err
+	}
+	return e.setMember(val)
 }
 
 func NewModPGroup(name string, fieldOrder, generator string) Group {
-- 
2.43.0


From d981be13f9c10105aaa68b45fb46824b1453036c Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:13:47 +0000
Subject: [PATCH 11/18] fix: report malformed elements and values when decoding
 proofs and ballots

Decoding errors were dropped, leaving zero-valued elements and missing
scalars in a ballot that decoded successfully, and unequal array lengths
panicked.
---
 bulletproofs/marshal.go | 64 ++++++++++++++++++++++++++++++-----------
 marshal.go              | 10 +++++--
 voteproof/marshal.go    | 24 ++++++++++------
 3 files changed, 71 insertions(+), 27 deletions(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index 71c14af..b66844f 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -2,6 +2,7 @@ package bulletproofs
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -36,7 +37,11 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProductParams {
+func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) (InnerProductParams, error) {
+	if len(j.Gg) != len(j.Hh) {
+		return InnerProductParams{}, errors.New("different number of generators")
+	}
+
 	params := InnerProductParams{
 		Uu: g.Element(),
 		Gg: make([]group.Element, len(j.Gg)),
@@ -44,18 +49,30 @@ func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProduc
 		GP: g,
 	}
 
-	_ = params.Uu.UnmarshalJSON(j.Uu)
+	err := params.Uu.UnmarshalJSON(j.Uu)
 	for i := range j.Gg {
 		params.Gg[i] = g.Element()
 		params.Hh[i] = g.Element()
-		_ = params.Gg[i].UnmarshalJSON(j.Gg[i])
-		_ = params.Hh[i].UnmarshalJSON(j.Hh[i])
+		err = errors.Join(err, params.Gg[i].UnmarshalJSON(j.Gg[i]))
+		err = errors.Join(err, params.Hh[i].UnmarshalJSON(j.Hh[i]))
 	}
 
-	return params
+	return params, err
 }
 
-func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductProof {
+func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) (InnerProductProof, error) {
+	if len(j.L) != len(j.R) {
+		return InnerProductProof{}, errors.New("different number of L and R elements")
+	}
+	if j.Cc == nil || j.A == nil || j.B == nil {
+		return InnerProductProof{}, errors.New("missing inner product proof value")
+	}
+
+	params, err := ipParamsFromRawMessage(j.Params, g)
+	if err != nil {
+		return InnerProductProof{}, err
+	}
+
 	proof := InnerProductProof{
 		L:      make([]group.Element, len(j.L)),
 		R:      make([]group.Element, len(j.R)),
@@ -63,18 +80,18 @@ func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductP
 		Cc:     j.Cc,
 		A:      j.A,
 		B:      j.B,
-		Params: ipParamsFromRawMessage(j.Params, g),
+		Params: params,
 	}
 
 	for i := range proof.L {
 		proof.L[i] = g.Element()
 		proof.R[i] = g.Element()
-		_ = proof.L[i].UnmarshalJSON(j.L[i])
-		_ = proof.R[i].UnmarshalJSON(j.R[i])
+		err = errors.Join(err, proof.L[i].UnmarshalJSON(j.L[i]))
+		err = errors.Join(err, proof.R[i].UnmarshalJSON(j.R[i]))
 	}
-	_ = proof.P.UnmarshalJSON(j.P)
+	err = errors.Join(err, proof.P.UnmarshalJSON(j.P))
 
-	return proof
+	return proof, err
 }
 
 func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletProof, error) {
@@ -84,6 +101,15 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		return BulletProof{}, err
 	}
 
+	if tmp.Taux == nil || tmp.Mu == nil || tmp.Tprime == nil {
+		return BulletProof{}, errors.New("missing range proof value")
+	}
+
+	ipProof, err := ipProofFromRawMessage(tmp.InnerProductProof, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
 	decodedProof := BulletProof{
 		V:                 params.GP.Element(),
 		A:                 params.GP.Element(),
@@ -93,15 +119,19 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		Taux:              tmp.Taux,
 		Mu:                tmp.Mu,
 		Tprime:            tmp.Tprime,
-		InnerProductProof: ipProofFromRawMessage(tmp.InnerProductProof, params.GP),
+		InnerProductProof: ipProof,
 		Params:            params,
 	}
 
-	_ = decodedProof.V.UnmarshalJSON(tmp.V)
-	_ = decodedProof.A.UnmarshalJSON(tmp.A)
-	_ = decodedProof.S.UnmarshalJSON(tmp.S)
-	_ = decodedProof.T1.UnmarshalJSON(tmp.T1)
-	_ = decodedProof.T2.UnmarshalJSON(tmp.T2)
+	err = errors.Join(err, decodedProof.V.UnmarshalJSON(tmp.V))
+	err = errors.Join(err, decodedProof.A.UnmarshalJSON(tmp.A))
+	err = errors.Join(err, decodedProof.S.UnmarshalJSON(tmp.S))
+	err = errors.Join(err, decodedProof.T1.UnmarshalJSON(tmp.T1))
+	err = errors.Join(err, decodedProof.T2.UnmarshalJSON(tmp.T2))
+
+	if err != nil {
+		return BulletProof{}, err
+	}
 
 	return decodedProof, nil
 }
diff --git a/marshal.go b/marshal.go
index add6ced..5a4564e 100644
--- a/marshal.go
+++ b/marshal.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/bulletproofs"
 	"github.com/takakv/msc-poc/group"
 	"github.com/takakv/msc-poc/voteproof"
@@ -31,14 +32,19 @@ func BallotUnmarshalJSON(b []byte, g group.Group) (ElGamalCiphertext, error) {
 		V: g.Element(),
 	}
 
-	_ = ballot.U.UnmarshalJSON(tmp.U)
-	_ = ballot.V.UnmarshalJSON(tmp.V)
+	err = errors.Join(ballot.U.UnmarshalJSON(tmp.U), ballot.V.UnmarshalJSON(tmp.V))
+	if err != nil {
+		return ElGamalCiphertext{}, err
+	}
 	return ballot, nil
 }
 
 func BallotDataUnmarshalJSON(b []byte, pp PublicParameters) (BallotData, error) {
 	tmp := ballotDataJSON{}
 	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return BallotData{}, err
+	}
 
 	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
 	if err != nil {
diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index efdab93..69ae71e 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -2,6 +2,7 @@ package voteproof
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -50,6 +51,10 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 		return SigmaProof{}, err
 	}
 
+	if tmp.Challenge == nil || tmp.Z == nil || tmp.Sp == nil || tmp.Sq1 == nil || tmp.Sq2 == nil {
+		return SigmaProof{}, errors.New("missing proof value")
+	}
+
 	var ap AlgebraicParameters
 	ap.GFF.G = gFF.Element()
 	ap.GFF.H = gFF.Element()
@@ -62,10 +67,10 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	ap.GEC.F = tmp.Params.GEC.F
 	ap.GEC.I = gEC
 
-	_ = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G)
-	_ = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H)
-	_ = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G)
-	_ = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H)
+	err = errors.Join(err, ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G))
+	err = errors.Join(err, ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H))
+	err = errors.Join(err, ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G))
+	err = errors.Join(err, ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H))
 
 	var pp ProofParams
 	pp.Bx = tmp.Params.Bx
@@ -89,9 +94,12 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	proof.Sq2 = tmp.Sq2
 	proof.Params = pp
 
-	_ = proof.W.UnmarshalJSON(tmp.W)
-	_ = proof.Kp.UnmarshalJSON(tmp.Kp)
-	_ = proof.Kq1.UnmarshalJSON(tmp.Kq1)
-	_ = proof.Kq2.UnmarshalJSON(tmp.Kq2)
+	err = errors.Join(err, proof.W.UnmarshalJSON(tmp.W))
+	err = errors.Join(err, proof.Kp.UnmarshalJSON(tmp.Kp))
+	err = errors.Join(err, proof.Kq1.UnmarshalJSON(tmp.Kq1))
+	err = errors.Join(err, proof.Kq2.UnmarshalJSON(tmp.Kq2))
+	if err != nil {
+		return SigmaProof{}, err
+	}
 	return proof, nil
 }
-- 
2.43.0


From 9088c1202772a6ef516833b6f7e9c44712fcec3b Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 12/18] fix: reject inner product proofs of the wrong shape
 without panicking

---
 bulletproofs/bip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 9b2b63c..4020314 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -223,6 +223,12 @@ func (proof InnerProductProof) Verify() (bool, error) {
 	gprime := proof.Params.Gg
 	hprime := proof.Params.Hh
 
+	// There must be exactly one (L, R) pair for each halving of the generators.
+	if !IsPowerOfTwo(int64(len(gprime))) || len(hprime) != len(gprime) ||
+		len(proof.R) != logn || len(gprime)>>logn != 1 {
+		return false, errors.New("malformed inner product proof")
+	}
+
 	// Fiat-Shamir
 	x, _ = hashIP(gprime, hprime, proof.P, proof.Cc) // (6) & (7)
 
-- 
2.43.0


From d9df7fd83ca216a2647ac263d00bd3e1f15487f7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:14:09 +0000
Subject: [PATCH 13/18] fix: reject challenge lengths that exceed the digest

Setup accepted them, and proving and verifying then panicked.
---
 voteproof/voteproof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index ca42be8..1a2192a 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -89,7 +89,8 @@ func Setup(lenSecret uint8, lenChallenge uint16, groupOrderLog uint16,
 	params.GFF = AP.GFF
 	params.GEC = AP.GEC
 
-	if params.Bb < 1 {
+	// The challenge is cut from a single digest.
+	if params.Bb < 1 || lenChallenge > 8*sha256.Size {
 		return params, errors.New("inconsistent parameter choice")
 	}
 
-- 
2.43.0


From b701d5e6b40a55f13c7e73ac755e8ec16162128d Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 14/18] fix: give the secp256k1 point at infinity a single
 string form

Challenges are derived from it, so equal elements must have equal strings.
---
 group/p256k1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group/p256k1.go b/group/p256k1.go
index 96ce065..222cc89 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -161,6 +161,10 @@ func (e *p256k1Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256k1Point) String() string {
+	// The point at infinity has more than one representation.
+	if e.IsIdentity() {
+		return new(p256.P256).SetInfinity().String()
+	}
 	return e.val.String()
 }
 
-- 
2.43.0


From 6d56eac577a1102fb002947e9a2ea66dd8ca1d54 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 14:48:22 +0000
Subject: [PATCH 15/18] fix: derive the range-proof challenges from the
 commitments and all earlier messages

The challenges y and z did not depend on the commitment, and x did not depend
on the commitment, A and S, so that a prover could choose these after the
challenges and have a commitment to a value outside the range accepted.
---
 bulletproofs/bp.go      |  8 ++++----
 bulletproofs/multibp.go | 10 ++++++----
 bulletproofs/util.go    | 14 ++++++++------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index da9420c..cf2efd6 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -130,7 +130,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(V, A, S) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -187,7 +187,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(V, A, S, T1, T2) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -250,8 +250,8 @@ func (proof *BulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+	y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index b2fd509..a19198f 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -99,7 +99,8 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	transcript := append(commitments[:m:m], A, S)
+	y, z, _ := HashBP(transcript...) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -162,7 +163,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(append(transcript, T1, T2)...) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -239,8 +240,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	transcript := append(proof.Vs[:m:m], proof.A, proof.S)
+	y, z, _ := HashBP(transcript...)
+	x, _, _ := HashBP(append(transcript, proof.T1, proof.T2)...)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 487a1c6..e15a145 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -49,14 +49,15 @@ func powerOf(x *big.Int, n int64, SP group.Group) []*big.Int {
 }
 
 /*
-HashBP is responsible for the computing a Zp element given elements from GT and G1.
+HashBP is responsible for computing two Zp elements given the elements sent so far.
 */
-func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
+func HashBP(elements ...group.Element) (*big.Int, *big.Int, error) {
 
 	digest1 := sha256.New()
 	var buffer bytes.Buffer
-	buffer.WriteString(A.String())
-	buffer.WriteString(S.String())
+	for _, e := range elements {
+		buffer.WriteString(e.String())
+	}
 	digest1.Write(buffer.Bytes())
 	output1 := digest1.Sum(nil)
 	tmp1 := output1[0:]
@@ -64,8 +65,9 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 
 	digest2 := sha256.New()
 	var buffer2 bytes.Buffer
-	buffer2.WriteString(A.String())
-	buffer2.WriteString(S.String())
+	for _, e := range elements {
+		buffer2.WriteString(e.String())
+	}
 	buffer2.WriteString(result1.String())
 	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
-- 
2.43.0


From 89da2db263910a74039dff75095bdb96b420dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 14:49:50 +0000
Subject: [PATCH 16/18] fix: derive the folding challenges from the statement
 and the earlier rounds

The challenge of a round depended on its L and R only, so that a prover could
choose the vectors and the product after the challenges and have an argument
for a wrong product accepted.
---
 bulletproofs/bip.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 4020314..cd3ab97 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -121,7 +121,7 @@ func proveInnerProduct(a, b []*big.Int, P group.Element, c *big.Int, params Inne
 	PP, ux := computePP(P, c, x, params) // (8)
 
 	// Execute Protocol 2 recursively
-	proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs, params.GP) // 9
+	proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, x, n, Ls, Rs, params.GP) // 9
 
 	proof.Params = params
 	proof.P = P
@@ -133,10 +133,10 @@ func proveInnerProduct(a, b []*big.Int, P group.Element, c *big.Int, params Inne
 /*
 computeBipRecursive is the main recursive function that will be used to compute the inner product argument.
 */
-func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Element, n int64, Ls, Rs []group.Element, SP group.Group) InnerProductProof {
+func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Element, x *big.Int, n int64, Ls, Rs []group.Element, SP group.Group) InnerProductProof {
 	var (
 		proof                            InnerProductProof
-		cL, cR, x, xinv, x2, x2inv       *big.Int
+		cL, cR, xinv, x2, x2inv          *big.Int
 		L, R, Lh, Rh, Pprime             group.Element
 		gprime, hprime, gprime2, hprime2 []group.Element
 		aprime, bprime, aprime2, bprime2 []*big.Int
@@ -173,7 +173,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	R.Add(R, SP.Element().Scale(u, cR))
 
 	// Fiat-Shamir:                                                       // (26)
-	x, _, _ = HashBP(L, R)
+	x = hashRound(L, R, x)
 	xinv = bn.ModInverse(x, SP.N())
 
 	// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -204,7 +204,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	Ls = append(Ls, L)
 	Rs = append(Rs, R)
 	// recursion computeBipRecursive(g',h',u,P'; a', b')                  // (35)
-	proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, nprime, Ls, Rs, SP)
+	proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, x, nprime, Ls, Rs, SP)
 
 	return proof
 }
@@ -237,7 +237,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
 	nprime := len(gprime)
 	for i := int64(0); i < int64(logn); i++ {
 		nprime = nprime / 2                      // (20)
-		x, _, _ = HashBP(proof.L[i], proof.R[i]) // (26)
+		x = hashRound(proof.L[i], proof.R[i], x) // (26)
 		xinv = bn.ModInverse(x, proof.Params.GP.N())
 		// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
 		ngprime = vectorScalarExp(gprime[:nprime], xinv, proof.Params.GP)
@@ -291,6 +291,18 @@ func hashIP(g, h []group.Element, P group.Element, c *big.Int) (*big.Int, error)
 	return result, err
 }
 
+/*
+hashRound computes the challenge of a folding round. The previous challenge stands for
+the statement and all earlier rounds.
+*/
+func hashRound(L, R group.Element, x *big.Int) *big.Int {
+	digest := sha256.New()
+	digest.Write([]byte(L.String()))
+	digest.Write([]byte(R.String()))
+	digest.Write([]byte(x.String()))
+	return new(big.Int).SetBytes(digest.Sum(nil))
+}
+
 /*
 commitInnerProduct is responsible for calculating g^a.h^b.
 */
-- 
2.43.0


From 20fed5ed348b1e06eda411c962f18be8ba6ffe0a Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 14:50:02 +0000
Subject: [PATCH 17/18] fix: derive the consistency-proof challenge from the
 statement too

The challenge depended on the first message only, so that a prover could choose
the ciphertext and the commitments after it and have a proof accepted without
knowing a secret.
---
 voteproof/voteproof.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 1a2192a..490c5a4 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -110,10 +110,14 @@ func sigmaPedersenCheck(z, s, c *big.Int, k, x group.Element, gp GroupParameters
 	return left.IsEqual(right)
 }
 
-func getFSChallenge(w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
+func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
 	hasher := sha256.New()
 
 	var buffer bytes.Buffer
+	buffer.WriteString(comm.Y.String())
+	buffer.WriteString(comm.Xp.String())
+	buffer.WriteString(comm.Xq1.String())
+	buffer.WriteString(comm.Xq2.String())
 	buffer.WriteString(w.String())
 	buffer.WriteString(Kp.String())
 	buffer.WriteString(Kq1.String())
@@ -131,6 +135,14 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 	// Exclusive upper bound
 	zUpperBound := new(big.Int).Exp(BigTwo, new(big.Int).Add(bxbc, big.NewInt(int64(params.Bb))), nil)
 
+	// The statement
+	comm := VerCommitments{
+		Y:   params.GFF.I.Element().BaseScale(rp),
+		Xp:  pedersenCommit(secret, rp, params.GFF),
+		Xq1: pedersenCommit(secret, rq1, params.GEC),
+		Xq2: pedersenCommit(secret, rq2, params.GEC),
+	}
+
 	// Abort loop
 	for {
 		// Setup
@@ -149,7 +161,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		Kq2 := pedersenCommit(kq, tq2, params.GEC)
 
 		// Challenge
-		challenge := getFSChallenge(w, Kp, Kq1, Kq2, params.Bc)
+		challenge := getFSChallenge(comm, w, Kp, Kq1, Kq2, params.Bc)
 		z := new(big.Int).Add(k, new(big.Int).Mul(challenge, secret))
 		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
 			fmt.Println("Aborted")
@@ -193,7 +205,7 @@ func (proof *SigmaProof) Verify(comm VerCommitments) bool {
 	}
 
 	// Verify challenge correctness.
-	challenge := getFSChallenge(proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
+	challenge := getFSChallenge(comm, proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
 	if challenge.Cmp(proof.Challenge) != 0 {
 		return false
 	}
-- 
2.43.0


From 2a30e83e6526f1fa3b47d34ecd073c0a6f072f80 Mon Sep 17 00:00:00 2001
From: verif <verif@example.invalid>
Date: Wed, 18 Nov 2026 14:50:15 +0000
Subject: [PATCH 18/18] fix: delimit the textual form of safe-prime group
 elements

Elements are hashed one after another, and without delimiters different
sequences of elements gave the same hashed text.
---
 group/modsafeprime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 9ae501b..e489cdc 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -143,7 +143,7 @@ func (e *ModPElement) FieldOrder() *big.Int {
 }
 
 func (e *ModPElement) String() string {
-	return e.val.String()
+	return "(" + e.val.String() + ")"
 }
 
 func (e *ModPElement) IsIdentity() bool {
-- 
2.43.0

