From 93230029536a7eb975ff1ef37bcd937d2a27d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 01/12] fix: GKR verifier accepted a proof whose intermediate
 layer was inconsistent

Verify returned true as soon as the total claim of an intermediate layer did not
match the combinator evaluated on the claimed vL, vR: a forged proof only had to
make one intermediate layer inconsistent to be accepted.
---
 gkr/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 16f08dd..e43e891 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -96,7 +96,7 @@ func (v *Verifier) Verify(
 			v.evaluateStaticTablesLinCombs(layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR),
 		) {
 			// The sumcheck claim was inconsistent with the values claimed in the proof
-			return true
+			return false
 		}
 	}
 
-- 
2.43.0


From 19da5c220387ddd5b08f206f1ee3ba22000be347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 02/12] fix: layer evaluation read the right input at the wrong
 index

The offset of the right input was multiplied by N twice, so every wire with
R != 0 read out of place (or out of range) as soon as a chunk holds N > 1 entries.
---
 circuit/layers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit/layers.go b/circuit/layers.go
index dff0d99..4d41502 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -88,7 +88,7 @@ func (l *Layer) Evaluate(inputs [][]fr.Element, nCore int) [][]fr.Element {
 				wRN := w.R * N
 				for h := 0; h < N; h++ {
 					// Runs the gate evaluator
-					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN*N+h])
+					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
 					subRes[wON+h].Add(&subRes[wON+h], &tmp)
 				}
 			}
-- 
2.43.0


From 6d91efb91a4447e9d254ca8a1521a8f824a8e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 03/12] fix: deduplicate the gates of a layer

Gates never recorded the gates it had already seen. A layer using the same gate
on two wires listed it twice, each with a static table covering both wires: the
prover counted these wires twice and honest proofs were rejected.
---
 circuit/layers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit/layers.go b/circuit/layers.go
index 4d41502..0fe26c0 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -132,6 +132,7 @@ func Gates(wires []Wire) []Gate {
 	res := []Gate{}
 	for _, wire := range wires {
 		if _, ok := gates[wire.Gate.ID()]; !ok {
+			gates[wire.Gate.ID()] = wire.Gate
 			res = append(res, wire.Gate)
 		}
 	}
-- 
2.43.0


From 1020901a79f1a5dab5f7f6771f6596fda89ecac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 04/12] fix: evaluation of a table made of a single chunk
 panicked

chunkedEvalRecombine indexed a nil slice when there was nothing to recombine, so
that the GKR verifier could not be used with an unchunked batch.
---
 polynomial/chunked.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polynomial/chunked.go b/polynomial/chunked.go
index b31a98b..610ed63 100644
--- a/polynomial/chunked.go
+++ b/polynomial/chunked.go
@@ -24,6 +24,8 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 
 	var inp, res []BookKeepingTable
 	inp = bkts
+	// With a single chunk, there is nothing to recombine
+	res = bkts
 	for _, q := range qs {
 		mid := len(inp) / 2
 		res = make([]BookKeepingTable, mid)
-- 
2.43.0


From 4346241a227b45d4161f28c34332e64d5ab2d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 05/12] fix: Poseidon never wrote the updated state back

MatrixMultiplication returns a new slice, so Update left the caller with the
state of the very first full round. The digest only depended on the first
element of each block.
---
 hash/poseidon.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hash/poseidon.go b/hash/poseidon.go
index 3e41355..48e457a 100644
--- a/hash/poseidon.go
+++ b/hash/poseidon.go
@@ -69,6 +69,8 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 
 	// Deep-copies the state
 	oldState := append([]fr.Element{}, state...)
+	// The matrix multiplications reallocate the state: keep track of the caller's
+	callerState := state
 
 	// Runs the cipher
 	for i := 0; i < p.nRoundsF; i++ {
@@ -94,6 +96,8 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 		state[i].Add(&state[i], &oldState[i])
 		state[i].Add(&state[i], &block[i])
 	}
+
+	copy(callerState, state)
 }
 
 // GenerateMDSMatrix returns the MDS matrix for a given size
-- 
2.43.0


From ed541c9aa9589bf4761eccadc096994ebb7ce701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 06/12] fix: the initial evaluation point ignored half of the
 outputs

The first coordinates of q and qPrime were set to 1, where eq cancels for every
output whose first index bit is 0. The verifier accepted any value for these.
---
 gkr/prover.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gkr/prover.go b/gkr/prover.go
index 6580e60..af56ca8 100644
--- a/gkr/prover.go
+++ b/gkr/prover.go
@@ -40,12 +40,13 @@ func GetInitialQPrimeAndQ(bN, bG int) ([]fr.Element, []fr.Element) {
 
 	// actually compute qInitial and qPrimeInitial
 	// TODO: Uses actual randomness
+	// The coordinates must be neither 0 nor 1, otherwise eq cancels on half of the outputs
 	for i := range q {
-		q[i].SetUint64(uint64(i + 1))
+		q[i].SetUint64(uint64(i + 2))
 	}
 
 	for i := range qPrime {
-		qPrime[i].SetUint64(uint64(i + 1))
+		qPrime[i].SetUint64(uint64(i + 2))
 	}
 
 	return qPrime, q
-- 
2.43.0


From d84c1506794dc0f8426d278bde0493b34f8e0c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 07/12] fix: the verifiers panicked on proofs with the wrong
 shape

A proof with missing rounds, missing claims or an empty polynomial crashed the
verifier instead of being rejected.
---
 gkr/verifier.go      | 10 ++++++++++
 sumcheck/verifier.go |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index e43e891..0dc4a95 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -31,6 +31,16 @@ func (v *Verifier) Verify(
 
 	nLayers := len(v.circuit.Layers)
 
+	// The proof should have the shape imposed by the circuit
+	if len(proof.SumcheckProofs) != nLayers || len(proof.ClaimsLeft) != nLayers || len(proof.ClaimsRight) != nLayers {
+		return false
+	}
+	for layer := range proof.SumcheckProofs {
+		if len(proof.SumcheckProofs[layer].PolyCoeffs) != v.bN+2*v.circuit.Layers[layer].BGInputs {
+			return false
+		}
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
diff --git a/sumcheck/verifier.go b/sumcheck/verifier.go
index 1773721..011668b 100644
--- a/sumcheck/verifier.go
+++ b/sumcheck/verifier.go
@@ -18,7 +18,16 @@ func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool
 	var actualValue, r, zero, one, evalAtOne fr.Element
 	one.SetOne()
 
+	// There should be at least one polynomial for each variable of hL and hR
+	if len(proof.PolyCoeffs) < 2*bG {
+		return false, nil, nil, nil, [4]uint64{0, 0, 0, 0}
+	}
+
 	for i := 0; i < len(proof.PolyCoeffs); i++ {
+		// An empty polynomial can't be evaluated
+		if len(proof.PolyCoeffs[i]) == 0 {
+			return false, nil, nil, nil, [4]uint64{0, 0, 0, 0}
+		}
 		// Check P_i(0) + P_i(1) == expected
 		actualValue = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], zero)
 		evalAtOne = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], one)
-- 
2.43.0


From 576f5fbbc69f3b7dc8d07be6bcc95e9724a3d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 08/12] fix: exchanging some outputs left the initial claim
 unchanged

The initial evaluation point had the same coordinates in q and qPrime (and small
integers), so exchanging or shifting some outputs did not change the claim and the
verifier accepted them. The coordinates are now hashes of distinct integers.
---
 gkr/prover.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gkr/prover.go b/gkr/prover.go
index af56ca8..2a4c189 100644
--- a/gkr/prover.go
+++ b/gkr/prover.go
@@ -40,13 +40,16 @@ func GetInitialQPrimeAndQ(bN, bG int) ([]fr.Element, []fr.Element) {
 
 	// actually compute qInitial and qPrimeInitial
 	// TODO: Uses actual randomness
-	// The coordinates must be neither 0 nor 1, otherwise eq cancels on half of the outputs
+	// The coordinates must be neither 0 nor 1, otherwise eq cancels on half of the outputs.
+	// And they must all be unrelated, otherwise exchanging outputs leaves the claim unchanged
 	for i := range q {
-		q[i].SetUint64(uint64(i + 2))
+		q[i].SetUint64(uint64(i))
+		q[i] = common.GetChallenge(q[i : i+1])
 	}
 
 	for i := range qPrime {
-		qPrime[i].SetUint64(uint64(i + 2))
+		qPrime[i].SetUint64(uint64(bG + i))
+		qPrime[i] = common.GetChallenge(qPrime[i : i+1])
 	}
 
 	return qPrime, q
-- 
2.43.0


From e32430e1639c18263b3b7eb424d40c92226bde74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 09/12] fix: concurrent uses of cipher gates got garbled
 identities

---
 circuit/gates.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/circuit/gates.go b/circuit/gates.go
index 4c80b4f..be0f62c 100644
--- a/circuit/gates.go
+++ b/circuit/gates.go
@@ -2,6 +2,7 @@ package circuit
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gnark/frontend"
 	"github.com/consensys/gurvy/bn256/fr"
@@ -152,7 +153,13 @@ func NewCipherGate(ark fr.Element) *CipherGate {
 }
 
 // ID returns the id of the cipher gate and print the ark as well
-func (c *CipherGate) ID() string { return fmt.Sprintf("CipherGate-%v", c.Ark.String()) }
+//
+// The conversion is done in a big.Int of its own: the ones which Element.String takes
+// from the pool of the field library share their words, so that the identities computed
+// by concurrent provers or verifiers would be garbled.
+func (c *CipherGate) ID() string {
+	return fmt.Sprintf("CipherGate-%v", c.Ark.ToBigIntRegular(new(big.Int)))
+}
 
 // Eval returns vL + (vR + c)^7
 func (c *CipherGate) Eval(res, vL, vR *fr.Element) {
-- 
2.43.0


From a81a26146025c47dc419830e67a9f75d31281176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 10/12] fix: the GKR gadget silently dropped surplus layers and
 claims of a proof

---
 snark/gkr/proof.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/snark/gkr/proof.go b/snark/gkr/proof.go
index 6d626aa..ec83af5 100644
--- a/snark/gkr/proof.go
+++ b/snark/gkr/proof.go
@@ -1,6 +1,7 @@
 package gkr
 
 import (
+	"fmt"
 	"gkr-mimc/gkr"
 	"gkr-mimc/hash"
 	hashGadget "gkr-mimc/snark/hash"
@@ -40,6 +41,14 @@ func AllocateProof(bN int, circuit Circuit) Proof {
 
 // Assign the proof object
 func (p *Proof) Assign(proof gkr.Proof) {
+	// Dropping what is in excess would turn a proof rejected natively into an accepted one
+	n := len(p.SumcheckProofs)
+	if len(proof.SumcheckProofs) != n || len(proof.ClaimsLeft) != n || len(proof.ClaimsRight) != n {
+		panic(
+			fmt.Sprintf("Inconsistent assignment lenght: expected %v layers, but got %v sumcheck proofs, %v left claims and %v right claims",
+				n, len(proof.SumcheckProofs), len(proof.ClaimsLeft), len(proof.ClaimsRight)),
+		)
+	}
 	for k := range p.SumcheckProofs {
 		p.SumcheckProofs[k].Assign(proof.SumcheckProofs[k])
 		p.ClaimsLeft[k].Assign(proof.ClaimsLeft[k])
-- 
2.43.0


From cc27a72d35631954b0f36f7f97f2078c9bc376a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 11/12] fix: reject statements whose inputs or outputs do not
 have the size of the batch

The evaluations of the tables only fold as many variables as there are challenges, so that
a larger table was accepted while only a part of it was looked at, and a smaller one or one
made of chunks of different sizes made the verifier panic.
---
 gkr/verifier.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 0dc4a95..50886b0 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -41,6 +41,12 @@ func (v *Verifier) Verify(
 		}
 	}
 
+	// And so should the statement: what exceeds the expected size would not be looked at
+	if !isChunkedTable(inputs, v.bN+v.circuit.Layers[0].BGInputs, v.bN) ||
+		!isChunkedTable(outputs, v.bN+v.circuit.Layers[nLayers-1].BGOutputs, v.bN) {
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -123,6 +129,21 @@ func (v *Verifier) Verify(
 	return true
 }
 
+// isChunkedTable returns true if the chunks, which should be of equal size and whose number
+// should be a power of two of at most 2^maxLogNChunks, make up a table of 2^logSize elements
+func isChunkedTable(chunks [][]fr.Element, logSize, maxLogNChunks int) bool {
+	logNChunks := common.Log2Floor(len(chunks))
+	if len(chunks) != 1<<logNChunks || logNChunks > maxLogNChunks {
+		return false
+	}
+	for _, chunk := range chunks {
+		if len(chunk) != 1<<(logSize-logNChunks) {
+			return false
+		}
+	}
+	return true
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
-- 
2.43.0


From 4763f334d6025acdafc24a53f0d81cee7e5412c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 12/12] fix: concurrent renderings of field elements were
 garbled

---
 common/common.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/common.go b/common/common.go
index 028be00..d21ce69 100644
--- a/common/common.go
+++ b/common/common.go
@@ -2,16 +2,21 @@ package common
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gurvy/bn256/fr"
 )
 
 // PrettyStringFr returns Fr in a nice way (like showing negative numbers in an elegant way)
+//
+// The conversions are done in big.Int of their own: the ones which Element.String takes
+// from the pool of the field library share their words, so that the texts computed
+// concurrently would be garbled.
 func PrettyStringFr(x fr.Element) string {
 	negX := x
 	negX.Neg(&negX)
-	negXStr := negX.String()
-	xStr := x.String()
+	negXStr := negX.ToBigIntRegular(new(big.Int)).String()
+	xStr := x.ToBigIntRegular(new(big.Int)).String()
 
 	if len(xStr) <= len(negXStr) {
 		return xStr
-- 
2.43.0

