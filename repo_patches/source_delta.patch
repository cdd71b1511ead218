From e5932a81723a7e9694c6bfef6d98d88c934e54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 01/30] verif: access points for verification harnesses (build
 tag verif)

---
 cmd/client/verif.go         | 20 ++++++++++++++++++++
 cmd/coordinator/verif.go    | 22 ++++++++++++++++++++++
 cmd/server/verif.go         | 17 +++++++++++++++++
 primitive/fujiokam/verif.go | 16 ++++++++++++++++
 util/Util.go                |  3 +++
 util/send_default.go        |  9 +++++++++
 util/send_verif.go          | 14 ++++++++++++++
 7 files changed, 101 insertions(+)
 create mode 100644 cmd/client/verif.go
 create mode 100644 cmd/coordinator/verif.go
 create mode 100644 cmd/server/verif.go
 create mode 100644 primitive/fujiokam/verif.go
 create mode 100644 util/send_default.go
 create mode 100644 util/send_verif.go

diff --git a/cmd/client/verif.go b/cmd/client/verif.go
new file mode 100644
index 0000000..f841652
--- /dev/null
+++ b/cmd/client/verif.go
@@ -0,0 +1,20 @@
+//go:build verif
+// +build verif
+
+package client
+
+import "net"
+
+// Access to the launcher's functions for verification harnesses.
+
+func VerifInit() *DissentClient {
+	initClient()
+	return dissentClient
+}
+
+func VerifSet(c *DissentClient)         { dissentClient = c }
+func VerifRegister()                    { register() }
+func VerifPostBridge(addr string)       { postBridge(addr) }
+func VerifRequestBridges(ind int)       { requestBridges(ind) }
+func VerifSendVote(msgID, feedback int) { sendVote(msgID, feedback) }
+func VerifListen(l *net.TCPListener)    { startClientListener(l) }
diff --git a/cmd/coordinator/verif.go b/cmd/coordinator/verif.go
new file mode 100644
index 0000000..9abe21f
--- /dev/null
+++ b/cmd/coordinator/verif.go
@@ -0,0 +1,22 @@
+//go:build verif
+// +build verif
+
+package coordinator
+
+import "net"
+
+// Access to the phase functions for verification harnesses.
+
+func VerifInit() *Coordinator {
+	initCoordinator()
+	return anonCoordinator
+}
+
+func VerifSet(c *Coordinator)        { anonCoordinator = c }
+func VerifConfigCommParams()         { configCommParams() }
+func VerifClearBuffer()              { clearBuffer() }
+func VerifAnnounce()                 { announce() }
+func VerifVote()                     { vote() }
+func VerifRoundEnd()                 { roundEnd() }
+func VerifAddFakeClients(num int)    { addFakeClients(num) }
+func VerifListen(l *net.TCPListener) { startServerListener(l) }
diff --git a/cmd/server/verif.go b/cmd/server/verif.go
new file mode 100644
index 0000000..5a795db
--- /dev/null
+++ b/cmd/server/verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package server
+
+import "net"
+
+// Access to the launcher's functions for verification harnesses.
+
+func VerifInit() *AnonServer {
+	initAnonServer()
+	return anonServer
+}
+
+func VerifSet(s *AnonServer)         { anonServer = s }
+func VerifRegister()                 { serverRegister() }
+func VerifListen(l *net.TCPListener) { startAnonServerListener(l) }
diff --git a/primitive/fujiokam/verif.go b/primitive/fujiokam/verif.go
new file mode 100644
index 0000000..0292558
--- /dev/null
+++ b/primitive/fujiokam/verif.go
@@ -0,0 +1,16 @@
+//go:build verif
+// +build verif
+
+package fujiokam
+
+import "math/big"
+
+// Access to the secret exponents and helpers for verification harnesses.
+
+func (base *FujiOkamBase) VerifAlphas() []*big.Int {
+	return []*big.Int{base.alpha1, base.alpha2, base.alpha3, base.alpha4, base.alpha5, base.alpha6}
+}
+
+func VerifDecomposeThreeSquare(x *big.Int) (*big.Int, *big.Int, *big.Int) {
+	return decomposeThreeSquare(x)
+}
diff --git a/util/Util.go b/util/Util.go
index b57f098..ebd45d5 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -61,6 +61,9 @@ func Encode(event interface{}) []byte {
 func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
 	event.SrcAddr = laddr.String()
 	content := Encode(event)
+	if interceptSend(raddr, content) {
+		return
+	}
 	// fmt.Fprintln(os.Stderr, "send size=", len(content))
 	conn, err := net.DialTCP("tcp", nil, raddr)
 	CheckErr(err)
diff --git a/util/send_default.go b/util/send_default.go
new file mode 100644
index 0000000..41cee7e
--- /dev/null
+++ b/util/send_default.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+package util
+
+import "net"
+
+// interceptSend is only replaced in verification builds.
+func interceptSend(raddr *net.TCPAddr, content []byte) bool { return false }
diff --git a/util/send_verif.go b/util/send_verif.go
new file mode 100644
index 0000000..18680ec
--- /dev/null
+++ b/util/send_verif.go
@@ -0,0 +1,14 @@
+//go:build verif
+// +build verif
+
+package util
+
+import "net"
+
+// VerifSend, when set, receives every outgoing event instead of the network.
+// It returns false to let the event go out as usual.
+var VerifSend func(raddr *net.TCPAddr, content []byte) bool
+
+func interceptSend(raddr *net.TCPAddr, content []byte) bool {
+	return VerifSend != nil && VerifSend(raddr, content)
+}
-- 
2.43.0


From 71c8810d128105aa6c14491a602ecabf7c68a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 02/30] fix: sign the sign of a vote's feedback

---
 cmd/bridge/bridge.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7cb0553..6e6b6fc 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -120,6 +120,8 @@ func MessageOfVote(params map[string]interface{}) (msg []byte) {
 	msg = append(msg, params["signatures"].([]byte)...)
 	feedback := params["feedback"].(int)
 	byteFeedback := big.NewInt(int64(feedback)).Bytes()
+	// Bytes() drops the sign, so sign the fixed-length two's complement form
+	byteFeedback = util.IntToByte(feedback)
 	msg = append(msg, byteFeedback...)
 	return
 }
-- 
2.43.0


From 5008d2555bd8ec76f1058584b0bf8df42f0bdf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 03/30] fix: reject bridge posts with a non-canonical nym
 encoding

---
 cmd/coordinator/CoordinatorHandler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 417577c..76bdbcb 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -272,6 +272,12 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	byteNym := params["nym"].([]byte)
 	err := nym.UnmarshalBinary(byteNym)
 	util.CheckErr(err)
+	// the signature covers address and nym back to back: only a full-length nym
+	// keeps the boundary between them unambiguous
+	if len(byteNym) != nym.MarshalSize() {
+		fmt.Println("[note] Malformed nym in post")
+		return
+	}
 
 	fmt.Println("[debug] Receiving post from " + senderAddr.String() + ": " + bridgeAddr)
 
-- 
2.43.0


From 1e224472a9ea5a6218be093cceba74773dbec3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/30] fix: draw a fresh secret for every ElGamal signature

---
 util/Util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/Util.go b/util/Util.go
index ebd45d5..ab89a7d 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -397,6 +397,8 @@ privateKey abstract.Secret, g abstract.Point) []byte {
 
 	// Create random secret v and public point commitment T
 	v := suite.Secret().Pick(random)
+	// a repeated v reveals the private key: never depend on the caller's stream alone
+	v.Add(v, suite.Secret().Pick(suite.Cipher(abstract.RandomKey)))
 	T := suite.Point().Mul(g, v)
 
 	// Create challenge c based on message and T
-- 
2.43.0


From 8707b37b4c3d5460eac90af1999a2be50e6a1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 05/30] fix: bind the non-negativity challenge to the masking
 commitment

---
 primitive/fujiokam/FujiOkamCommitment.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 6e3a3cb..530bed8 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -463,6 +463,7 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	h.Write(commitx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	eBuf := h.Sum(nil)
 	e := new(big.Int)
 	e.SetBytes(eBuf)
@@ -501,6 +502,7 @@ func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R,
 	h.Write(commitx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	eBuf := h.Sum(nil)
 	e := new(big.Int)
 	e.SetBytes(eBuf)
-- 
2.43.0


From 0ff9270312cb8d2a533fb98eca4448486a7374a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 06/30] fix: bound the response of the equality argument

---
 primitive/pedersen_fujiokam/equality.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index c20c8a6..c5c5440 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -81,6 +81,14 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 
 func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	PComm abstract.Point, FOComm *fujiokam.Point, arg *ARGequal) bool {
+	// s1 = x*c + t1 as an integer: a larger s1 would allow x to wrap around the group order
+	maxBits := pedersenBase.Suite.Secret().(*nist.Int).M.BitLen()
+	if minBits := pedersenBase.Suite.Hash().Size()*8 + 64; maxBits < minBits {
+		maxBits = minBits
+	}
+	if arg.S1.Sign() < 0 || arg.S1.BitLen() > maxBits+1 {
+		return false
+	}
 	s1 := BigIntToSecret(pedersenBase.Suite, arg.S1)
 	s2 := BigIntToSecret(pedersenBase.Suite, arg.S2)
 	c := BigIntToSecret(pedersenBase.Suite, arg.C)
-- 
2.43.0


From 140698740f462efce8fae15b5c8ae01789ff5836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 07/30] fix: bind the equality challenge to both commitments

---
 primitive/pedersen_fujiokam/equality.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index c5c5440..20f3eb3 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -1,6 +1,7 @@
 package pedersen_fujiokam
 
 import (
+	"hash"
 	"math/big"
 
 	"zRep/primitive/fujiokam"
@@ -32,6 +33,13 @@ func BigIntToSecret(suite abstract.Suite, i *big.Int) abstract.Secret {
 	return s
 }
 
+// the challenge has to depend on the commitments as well, otherwise they can be chosen after it
+func hashStatement(h hash.Hash, PComm abstract.Point, FOComm *fujiokam.Point) {
+	bytePComm, _ := PComm.MarshalBinary()
+	h.Write(bytePComm)
+	h.Write(FOComm.ToBinary())
+}
+
 func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	x abstract.Secret,
 	PComm abstract.Point, rPComm abstract.Secret,
@@ -55,6 +63,7 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	hash := suite.Hash()
 	hash.Write(byteT1)
 	hash.Write(byteT2)
+	hashStatement(hash, PComm, FOComm)
 	cBuf := hash.Sum(nil)
 	cRaw := new(big.Int)
 	cRaw.SetBytes(cBuf)
@@ -111,6 +120,7 @@ func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuj
 	hash := pedersenBase.Suite.Hash()
 	hash.Write(byteT1)
 	hash.Write(byteT2)
+	hashStatement(hash, PComm, FOComm)
 	RSideBuf := hash.Sum(nil)
 	RSide := new(big.Int)
 	RSide.SetBytes(RSideBuf)
-- 
2.43.0


From 3eae0aa8905c85eeb62ca5c5f5927b8e5892ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 08/30] fix: refuse bridge requests of nyms outside the table

---
 cmd/bridge/bridge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 6e6b6fc..dd274f2 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -30,6 +30,11 @@ type Assignment struct {
 }
 
 func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstract.Suite, pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase) bool {
+	// the nym is not in the table
+	if PCommr == nil {
+		fmt.Println("[note]** Unknown nym")
+		return false
+	}
 	ind := params["ind"].(int)
 	nymR := suite.Point()
 	byteNymR := params["nym"].([]byte)
-- 
2.43.0


From 5af27b998b1816de57b8b4dcc5b75d3c32a28834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 09/30] fix: check the shape and the linking value of ring
 signatures

---
 primitive/lrs/LinkableRingSignature.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/primitive/lrs/LinkableRingSignature.go b/primitive/lrs/LinkableRingSignature.go
index 86397b6..f04f598 100644
--- a/primitive/lrs/LinkableRingSignature.go
+++ b/primitive/lrs/LinkableRingSignature.go
@@ -189,6 +189,15 @@ func (base *LRSBase) Verify(m []byte, n int, pi int, sig *Signature, y []abstrac
 }
 
 func (base *LRSBase) VerifyHelper(m []byte, n int, pi int, sig *Signature, y []*big.Int) bool {
+	// surplus or missing components would not be covered by the checks below
+	if n != len(y) || len(sig.S) != n || len(sig.C) != n {
+		return false
+	}
+	// y0 is a power of the square h: any other representative would escape linking
+	if sig.Y0.Sign() <= 0 || sig.Y0.Cmp(base.P) >= 0 ||
+		new(big.Int).Exp(sig.Y0, new(big.Int).Div(base.Q, bigTwo), base.P).Cmp(bigOne) != 0 {
+		return false
+	}
 	L := computeL(y)
 	h := base.computeh(m, L)
 
-- 
2.43.0


From 55f68b1bca816e8534f79944ebe87a698cfa18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 10/30] fix: tie the embedded simple shuffle to the pair
 shuffle it proves

---
 util/shuffle/pair.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index e2355bf..7e40155 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -274,6 +274,15 @@ func (ps *PairShuffle) Verify(
 	if err := ps.pv6.Verify(g, p1.Gamma, ctx); err != nil {
 		return err
 	}
+	// the simple k-shuffle has to be about R = A + lambda*B and S = C + lambda*D
+	for i := 0; i < k; i++ {
+		R := grp.Point().Mul(B[i], v4.Zlambda)
+		S := grp.Point().Mul(p3.D[i], v4.Zlambda)
+		if !R.Add(R, p1.A[i]).Equal(ps.pv6.p0.X[i]) ||
+			!S.Add(S, p1.C[i]).Equal(ps.pv6.p0.Y[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
+	}
 
 	// V step 7
 	Phi1 := grp.Point().Null()
-- 
2.43.0


From 319782953a1f5b79720982a4ea703dfd00f81f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 11/30] fix: count only the requester's first +-1 vote for an
 assignment of this round

---
 cmd/coordinator/Coordinator.go         | 27 +++++++++++++++++++++++++-
 cmd/coordinator/CoordinatorHandler.go  |  8 ++++++++
 cmd/coordinator/CoordinatorLauncher.go |  1 +
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aea060a..2623c91 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -66,6 +66,8 @@ type Coordinator struct {
 	// record each vote signature's y0
 	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
+	// assignments which have been voted on in this round
+	VotedAssignments map[string]bool
 
 	Bridges map[string]BridgeInfo
 
@@ -247,4 +249,27 @@ func (c *Coordinator) IsLinkableRecord(y0 *big.Int) bool {
 
 func (c *Coordinator) AddToVoteRecords(y0 *big.Int) {
 	c.VoteRecords = append(c.VoteRecords, y0)
-}
\ No newline at end of file
+}
+
+// a vote counts if it is +1 or -1, comes from the assignment's requester, targets
+// a nym of this round and is the first one for this assignment
+func (c *Coordinator) AcceptVote(voter abstract.Point, assignment *bridge.Assignment, feedback int) bool {
+	if feedback != 1 && feedback != -1 {
+		return false
+	}
+	if !voter.Equal(assignment.NymR) {
+		return false
+	}
+	if _, ok := c.EndingKeyMap[assignment.Nym.String()]; !ok {
+		return false
+	}
+	id := string(bridge.EncodeAssignment(assignment))
+	if c.VotedAssignments[id] {
+		return false
+	}
+	if c.VotedAssignments == nil {
+		c.VotedAssignments = make(map[string]bool)
+	}
+	c.VotedAssignments[id] = true
+	return true
+}
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 76bdbcb..5c2daf6 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -526,6 +526,10 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	byteAssignment := params["assignment"].([]byte)
 	assignment := bridge.DecodeAssignment(byteAssignment)
 	numServers := len(anonCoordinator.ServerList)
+	if len(signatures) != numServers + 1 {
+		fmt.Println("[note] Wrong number of signatures")
+		return
+	}
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
@@ -546,6 +550,10 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	// record feedback
 	targetNym := assignment.Nym
 	feedback := params["feedback"].(int)
+	if !anonCoordinator.AcceptVote(nym, assignment, feedback) {
+		fmt.Println("[note] Vote does not fit its assignment")
+		return
+	}
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ef4da89..ba0a94a 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -103,6 +103,7 @@ func clearBuffer() {
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
 	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
+	anonCoordinator.VotedAssignments = nil
 }
 
 /**
-- 
2.43.0


From 92a66c090950e675fe9a8f1fc448eb7aad7cea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 12/30] fix: accept bridge posts only from nyms of the current
 table

---
 cmd/coordinator/CoordinatorHandler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 5c2daf6..669e49a 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -289,6 +289,12 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 		return
 	}
 
+	// only nyms of this round's table can be voted on
+	if _, ok := anonCoordinator.EndingKeyMap[nym.String()]; !ok {
+		fmt.Println("[note] Can not find nym within the table")
+		return
+	}
+
 	// record the bridge
 	// Note: we assume the client does not provide duplicated bridges
 	anonCoordinator.AddBridge(bridgeAddr, nym)
-- 
2.43.0


From 203f4bb8b218d6f04c997edd77d01783bbf80d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 13/30] fix: count every server's valid signature once and only
 for pending assignments

---
 cmd/coordinator/Coordinator.go         | 16 ++++++++++++++++
 cmd/coordinator/CoordinatorHandler.go  |  9 +++++++++
 cmd/coordinator/CoordinatorLauncher.go |  3 ++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 2623c91..4bdb997 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -213,6 +213,22 @@ func (c *Coordinator) ClearBridges() {
 	c.Bridges = make(map[string]BridgeInfo)
 }
 
+// tell whether sig is the server's first valid signature for an assignment
+// which is being collected
+func (c *Coordinator) IsNewAssignmentSignature(assignment *bridge.Assignment, serverIndex int, sig []byte) bool {
+	nServers := len(c.ServerList)
+	entry := c.AssignmentSignaturesLog[assignment.Addr]
+	if len(entry.Signatures) != nServers + 1 || entry.Signatures[serverIndex] != nil {
+		return false
+	}
+	byteAssignment := bridge.EncodeAssignment(assignment)
+	// the coordinator's own signature tells which assignment is being collected
+	if util.ElGamalVerify(c.Suite, byteAssignment, c.PublicKey, entry.Signatures[nServers], c.Suite.Point()) != nil {
+		return false
+	}
+	return util.ElGamalVerify(c.Suite, byteAssignment, c.GetServerPublicKey(serverIndex), sig, c.Suite.Point()) == nil
+}
+
 // get reputation
 func (c *Coordinator) GetReputationDiff(key abstract.Point) int{
 	return c.ReputationDiffMap[key.String()]
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 669e49a..e612de8 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -387,12 +387,21 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 
 	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := util.Decode2DByteArray(params["signatures"].([]byte))
+	if len(assignments) == 0 || len(sigs) != len(assignments) {
+		fmt.Println("[note] Malformed signatures from server")
+		return
+	}
 	nymR := assignments[0].NymR
 	requesterIP := anonCoordinator.RequesterAddrs[nymR.String()]
 
 	for i,assignment := range assignments {
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
+		// late, repeated or invalid replies must not count
+		if !anonCoordinator.IsNewAssignmentSignature(&assignment, serverIndex, sig) {
+			fmt.Println("[note] Ignoring signature for", brdgAddr)
+			continue
+		}
 		// update each assignment's log entry by inserting the signature and increase count
 		anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig)
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ba0a94a..0046ceb 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -192,7 +192,8 @@ func roundEnd() {
 		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
 	}
 
-	// clear bridges
+	// clear bridges and the signatures still being collected for them
+	anonCoordinator.AssignmentSignaturesLog = make(map[string]AssignmentSignatures)
 	anonCoordinator.ClearBridges()
 }
 
-- 
2.43.0


From fb35d74307d9e4852f4067aaeb78d74d29dc9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 14/30] fix: take posts, requests and votes only while the
 round is open

---
 cmd/coordinator/CoordinatorHandler.go  | 15 +++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  2 ++
 cmd/coordinator/CoordinatorStatus.go   |  2 ++
 3 files changed, 19 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index e612de8..40187d5 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -265,6 +265,11 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 }
 // verify the posting message and record the bridge
 func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	// the round is not open
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note] Ignoring post outside the round")
+		return
+	}
 	// get info from the request
 	bridgeAddr := params["bridge_addr"].(string)
 	byteSig := params["signature"].([]byte)
@@ -303,6 +308,11 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 
 // allocate bridges and ask all servers' signatures
 func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	// the round is not open
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note] Ignoring request outside the round")
+		return
+	}
 	// get info from the request
 	ind := params["ind"].(int)
 	byteSig := params["signature"].([]byte)
@@ -514,6 +524,11 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 // }
 
 func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	// the round is not open
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note] Ignoring vote outside the round")
+		return
+	}
 	// fetch nym
 	nym := anonCoordinator.Suite.Point()
 	err := nym.UnmarshalBinary(params["nym"].([]byte))
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 0046ceb..217595d 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -148,6 +148,8 @@ func roundEnd() {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
 		return
 	}
+	// nothing is taken for this round from here on
+	anonCoordinator.Status = ROUND_ENDING
 	// add new clients into reputation map
 	for _,cdata := range anonCoordinator.NewClientsBuffer {
 		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
diff --git a/cmd/coordinator/CoordinatorStatus.go b/cmd/coordinator/CoordinatorStatus.go
index a8b34ab..98d7a43 100644
--- a/cmd/coordinator/CoordinatorStatus.go
+++ b/cmd/coordinator/CoordinatorStatus.go
@@ -6,5 +6,7 @@ const CONFIGURATION = 0;
 const READY_FOR_NEW_ROUND = 1;
 const ANNOUNCE = 2;
 const MESSAGE = 3;
+// the round is closed, its table is on the way back through the servers
+const ROUND_ENDING = 6;
 const VOTE = 4;
 const SERVER_CONFIGURATION = 5;
-- 
2.43.0


From ec2733d9a9a3e907e024999ad83040f1a750f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 15/30] fix: let clients register at any time without losing
 them or the round

---
 cmd/coordinator/Coordinator.go         | 12 ++++++++++++
 cmd/coordinator/CoordinatorHandler.go  | 26 ++++++++++++++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  5 +++++
 3 files changed, 43 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 4bdb997..4a8fc4c 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -32,6 +32,12 @@ type ServerInfo struct {
 	PublicKey abstract.Point
 }
 
+// a client registration which waits for the next round
+type PendingClient struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 type Coordinator struct {
 	// local address
 	LocalAddr *net.TCPAddr
@@ -59,6 +65,12 @@ type Coordinator struct {
 	// we only add new clients at the beginning of each round
 	// store the new clients's one-time pseudo nym
 	NewClientsBuffer []ClientTuple
+	// clients which registered while no round was open
+	PendingClients []PendingClient
+	// number of registrations on their way through the servers
+	RegistrationsInFlight int
+	// the round's end waits for these registrations
+	RoundEndPostponed bool
 	// msg sender's record nym
 	MsgLog []abstract.Point
 	// map an assignment's bridge to servers' signatures
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 40187d5..f7256d9 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -25,6 +25,7 @@ var anonCoordinator *Coordinator
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
+	defer resumeRoundEnd()
 	event, addr := util.DecodeEvent(buf)
 
 	switch event.EventType {
@@ -124,6 +125,13 @@ func handleAnnouncement(params map[string]interface{}) {
 	// set controller's new g
 	anonCoordinator.G = g
 	anonCoordinator.Status = MESSAGE
+
+	// let in the clients which registered in the meantime
+	pending := anonCoordinator.PendingClients
+	anonCoordinator.PendingClients = nil
+	for _, client := range pending {
+		handleClientRegisterControllerSide(client.Params, client.Addr)
+	}
 }
 
 // handle server register request
@@ -179,6 +187,13 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 // Handler for REGISTER event
 // send the register request to server to do encryption
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
+	// without an open round there is no generator to hand out and no table to join
+	if anonCoordinator.Status != MESSAGE || anonCoordinator.G == nil {
+		pending := PendingClient{Params: params, Addr: addr}
+		anonCoordinator.PendingClients = append(anonCoordinator.PendingClients, pending)
+		return
+	}
+	anonCoordinator.RegistrationsInFlight++
 	// get client's public key
 	publicKey := anonCoordinator.Suite.Point()
 	publicKey.UnmarshalBinary(params["public_key"].([]byte))
@@ -249,6 +264,17 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 
 	// instead of sending new client to server, we will send it when finishing this round. Currently we just add it into buffer
 	anonCoordinator.AddClientInBuffer(nym, PComm)
+	if anonCoordinator.RegistrationsInFlight > 0 {
+		anonCoordinator.RegistrationsInFlight--
+	}
+}
+
+// end the round once the last registration is through
+func resumeRoundEnd() {
+	if anonCoordinator.RoundEndPostponed && anonCoordinator.RegistrationsInFlight == 0 {
+		anonCoordinator.RoundEndPostponed = false
+		roundEnd()
+	}
 }
 
 func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCPAddr) {
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 217595d..fc24ed2 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -150,6 +150,11 @@ func roundEnd() {
 	}
 	// nothing is taken for this round from here on
 	anonCoordinator.Status = ROUND_ENDING
+	// clients still on their way through the servers belong to this round
+	if anonCoordinator.RegistrationsInFlight > 0 {
+		anonCoordinator.RoundEndPostponed = true
+		return
+	}
 	// add new clients into reputation map
 	for _,cdata := range anonCoordinator.NewClientsBuffer {
 		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
-- 
2.43.0


From c42db2d7523b79b832d8b6b6066b42711328a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 16/30] fix: update h by one server at a time

---
 cmd/coordinator/Coordinator.go        | 10 ++++++++++
 cmd/coordinator/CoordinatorHandler.go | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 4a8fc4c..0de5f41 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -32,6 +32,12 @@ type ServerInfo struct {
 	PublicKey abstract.Point
 }
 
+// a server registration which waits for the update of h by the server before it
+type PendingServer struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 // a client registration which waits for the next round
 type PendingClient struct {
 	Params map[string]interface{}
@@ -43,6 +49,10 @@ type Coordinator struct {
 	LocalAddr *net.TCPAddr
 	// network topology for server cluster
 	ServerList []ServerInfo
+	// servers which registered while another one still updates h
+	PendingServers []PendingServer
+	// a server has been told h, but has not sent back its update yet
+	UpdatingPedersenH bool
 	// initialize the controller status
 	Status int
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index f7256d9..c122512 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -137,6 +137,13 @@ func handleAnnouncement(params map[string]interface{}) {
 // handle server register request
 func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	fmt.Println("[debug] Receive the registration info from server " + addr.String());
+	// h is updated by one server after another
+	if anonCoordinator.UpdatingPedersenH {
+		pending := PendingServer{Params: params, Addr: addr}
+		anonCoordinator.PendingServers = append(anonCoordinator.PendingServers, pending)
+		return
+	}
+	anonCoordinator.UpdatingPedersenH = true
 	// fetch server's public key
 	publicKey := anonCoordinator.Suite.Point()
 	publicKey.UnmarshalBinary(params["public_key"].([]byte))
@@ -182,6 +189,14 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 func handleUpdatePedersenH(params map[string]interface{}) {
 	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
 	util.CheckErr(err)
+
+	// next server's turn
+	anonCoordinator.UpdatingPedersenH = false
+	if len(anonCoordinator.PendingServers) > 0 {
+		pending := anonCoordinator.PendingServers[0]
+		anonCoordinator.PendingServers = anonCoordinator.PendingServers[1:]
+		handleServerRegister(pending.Params, pending.Addr)
+	}
 }
 
 // Handler for REGISTER event
-- 
2.43.0


From 7b1b294c70635b9f85005b748594b65b7fc41e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 17/30] fix: answer only one honesty challenge per proof

---
 cmd/coordinator/Coordinator.go        | 23 +++++++++++++++++++++++
 cmd/coordinator/CoordinatorHandler.go |  7 +++++++
 2 files changed, 30 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 0de5f41..a15a358 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -105,6 +105,8 @@ type Coordinator struct {
 
 	AllGnHonestyProofSecret []*big.Int
 	AllGnHonestyProofPublic []*big.Int
+	// secrets of the proofs handed to clients which have not sent their challenge yet
+	HonestyProofSecrets map[string][]*big.Int
 }
 
 // get last server in topology
@@ -311,3 +313,24 @@ func (c *Coordinator) AcceptVote(voter abstract.Point, assignment *bridge.Assign
 	c.VotedAssignments[id] = true
 	return true
 }
+
+// prepare a new honesty proof for a client
+func (c *Coordinator) OpenHonestyProof(addr *net.TCPAddr) {
+	secrets, publics := c.FujiOkamBase.GenerateAllGnHonestyProof()
+	if c.HonestyProofSecrets == nil {
+		c.HonestyProofSecrets = make(map[string][]*big.Int)
+	}
+	c.HonestyProofSecrets[addr.String()] = secrets
+	c.AllGnHonestyProofPublic = publics
+}
+
+// get the client's honesty proof ready to be answered, once
+func (c *Coordinator) CloseHonestyProof(addr *net.TCPAddr) bool {
+	secrets, ok := c.HonestyProofSecrets[addr.String()]
+	if !ok {
+		return false
+	}
+	delete(c.HonestyProofSecrets, addr.String())
+	c.AllGnHonestyProofSecret = secrets
+	return true
+}
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index c122512..13a81bb 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -261,6 +261,8 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	util.CheckErr(err)
 	bytePublicKey, _ := anonCoordinator.PublicKey.MarshalBinary()
 	fujiokamBase := anonCoordinator.FujiOkamBase
+	// answering two challenges for the same proof reveals the generators' secrets
+	anonCoordinator.OpenHonestyProof(addr)
 	pm := map[string]interface{}{
 		"n": fujiokamBase.N.Bytes(),
 		"g1": fujiokamBase.G1.ToBinary(),
@@ -296,6 +298,11 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 	challenge := util.ProtobufDecodeBoolList(params["honesty_chal"].([]byte))
 	fmt.Println("[debug] Received challenge, start answering...")
 	base := anonCoordinator.FujiOkamBase
+	// every proof is answered once
+	if !anonCoordinator.CloseHonestyProof(senderAddr) {
+		fmt.Println("[note] No open proof for this challenge")
+		return
+	}
 	answer := base.AnswerAllGnHonesty(challenge, anonCoordinator.AllGnHonestyProofSecret, anonCoordinator.AllGnHonestyProofPublic)
 
 	pm := map[string]interface{}{
-- 
2.43.0


From 5bd5e21f9202b4dfc95a6debdbfb48d6fa32e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 18/30] fix: keep the coordinator's phase changes and messages
 from interleaving

---
 cmd/coordinator/CoordinatorHandler.go  |  6 ++++++
 cmd/coordinator/CoordinatorLauncher.go | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 13a81bb..34087de 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -5,6 +5,7 @@ import (
 	// "math/big"
 	"net"
 	"strconv"
+	"sync"
 	// "strings"
 	"time"
 
@@ -19,6 +20,9 @@ import (
 
 var anonCoordinator *Coordinator
 
+// messages and phase changes must not interleave
+var anonMutex sync.Mutex
+
 
 // Handle Use tmpCoordinator to handle data sent from addr.
 // The data is stored at buf
@@ -26,6 +30,8 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
 	defer resumeRoundEnd()
+	anonMutex.Lock()
+	defer anonMutex.Unlock()
 	event, addr := util.DecodeEvent(buf)
 
 	switch event.EventType {
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index fc24ed2..98a1db1 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -80,6 +80,8 @@ func initCoordinator() {
 
 // config parameters for commitments
 func configCommParams() {
+	anonMutex.Lock()
+	defer anonMutex.Unlock()
 	// Config Pedersen Commitment
 	h := anonCoordinator.PedersenBase.HT
 	byteH, err := h.MarshalBinary()
@@ -98,6 +100,8 @@ func configCommParams() {
  * clear all buffer data
  */
 func clearBuffer() {
+	anonMutex.Lock()
+	defer anonMutex.Unlock()
 	// clear buffer
 	anonCoordinator.NewClientsBuffer = nil
 	// msg sender's record nym
@@ -111,6 +115,8 @@ func clearBuffer() {
   * send reputation list
   */
 func announce() {
+	anonMutex.Lock()
+	defer anonMutex.Unlock()
 	firstServer := anonCoordinator.GetFirstServerAddr()
 	if firstServer == nil {
 		anonCoordinator.Status = MESSAGE
@@ -143,6 +149,8 @@ func announce() {
  * add new clients into the reputation map
  */
 func roundEnd() {
+	anonMutex.Lock()
+	defer anonMutex.Unlock()
 	lastServer := anonCoordinator.GetLastServerAddr()
 	if lastServer == nil {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
@@ -210,6 +218,8 @@ func roundEnd() {
  * just send it from controller
  */
 func vote() {
+	anonMutex.Lock()
+	defer anonMutex.Unlock()
 	anonCoordinator.ClearVoteRecords()
 	pm := map[string]interface{} {}
 	event := &proto.Event{EventType:proto.VOTE, Params:pm}
@@ -219,6 +229,8 @@ func vote() {
 }
 
 func addFakeClients(num int) {
+	anonMutex.Lock()
+	defer anonMutex.Unlock()
 	suite := anonCoordinator.Suite
 	HT := anonCoordinator.PedersenBase.HT
 	for i := 0; i < num; i++ {
-- 
2.43.0


From 431e604903564f5f62e8f7b9d9826b78925907bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 19/30] fix: keep a client's commands and messages from
 interleaving

---
 cmd/client/ClientHandler.go  | 6 ++++++
 cmd/client/ClientLauncher.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 80fb69c..5ea615d 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math/big"
 	// "strconv"
+	"sync"
 	"zRep/cmd/bridge"
 	"zRep/primitive/fujiokam"
 	"zRep/proto"
@@ -11,7 +12,12 @@ import (
 	// "github.com/dedis/crypto/abstract"
 )
 
+// messages and commands must not interleave
+var clientMutex sync.Mutex
+
 func Handle(buf []byte, dissentClient *DissentClient) {
+	clientMutex.Lock()
+	defer clientMutex.Unlock()
 	// decode the whole message
 	event, _ := util.DecodeEvent(buf)
 	switch event.EventType {
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 35e1023..996906d 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -63,6 +63,8 @@ func startClientListener(listener *net.TCPListener) {
   * post new bridge to server
   */
 func postBridge(bridgeAddr string) {
+	clientMutex.Lock()
+	defer clientMutex.Unlock()
 	// client's nym
 	byteNym, _ := dissentClient.OnetimePseudoNym.MarshalBinary()
 
@@ -89,6 +91,8 @@ func postBridge(bridgeAddr string) {
   * request "ind" numbers of bridges from server
   */
 func requestBridges(ind int) {
+	clientMutex.Lock()
+	defer clientMutex.Unlock()
 	if ind > dissentClient.Reputation {
 		fmt.Println("indicator should be less or equal than reputation")
 		return
@@ -204,6 +208,8 @@ func requestBridges(ind int) {
   * send vote to server
   */
 func sendVote(msgID, feedback int) {
+	clientMutex.Lock()
+	defer clientMutex.Unlock()
 	// vote can be only 1 or -1
 	if feedback > 0 {
 		feedback = 1;
-- 
2.43.0


From 6e15371936603fb927c891370ae85499287d4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 20/30] fix: ignore malformed messages of clients instead of
 stopping the node

A post, request, vote or reply with a field that can not be decoded stopped
the coordinator (or a server, or a client).
---
 cmd/client/ClientHandler.go           |  1 +
 cmd/coordinator/CoordinatorHandler.go |  5 +++++
 cmd/server/AnonServerHandler.go       |  1 +
 util/Util.go                          | 17 +++++++++++------
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 5ea615d..b7bf520 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -34,6 +34,7 @@ func Handle(buf []byte, dissentClient *DissentClient) {
 		handleAnnouncementFinalize(event.Params, dissentClient)
 		break
 	case proto.GOT_SIGNS:
+		defer util.IgnoreMalformed()
 		handleGotSignatures(event.Params, dissentClient)
 		break
 	// case proto.MESSAGE:
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 34087de..1bb3f6d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -48,21 +48,26 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 		handleClientRegisterServerSide(event.Params);
 		break
 	case proto.GN_HONESTY_CHALLENGE:
+		defer util.IgnoreMalformed()
 		handleGnHonestyChallenge(event.Params, addr)
 		break
 	case proto.POST_BRIDGE:
+		defer util.IgnoreMalformed()
 		handlePostBridge(event.Params, addr)
 		break
 	case proto.REQUEST_BRIDGES:
+		defer util.IgnoreMalformed()
 		handleRequestBridges(event.Params, addr)
 		break
 	case proto.GOT_SIGNS:
+		defer util.IgnoreMalformed()
 		handleGotSignatures(event.Params, addr)
 		break
 	// case proto.MESSAGE:
 	// 	handleMsg(event.Params, addr)
 	// 	break
 	case proto.VOTE:
+		defer util.IgnoreMalformed()
 		handleVote(event.Params, addr)
 		break
 	case proto.ROUND_END:
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5411241..cbcc1a2 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -37,6 +37,7 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 		handleAnnouncementFinalize(event.Params)
 		break
 	case proto.SIGN_ASSIGNMENTS:
+		defer util.IgnoreMalformed()
 		handleSignAssignments(event.Params, addr)
 		break
 	case proto.UPDATE_NEXT_HOP:
diff --git a/util/Util.go b/util/Util.go
index ab89a7d..44ce122 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -5,6 +5,7 @@ import (
 	"crypto/cipher"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"log"
 
 	"github.com/dedis/crypto/abstract"
@@ -88,6 +89,14 @@ func CheckErr(err error) {
 	}
 }
 
+// deferred by the handlers of messages which anybody can send: what can not be
+// decoded is ignored
+func IgnoreMalformed() {
+	if err := recover(); err != nil {
+		fmt.Println("[note] Ignoring malformed message:", err)
+	}
+}
+
 // ****************************************************************************
 // Gn honesty proof
 // ****************************************************************************
@@ -175,9 +184,7 @@ func DecodeARGnonneg(data []byte) *fujiokam.ARGnonneg {
 	buf := bytes.NewReader(data)
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
-	if err != nil {
-		log.Fatal(err)
-	}
+	CheckErr(err)
 	return arg
 }
 
@@ -200,9 +207,7 @@ func DecodeARGequal(data []byte) *pedersen_fujiokam.ARGequal {
 	buf := bytes.NewReader(data)
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
-	if err != nil {
-		log.Fatal(err)
-	}
+	CheckErr(err)
 	return arg
 }
 
-- 
2.43.0


From 956bec9a01ee9dd0215407a1dd70acf057ed3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 21/30] fix: sign server and coordinator messages over the
 generator instead of the value 0

Suite.Point() is not the base point but 0, so that the commitment of every
signature was 0 and any signature verified under any key.
---
 cmd/client/ClientHandler.go           | 2 +-
 cmd/coordinator/Coordinator.go        | 6 +++---
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 cmd/server/AnonServerHandler.go       | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index b7bf520..3ae4603 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -254,7 +254,7 @@ func handleGotSignatures(params map[string]interface{}, dissentClient *DissentCl
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
-	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point())
+	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point().Base())
 	if err != nil {
 		fmt.Println("[note]** Fails to verify the signatures")
 		return
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index a15a358..0dfbb6b 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -158,7 +158,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
 	rand := c.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point().Base())
 	return sig
 }
 
@@ -247,10 +247,10 @@ func (c *Coordinator) IsNewAssignmentSignature(assignment *bridge.Assignment, se
 	}
 	byteAssignment := bridge.EncodeAssignment(assignment)
 	// the coordinator's own signature tells which assignment is being collected
-	if util.ElGamalVerify(c.Suite, byteAssignment, c.PublicKey, entry.Signatures[nServers], c.Suite.Point()) != nil {
+	if util.ElGamalVerify(c.Suite, byteAssignment, c.PublicKey, entry.Signatures[nServers], c.Suite.Point().Base()) != nil {
 		return false
 	}
-	return util.ElGamalVerify(c.Suite, byteAssignment, c.GetServerPublicKey(serverIndex), sig, c.Suite.Point()) == nil
+	return util.ElGamalVerify(c.Suite, byteAssignment, c.GetServerPublicKey(serverIndex), sig, c.Suite.Point().Base()) == nil
 }
 
 // get reputation
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 1bb3f6d..95eea75 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -622,14 +622,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
-		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point())
+		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point().Base())
 		if err != nil {
 			fmt.Println("[note] Fails to verify server's signature")
 			return
 		}
 	}
 	// verify coordinator's own signature
-	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point())
+	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point().Base())
 	if err != nil {
 		fmt.Println("[note] Fails to verify coordinator's signature")
 		return
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index cbcc1a2..5ef8b57 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -387,7 +387,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
 		rand := anonServer.Suite.Cipher([]byte("example"))
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point().Base())
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 7a752c55fce2a22e714128d5638290cf38ea71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 22/30] fix: sign the border between the fields of an
 assignment bundle

---
 cmd/bridge/bridge.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index dd274f2..6c68783 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -114,6 +114,8 @@ func MessageOfPostBridge(params map[string]interface{}) (msg []byte) {
 }
 
 func MessageOfGotSignatures(params map[string]interface{}) (msg []byte) {
+	// both fields have any length: the signature must tell where one ends
+	msg = append(msg, util.IntToByte(len(params["assignment"].([]byte)))...)
 	msg = append(msg, params["assignment"].([]byte)...)
 	msg = append(msg, params["signatures"].([]byte)...)
 	return
-- 
2.43.0


From f6928360e1c69e59f136351a00932073cb4bc19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 23/30] fix: non-negativity and equality arguments reject
 unreduced group elements

---
 primitive/fujiokam/FujiOkamCommitment.go | 4 ++++
 primitive/fujiokam/point.go              | 5 +++++
 primitive/pedersen_fujiokam/equality.go  | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 530bed8..8ec6148 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -497,6 +497,10 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
+	// the challenge does not tell C from -C
+	if !commitx.IsReduced() || !commitrx.IsReduced() || !C.IsReduced() || !Cr.IsReduced() {
+		return false
+	}
 	// e := hash(commitx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
diff --git a/primitive/fujiokam/point.go b/primitive/fujiokam/point.go
index 7fab608..9244e8a 100644
--- a/primitive/fujiokam/point.go
+++ b/primitive/fujiokam/point.go
@@ -72,6 +72,11 @@ func (p *Point) Equal(p2 *Point) bool {
 	return p.V.Cmp(&p2.V) == 0
 }
 
+// IsReduced tells whether p is written as the only representative 0 < V < M of its class
+func (p *Point) IsReduced() bool {
+	return p.V.Sign() > 0 && p.V.Cmp(p.M) < 0
+}
+
 func (p *Point) Add(a, b *Point) *Point {
 	p.V.Add(&a.V, &b.V)
 	p.V.Mod(&p.V, p.M)
diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index 20f3eb3..7d86ce2 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -90,6 +90,10 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 
 func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	PComm abstract.Point, FOComm *fujiokam.Point, arg *ARGequal) bool {
+	// the challenge does not tell FOComm from -FOComm
+	if !FOComm.IsReduced() {
+		return false
+	}
 	// s1 = x*c + t1 as an integer: a larger s1 would allow x to wrap around the group order
 	maxBits := pedersenBase.Suite.Secret().(*nist.Int).M.BitLen()
 	if minBits := pedersenBase.Suite.Hash().Size()*8 + 64; maxBits < minBits {
-- 
2.43.0


From 3fd64ec4427c13d39f8b58bfe8e984f3db767c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 24/30] fix: a vote on an assignment of the last round does not
 stop the client

---
 cmd/client/ClientLauncher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 996906d..650c572 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -216,6 +216,11 @@ func sendVote(msgID, feedback int) {
 	}else {
 		feedback = -1;
 	}
+	// assignments are gone when the round is over
+	if msgID < 0 || msgID >= len(dissentClient.Assignments) {
+		fmt.Println("no such assignment")
+		return
+	}
 	info := dissentClient.Assignments[msgID]
 	assignment := info.Assignment
 	byteSignatures := info.ByteSignatures
-- 
2.43.0


From d34c4aad78004b757aaf64a70f7e90e611e239d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 25/30] fix: shuffle proofs bind the statement they are about

The challenges of pair shuffle and two-element proofs did not depend on the
inputs, the outputs and the bases. From one honest proof anybody could compute
other inputs or outputs, no shuffle of each other, for which it still verified.
---
 util/shuffle/biffle.go | 22 +++++++++++++--
 util/shuffle/pair.go   | 62 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 82 insertions(+), 2 deletions(-)

diff --git a/util/shuffle/biffle.go b/util/shuffle/biffle.go
index 50781ba..4d96753 100644
--- a/util/shuffle/biffle.go
+++ b/util/shuffle/biffle.go
@@ -72,7 +72,16 @@ func Biffle(suite abstract.Suite, G, H abstract.Point,
 		"beta1": beta[1]}
 	points := bifflePoints(suite, G, H, X, Y, Xbar, Ybar)
 	choice := map[proof.Predicate]int{or: bit}
-	prover = or.Prover(suite, secrets, points, choice)
+	orProver := or.Prover(suite, secrets, points, choice)
+	prover = func(ctx proof.ProverContext) error {
+		// the statement first, so that the challenge depends on it
+		var p0 ega0
+		p0.set(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
+		if err := ctx.Put(&p0); err != nil {
+			return err
+		}
+		return orProver(ctx)
+	}
 	return
 }
 
@@ -82,7 +91,16 @@ func BiffleVerifier(suite abstract.Suite, G, H abstract.Point,
 
 	or := bifflePred()
 	points := bifflePoints(suite, G, H, X, Y, Xbar, Ybar)
-	return or.Verifier(suite, points)
+	orVerifier := or.Verifier(suite, points)
+	verifier = func(ctx proof.VerifierContext) error {
+		var p0 ega0
+		p0.set(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
+		if err := p0.check(ctx); err != nil {
+			return err
+		}
+		return orVerifier(ctx)
+	}
+	return
 }
 
 func BiffleTest(suite abstract.Suite, N int) {
diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index 7e40155..06e67cb 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -33,6 +33,45 @@ import (
 // accessible via the reflection API,
 // which refuses to touch unexported fields in a struct.
 
+// What the proof is about: written first, so that every challenge depends on it
+type ega0 struct {
+	G, H             abstract.Point
+	X, Y, Xbar, Ybar []abstract.Point
+}
+
+// Collects the statement; a nil g or h is the standard base point.
+func (p0 *ega0) set(grp abstract.Group, g, h abstract.Point,
+	X, Y, Xbar, Ybar []abstract.Point) {
+
+	if g == nil {
+		g = grp.Point().Base()
+	}
+	if h == nil {
+		h = grp.Point().Base()
+	}
+	p0.G, p0.H = g, h
+	p0.X, p0.Y, p0.Xbar, p0.Ybar = X, Y, Xbar, Ybar
+}
+
+// Reads the statement the proof was made for and compares it with p0.
+func (p0 *ega0) check(ctx proof.VerifierContext) error {
+	k := len(p0.X)
+	in := ega0{X: make([]abstract.Point, k), Y: make([]abstract.Point, k),
+		Xbar: make([]abstract.Point, k), Ybar: make([]abstract.Point, k)}
+	if err := ctx.Get(&in); err != nil {
+		return err
+	}
+	same := in.G.Equal(p0.G) && in.H.Equal(p0.H)
+	for i := 0; i < k; i++ {
+		same = same && in.X[i].Equal(p0.X[i]) && in.Y[i].Equal(p0.Y[i]) &&
+			in.Xbar[i].Equal(p0.Xbar[i]) && in.Ybar[i].Equal(p0.Ybar[i])
+	}
+	if !same {
+		return errors.New("shuffle proof is for another shuffle")
+	}
+	return nil
+}
+
 // P (Prover) step 1: public commitments
 type ega1 struct {
 	Gamma            abstract.Point
@@ -83,6 +122,7 @@ type ega6 struct {
 type PairShuffle struct {
 	grp abstract.Group
 	k   int
+	p0  ega0
 	p1  ega1
 	v2  ega2
 	p3  ega3
@@ -132,6 +172,21 @@ func (ps *PairShuffle) Prove(
 		piinv[pi[i]] = i
 	}
 
+	// P step 0: the statement, with the outputs that pi and beta produce
+	Xbar := make([]abstract.Point, k)
+	Ybar := make([]abstract.Point, k)
+	for i := 0; i < k; i++ {
+		Xbar[i] = grp.Point().Mul(g, beta[pi[i]])
+		Xbar[i].Add(Xbar[i], X[pi[i]])
+		Ybar[i] = grp.Point().Mul(h, beta[pi[i]])
+		Ybar[i].Add(Ybar[i], Y[pi[i]])
+	}
+	p0 := &ps.p0
+	p0.set(grp, g, h, X, Y, Xbar, Ybar)
+	if err := ctx.Put(p0); err != nil {
+		return err
+	}
+
 	// P step 1
 	p1 := &ps.p1
 	z := grp.Secret() // scratch
@@ -235,6 +290,13 @@ func (ps *PairShuffle) Verify(
 		panic("mismatched vector lengths")
 	}
 
+	// P step 0
+	p0 := &ps.p0
+	p0.set(grp, g, h, X, Y, Xbar, Ybar)
+	if err := p0.check(ctx); err != nil {
+		return err
+	}
+
 	// P step 1
 	p1 := &ps.p1
 	if err := ctx.Get(p1); err != nil {
-- 
2.43.0


From e8e0bd769e967367e1ebbd529d91c3bb510ae8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 26/30] fix: servers take no shuffled table without its proof

A table without the 'shuffled' mark was taken as it came, and the keys
handed on were not compared with the ones the proof is about.
---
 cmd/server/AnonServerHandler.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5ef8b57..b6e08c1 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -59,6 +59,7 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 }
 
 func verifyNeffShuffle(params map[string]interface{}) {
+	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	if _, shuffled := params["shuffled"]; shuffled {
 		// get all the necessary parameters
 		xbarList := util.ProtobufDecodePointList(params["xbar"].([]byte))
@@ -75,7 +76,31 @@ func verifyNeffShuffle(params map[string]interface{}) {
 		if err != nil {
 			panic("Shuffle verify failed: " + err.Error())
 		}
+		// the keys handed on have to be the ones that were shuffled
+		if !isPermutation(prevValList, keyList) {
+			panic("Shuffle verify failed: the proof is about other keys")
+		}
+	} else if len(keyList) > 1 {
+		panic("Shuffle verify failed: no proof")
+	}
+}
+
+// whether two lists hold the same points, in any order
+func isPermutation(a, b []abstract.Point) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	count := make(map[string]int)
+	for i := range a {
+		count[a[i].String()]++
+		count[b[i].String()]--
+	}
+	for _, n := range count {
+		if n != 0 {
+			return false
+		}
 	}
+	return true
 }
 
 func handleRoundEnd(params map[string]interface{}) {
-- 
2.43.0


From a535e2d127befaa88a2d29c335030ffeb221d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:49 +0000
Subject: [PATCH 27/30] verif: access to the nodes' states (build tag verif)

---
 cmd/client/verif.go      | 1 +
 cmd/coordinator/verif.go | 1 +
 cmd/server/verif.go      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/cmd/client/verif.go b/cmd/client/verif.go
index f841652..04591fe 100644
--- a/cmd/client/verif.go
+++ b/cmd/client/verif.go
@@ -13,6 +13,7 @@ func VerifInit() *DissentClient {
 }
 
 func VerifSet(c *DissentClient)         { dissentClient = c }
+func VerifGet() *DissentClient          { return dissentClient }
 func VerifRegister()                    { register() }
 func VerifPostBridge(addr string)       { postBridge(addr) }
 func VerifRequestBridges(ind int)       { requestBridges(ind) }
diff --git a/cmd/coordinator/verif.go b/cmd/coordinator/verif.go
index 9abe21f..9756287 100644
--- a/cmd/coordinator/verif.go
+++ b/cmd/coordinator/verif.go
@@ -13,6 +13,7 @@ func VerifInit() *Coordinator {
 }
 
 func VerifSet(c *Coordinator)        { anonCoordinator = c }
+func VerifGet() *Coordinator         { return anonCoordinator }
 func VerifConfigCommParams()         { configCommParams() }
 func VerifClearBuffer()              { clearBuffer() }
 func VerifAnnounce()                 { announce() }
diff --git a/cmd/server/verif.go b/cmd/server/verif.go
index 5a795db..e0fd7c3 100644
--- a/cmd/server/verif.go
+++ b/cmd/server/verif.go
@@ -13,5 +13,6 @@ func VerifInit() *AnonServer {
 }
 
 func VerifSet(s *AnonServer)         { anonServer = s }
+func VerifGet() *AnonServer          { return anonServer }
 func VerifRegister()                 { serverRegister() }
 func VerifListen(l *net.TCPListener) { startAnonServerListener(l) }
-- 
2.43.0


From a5c41ef7fe962cb12e14b1fd01b18e245e3aec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:58 +0000
Subject: [PATCH 28/30] fix: clients take incomplete and malformed commands for
 no commands

---
 cmd/client/ClientLauncher.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 650c572..3511387 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -329,25 +329,47 @@ func Launch() {
 	reader := bufio.NewReader(os.Stdin)
 	Loop:
 	for {
-		data, _, _ := reader.ReadLine()
-		command := string(data)
-		commands := strings.Split(command, " ")
+		command, _ := reader.ReadString('\n')
+		commands := strings.Fields(command)
+		if len(commands) == 0 {
+			continue
+		}
 		switch commands[0] {
 		// case "msg":
 		// 	ind,_ := strconv.Atoi(commands[1])
 		// 	sendMsg(ind, commands[2])
 		// 	break
 		case "vote":
-			msgID,_ := strconv.Atoi(commands[1])
-			vote, _ := strconv.Atoi(commands[2])
+			if len(commands) < 3 {
+				fmt.Println("usage: vote <assignment> <feedback>")
+				break
+			}
+			msgID, err1 := strconv.Atoi(commands[1])
+			vote, err2 := strconv.Atoi(commands[2])
+			if err1 != nil || err2 != nil {
+				fmt.Println("usage: vote <assignment> <feedback>")
+				break
+			}
 			sendVote(msgID, vote)
 			break
 		case "post":
+			if len(commands) < 2 {
+				fmt.Println("usage: post <bridge address>")
+				break
+			}
 			bridgeAddr := commands[1]
 			postBridge(bridgeAddr)
 			break
 		case "get":
-			ind,_ := strconv.Atoi(commands[1])
+			if len(commands) < 2 {
+				fmt.Println("usage: get <number of bridges>")
+				break
+			}
+			ind, err := strconv.Atoi(commands[1])
+			if err != nil {
+				fmt.Println("usage: get <number of bridges>")
+				break
+			}
 			requestBridges(ind)
 			break
 		case "exit":
-- 
2.43.0


From e0ae928ef478ff93d66465bcd1ff18612e88d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:16 +0000
Subject: [PATCH 29/30] fix: the responses of a non-negativity argument gave
 the openings' leading part away

R = e*rc + rrx and r' = e*r + rr were covered by numbers shorter than e*rc and e*r:
R divided by e is rc but for its last bits.
---
 primitive/fujiokam/FujiOkamCommitment.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 8ec6148..9d06848 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -70,6 +70,12 @@ func (base *FujiOkamBase) genRandomSecret() *big.Int {
 	return s
 }
 
+// GenResponseMask returns a random int that hides e*r in a response e*r + mask,
+// where e is a 256-bit challenge and r comes from genRandomSecret
+func (base *FujiOkamBase) GenResponseMask() *big.Int {
+	return random.Int(new(big.Int).Lsh(base.RandomDiameter, 256+80), random.Stream)
+}
+
 // genGn returns a random gn from <H1>
 func (base *FujiOkamBase) genGn() (*Point, *big.Int) {
 	alpha := base.genRandomSecret()
@@ -433,7 +439,7 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.H1, r)
 	C.Mul(C, tp)
 	// rr := random
-	rr := base.genRandomSecret()
+	rr := base.GenResponseMask()
 	// Cr := g2^rx * g3^rx * g3^ra * g4^rb * g5^rd * g6^(-ra^2-rb^2-rd^2) * h^rr (mod n)
 	Cr := base.Point()
 	Cr.Exp(base.G2, rx)
@@ -457,7 +463,8 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	ti.SetInt64(-1)
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
-	commitrx, rrx := base.Commit(rx)
+	rrx := base.GenResponseMask()
+	commitrx := base.CommitWithR(rx, rrx)
 	// e = hash(commitx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
-- 
2.43.0


From e50964b52662cc36ef46c13081f914f12a46a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:16 +0000
Subject: [PATCH 30/30] fix: the responses of an equality argument gave half of
 both openings away

s2 was not reduced and s3 covered by a number of the group's size only: s2/c and s3/c
are the openings but for as many bits as c and the group have.
---
 primitive/pedersen_fujiokam/equality.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index 7d86ce2..979bb4f 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -49,8 +49,8 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	t1Raw := SecretToBigInt(t1)
 	t2 := suite.Secret().Pick(random.Stream)
 	t2Raw := SecretToBigInt(t2)
-	t3 := suite.Secret().Pick(random.Stream)
-	t3Raw := SecretToBigInt(t3)
+	// the order of h1 is unknown: s3 is not reduced, so t3 has to be larger than rFOComm*c
+	t3Raw := fujiokamBase.GenResponseMask()
 	// T1 := GT^t1 * HT^t2 (mod p)
 	T1 := pedersenBase.CommitWithR(t1, t2)
 	byteT1, _ := T1.MarshalBinary()
@@ -73,9 +73,9 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	// s1 := x*c + t1
 	s1 := new(big.Int)
 	s1.Mul(xRaw, cRaw).Add(s1, t1Raw)
-	// s2 := rPComm*c + t2
+	// s2 := rPComm*c + t2 (mod q)
 	s2 := new(big.Int)
-	s2.Mul(rPCommRaw, cRaw).Add(s2, t2Raw)
+	s2.Mul(rPCommRaw, cRaw).Add(s2, t2Raw).Mod(s2, t2.(*nist.Int).M)
 	// s3 := rFOComm*c + t3
 	s3 := new(big.Int)
 	s3.Mul(rFOComm, cRaw).Add(s3, t3Raw)
-- 
2.43.0

