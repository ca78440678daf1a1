From 0f1158d70410003254514cbbaad87eedf331bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 01/19] fix: refuse commitments with a salt of the wrong length

---
 crypto/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypto/util.go b/crypto/util.go
index ccb8944..828ffe0 100644
--- a/crypto/util.go
+++ b/crypto/util.go
@@ -70,6 +70,11 @@ func NewCommit(stuff ...[]byte) (*Commit, error) {
 
 // Verify verifies that the underlying commit c was a commit to the passed
 // byte slices stuff (which won't be mutated).
+// A salt of any other length than the one NewCommit() uses is refused: bytes
+// could otherwise be moved between the salt and the values.
 func (c *Commit) Verify(stuff ...[]byte) bool {
+	if len(c.Salt) != HashSizeByte {
+		return false
+	}
 	return bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
 }
-- 
2.43.0


From 1ccba061657141a038ff53c53d73939e169a093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 02/19] fix: a clone of a tree recomputes the hashes its
 original had not computed

---
 merkletree/node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/merkletree/node.go b/merkletree/node.go
index ea11171..66cc8e4 100644
--- a/merkletree/node.go
+++ b/merkletree/node.go
@@ -110,8 +110,9 @@ func (n *interiorNode) clone(parent *interiorNode) merkleNode {
 			parent: parent,
 			level:  n.level,
 		},
-		leftHash:  append([]byte{}, n.leftHash...),
-		rightHash: append([]byte{}, n.rightHash...),
+		// nil means "not computed yet" and has to stay nil in the copy
+		leftHash:  append([]byte(nil), n.leftHash...),
+		rightHash: append([]byte(nil), n.rightHash...),
 	}
 	if n.leftChild == nil ||
 		n.rightChild == nil {
-- 
2.43.0


From 6dc3a8b61b6dab29ccbbede7ec14c68de6b05338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 03/19] fix: refuse malformed authentication paths, which could
 prove two answers under one root

---
 merkletree/proof.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 5514c93..0f7375b 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -97,6 +97,26 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 	return hash
 }
 
+// isWellFormed checks whether ap has the shape of the paths returned
+// by Get(). All parts of the hashed leaf must have their fixed length, since
+// otherwise bytes could be moved between them without changing its hash.
+func (ap *AuthenticationPath) isWellFormed() bool {
+	leaf := ap.Leaf
+	if leaf == nil ||
+		len(ap.TreeNonce) != crypto.HashSizeByte ||
+		uint64(leaf.Level) != uint64(len(ap.PrunedTree)) ||
+		uint64(leaf.Level) > 8*uint64(len(ap.LookupIndex)) {
+		return false
+	}
+	if leaf.IsEmpty {
+		// the index of an empty branch is the Level-bit prefix leading to it
+		return uint64(len(leaf.Index)) == (uint64(leaf.Level)+7)/8
+	}
+	return len(leaf.Index) == len(ap.LookupIndex) &&
+		leaf.Commitment != nil &&
+		len(leaf.Commitment.Value) == crypto.HashSizeByte
+}
+
 // Verify first compares the lookup index with the leaf index.
 // It expects the lookup index and the leaf index match in the
 // first l bits with l is the Level of the proof node if ap is
@@ -105,9 +125,15 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 // Finally, it recomputes the tree's root node from ap,
 // and compares it to treeHash, which is taken from a STR.
 // Specifically, treeHash has to come from the STR whose tree returns ap.
+// No tree hash can be computed from a malformed ap, so that it is reported as
+// ErrUnequalTreeHashes.
 //
 // This should be called after the VRF index is verified successfully.
 func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
+	if !ap.isWellFormed() {
+		return ErrUnequalTreeHashes
+	}
+
 	if ap.ProofType() == ProofOfAbsence {
 		// Check if i and j match in the first l bits
 		indexBits := utils.ToBits(ap.Leaf.Index)
@@ -142,9 +168,11 @@ func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
 // between the leaf index and the lookup index to determine
 // the proof type, and sets ap's proof type the first time this
 // method called, memoizing the proof type for subsequent calls.
+// An empty leaf always proves absence. The proof type of a malformed ap
+// without a leaf remains undetermined.
 func (ap *AuthenticationPath) ProofType() ProofType {
-	if ap.proofType == undeterminedProof {
-		if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
+	if ap.proofType == undeterminedProof && ap.Leaf != nil {
+		if !ap.Leaf.IsEmpty && bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
 			ap.proofType = ProofOfInclusion
 		} else {
 			ap.proofType = ProofOfAbsence
-- 
2.43.0


From 127ca382e73c535e7b4821ff35babb45c1d6f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 04/19] fix: report structurally incomplete responses instead
 of crashing on them

---
 application/encoding.go              |  2 +-
 protocol/auditlog/auditlog.go        |  5 ++++-
 protocol/auditor/auditor.go          |  6 +++++-
 protocol/client/consistencychecks.go |  5 ++++-
 protocol/message.go                  | 26 ++++++++++++++++++++++++--
 protocol/str.go                      |  6 ++++++
 6 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/application/encoding.go b/application/encoding.go
index 2f9ce85..2261b3b 100644
--- a/application/encoding.go
+++ b/application/encoding.go
@@ -91,7 +91,7 @@ func UnmarshalResponse(t int, msg []byte) *protocol.Response {
 			Error:             res.Error,
 			DirectoryResponse: response,
 		}
-	case protocol.STRType:
+	case protocol.AuditType, protocol.STRType:
 		response := new(protocol.STRHistoryRange)
 		if err := json.Unmarshal(res.DirectoryResponse, &response); err != nil {
 			return &protocol.Response{
diff --git a/protocol/auditlog/auditlog.go b/protocol/auditlog/auditlog.go
index bbcd50d..b4bc2c5 100644
--- a/protocol/auditlog/auditlog.go
+++ b/protocol/auditlog/auditlog.go
@@ -72,7 +72,10 @@ func (h *directoryHistory) Audit(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// audit the STRs
 	// if strs.STR is somehow malformed or invalid (e.g. strs.STR
diff --git a/protocol/auditor/auditor.go b/protocol/auditor/auditor.go
index d6e2f0b..95ded53 100644
--- a/protocol/auditor/auditor.go
+++ b/protocol/auditor/auditor.go
@@ -90,6 +90,10 @@ func (a *AudState) CheckSTRAgainstVerified(str *protocol.DirSTR) error {
 	// FIXME: check whether the STR was issued on time and whatnot.
 	// Maybe it has something to do w/ #81 and client
 	// transitioning between epochs.
+	if str.IsIncomplete() {
+		return protocol.ErrMalformedMessage
+	}
+
 	// Try to verify w/ what's been saved
 	switch {
 	case str.Epoch == a.verifiedSTR.Epoch:
@@ -117,7 +121,7 @@ func (a *AudState) VerifySTRRange(prevSTR *protocol.DirSTR, strs []*protocol.Dir
 	prev := prevSTR
 	for i := 0; i < len(strs); i++ {
 		str := strs[i]
-		if str == nil {
+		if str.IsIncomplete() {
 			return protocol.ErrMalformedMessage
 		}
 
diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 5e2c124..1816d5f 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -70,7 +70,10 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
diff --git a/protocol/message.go b/protocol/message.go
index bafc86a..96bb2cb 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -278,12 +278,12 @@ func (msg *Response) Validate() error {
 	}
 	switch df := msg.DirectoryResponse.(type) {
 	case *DirectoryProof:
-		if len(df.STR) == 0 || len(df.AP) == 0 {
+		if df == nil || !hasAllSTRs(df.STR) || !hasAllAPs(df.AP) {
 			return ErrMalformedMessage
 		}
 		return nil
 	case *STRHistoryRange:
-		if len(df.STR) == 0 {
+		if df == nil || !hasAllSTRs(df.STR) {
 			return ErrMalformedMessage
 		}
 		return nil
@@ -292,6 +292,28 @@ func (msg *Response) Validate() error {
 	}
 }
 
+// hasAllSTRs checks that strs is not empty, and that none of the signed tree
+// roots or their parts are missing.
+func hasAllSTRs(strs []*DirSTR) bool {
+	for _, str := range strs {
+		if str.IsIncomplete() {
+			return false
+		}
+	}
+	return len(strs) > 0
+}
+
+// hasAllAPs checks that aps is not empty, and that none of the authentication
+// paths or their leaf nodes are missing.
+func hasAllAPs(aps []*merkletree.AuthenticationPath) bool {
+	for _, ap := range aps {
+		if ap == nil || ap.Leaf == nil {
+			return false
+		}
+	}
+	return len(aps) > 0
+}
+
 // GetKey returns the key extracted from
 // a validated CONIKS directory's response.
 //
diff --git a/protocol/str.go b/protocol/str.go
index db92f96..193bac7 100644
--- a/protocol/str.go
+++ b/protocol/str.go
@@ -17,6 +17,12 @@ func NewDirSTR(str *merkletree.SignedTreeRoot) *DirSTR {
 	}
 }
 
+// IsIncomplete returns whether str or one of its parts is missing, which
+// is possible if it was received from a malfunctioning directory.
+func (str *DirSTR) IsIncomplete() bool {
+	return str == nil || str.SignedTreeRoot == nil || str.Policies == nil
+}
+
 // Serialize overrides merkletree.SignedTreeRoot.Serialize
 func (str *DirSTR) Serialize() []byte {
 	return append(str.SerializeInternal(), str.Policies.Serialize()...)
-- 
2.43.0


From 6fc1dd0d0ca64bfcc7f163e8a8fabf7251bad75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 05/19] fix: answer history requests for evicted epochs with an
 error

---
 protocol/directory/directory.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index 3412bc4..c4690c9 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -323,6 +323,8 @@ func (d *ConiksDirectory) Monitor(req *protocol.MonitoringRequest) *protocol.Res
 // and endEpoch are the epoch range endpoints indicated in the client's
 // request. If req.endEpoch is greater than d.LatestSTR().Epoch,
 // the end of the range will be set to d.LatestSTR().Epoch.
+// If any of these snapshots is no longer kept in memory,
+// GetSTRHistory() returns a message.NewErrorResponse(ErrDirectory).
 func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protocol.Response {
 	// make sure the request is well-formed
 	if req.StartEpoch > d.LatestSTR().Epoch ||
@@ -337,8 +339,11 @@ func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protoc
 
 	var strs []*protocol.DirSTR
 	for ep := req.StartEpoch; ep <= endEp; ep++ {
-		str := protocol.NewDirSTR(d.pad.GetSTR(ep))
-		strs = append(strs, str)
+		str := d.pad.GetSTR(ep)
+		if str == nil {
+			return protocol.NewErrorResponse(protocol.ErrDirectory)
+		}
+		strs = append(strs, protocol.NewDirSTR(str))
 	}
 
 	return protocol.NewSTRHistoryRange(strs)
-- 
2.43.0


From b309bf4508a6eba6d265c9c8389112ff565bb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 06/19] fix: extract the key of a response as documented

---
 protocol/client/consistencychecks.go | 12 +++++++++---
 protocol/message.go                  | 18 +++++++++++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 1816d5f..bd6ddfc 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -124,8 +124,13 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
 		return err
 	}
-	recvKey, _ := msg.GetKey()
-	cc.Bindings[uname] = recvKey
+	recvKey, err := msg.GetKey()
+	if err != nil {
+		return err
+	}
+	if recvKey != nil {
+		cc.Bindings[uname] = recvKey
+	}
 	return nil
 }
 
@@ -195,7 +200,8 @@ func (cc *ConsistencyChecks) verifyKeyLookup(msg *protocol.Response,
 
 	proofType := ap.ProofType()
 	switch {
-	case msg.Error == protocol.ReqNameNotFound && proofType == merkletree.ProofOfAbsence:
+	// a name which is not registered cannot have been promised
+	case msg.Error == protocol.ReqNameNotFound && proofType == merkletree.ProofOfAbsence && df.TB == nil:
 	// FIXME: This would be changed when we support key changes
 	case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfInclusion:
 	case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfAbsence && cc.useTBs:
diff --git a/protocol/message.go b/protocol/message.go
index 96bb2cb..79dc208 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -324,7 +324,23 @@ func hasAllAPs(aps []*merkletree.AuthenticationPath) bool {
 // If the response contains a range of authentication paths,
 // the key is obtained from the authentication path corresponding
 // to the most recent signed tree root.
-// FIXME: remove this obsolete function
+//
+// The key is nil if the response shows that there is no binding.
 func (msg *Response) GetKey() ([]byte, error) {
+	if err := msg.Validate(); err != nil {
+		return nil, err
+	}
+	df, ok := msg.DirectoryResponse.(*DirectoryProof)
+	if !ok {
+		return nil, ErrMalformedMessage
+	}
+
+	ap := df.AP[len(df.AP)-1]
+	if ap.ProofType() == merkletree.ProofOfInclusion {
+		return ap.Leaf.Value, nil
+	}
+	if df.TB != nil {
+		return df.TB.Value, nil
+	}
 	return nil, nil
 }
-- 
2.43.0


From 07acfc70e76844338a76a79861d43627f2f10a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 07/19] fix: notice promises broken by a missing or repeated
 promise

---
 protocol/client/consistencychecks.go | 35 +++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index bd6ddfc..08dad84 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -249,12 +249,22 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 	switch requestType {
 	case protocol.RegistrationType:
 		df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-		if df.AP[0].ProofType() == merkletree.ProofOfAbsence {
+		ap := df.AP[0]
+		str := df.STR[0]
+		if ap.ProofType() == merkletree.ProofOfAbsence {
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
+			if err := cc.verifyPendingPromise(uname, str, df); err != nil {
+				return err
+			}
 			cc.TBs[uname] = df.TB
+			return nil
 		}
+		if err := cc.verifyFulfilledPromise(uname, str, ap); err != nil {
+			return err
+		}
+		delete(cc.TBs, uname)
 		return nil
 
 	case protocol.KeyLookupType:
@@ -273,7 +283,13 @@ func (cc *ConsistencyChecks) updateTBs(requestType int, msg *protocol.Response,
 			if err := cc.verifyReturnedPromise(df, key); err != nil {
 				return err
 			}
+			if err := cc.verifyPendingPromise(uname, str, df); err != nil {
+				return err
+			}
 			cc.TBs[uname] = df.TB
+
+		case msg.Error == protocol.ReqNameNotFound:
+			return cc.verifyPendingPromise(uname, str, df)
 		}
 
 	default:
@@ -296,6 +312,23 @@ func (cc *ConsistencyChecks) verifyFulfilledPromise(uname string, str *protocol.
 	return nil
 }
 
+// verifyPendingPromise verifies that a promise the client already holds is
+// repeated in df, which includes a proof of absence. This is only acceptable
+// until the end of the epoch in which the promise was made, and an epoch's
+// promises are those that are signed together with the epoch's STR.
+func (cc *ConsistencyChecks) verifyPendingPromise(uname string, str *protocol.DirSTR,
+	df *protocol.DirectoryProof) error {
+	if tb, ok := cc.TBs[uname]; ok {
+		if df.TB == nil ||
+			!bytes.Equal(df.TB.Index, tb.Index) ||
+			!bytes.Equal(df.TB.Value, tb.Value) ||
+			!cc.Verify(tb.Serialize(str.Signature), tb.Signature) {
+			return protocol.CheckBrokenPromise
+		}
+	}
+	return nil
+}
+
 // verifyReturnedPromise validates a returned promise.
 // Note that the directory returns a promise iff the returned proof is
 // _a proof of absence_.
-- 
2.43.0


From 5fad4f4170428c4b79596a9d14e40cf63ffdb9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 08/19] fix: keep the code of an auditor's answer about an
 unknown directory

---
 protocol/error.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/protocol/error.go b/protocol/error.go
index 8c9f74d..cdf227b 100644
--- a/protocol/error.go
+++ b/protocol/error.go
@@ -44,8 +44,10 @@ const (
 // should skip the consistency checks. These errors indicate
 // that either a client request could not be processed due to
 // a malformed client request, an internal server error or
-// due to a malformed server response.
+// due to a malformed server response, or that an auditor does
+// not have any data to check.
 var errors = map[error]bool{
+	ReqUnknownDirectory: true,
 	ErrMalformedMessage: true,
 	ErrDirectory:        true,
 	ErrAuditLog:         true,
@@ -53,9 +55,10 @@ var errors = map[error]bool{
 
 var (
 	errorMessages = map[ErrorCode]string{
-		ReqSuccess:      "[coniks] Successful client request",
-		ReqNameExisted:  "[coniks] Registering identity is already registered",
-		ReqNameNotFound: "[coniks] Searched name not found in directory",
+		ReqSuccess:          "[coniks] Successful client request",
+		ReqNameExisted:      "[coniks] Registering identity is already registered",
+		ReqNameNotFound:     "[coniks] Searched name not found in directory",
+		ReqUnknownDirectory: "[coniks] No observed history for the requested directory",
 
 		ErrMalformedMessage: "[coniks] Malformed message",
 		ErrDirectory:        "[coniks] Directory error",
-- 
2.43.0


From c8f03124c073c4444f8f638b3c716ffc9294dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 09/19] fix: update epochs of a generated configuration at the
 announced deadline

The generated configuration left the server's own epoch_deadline at 0,
so a server set up with it issued epochs back to back.
---
 application/server/config.go | 3 +++
 application/server/server.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/application/server/config.go b/application/server/config.go
index 3b363c0..b515280 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -44,6 +44,9 @@ func NewConfig(file, encoding string, addrs []*Address,
 		Policies:            policies,
 		InitSTRPath:         initSTRPath,
 	}
+	if policies != nil {
+		conf.EpochDeadline = policies.EpochDeadline
+	}
 
 	return &conf
 }
diff --git a/application/server/server.go b/application/server/server.go
index 89050e7..13a1b31 100644
--- a/application/server/server.go
+++ b/application/server/server.go
@@ -50,6 +50,13 @@ func NewConiksServer(conf *Config) *ConiksServer {
 		perms[addr.ServerAddress][protocol.RegistrationType] = addr.AllowRegistration
 	}
 
+	// without an explicit update interval, follow the epoch deadline
+	// which the server announces to its clients
+	epochDeadline := conf.EpochDeadline
+	if epochDeadline == 0 {
+		epochDeadline = conf.Policies.EpochDeadline
+	}
+
 	// create server instance
 	sb := application.NewServerBase(conf.CommonConfig, "Listen",
 		perms)
@@ -62,7 +69,7 @@ func NewConiksServer(conf *Config) *ConiksServer {
 			conf.Policies.signKey,
 			conf.LoadedHistoryLength,
 			true),
-		epochTimer: application.NewEpochTimer(conf.EpochDeadline),
+		epochTimer: application.NewEpochTimer(epochDeadline),
 	}
 
 	// save the initial STR to be used for initializing auditors
-- 
2.43.0


From cf1ffe2f3992c5fa53f4604ee829753806942617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 10/19] fix: take a configuration's location from where it is
 loaded

The file's own path was saved in it and replaced the path it was loaded
from: after a move, or with a relative path, the initial STR was written
elsewhere and a reload read another file.
---
 application/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/application/config.go b/application/config.go
index 7cf46d8..7f9ecab 100644
--- a/application/config.go
+++ b/application/config.go
@@ -26,9 +26,11 @@ type AppConfig interface {
 // values including the file path, logger configuration, and config
 // loader.
 type CommonConfig struct {
-	Path     string
+	// Path and Encoding say where and how the config was loaded; they
+	// aren't part of the file, which may be moved or copied.
+	Path     string        `toml:"-"`
 	Logger   *LoggerConfig `toml:"logger"`
-	Encoding string
+	Encoding string        `toml:"-"`
 	loader   ConfigLoader
 }
 
-- 
2.43.0


From 89259813bf438f7d418daccdebcda628ab01b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 11/19] fix: report incomplete configurations and initial STRs
 instead of crashing

---
 application/config.go        |  3 +++
 application/server/config.go | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/application/config.go b/application/config.go
index 7f9ecab..720f3a1 100644
--- a/application/config.go
+++ b/application/config.go
@@ -82,6 +82,9 @@ func LoadInitSTR(path, file string) (*protocol.DirSTR, error) {
 	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {
 		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
 	}
+	if initSTR.IsIncomplete() {
+		return nil, fmt.Errorf("Initial STR is incomplete")
+	}
 	if initSTR.Epoch != 0 {
 		return nil, fmt.Errorf("Initial STR epoch must be 0 (got %d)", initSTR.Epoch)
 	}
diff --git a/application/server/config.go b/application/server/config.go
index b515280..d54476d 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -61,6 +61,17 @@ func (conf *Config) Load(file, encoding string) error {
 	if err := conf.GetLoader().Decode(conf); err != nil {
 		return err
 	}
+	if conf.Policies == nil {
+		return fmt.Errorf("Config has no policies section")
+	}
+	if conf.Logger == nil {
+		return fmt.Errorf("Config has no logger section")
+	}
+	for i, addr := range conf.Addresses {
+		if addr == nil || addr.ServerAddress == nil {
+			return fmt.Errorf("Config has no address in addresses entry %d", i)
+		}
+	}
 
 	// load signing key
 	signPath := utils.ResolvePath(conf.Policies.SignKeyPath, file)
-- 
2.43.0


From 070e53925dc67d33d0be1e65b73d7cbdb1a95244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 12/19] fix: server setup never overwrites an existing TLS key
 or certificate

---
 cli/coniksserver/internal/cmd/init.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cli/coniksserver/internal/cmd/init.go b/cli/coniksserver/internal/cmd/init.go
index 198f9cc..2a99ae7 100644
--- a/cli/coniksserver/internal/cmd/init.go
+++ b/cli/coniksserver/internal/cmd/init.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"log"
+	"os"
 	"path"
 	"strconv"
 
@@ -32,7 +33,7 @@ func initRunFunc(cmd *cobra.Command, args []string) {
 
 	cert, err := strconv.ParseBool(cmd.Flag("cert").Value.String())
 	if err == nil && cert {
-		testutil.CreateTLSCert(dir)
+		mkTLSCert(dir)
 	}
 }
 
@@ -74,6 +75,19 @@ func mkConfig(dir string) {
 	}
 }
 
+func mkTLSCert(dir string) {
+	for _, name := range []string{"server.pem", "server.key"} {
+		file := path.Join(dir, name)
+		if _, err := os.Lstat(file); !os.IsNotExist(err) {
+			log.Printf("Can't write file: %s already exists", file)
+			return
+		}
+	}
+	if err := testutil.CreateTLSCert(dir); err != nil {
+		log.Println(err)
+	}
+}
+
 func mkSigningKey(dir string) {
 	sk, err := sign.GenerateKey(nil)
 	if err != nil {
-- 
2.43.0


From 52cbc52d90df287b2ef162706c0ac1dab88d4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 13/19] fix: a pid file holds nothing but the server's pid

---
 cli/coniksserver/internal/cmd/run.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/coniksserver/internal/cmd/run.go b/cli/coniksserver/internal/cmd/run.go
index 36fb2fe..04e5965 100644
--- a/cli/coniksserver/internal/cmd/run.go
+++ b/cli/coniksserver/internal/cmd/run.go
@@ -50,11 +50,12 @@ func run(cmd *cobra.Command, args []string) {
 }
 
 func writePID() {
-	pidf, err := os.OpenFile(path.Join(".", "coniks.pid"), os.O_CREATE|os.O_WRONLY, 0666)
+	pidf, err := os.OpenFile(path.Join(".", "coniks.pid"), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0666)
 	if err != nil {
 		log.Printf("Cannot create coniks.pid: %v", err)
 		return
 	}
+	defer pidf.Close()
 	if _, err := fmt.Fprint(pidf, os.Getpid()); err != nil {
 		log.Printf("Cannot write to pid file: %v", err)
 	}
-- 
2.43.0


From e2a39a87e963216216e04322ea5591994211f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 14/19] fix: the bot returns the key server's answer in full

An answer of more than 8192 bytes, as for a long key, was cut off.
---
 application/bots/bot.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/application/bots/bot.go b/application/bots/bot.go
index 4621e1e..80bd493 100644
--- a/application/bots/bot.go
+++ b/application/bots/bot.go
@@ -6,8 +6,7 @@
 package bots
 
 import (
-	"bytes"
-	"io"
+	"io/ioutil"
 	"net"
 )
 
@@ -45,10 +44,5 @@ func SendRequestToCONIKS(addr string, msg []byte) ([]byte, error) {
 	}
 
 	conn.CloseWrite()
-	var buf bytes.Buffer
-	if _, err := io.CopyN(&buf, conn, 8192); err != nil && err != io.EOF {
-		return nil, err
-	}
-
-	return buf.Bytes(), nil
+	return ioutil.ReadAll(conn)
 }
-- 
2.43.0


From 1c2d5fe8a07173bc9ec05921c054cb6f7501a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 15/19] fix: the client reports an unparseable server address
 instead of crashing

---
 cli/coniksclient/internal/cmd/run.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/coniksclient/internal/cmd/run.go b/cli/coniksclient/internal/cmd/run.go
index 7531844..b181e41 100644
--- a/cli/coniksclient/internal/cmd/run.go
+++ b/cli/coniksclient/internal/cmd/run.go
@@ -120,7 +120,10 @@ func register(cc *client.ConsistencyChecks, conf *clientapp.Config, name string,
 		// fallback to conf.Address if empty
 		regAddress = conf.Address
 	}
-	u, _ := url.Parse(regAddress)
+	u, err := url.Parse(regAddress)
+	if err != nil {
+		return ("Invalid config!")
+	}
 	switch u.Scheme {
 	case "tcp":
 		res, err = testutil.NewTCPClient(req, regAddress)
@@ -173,7 +176,10 @@ func keyLookup(cc *client.ConsistencyChecks, conf *clientapp.Config, name string
 	}
 
 	var res []byte
-	u, _ := url.Parse(conf.Address)
+	u, err := url.Parse(conf.Address)
+	if err != nil {
+		return ("Invalid config!")
+	}
 	switch u.Scheme {
 	case "tcp":
 		res, err = testutil.NewTCPClient(req, conf.Address)
-- 
2.43.0


From 9be24f3ad4bddb4469f5fe0426c3d1f6796eebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 16/19] fix: refuse answers with more than one proof or signed
 root

HandleResponse() verified the first of each, but took the key from the last.
---
 protocol/client/consistencychecks.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 08dad84..94ff5f9 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -109,7 +109,13 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	}
 	switch requestType {
 	case protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
-		if _, ok := msg.DirectoryResponse.(*protocol.DirectoryProof); !ok {
+		df, ok := msg.DirectoryResponse.(*protocol.DirectoryProof)
+		if !ok {
+			return protocol.ErrMalformedMessage
+		}
+		// only one of each is checked
+		if (requestType == protocol.RegistrationType || requestType == protocol.KeyLookupType) &&
+			(len(df.AP) != 1 || len(df.STR) != 1) {
 			return protocol.ErrMalformedMessage
 		}
 	default:
@@ -173,8 +179,6 @@ func (cc *ConsistencyChecks) checkConsistency(requestType int, msg *protocol.Res
 func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
 	ap := df.AP[0]
 	str := df.STR[0]
 
@@ -193,8 +197,6 @@ func (cc *ConsistencyChecks) verifyRegistration(msg *protocol.Response,
 func (cc *ConsistencyChecks) verifyKeyLookup(msg *protocol.Response,
 	uname string, key []byte) error {
 	df := msg.DirectoryResponse.(*protocol.DirectoryProof)
-	// FIXME: should explicitly validate that
-	// len(df.AP) == len(df.STR) == 1
 	ap := df.AP[0]
 	str := df.STR[0]
 
-- 
2.43.0


From 2962f614ab59d23033ad7fad2403449f5c995d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 17/19] fix: keep a server configuration's log path empty if it
 isn't set

---
 application/server/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/application/server/config.go b/application/server/config.go
index d54476d..e35afd1 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -100,8 +100,10 @@ func (conf *Config) Load(file, encoding string) error {
 		addr.TLSCertPath = utils.ResolvePath(addr.TLSCertPath, file)
 		addr.TLSKeyPath = utils.ResolvePath(addr.TLSKeyPath, file)
 	}
-	// logger config
-	conf.Logger.Path = utils.ResolvePath(conf.Logger.Path, file)
+	// logger config: without a path, the logger doesn't write to a file
+	if conf.Logger.Path != "" {
+		conf.Logger.Path = utils.ResolvePath(conf.Logger.Path, file)
+	}
 
 	return nil
 }
-- 
2.43.0


From c4895b3bc672249c626ade557477c77684ed8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 18/19] fix: don't race on the listeners' log verb when
 starting a server

---
 application/serverbase.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/application/serverbase.go b/application/serverbase.go
index 76525db..d5d6175 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -93,9 +93,11 @@ func NewServerBase(conf *CommonConfig, listenVerb string,
 func (sb *ServerBase) ListenAndHandle(addr *ServerAddress,
 	reqHandler func(req *protocol.Request) *protocol.Response) {
 	ln, tlsConfig := addr.resolveAndListen()
+	// the caller may set another Verb for the next address
+	verb := sb.Verb
 	sb.waitStop.Add(1)
 	go func() {
-		sb.logger.Info(sb.Verb, "address", addr.Address)
+		sb.logger.Info(verb, "address", addr.Address)
 		sb.acceptRequests(addr, ln, tlsConfig, reqHandler)
 		sb.waitStop.Done()
 	}()
-- 
2.43.0


From b0fc0b68f4b2e518c1a8f885a90822ef9040e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 19/19] fix: keep acknowledged writes when a large batch
 precedes a crash

---
 storage/kv/leveldbkv/leveldbkv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/kv/leveldbkv/leveldbkv.go b/storage/kv/leveldbkv/leveldbkv.go
index 6091727..9e784d8 100644
--- a/storage/kv/leveldbkv/leveldbkv.go
+++ b/storage/kv/leveldbkv/leveldbkv.go
@@ -28,7 +28,11 @@ type leveldbkv leveldb.DB
 
 func OpenDB(path string) kv.DB {
 	// open db & keep it open
-	db, err := leveldb.OpenFile(path, nil)
+	// leveldb writes batches larger than its write buffer around the journal,
+	// which loses earlier writes still in the journal if the process crashes.
+	db, err := leveldb.OpenFile(path, &opt.Options{
+		DisableLargeBatchTransaction: true,
+	})
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0

