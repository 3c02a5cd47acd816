From 549da475cc6a8004f2b61ca16635c2aa02303c0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 01/56] fix: refuse AES-CBC ciphertexts without a full block
 instead of panicking

---
 axolotl/crypto.go | 3 +++
 crypto.go         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/axolotl/crypto.go b/axolotl/crypto.go
index 6aaaa42..876d796 100644
--- a/axolotl/crypto.go
+++ b/axolotl/crypto.go
@@ -31,6 +31,9 @@ func Decrypt(key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext)%aes.BlockSize != 0 {
 		return nil, errors.New("not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext shorter than IV and one block")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
diff --git a/crypto.go b/crypto.go
index fd29e93..e324818 100644
--- a/crypto.go
+++ b/crypto.go
@@ -93,6 +93,9 @@ func aesDecrypt(key, ciphertext []byte) ([]byte, error) {
 		log.Debugln("[textsecure] aesDecrypt ciphertext not multiple of AES blocksize", length)
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext shorter than IV and one block")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
-- 
2.43.0


From 0c57793ecc1bf400e81a3bd24dedbbe50604779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 02/56] fix: do not clear the sign bit in the caller's
 signature when verifying

---
 curve25519sign/curve25519sign.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/curve25519sign/curve25519sign.go b/curve25519sign/curve25519sign.go
index 917e792..68301fc 100644
--- a/curve25519sign/curve25519sign.go
+++ b/curve25519sign/curve25519sign.go
@@ -93,8 +93,10 @@ func Verify(publicKey [32]byte, message []byte, signature *[64]byte) bool {
 	var A_ed [32]byte
 	edwards25519.FeToBytes(&A_ed, &edY)
 
-	A_ed[31] |= signature[63] & 0x80
-	signature[63] &= 0x7F
+	// the sign bit is cleared in a copy, so that the caller's signature stays valid
+	edSignature := *signature
+	A_ed[31] |= edSignature[63] & 0x80
+	edSignature[63] &= 0x7F
 
-	return ed25519.Verify(&A_ed, message, signature)
+	return ed25519.Verify(&A_ed, message, &edSignature)
 }
-- 
2.43.0


From 6e8b0cac981d3dcd95c78c153352795b5a84c300 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 03/56] fix: try sessions on copies and keep a promoted session
 only once

A failed attempt to decrypt a message changed the session states it was
tried on, and these were stored when another state succeeded. A promoted
state also stayed among the previous ones, where it accepted messages again
that had been decrypted since.
---
 axolotl/session.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3283110..6e42c5e 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -23,6 +23,10 @@ func newSessionState(ss *protobuf.SessionStructure) *sessionState {
 	return &sessionState{SS: ss}
 }
 
+func (ss *sessionState) copy() *sessionState {
+	return newSessionState(proto.Clone(ss.SS).(*protobuf.SessionStructure))
+}
+
 func (ss *sessionState) setAliceBaseKey(key []byte) {
 	ss.SS.AliceBaseKey = key
 }
@@ -607,14 +611,21 @@ func (err InvalidMessageError) Error() string {
 }
 
 func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage) ([]byte, error) {
-	b, err := sr.sessionState.decrypt(ciphertext)
+	// Try on copies, so that a failed attempt leaves no trace in the record.
+	ss := sr.sessionState.copy()
+	b, err := ss.decrypt(ciphertext)
 	if err == nil {
+		sr.sessionState = ss
 		return b, nil
 	}
 
-	for _, ss := range sr.PreviousStates {
+	for i, ps := range sr.PreviousStates {
+		ss := ps.copy()
 		b, err := ss.decrypt(ciphertext)
 		if err == nil {
+			// The promoted state must not stay among the previous ones,
+			// where it would accept the messages decrypted from now on again.
+			sr.PreviousStates = append(sr.PreviousStates[:i:i], sr.PreviousStates[i+1:]...)
 			sr.promoteState(ss)
 			return b, nil
 		}
-- 
2.43.0


From e9ea15079643383d8fbfe340a63af622456093fb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 04/56] fix: record a correspondent's identity only once a
 message of theirs is authenticated

A first message that failed to decrypt left the identity key it claimed in
the identity store, so that the genuine correspondent was not trusted.
---
 axolotl/session.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 6e42c5e..fd18bf3 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -425,11 +425,6 @@ func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWh
 	sr.sessionState.setRemoteRegistrationID(pkwm.RegistrationID)
 	sr.sessionState.setAliceBaseKey(pkwm.BaseKey.Serialize())
 
-	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
-	if err != nil {
-		return 0, err
-	}
-
 	return pkwm.PreKeyID, nil
 }
 
@@ -693,6 +688,7 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
+	known := sr.hasSessionState(uint32(ciphertext.Version), ciphertext.BaseKey.Serialize())
 	pkid, err := sc.Builder.BuildReceiverSession(sr, ciphertext)
 	if err != nil {
 		return nil, err
@@ -701,6 +697,13 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
+	if !known {
+		// The message is authentic, so the sender does hold the identity key.
+		err = sc.Builder.identityStore.SaveIdentity(sc.RecipientID, ciphertext.IdentityKey)
+		if err != nil {
+			return nil, err
+		}
+	}
 	if pkid != 0xFFFFFF {
 		sc.PreKeyStore.RemovePreKey(pkid)
 	}
-- 
2.43.0


From bafb4ae3b849f771d5c1dfad2a4e4ec716c6c5d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 05/56] fix: remove a used one-time prekey only after the
 session is stored

If storing the session failed, the prekey was already gone and the message
could never be decrypted. A message that names no prekey removed number 0.
---
 axolotl/session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index fd18bf3..dd80958 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -704,13 +704,13 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 			return nil, err
 		}
 	}
-	if pkid != 0xFFFFFF {
-		sc.PreKeyStore.RemovePreKey(pkid)
-	}
 	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
 	if err != nil {
 		return nil, err
 	}
+	if pkid != 0 && pkid != 0xFFFFFF {
+		sc.PreKeyStore.RemovePreKey(pkid)
+	}
 	return plaintext, nil
 }
 
-- 
2.43.0


From 90ecc5e45de7edd564b7cbfc64975d0d1253256b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 06/56] fix: refuse prekey bundles without a signed prekey

The signature check was skipped for them, and building the session panicked.
---
 axolotl/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index dd80958..2efbde2 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -444,7 +444,7 @@ func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
 	}
-	if pkb.SignedPreKeyPublic != nil &&
+	if pkb.SignedPreKeyPublic == nil ||
 		!curve25519sign.Verify(*theirIdentityKey.Key(), pkb.SignedPreKeyPublic.Serialize(), &pkb.SignedPreKeySignature) {
 		return InvalidSignatureError{pkb}
 	}
-- 
2.43.0


From fa23b78ce6c0edbd820b5715a6e03b26ffd7b384 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 07/56] fix: refuse session messages with keys of the wrong
 length instead of panicking

---
 axolotl/messages.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/axolotl/messages.go b/axolotl/messages.go
index 32317d6..765be7c 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -24,6 +24,9 @@ type WhisperMessage struct {
 
 const macLength = 8
 
+// serializedKeyLength is the length of a public key with its type byte.
+const serializedKeyLength = 33
+
 const currentVersion = 3
 
 func highBitsToInt(b byte) byte {
@@ -55,7 +58,7 @@ func LoadWhisperMessage(serialized []byte) (*WhisperMessage, error) {
 		return nil, err
 	}
 
-	if pwm.GetCiphertext() == nil || pwm.GetRatchetKey() == nil {
+	if pwm.GetCiphertext() == nil || len(pwm.GetRatchetKey()) != serializedKeyLength {
 		return nil, ErrIncompleteWhisperMessage
 	}
 
@@ -146,6 +149,9 @@ var ErrIncompletePreKeyWhisperMessage = errors.New("incomplete PreKeyWhisperMess
 
 // LoadPreKeyWhisperMessage creates a PreKeyWhisperMessage from serialized bytes.
 func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error) {
+	if len(serialized) == 0 {
+		return nil, ErrIncompletePreKeyWhisperMessage
+	}
 	version := highBitsToInt(serialized[0])
 
 	if version != currentVersion {
@@ -158,8 +164,8 @@ func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error)
 		return nil, err
 	}
 
-	if ppkwm.GetBaseKey() == nil ||
-		ppkwm.GetIdentityKey() == nil ||
+	if len(ppkwm.GetBaseKey()) != serializedKeyLength ||
+		len(ppkwm.GetIdentityKey()) != serializedKeyLength ||
 		ppkwm.GetMessage() == nil ||
 		ppkwm.GetSignedPreKeyId() == 0 {
 		return nil, ErrIncompletePreKeyWhisperMessage
-- 
2.43.0


From 0d04f833cf5bac461eecc5d2a1b92d3cfa324d56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 08/56] fix: decrypt a first message only in the session it
 establishes

Wrapped in a prekey header of somebody else's making, a message of an
archived session used up the prekey named there and archived its session.
---
 axolotl/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index 2efbde2..22186a6 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -693,11 +693,18 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
+	previous := sr.PreviousStates
+	if !known {
+		// Only the session that the message establishes may decrypt it: another
+		// one would accept it without authenticating the prekeys it names.
+		sr.PreviousStates = nil
+	}
 	plaintext, err := sc.decrypt(sr, ciphertext.Message)
 	if err != nil {
 		return nil, err
 	}
 	if !known {
+		sr.PreviousStates = previous
 		// The message is authentic, so the sender does hold the identity key.
 		err = sc.Builder.identityStore.SaveIdentity(sc.RecipientID, ciphertext.IdentityKey)
 		if err != nil {
-- 
2.43.0


From 51afcf96309e87da979bb66bb552b57443b19662 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 09/56] fix: keep at most 2000 skipped message keys per chain

Each message could skip another 2000, so that a peer could make the stored
session grow without bound.
---
 axolotl/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index 22186a6..ca4ad5a 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -214,6 +214,9 @@ func (ss *sessionState) setMessageKeys(senderEphemeral *ECPublicKey, mk *message
 	}
 
 	rc.MessageKeys = append(rc.MessageKeys, sscmk)
+	if len(rc.MessageKeys) > 2000 {
+		rc.MessageKeys = rc.MessageKeys[1:]
+	}
 }
 
 type unacknowledgedPreKeyMessageItem struct {
-- 
2.43.0


From 611b9aed0cf8c8a483fc0f2eddb7926209490eb6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 10/56] fix: encrypting without a session is an error, not a
 panic

---
 axolotl/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index ca4ad5a..ebd9469 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -531,6 +531,9 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 		return nil, 0, err
 	}
 	ss := sr.sessionState
+	if !ss.hasSenderChain() {
+		return nil, 0, ErrUninitializedSession
+	}
 	chainKey := ss.getSenderChainKey()
 	messageKeys, err := chainKey.getMessageKeys()
 	if err != nil {
-- 
2.43.0


From 9a6290ae9234e918bcf4efbcaf2bf673575d3446 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 11/56] fix: comparing equal fingerprints and keys of a wrong
 length no longer panics

---
 fingerprint/fingerprint.go         | 3 +++
 fingerprint/fingerprint_numbers.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fingerprint/fingerprint.go b/fingerprint/fingerprint.go
index ae30731..4b3d645 100644
--- a/fingerprint/fingerprint.go
+++ b/fingerprint/fingerprint.go
@@ -36,6 +36,9 @@ func CreateFingerprint(version uint32, localStableIdentifier []byte, localIdenti
 
 //I'm not particular happy with the name "CreateFingerprintSimple"
 func CreateFingerprintSimple(version uint32, local string, localKey []byte, remote string, remoteKey []byte) ([]string, []byte, error) {
+	if len(localKey) != 33 || len(remoteKey) != 33 {
+		return nil, nil, fmt.Errorf("identity keys are %d and %d, not 33 bytes long", len(localKey), len(remoteKey))
+	}
 
 	localStableIdentifier, localECKeys := castParameters(local, localKey)
 
diff --git a/fingerprint/fingerprint_numbers.go b/fingerprint/fingerprint_numbers.go
index a881ca2..b5222f5 100644
--- a/fingerprint/fingerprint_numbers.go
+++ b/fingerprint/fingerprint_numbers.go
@@ -16,9 +16,9 @@ func CreateFingerprintNumbers(localFingerprint []byte, remoteFingerprint []byte)
 
 func compareFingerprintBlocks(localBlocks []string, remoteBlocks []string) int {
 	result := len(localBlocks) - len(remoteBlocks)
-	if result == 0 {
+	if result == 0 && len(localBlocks) > 0 {
 		result = strings.Compare(localBlocks[0], remoteBlocks[0])
-		if result == 0 && len(localBlocks) > 0 {
+		if result == 0 {
 			return compareFingerprintBlocks(localBlocks[1:], remoteBlocks[1:])
 		}
 	}
-- 
2.43.0


From fdf766bcdcc6cf0d8085e41dce175c808fac746d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 12/56] fix: only the names of prekey files are read as prekey
 ids

---
 store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index b87b88b..d3d5363 100644
--- a/store.go
+++ b/store.go
@@ -97,11 +97,13 @@ func idToFilename(id uint32) string {
 }
 
 func filenameToID(fname string) (uint32, error) {
-	var id uint32
-	_, err := fmt.Sscanf(fname, "%d", &id)
+	id, err := strconv.ParseUint(fname, 10, 32)
 	if err != nil {
 		return 0, err
 	}
+	if idToFilename(uint32(id)) != fname {
+		return 0, fmt.Errorf("%s is not a prekey file name", fname)
+	}
 	return uint32(id), nil
 }
 
-- 
2.43.0


From 1d89fd573531c9c73bb5188be8be653fe7148daf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 13/56] fix: '|' is not a UUID digit

---
 sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index d764ac7..7cc5924 100644
--- a/sync.go
+++ b/sync.go
@@ -147,7 +147,7 @@ func handleSyncRequest(request *signalservice.SyncMessage_Request) error {
 }
 
 func isValidUUID(uuid string) bool {
-	r := regexp.MustCompile("^[a-fA-F0-9]{8}-[a-fA-F0-9]{4}-4[a-fA-F0-9]{3}-[8|9|aA|bB][a-fA-F0-9]{3}-[a-fA-F0-9]{12}$")
+	r := regexp.MustCompile("^[a-fA-F0-9]{8}-[a-fA-F0-9]{4}-4[a-fA-F0-9]{3}-[89aAbB][a-fA-F0-9]{3}-[a-fA-F0-9]{12}$")
 	return r.MatchString(uuid)
 }
 
-- 
2.43.0


From f03bcd1dff05060d15287f532ce79479fc20d458 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 14/56] fix: converting an id of a wrong length to a UUID no
 longer panics

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 9f23563..47fbf9b 100644
--- a/server.go
+++ b/server.go
@@ -611,6 +611,9 @@ func getContactDiscoveryRegisteredUsers(authorization string, request *contactDi
 	// return nil, fmt.Errorf("fail")
 }
 func idToHexUUID(id []byte) string {
+	if len(id) != 16 {
+		return ""
+	}
 	msb := id[:8]
 	lsb := id[8:]
 	msbHex := hex.EncodeToString(msb)
-- 
2.43.0


From b9b558a433d7056f9cc02c3d7e0dc063666d9850 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 15/56] fix: a damaged stored file is reported instead of
 crashing or being replaced by a fresh value

---
 prekeys.go | 5 ++++-
 store.go   | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index 0e01116..c8914ad 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -149,7 +149,10 @@ func loadPreKeys() error {
 			if err != nil {
 				return err
 			}
-			preKeyRecords[count], _ = textSecureStore.LoadPreKey(uint32(id))
+			preKeyRecords[count], err = textSecureStore.LoadPreKey(uint32(id))
+			if err != nil {
+				return err
+			}
 			count++
 		}
 		return nil
diff --git a/store.go b/store.go
index d3d5363..84628df 100644
--- a/store.go
+++ b/store.go
@@ -153,6 +153,9 @@ func (s *store) decrypt(ciphertext []byte) ([]byte, error) {
 	}
 
 	macPos := len(ciphertext) - 32
+	if macPos < 0 {
+		return nil, ErrStoreBadMAC
+	}
 
 	if !verifyMAC(s.macKey, ciphertext[:macPos], ciphertext[macPos:]) {
 		return nil, ErrStoreBadMAC
@@ -420,9 +423,12 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 func (s *store) LoadSession(recipientID string, deviceID uint32) (*axolotl.SessionRecord, error) {
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	b, err := s.readFile(sfile)
-	if err != nil {
+	if os.IsNotExist(err) {
 		return axolotl.NewSessionRecord(), nil
 	}
+	if err != nil {
+		return nil, err
+	}
 	record, err := axolotl.LoadSessionRecord(b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fe3491bf52faccc9e020ff06c53e6e575a72d107 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 16/56] fix: a crash while saving no longer loses the previous
 value

---
 store.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 84628df..1f9ffb4 100644
--- a/store.go
+++ b/store.go
@@ -179,7 +179,26 @@ func (s *store) writeFile(path string, b []byte) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(path, b, 0600)
+	// An interrupted save must leave the previous file intact, so the new one
+	// is completed under another name before it takes the place of the old one.
+	f, err := ioutil.TempFile(s.identityDir, "tmp")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(b)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+	}
+	return err
 }
 
 // Identity store
-- 
2.43.0


From def72da82f1360da1456190f6a3f8d8694049a6a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 17/56] fix: ids with path separators stay inside the store

---
 store.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index 1f9ffb4..f42712b 100644
--- a/store.go
+++ b/store.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -233,8 +234,14 @@ func (s *store) SetIdentityKeyPair(ikp *axolotl.IdentityKeyPair) error {
 	return s.writeFile(idkeyfile, b)
 }
 
+// remoteIdentityFilePath escapes the id, which may come from the network, so
+// that it names a file of its own inside the store whatever it contains.
+func (s *store) remoteIdentityFilePath(id string) string {
+	return filepath.Join(s.identityDir, "remote_"+url.PathEscape(id))
+}
+
 func (s *store) SaveIdentity(id string, key *axolotl.IdentityKey) error {
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
+	idkeyfile := s.remoteIdentityFilePath(id)
 	return s.writeFile(idkeyfile, key.Key()[:])
 }
 
@@ -244,7 +251,7 @@ func (s *store) IsTrustedIdentity(id string, key *axolotl.IdentityKey) bool {
 		// more securely and with a better UI.
 		return true
 	}
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
+	idkeyfile := s.remoteIdentityFilePath(id)
 	// Trust on first use (TOFU)
 	if !exists(idkeyfile) {
 		return true
@@ -277,7 +284,7 @@ func ContactIdentityKey(id string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+idClean)
+	idkeyfile := s.remoteIdentityFilePath(idClean)
 	if !exists(idkeyfile) {
 		return nil, UnknownContactError{id}
 	}
@@ -422,7 +429,7 @@ func (s *store) loadHTTPSignalingKey() ([]byte, error) {
 // Session store
 
 func (s *store) sessionFilePath(recipientID string, deviceID uint32) string {
-	return filepath.Join(s.sessionsDir, fmt.Sprintf("%s_%d", recipientID, deviceID))
+	return filepath.Join(s.sessionsDir, fmt.Sprintf("%s_%d", url.PathEscape(recipientID), deviceID))
 }
 
 func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
-- 
2.43.0


From e8c9d0c4201e34908f511d7772e8cc27e359bdc4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 18/56] fix: list only the sessions of the correspondent asked
 for

---
 store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index f42712b..613e371 100644
--- a/store.go
+++ b/store.go
@@ -438,8 +438,10 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 	filepath.Walk(s.sessionsDir, func(path string, fi os.FileInfo, err error) error {
 		if !fi.IsDir() {
 			i := strings.LastIndex(path, "_")
-			id, _ := strconv.Atoi(path[i+1:])
-			sessions = append(sessions, uint32(id))
+			id, err := strconv.ParseUint(path[i+1:], 10, 32)
+			if err == nil && path == s.sessionFilePath(recipientID, uint32(id)) {
+				sessions = append(sessions, uint32(id))
+			}
 		}
 		return nil
 	})
-- 
2.43.0


From 7f95fa775e16b45074ab97b7023f033d0a05f6e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 19/56] fix: prekey ids wrap around below the last-resort id,
 store errors are reported

---
 prekeys.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index c8914ad..c3a5502 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -81,6 +81,12 @@ var signedKey *axolotl.SignedPreKeyRecord
 
 var preKeyBatchSize = 100
 
+// validPreKeyID wraps a number into the valid prekey ids, which are neither 0
+// nor that of the last-resort key.
+func validPreKeyID(n uint32) uint32 {
+	return 1 + n%(lastResortPreKeyID-1)
+}
+
 func getNextPreKeyID() uint32 {
 	return randID()
 }
@@ -92,7 +98,7 @@ func generatePreKeys() error {
 
 	startID := getNextPreKeyID()
 	for i := 0; i < preKeyBatchSize; i++ {
-		err := generatePreKey(startID + uint32(i))
+		err := generatePreKey(validPreKeyID(startID + uint32(i)))
 		if err != nil {
 			return err
 		}
@@ -101,15 +107,15 @@ func generatePreKeys() error {
 	if err != nil {
 		return err
 	}
-	signedKey = generateSignedPreKey()
-	return nil
+	signedKey, err = generateSignedPreKey()
+	return err
 }
 
 func getNextSignedPreKeyID() uint32 {
-	return randID()
+	return validPreKeyID(randID())
 }
 
-func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
+func generateSignedPreKey() (*axolotl.SignedPreKeyRecord, error) {
 	kp := axolotl.NewECKeyPair()
 	id := getNextSignedPreKeyID()
 	var random [64]byte
@@ -117,8 +123,10 @@ func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
 	priv := identityKey.PrivateKey.Key()
 	signature := curve25519sign.Sign(priv, kp.PublicKey.Serialize(), random)
 	record := axolotl.NewSignedPreKeyRecord(id, uint64(time.Now().UnixNano()*1000), kp, signature[:])
-	textSecureStore.StoreSignedPreKey(id, record)
-	return record
+	if err := textSecureStore.StoreSignedPreKey(id, record); err != nil {
+		return nil, err
+	}
+	return record, nil
 }
 
 func generatePreKeyState() error {
-- 
2.43.0


From 8d1cdccf039017e97a60883a69f26fda555db7ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 20/56] fix: requests carry the configured user agent and use
 the configured proxy

---
 transport/transport.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/transport/transport.go b/transport/transport.go
index a20f82b..2df6f9f 100644
--- a/transport/transport.go
+++ b/transport/transport.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strconv"
 	"time"
 
@@ -95,15 +96,16 @@ type httpTransporter struct {
 	client      *http.Client
 }
 
-// func getProxy(req *http.Request) (*url.URL, error) {
-// 	if config.ProxyServer != "" {
-// 		u, err := url.Parse(config.ProxyServer)
-// 		if err == nil {
-// 			return u, nil
-// 		}
-// 	}
-// 	return http.ProxyFromEnvironment(req)
-// }
+// getProxy returns the proxy selection for the configured proxy server, which
+// may be empty.
+func getProxy(proxyServer string) func(*http.Request) (*url.URL, error) {
+	if proxyServer == "" {
+		return nil
+	}
+	return func(*http.Request) (*url.URL, error) {
+		return url.Parse(proxyServer)
+	}
+}
 
 func NewHTTPClient() *http.Client {
 	client := &http.Client{
@@ -124,11 +126,18 @@ func newHTTPTransporter(baseURL, user, pass string, userAgent string, proxyServe
 				RootCAs:            rootCA,
 				InsecureSkipVerify: true,
 			},
-			// Proxy:           getProxy,
+			Proxy: getProxy(proxyServer),
 		},
 	}
 
-	return &httpTransporter{baseURL, user, pass, userAgent, proxyServer, client}
+	return &httpTransporter{
+		baseURL:     baseURL,
+		user:        user,
+		pass:        pass,
+		proxyServer: proxyServer,
+		userAgent:   userAgent,
+		client:      client,
+	}
 }
 
 func (ht *httpTransporter) Get(url string) (*response, error) {
-- 
2.43.0


From 2d1701237e9b7685e4dfadc375b6359d57764f98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 21/56] fix: error answers of the server are reported as errors

---
 attachments.go                |  3 +++
 profiles/avatars.go           |  3 +++
 profiles/profile.go           | 12 ++++++++++++
 server.go                     | 30 ++++++++++++++++++++++++------
 transport/credentials.go      |  8 +++++++-
 transport/unidentifiedCert.go |  7 +++++--
 6 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/attachments.go b/attachments.go
index 6f098df..1c479c0 100644
--- a/attachments.go
+++ b/attachments.go
@@ -180,6 +180,9 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a attachmentV3UploadAttributes
 	err = dec.Decode(&a)
diff --git a/profiles/avatars.go b/profiles/avatars.go
index 448a5ea..fc0c180 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -34,6 +34,9 @@ func GetRemoteAvatar(avatarURL string) (io.ReadCloser, error) {
 
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 
 	return resp.Body, nil
 }
diff --git a/profiles/profile.go b/profiles/profile.go
index 092628b..f0c2607 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -166,6 +166,9 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -186,6 +189,9 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 		if err != nil {
 			return profile, err
 		}
+		if resp.IsError() {
+			return profile, resp
+		}
 		bytes, err := io.ReadAll(resp.Body)
 		if err != nil {
 			return nil, err
@@ -237,6 +243,9 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 		log.Debugln("[textsecure] GetProfileAndCredential", err)
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -396,6 +405,9 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 			log.Errorln("[textsecure] GetProfileUuid fetch profile:", err)
 			return nil, err
 		}
+		if resp.IsError() {
+			return nil, resp
+		}
 
 		dec := json.NewDecoder(resp.Body)
 		err = dec.Decode(&profile)
diff --git a/server.go b/server.go
index 47fbf9b..bd4c05d 100644
--- a/server.go
+++ b/server.go
@@ -413,7 +413,10 @@ func GetMyUUID() (string, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response whoAmIResponse
-	dec.Decode(&response)
+	err = dec.Decode(&response)
+	if err != nil {
+		return "", err
+	}
 	return response.UUID, nil
 }
 
@@ -426,9 +429,15 @@ func getNewDeviceVerificationCode() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if resp.IsError() {
+		return "", resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var c jsonDeviceCode
-	dec.Decode(&c)
+	err = dec.Decode(&c)
+	if err != nil {
+		return "", err
+	}
 	return c.VerificationCode, nil
 
 }
@@ -451,21 +460,27 @@ func getLinkedDevices() ([]DeviceInfo, error) {
 	if err != nil {
 		return devices.DeviceList, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&devices)
+	err = dec.Decode(devices)
 	if err != nil {
-		return devices.DeviceList, nil
+		return nil, err
 	}
 
 	return devices.DeviceList, nil
 }
 
 func unlinkDevice(id int) error {
-	_, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
+	resp, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
 	if err != nil {
 		return err
 	}
+	if resp.IsError() {
+		return resp
+	}
 	return nil
 }
 
@@ -576,7 +591,10 @@ func getPreKeys(UUID string, deviceID string) (*preKeyResponse, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	k := &preKeyResponse{}
-	dec.Decode(k)
+	err = dec.Decode(k)
+	if err != nil {
+		return nil, err
+	}
 
 	return k, nil
 }
diff --git a/transport/credentials.go b/transport/credentials.go
index 8e9cad3..7c29eca 100644
--- a/transport/credentials.go
+++ b/transport/credentials.go
@@ -33,9 +33,15 @@ func GetCredendtails(path string) (*AuthCredentials, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a AuthCredentials
-	dec.Decode(&a)
+	err = dec.Decode(&a)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugln("[textsecure] getCredentials ")
 	return &a, nil
 
diff --git a/transport/unidentifiedCert.go b/transport/unidentifiedCert.go
index bc21a5b..d8f8326 100644
--- a/transport/unidentifiedCert.go
+++ b/transport/unidentifiedCert.go
@@ -23,10 +23,13 @@ func GetSenderCertificate() (*SenderCertificate, error) {
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&certificates)
+	err = dec.Decode(certificates)
 	if err != nil {
-		return certificates, nil
+		return nil, err
 	}
 
 	return certificates, nil
-- 
2.43.0


From fc1c5e2437d320ede8327e238bef6b5945d3f6b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 22/56] fix: report a malformed one-time prekey instead of
 crashing

---
 prekeys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index c3a5502..d3b2a49 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -187,10 +187,10 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	} else {
 		preKeyId = d.PreKey.ID
 		decPK, err := decodeKey(d.PreKey.PublicKey)
-		preKey = axolotl.NewECPublicKey(decPK)
 		if err != nil {
 			return nil, err
 		}
+		preKey = axolotl.NewECPublicKey(decPK)
 	}
 
 	if d.SignedPreKey == nil {
-- 
2.43.0


From fb36e42f16f0523598776d448b3935261d44132d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 23/56] fix: do not crash when a sync message cannot be sent

---
 sender.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 177a6ee..2ccab88 100644
--- a/sender.go
+++ b/sender.go
@@ -84,7 +84,10 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	}
 
 	resp, err := buildAndSendMessage(user, padMessage(b), true, timestamp)
-	return resp.Timestamp, err
+	if err != nil {
+		return 0, err
+	}
+	return resp.Timestamp, nil
 }
 
 func sendVerifiedMessage(verified *signalservice.Verified, unidentifiedAccess *unidentifiedAccess.UnidentifiedAccess) error {
-- 
2.43.0


From 22f6bbe0ece95444485395a7e802959595e1f2a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 24/56] fix: keep to the devices the server reports when
 sending again

Extra devices keep no session, missing devices are added once, answers
that cannot be read and prekeys of another device are errors, and a server
that keeps reporting other devices makes the send fail instead of
recursing for ever.
---
 server.go | 77 ++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 12 deletions(-)

diff --git a/server.go b/server.go
index bd4c05d..dd26406 100644
--- a/server.go
+++ b/server.go
@@ -846,6 +846,9 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 			if err != nil {
 				return nil, err
 			}
+			if pkb.DeviceID != devid {
+				return nil, fmt.Errorf("prekeys of device %d received for device %d", pkb.DeviceID, devid)
+			}
 			sb := axolotl.NewSessionBuilder(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, pkb.DeviceID)
 			err = sb.BuildSenderSession(pkb)
 			if err != nil {
@@ -899,13 +902,45 @@ type sendMessageResponse struct {
 // ErrRemoteGone is returned when the peer reinstalled and lost its session state.
 var ErrRemoteGone = errors.New("the remote device is gone (probably reinstalled)")
 
+// ErrDevicesKeepChanging is returned when the server reports other devices
+// each time the message is sent again.
+var ErrDevicesKeepChanging = errors.New("the devices of the recipient keep changing")
+
+// maxSendAttempts limits how often a message is sent again after the server
+// reported other devices.
+const maxSendAttempts = 10
+
 var deviceLists = map[string][]uint32{}
 
+func containsDevice(devices []uint32, id uint32) bool {
+	for _, d := range devices {
+		if d == id {
+			return true
+		}
+	}
+	return false
+}
+
 func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
+	for i := 0; i < maxSendAttempts; i++ {
+		resp, again, err := buildAndTrySendMessage(uuid, paddedMessage, isSync, timestamp)
+		if err != nil {
+			return nil, err
+		}
+		if !again {
+			return resp, nil
+		}
+	}
+	return nil, ErrDevicesKeepChanging
+}
+
+// buildAndTrySendMessage sends the message once. It reports whether it has to
+// be sent again, to the devices the server told us about.
+func buildAndTrySendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, bool, error) {
 
 	bm, err := buildMessage(uuid, paddedMessage, deviceLists[uuid], isSync)
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 	m := make(map[string]interface{})
 	m["messages"] = bm
@@ -917,21 +952,24 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 	m["destination"] = uuid
 	body, err := json.Marshal(m)
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 	// unidentifiedAccessKeyPair, err := unidentifiedAccess.GetAccessForUUID(contacts.GetContact(uuid))
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 	resp, err := transport.Transport.PutJSON(fmt.Sprintf(MESSAGE_PATH, uuid), body)
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 
 	if resp.Status == mismatchedDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonMismatchedDevices
-		dec.Decode(&j)
+		err = dec.Decode(&j)
+		if err != nil {
+			return nil, false, err
+		}
 		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
 		devs := []uint32{}
 		for _, id := range deviceLists[uuid] {
@@ -946,25 +984,40 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 				devs = append(devs, id)
 			}
 		}
-		deviceLists[uuid] = append(devs, j.MissingDevices...)
-		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
+		uuidCleanup, err := recID(uuid)
+		if err != nil {
+			return nil, false, err
+		}
+		for _, id := range j.ExtraDevices {
+			textSecureStore.DeleteSession(uuidCleanup, id)
+		}
+		for _, id := range j.MissingDevices {
+			if !containsDevice(devs, id) {
+				devs = append(devs, id)
+			}
+		}
+		deviceLists[uuid] = devs
+		return nil, true, nil
 	}
 	if resp.Status == staleDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonStaleDevices
-		dec.Decode(&j)
+		err = dec.Decode(&j)
+		if err != nil {
+			return nil, false, err
+		}
 		log.Debugf("[textsecure] Stale devices: %+v\n", j)
 		for _, id := range j.StaleDevices {
 			uuidCleanup, err := recID(uuid)
 			if err != nil {
-				return nil, err
+				return nil, false, err
 			}
 			textSecureStore.DeleteSession(uuidCleanup, id)
 		}
-		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
+		return nil, true, nil
 	}
 	if resp.IsError() {
-		return nil, resp
+		return nil, false, resp
 	}
 
 	var smRes sendMessageResponse
@@ -973,5 +1026,5 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 	smRes.Timestamp = *timestamp
 
 	log.Debugf("[textsecure] SendMessageResponse: %+v\n", smRes)
-	return &smRes, nil
+	return &smRes, false, nil
 }
-- 
2.43.0


From 1de9535c7dae3881dba1848342b9ffd3de6ace73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 25/56] fix: refuse malformed and substituted attachments
 instead of crashing

Attachments and keys of a wrong length, error answers and malformed upload
locations are errors, and the digest a message gives for its attachment is
verified.
---
 attachments.go | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/attachments.go b/attachments.go
index 1c479c0..8bd93d8 100644
--- a/attachments.go
+++ b/attachments.go
@@ -26,6 +26,9 @@ func getAttachment(url string) (io.ReadCloser, error) {
 	customTransport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
 	c := &http.Client{Transport: customTransport}
 	req, err := http.NewRequest("GET", url, nil)
+	if err != nil {
+		return nil, err
+	}
 	req.Header.Add("Host", SERVICE_REFLECTOR_HOST)
 	req.Header.Add("Content-Type", "application/octet-stream")
 
@@ -33,6 +36,10 @@ func getAttachment(url string) (io.ReadCloser, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.StatusCode < 200 || resp.StatusCode >= 300 {
+		resp.Body.Close()
+		return nil, fmt.Errorf("attachment not received: status code %d", resp.StatusCode)
+	}
 
 	return resp.Body, nil
 }
@@ -95,6 +102,12 @@ func uploadVoiceNote(r io.Reader, ct string) (*attachmentPointerV3, error) {
 // ErrInvalidMACForAttachment signals that the downloaded attachment has an invalid MAC.
 var ErrInvalidMACForAttachment = errors.New("invalid MAC for attachment")
 
+// ErrInvalidDigestForAttachment signals that the downloaded attachment is not the one the message was sent with.
+var ErrInvalidDigestForAttachment = errors.New("invalid digest for attachment")
+
+// ErrMalformedAttachment signals that an attachment or its key does not have the right length.
+var ErrMalformedAttachment = errors.New("malformed attachment")
+
 func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error) {
 	loc, err := getAttachmentLocation(a.GetCdnId(), a.GetCdnKey(), a.GetCdnNumber())
 	if err != nil {
@@ -112,17 +125,24 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 	}
 
 	l := len(b) - 32
+	if l < 0 || len(a.Key) != 64 {
+		return nil, ErrMalformedAttachment
+	}
 	if !verifyMAC(a.Key[32:], b[:l], b[l:]) {
 		return nil, ErrInvalidMACForAttachment
 	}
+	if len(a.Digest) > 0 {
+		digest := sha256.Sum256(b)
+		if !bytes.Equal(digest[:], a.Digest) {
+			return nil, ErrInvalidDigestForAttachment
+		}
+	}
 
 	b, err = aesDecrypt(a.Key[:32], b[:l])
 	if err != nil {
 		return nil, err
 	}
 
-	// TODO: verify digest
-
 	return &Attachment{bytes.NewReader(b), a.GetContentType(), a.GetFileName()}, nil
 }
 
@@ -192,12 +212,15 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	return &a, nil
 }
 
-func relativePath(url string) string {
+func relativePath(url string) (string, error) {
 	parts := strings.Split(url, "/")
-	return "/" + strings.Join(parts[3:], "/")
+	if len(parts) < 4 {
+		return "", fmt.Errorf("malformed upload location %q", url)
+	}
+	return "/" + strings.Join(parts[3:], "/"), nil
 }
 
-func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() string {
+func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() (string, error) {
 	return relativePath(a.SignedUploadLocation)
 }
 
@@ -206,8 +229,12 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return "", nil, err
 	}
+	signedLocation, err := uploadAttributes.relativeSignedUploadLocation()
+	if err != nil {
+		return "", nil, err
+	}
 	resp, err := transport.CdnTransport.PostWithHeaders(
-		uploadAttributes.relativeSignedUploadLocation(),
+		signedLocation,
 		[]byte{},
 		"application/octet-stream",
 		uploadAttributes.Headers)
@@ -218,8 +245,11 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 		log.Debug("[textsecure] allocateAttachmentV3 error response ", resp.Body)
 		return "", nil, resp
 	}
-	location := resp.Header.Get("Location")
-	return relativePath(location), uploadAttributes, nil
+	location, err := relativePath(resp.Header.Get("Location"))
+	if err != nil {
+		return "", nil, err
+	}
+	return location, uploadAttributes, nil
 }
 
 func getAttachmentLocation(id uint64, key string, cdnNumber uint32) (string, error) {
-- 
2.43.0


From 2732597d69a190d9c00357397b7199c95148b378 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 26/56] fix: refuse envelopes too short to be encrypted or of
 an unknown version

---
 textsecure.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 0dc7701..7a2f38a 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -524,10 +524,17 @@ func (err MessageTypeNotImplementedError) Error() string {
 // ErrInvalidMACForMessage signals an incoming message with invalid MAC.
 var ErrInvalidMACForMessage = errors.New("invalid MAC for incoming message")
 
+// ErrUnsupportedEnvelopeVersion signals an incoming message encrypted in a way we don't know.
+var ErrUnsupportedEnvelopeVersion = errors.New("unsupported version of incoming message")
+
 // decryptReceivedMessage decrypts a received message.
 func decryptReceivedMessage(msg []byte) ([]byte, error) {
 	// decrypt signalservice envelope
 	macpos := len(msg) - 10
+	if macpos < 1 || len(registration.Registration.SignalingKey) != 52 {
+		// too short to be encrypted, or there is no signaling key
+		return msg, nil
+	}
 	tmac := msg[macpos:]
 	aesKey := registration.Registration.SignalingKey[:32]
 	macKey := registration.Registration.SignalingKey[32:]
@@ -542,6 +549,9 @@ func decryptReceivedMessage(msg []byte) ([]byte, error) {
 	if hasError {
 		plaintext = msg
 	} else {
+		if msg[0] != 1 {
+			return nil, ErrUnsupportedEnvelopeVersion
+		}
 		ciphertext := msg[1:macpos]
 		plaintext, err = axolotl.Decrypt(aesKey, ciphertext)
 		if err != nil {
-- 
2.43.0


From 4f5d09a91b33792f4cde7e27b4aba16dee2a9ec7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 27/56] fix: give every backend request its own answer

The channel for the answer was set up after the request was sent and shared
by all callers, so answers could be lost, left for another request or block
the connection; malformed messages of the backend crashed the client and
callers waited for ever when the connection was gone.
---
 crayfish/avatar.go   |   7 +--
 crayfish/backend.go  | 110 ++++++++++++++++++++++++++++++++++++-------
 crayfish/envelope.go |   7 +--
 crayfish/register.go |  10 ++--
 4 files changed, 107 insertions(+), 27 deletions(-)

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 6893154..4baacdb 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -34,9 +34,10 @@ func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] avatar send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.request(m)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugf("[textsecure-crayfish-ws] avatar recieved an response")
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
diff --git a/crayfish/backend.go b/crayfish/backend.go
index 40551fe..2b17dc0 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -36,6 +36,11 @@ type CrayfishInstance struct {
 	receiveChannel chan *CrayfishWebSocketResponseMessage
 	LocalUUID      string
 	LocalDeviceID  int32
+
+	// requests is held by the caller whose request is being answered
+	requests sync.Mutex
+	// mutex guards wsconn and receiveChannel
+	mutex sync.Mutex
 }
 
 const (
@@ -109,6 +114,9 @@ type Conn struct {
 
 	// Buffered channel of outbound messages
 	send chan []byte
+
+	// closed when the connection is gone
+	closed chan struct{}
 }
 
 func Run() {
@@ -250,6 +258,8 @@ func (c *Conn) writeWorker() {
 				}).Error("[textsecure-crayfish-ws] Failed to send websocket message")
 				return
 			}
+		case <-c.closed:
+			return
 		case <-ticker.C:
 			log.Debugf("[textsecure-crayfish-ws] Sending websocket ping message")
 			if err := c.write(websocket.PingMessage, nil); err != nil {
@@ -286,29 +296,31 @@ func (c *CrayfishInstance) StartListening() error {
 
 // BackendStartWebsocket connects to the server and handles incoming websocket messages.
 func (c *CrayfishInstance) StartWebsocket() error {
-	var err error
-
-	c.wsconn = &Conn{send: make(chan []byte, 256)}
-	err = c.wsconn.connect(serverAdress + websocketPath)
+	conn := &Conn{send: make(chan []byte, 256), closed: make(chan struct{})}
+	err := conn.connect(serverAdress + websocketPath)
 	if err != nil {
 		log.Errorf(err.Error())
 		return err
 	}
 
-	defer c.wsconn.ws.Close()
+	defer conn.ws.Close()
+	defer close(conn.closed)
+	c.mutex.Lock()
+	c.wsconn = conn
+	c.mutex.Unlock()
 
 	// Can only have a single goroutine call write methods
-	go c.wsconn.writeWorker()
+	go conn.writeWorker()
 
-	c.wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
-	c.wsconn.ws.SetPongHandler(func(string) error {
+	conn.ws.SetReadDeadline(time.Now().Add(pongWait))
+	conn.ws.SetPongHandler(func(string) error {
 		log.Debugf("[textsecure-crayfish-ws] Received websocket pong message")
-		c.wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
+		conn.ws.SetReadDeadline(time.Now().Add(pongWait))
 		return nil
 	})
 
 	for {
-		_, bmsg, err := c.wsconn.ws.ReadMessage()
+		_, bmsg, err := conn.ws.ReadMessage()
 		if err != nil {
 			if websocket.IsUnexpectedCloseError(err, websocket.CloseGoingAway, websocket.CloseAbnormalClosure) {
 				log.Debugf("[textsecure-crayfish-ws] Websocket UnexpectedCloseError: %s", err)
@@ -322,7 +334,7 @@ func (c *CrayfishInstance) StartWebsocket() error {
 			log.WithFields(log.Fields{
 				"error": err,
 			}).Error("[textsecure-crayfish-ws] Failed to unmarshal websocket message")
-			return err
+			continue
 		}
 		if csm.Type == nil {
 			log.Errorln("[textsecure-crayfish-ws] Websocket message type is nil", string(bmsg))
@@ -349,25 +361,91 @@ func (c *CrayfishInstance) StartWebsocket() error {
 
 // StopListening disables the receiving of messages.
 func (c *CrayfishInstance) StopListening() error {
-	if c.wsconn == nil {
+	conn := c.connection()
+	if conn == nil {
 		return ErrNotListening
 	}
-	if c.wsconn.ws != nil {
-		c.wsconn.ws.Close()
+	if conn.ws != nil {
+		conn.ws.Close()
 	}
 	return nil
 }
 
+func (c *CrayfishInstance) connection() *Conn {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.wsconn
+}
+
+func (c *CrayfishInstance) setReceiveChannel(receiveChannel chan *CrayfishWebSocketResponseMessage) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	c.receiveChannel = receiveChannel
+}
+
+// send sends a message that the backend only acknowledges.
+func (c *CrayfishInstance) send(msg []byte) error {
+	conn := c.connection()
+	if conn == nil {
+		return ErrNotListening
+	}
+	select {
+	case conn.send <- msg:
+		return nil
+	case <-conn.closed:
+		return ErrNotListening
+	}
+}
+
+// request sends a request and waits for the answer. As answers don't tell
+// which request they belong to, there is one request at a time.
+func (c *CrayfishInstance) request(msg []byte) (*CrayfishWebSocketResponseMessage, error) {
+	c.requests.Lock()
+	defer c.requests.Unlock()
+	conn := c.connection()
+	if conn == nil {
+		return nil, ErrNotListening
+	}
+	// the answer can be there as soon as the request is sent
+	receiveChannel := make(chan *CrayfishWebSocketResponseMessage, 1)
+	c.setReceiveChannel(receiveChannel)
+	defer c.setReceiveChannel(nil)
+	select {
+	case conn.send <- msg:
+	case <-conn.closed:
+		return nil, ErrNotListening
+	}
+	select {
+	case response := <-receiveChannel:
+		return response, nil
+	case <-conn.closed:
+		return nil, ErrNotListening
+	}
+}
+
 func handleCrayfishRequestMessage(request *CrayfishWebSocketRequestMessage) error {
+	if request == nil || request.Type == nil {
+		return errors.New("[textsecure-crayfish-ws] request message without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket request message", *request.Type)
 	return nil
 }
 
 func (c *CrayfishInstance) handleCrayfishResponseMessage(response *CrayfishWebSocketResponseMessage) error {
+	if response == nil || response.Type == nil {
+		return errors.New("[textsecure-crayfish-ws] response message without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket response message", *response.Type)
-	if c.receiveChannel != nil && *response.Type > 1 {
-		c.receiveChannel <- response
+	if *response.Type <= 1 {
+		return nil
+	}
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.receiveChannel == nil {
+		return errors.New("[textsecure-crayfish-ws] response message to no request")
 	}
+	c.receiveChannel <- response
+	c.receiveChannel = nil
 	return nil
 }
 
diff --git a/crayfish/envelope.go b/crayfish/envelope.go
index b7c2833..62513ee 100644
--- a/crayfish/envelope.go
+++ b/crayfish/envelope.go
@@ -31,9 +31,10 @@ func (c *CrayfishInstance) HandleEnvelope(msg []byte) (*CrayfishWebSocketRespons
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.request(m)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope recieved an response")
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
diff --git a/crayfish/register.go b/crayfish/register.go
index ae8fddc..131c940 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -34,8 +34,7 @@ func (c *CrayfishInstance) CrayfishRegister(registrationInfo *registration.Regis
 		return err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send")
-	c.wsconn.send <- m
-	return nil
+	return c.send(m)
 }
 func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registration.RegistrationInfo,
 	phoneNumber string,
@@ -69,9 +68,10 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send verification")
-	c.wsconn.send <- mv
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.request(mv)
+	if err != nil {
+		return nil, err
+	}
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b3026a3c181bf8d28d88478720f46b3fa36f35a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 28/56] fix: do not crash on incoming messages with missing
 fields

---
 handler.go    | 13 +++++++++----
 sync.go       |  2 +-
 textsecure.go | 10 ++++++++--
 websocket.go  |  4 +---
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/handler.go b/handler.go
index c931b58..53ebfa7 100644
--- a/handler.go
+++ b/handler.go
@@ -1,6 +1,8 @@
 package textsecure
 
 import (
+	"errors"
+
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -52,16 +54,19 @@ func handleTypingMessage(src string, srcUUID string, timestamp uint64, cm *signa
 	return nil
 }
 func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *signalservice.ReceiptMessage) error {
+	if len(cm.GetTimestamp()) == 0 {
+		return errors.New("[textsecure] receipt for no message")
+	}
 	msg := &Message{
 		source:     src,
 		sourceUUID: srcUUID,
 		message:    "sentReceiptMessage",
 		timestamp:  cm.GetTimestamp()[0],
 	}
-	if *cm.Type == signalservice.ReceiptMessage_READ {
+	if cm.Type != nil && *cm.Type == signalservice.ReceiptMessage_READ {
 		msg.message = "readReceiptMessage"
 	}
-	if *cm.Type == signalservice.ReceiptMessage_DELIVERY {
+	if cm.Type != nil && *cm.Type == signalservice.ReceiptMessage_DELIVERY {
 		msg.message = "deliveryReceiptMessage"
 	}
 	if client.ReceiptMessageHandler != nil {
@@ -82,7 +87,7 @@ func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signals
 	if err != nil {
 		return err
 	}
-	log.Debugln("[textsecure] handleDataMessage", timestamp, *dm.Timestamp, dm.GetExpireTimer())
+	log.Debugln("[textsecure] handleDataMessage", timestamp, dm.GetTimestamp(), dm.GetExpireTimer())
 	gr2, err := groupsv2.HandleGroupsV2(src, dm)
 	if err != nil {
 		return err
@@ -96,7 +101,7 @@ func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signals
 		flags:       flags,
 		expireTimer: dm.GetExpireTimer(),
 		profileKey:  dm.GetProfileKey(),
-		timestamp:   *dm.Timestamp,
+		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
 		contact:     dm.GetContact(),
 		sticker:     dm.GetSticker(),
diff --git a/sync.go b/sync.go
index 7cc5924..3d267a5 100644
--- a/sync.go
+++ b/sync.go
@@ -119,7 +119,7 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		flags:       flags,
 		expireTimer: dm.GetExpireTimer(),
 		profileKey:  dm.GetProfileKey(),
-		timestamp:   *dm.Timestamp,
+		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
 		contact:     cs,
 		sticker:     dm.GetSticker(),
diff --git a/textsecure.go b/textsecure.go
index 7a2f38a..293d8e3 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -573,6 +573,9 @@ func createEnvelope(plaintext []byte) (*signalservice.Envelope, error) {
 
 // Authenticate and decrypt a received message
 func handleReceivedMessage(env *signalservice.Envelope) error {
+	if env == nil || env.Type == nil {
+		return errors.New("[textsecure] envelope without a type")
+	}
 
 	recid := env.GetSourceUuid()
 
@@ -649,12 +652,15 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 	case signalservice.Envelope_UNIDENTIFIED_SENDER:
 
-		if registration.Registration.SignalingKey[0] != 1 {
+		if len(registration.Registration.SignalingKey) == 0 || registration.Registration.SignalingKey[0] != 1 {
 			log.Errorln("failed to handle message, signalingkey has wrong version, please re-register to update your signaling-key")
 		}
 
 		p, _ := proto.Marshal(env)
-		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", *env.DestinationUuid)
+		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", env.GetDestinationUuid())
+		if crayfish.Instance == nil {
+			return crayfish.ErrNotListening
+		}
 		data, err := crayfish.Instance.HandleEnvelope(p)
 		if err != nil {
 			return err
diff --git a/websocket.go b/websocket.go
index a687768..fd8fd32 100644
--- a/websocket.go
+++ b/websocket.go
@@ -195,9 +195,7 @@ func StartListening() error {
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure] Failed to create envelope")
-				}
-				err = handleReceivedMessage(env)
-				if err != nil {
+				} else if err = handleReceivedMessage(env); err != nil {
 					log.Debugf("[textsecure] Failed to handle received message: %+v", env)
 					log.WithFields(log.Fields{
 						"error": err,
-- 
2.43.0


From 27b45e01a2e49cbf70f01f51177ee603f2120c8f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 29/56] fix: act on sync messages of own devices only

---
 handler.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/handler.go b/handler.go
index 53ebfa7..001e988 100644
--- a/handler.go
+++ b/handler.go
@@ -2,8 +2,10 @@ package textsecure
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/golang/protobuf/proto"
+	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
@@ -22,6 +24,9 @@ func handleMessage(srcE164 string, srcUUID string, timestamp uint64, b []byte) e
 	if dm := content.GetDataMessage(); dm != nil {
 		return handleDataMessage(srcE164, srcUUID, timestamp, dm)
 	} else if sm := content.GetSyncMessage(); sm != nil {
+		if !isOwnAccount(srcE164, srcUUID) {
+			return fmt.Errorf("[textsecure] SyncMessage from another account %s", srcUUID)
+		}
 		return handleSyncMessage(srcE164, srcUUID, timestamp, sm)
 	} else if cm := content.GetCallMessage(); cm != nil {
 		return handleCallMessage(srcE164, srcUUID, timestamp, cm)
@@ -39,6 +44,14 @@ func handleMessage(srcE164 string, srcUUID string, timestamp uint64, b []byte) e
 	return nil
 }
 
+// isOwnAccount tells whether a sender is one of the user's own devices.
+func isOwnAccount(srcE164 string, srcUUID string) bool {
+	if srcUUID != "" {
+		return srcUUID == config.ConfigFile.UUID
+	}
+	return srcE164 != "" && srcE164 == config.ConfigFile.Tel
+}
+
 func handleTypingMessage(src string, srcUUID string, timestamp uint64, cm *signalservice.TypingMessage) error {
 
 	msg := &Message{
-- 
2.43.0


From 2765e5051c1caee389eb653e5ce60d469cfda23f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 30/56] fix: refuse unusable sender certificates instead of
 exiting

---
 unidentifiedAccess/unidentifiedAccess.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 593b9e2..f542faf 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -42,15 +42,19 @@ func CheckCertificate(certificate []byte) error {
 	}
 	serverCert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(certificate, serverCert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return err
 	}
 	senderCertificate := &signalservice.SenderCertificate_Certificate{}
 	if err := proto.Unmarshal(serverCert.Certificate, senderCertificate); err != nil {
-		log.Fatalln("Failed to parse sender certificate:", err)
+		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
-	if *senderCertificate.Expires < uint64(time.Now().Unix()) {
+	if senderCertificate.Expires == nil {
+		return errors.New("certificate has no expiry")
+	}
+	// the expiry is in milliseconds
+	if *senderCertificate.Expires < uint64(time.Now().UnixNano()/int64(time.Millisecond)) {
 		log.Errorln("Certificate expired")
 		return errors.New("certificate expired")
 	}
@@ -131,6 +135,9 @@ func GetAccessForUUID(recipent contacts.Contact) (*UnidentifiedAccessPair, error
 		return nil, err
 	}
 	theirUnidentifiedAccessKey, err := GetTargetUnidentifiedAccessKey(recipent)
+	if err != nil {
+		return nil, err
+	}
 
 	return &UnidentifiedAccessPair{
 		TargetUnidentifiedAccess: UnidentifiedAccess{
@@ -145,9 +152,12 @@ func GetAccessForUUID(recipent contacts.Contact) (*UnidentifiedAccessPair, error
 }
 func GetOurCertificate() ([]byte, error) {
 	log.Infoln("[textsecure] Getting our certificate")
+	if err := CheckCertificate(config.ConfigFile.Certificate); err != nil {
+		return nil, err
+	}
 	cert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(config.ConfigFile.Certificate, cert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return nil, err
 	}
 	return cert.Certificate, nil
-- 
2.43.0


From 7ea0fe058113c83599530af8892237bb713e97fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 31/56] fix: do not crash on malformed group messages and group
 data

---
 groupsv2/credentials.go  |  4 +++-
 groupsv2/decrypt.go      | 32 ++++++++++++++++++++++++++------
 groupsv2/groupActions.go | 12 ++++++------
 groupsv2/groupsv2.go     | 17 ++++++++++++++++-
 groupsv2/groupsv2api.go  |  5 ++++-
 5 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index ed64565..bdde8db 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -74,7 +74,9 @@ func GetGroupAuthCredentials(startDay int64, endDay int64) error {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response GroupCredentials
-	dec.Decode(&response)
+	if err := dec.Decode(&response); err != nil {
+		return err
+	}
 	Credentials = &response
 	return nil
 }
diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 1b3df34..01e9a8b 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -1,6 +1,7 @@
 package groupsv2
 
 import (
+	"errors"
 	"strings"
 	"unicode"
 
@@ -40,7 +41,7 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	}
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
-	title, err := g.cipher.DecryptBlob(g.GroupContext.GetTitle())
+	title, err := decryptBlob(g.cipher, g.GroupContext.GetTitle())
 	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
 	if err != nil {
 		return nil, err
@@ -80,7 +81,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
+		decryptedMember.ProfileKey, err = g.decryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
 
 	} else {
 		//TODO: check valid presentation
@@ -100,7 +101,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(profileKeyCiphertext, decryptedMember.Uuid)
+		decryptedMember.ProfileKey, err = g.decryptProfileKey(profileKeyCiphertext, decryptedMember.Uuid)
 		if err != nil {
 			return nil, err
 		}
@@ -118,20 +119,39 @@ func (g *GroupV2) decryptUUID(uuid []byte) ([]byte, error) {
 		}
 		g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 	}
+	if len(uuid) == 0 {
+		return nil, errors.New("empty uuid ciphertext")
+	}
 	return g.cipher.DecryptUUID(uuid)
 }
 
+func (g *GroupV2) decryptProfileKey(profileKey []byte, uuid []byte) ([]byte, error) {
+	if len(profileKey) == 0 || len(uuid) == 0 {
+		return nil, errors.New("empty profile key ciphertext")
+	}
+	return g.cipher.DecryptProfileKey(profileKey, uuid)
+}
+
+// decryptBlob decrypts a blob, which consists of the ciphertext, a tag of 16
+// bytes, a nonce of 12 bytes and a reserved byte.
+func decryptBlob(cipher *zkgroup.ClientZkGroupCipher, blob []byte) ([]byte, error) {
+	if len(blob) <= 16+12+1 {
+		return nil, errors.New("blob too short")
+	}
+	return cipher.DecryptBlob(blob)
+}
+
 func (g *GroupV2) decryptPendingMembers(pendingMembers []*signalservice.GroupChange_Actions_AddPendingMemberAction) []*signalservice.DecryptedPendingMember {
 	var decryptedPendingMembers []*signalservice.DecryptedPendingMember
 	for _, pendingMember := range pendingMembers {
 		added := pendingMember.GetAdded()
 		member := added.GetMember()
 		uuidCipherText := member.GetUserId()
-		uuid, err := g.cipher.DecryptUUID(uuidCipherText)
+		uuid, err := g.decryptUUID(uuidCipherText)
 		if err != nil {
 			log.Errorln(err)
 		}
-		addedByUuid, err := g.cipher.DecryptUUID(added.GetAddedByUserId())
+		addedByUuid, err := g.decryptUUID(added.GetAddedByUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
@@ -153,7 +173,7 @@ func (g *GroupV2) decryptDeletePendingMembers(deletedPendingMembers []*signalser
 	pendingMembersRemoval := []*signalservice.DecryptedPendingMemberRemoval{}
 	for _, deletedPendingMember := range deletedPendingMembers {
 
-		uuid, err := g.cipher.DecryptUUID(deletedPendingMember.DeletedUserId)
+		uuid, err := g.decryptUUID(deletedPendingMember.GetDeletedUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
diff --git a/groupsv2/groupActions.go b/groupsv2/groupActions.go
index b54cacb..31f7e30 100644
--- a/groupsv2/groupActions.go
+++ b/groupsv2/groupActions.go
@@ -10,7 +10,7 @@ import (
 func (g *GroupV2) decryptGroupJoinInfo(groupJoinInfo *signalservice.GroupJoinInfo, groupSecretParams zkgroup.GroupSecretParams) (*signalservice.DecryptedGroupJoinInfo, error) {
 	decryptedGroupJoinInfo := new(signalservice.DecryptedGroupJoinInfo)
 	clientZkGroupCipher := zkgroup.NewClientZkGroupCipher(groupSecretParams)
-	title, err := clientZkGroupCipher.DecryptBlob(groupJoinInfo.GetTitle())
+	title, err := decryptBlob(clientZkGroupCipher, groupJoinInfo.GetTitle())
 	if err != nil {
 		return nil, err
 	}
@@ -46,7 +46,7 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		Revision: groupActions.GetRevision(),
 	}
 	if groupActions.SourceUuid != nil {
-		uuid, err := g.cipher.DecryptUUID(groupActions.SourceUuid)
+		uuid, err := g.decryptUUID(groupActions.SourceUuid)
 		log.Debugln("[textsecure][groupsv2] SourceUuid", idToHex(uuid), err)
 	}
 	log.Debugln("[textsecure][groupsv2] Revision", groupActions.Revision)
@@ -54,7 +54,7 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		log.Debugln("[textsecure][groupsv2] AddMembers")
 		decryptedAddMembers := []*signalservice.DecryptedMember{}
 		for _, member := range groupActions.AddMembers {
-			decryptedMember, err := g.decryptMember(member.Added)
+			decryptedMember, err := g.decryptMember(member.GetAdded())
 			if err == nil {
 				decryptedAddMembers = append(decryptedAddMembers, decryptedMember)
 			}
@@ -65,7 +65,7 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		log.Debugln("[textsecure][groupsv2] DeleteMembers")
 		decryptedDeleteMembers := [][]byte{}
 		for _, member := range groupActions.DeleteMembers {
-			decryptedMember, err := g.decryptUUID(member.DeletedUserId)
+			decryptedMember, err := g.decryptUUID(member.GetDeletedUserId())
 			if err == nil {
 				decryptedDeleteMembers = append(decryptedDeleteMembers, decryptedMember)
 			}
@@ -76,12 +76,12 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		log.Debugln("[textsecure][groupsv2] ModifyMemberRoles")
 		decryptedModifyMemberRoles := []*signalservice.DecryptedModifyMemberRole{}
 		for _, member := range groupActions.ModifyMemberRoles {
-			decryptedMember, err := g.decryptUUID(member.UserId)
+			decryptedMember, err := g.decryptUUID(member.GetUserId())
 
 			if err == nil {
 				decryptedModifyMemberRole := signalservice.DecryptedModifyMemberRole{
 					Uuid: decryptedMember,
-					Role: member.Role,
+					Role: member.GetRole(),
 				}
 				decryptedModifyMemberRoles = append(decryptedModifyMemberRoles, &decryptedModifyMemberRole)
 			}
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index dae5b87..6360b60 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -24,6 +24,8 @@ const (
 	HIGHEST_KNOWN_EPOCH = 1
 	GROUPSV2_GROUP      = "/v1/groups/"
 	GROUPSV2_GROUP_JOIN = "/v1/groups/join/%s"
+
+	masterKeyLength = 32
 )
 
 const (
@@ -189,6 +191,9 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 
 	group := &signalservice.Group{}
 	err = proto.Unmarshal(buf.Bytes(), group)
+	if err != nil {
+		return nil, err
+	}
 	g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer group")
@@ -233,6 +238,9 @@ func GetGroupV2MembersForGroup(group string) ([]*signalservice.DecryptedMember,
 	if err != nil {
 		log.Debugln("[textsecure] could not update group from server")
 	}
+	if g.DecryptedGroup == nil {
+		return nil, fmt.Errorf("group not decrypted")
+	}
 
 	return g.DecryptedGroup.Members, nil
 }
@@ -241,6 +249,9 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 	if groupContext == nil {
 		return nil, nil
 	}
+	if len(groupContext.GetMasterKey()) != masterKeyLength {
+		return nil, fmt.Errorf("invalid group master key")
+	}
 	hexid := idToHex(groupContext.GetMasterKey())
 	// search for group
 	group, err := loadGroupV2(hexid)
@@ -272,6 +283,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		err := proto.Unmarshal(groupContext.GroupChange, groupChange)
 		if err != nil {
 			log.Errorln(err)
+			return nil, err
 		}
 		// verify server signature
 		zkGroupServerPublicParams, _ := base64.StdEncoding.DecodeString(config.ZKGROUP_SERVER_PUBLIC_PARAMS)
@@ -280,6 +292,9 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			log.Errorln("[textsecure][groupsv2] server public params", err)
 		} else {
 			if len(groupChange.GetActions()) != 0 {
+				if len(groupChange.GetServerSignature()) == 0 {
+					return nil, fmt.Errorf("group change without signature")
+				}
 				err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
 				if err != nil {
 					log.Errorln("[textsecure][groupsv2] signature verification failed", err)
@@ -310,7 +325,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		} else {
 			group.GroupAction = nil
 		}
-	} else if group.DecryptedGroup.Revision != groupContext.GetRevision() {
+	} else if group.DecryptedGroup.GetRevision() != groupContext.GetRevision() {
 		log.Debugln("[textsecure][groupsv2] outdated group, update")
 		group.UpdateGroupFromServer()
 	}
diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 28299e0..96e56d8 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -34,10 +34,13 @@ func NewGroupsV2Authorization(uuid []byte, groupSecretParams zkgroup.GroupSecret
 		return nil, err
 
 	}
+	if len(credential.Credential) == 0 {
+		return nil, fmt.Errorf("empty group credential")
+	}
 	authCredentialResponse, err := zkgroup.NewAuthCredentialResponse(credential.Credential)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	zkGroupServerPublicParams, _ := base64.StdEncoding.DecodeString(config.ZKGROUP_SERVER_PUBLIC_PARAMS)
 	serverPublicParams, err := zkgroup.NewServerPublicParams(zkGroupServerPublicParams)
-- 
2.43.0


From 177dc01e5658ff59203f629782493026394acf7c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 32/56] fix: take group changes from signed messages only and
 find every group

---
 groupsv2/createGroupChange.go | 10 +++++++---
 groupsv2/credentials.go       | 28 ++++++++++++++++++++--------
 groupsv2/decrypt.go           |  7 +++++--
 groupsv2/groupsv2.go          | 29 ++++++++++++++++-------------
 4 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 8de5607..2aff55d 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -77,6 +77,9 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(config.ConfigFile.ProfileKeyCredential) == 0 {
+		return fmt.Errorf("no profile key credential")
+	}
 	presentation, err := serverPublicParams.CreateProfileKeyCredentialPresentation(groupSecretParams, config.ConfigFile.ProfileKeyCredential)
 	if err != nil {
 		return err
@@ -87,7 +90,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 			Presentation: presentation,
 		})
 	groupChangeActions.SourceUuid = uuid
-	groupChangeActions.Revision = g.DecryptedGroup.Revision + 1
+	groupChangeActions.Revision = g.DecryptedGroup.GetRevision() + 1
 
 	auth, err := NewGroupsV2Authorization(uuid, groupSecretParams)
 	if err != nil {
@@ -102,6 +105,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 	}
 	err = PatchGroupV2(out, auth)
 	if err != nil {
+		return err
 	}
 	g.JoinStatus = GroupV2JoinsStatusMember
 	g.UpdateGroupFromServer()
@@ -119,9 +123,9 @@ func (g *GroupV2) EncryptUUID(uuid []byte) ([]byte, error) {
 }
 func (g *GroupV2) findMemberByUuid(uuid string) (*signalservice.Member, error) {
 	for _, member := range g.GroupContext.PendingMembers {
-		d, err := g.decryptUUID(member.Member.UserId)
+		d, err := g.decryptUUID(member.GetMember().GetUserId())
 		if err != nil {
-			return nil, err
+			log.Debugln("[textsecure][groupsv2] pending member", err)
 		} else {
 			mUUID := HexToUUID(idToHex(d))
 			if mUUID == uuid {
diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index bdde8db..eb14cbc 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -37,20 +37,32 @@ func getToday() int64 {
 }
 
 func GetCredentialForRedemption(day int64) (*GroupCredential, error) {
+	if credential := findCredential(day); credential != nil {
+		return credential, nil
+	}
+	// there are none yet or the stored ones are of earlier days
+	today := getToday()
+	err := GetGroupAuthCredentials(today, today+7)
+	if err != nil {
+		log.Errorln("[textsecure] get groupCredentials ", err)
+		return nil, err
+	}
+	if credential := findCredential(day); credential != nil {
+		return credential, nil
+	}
+	return nil, fmt.Errorf("failed to get group credentials")
+}
+
+func findCredential(day int64) *GroupCredential {
 	if Credentials == nil {
-		today := getToday()
-		err := GetGroupAuthCredentials(today, today+7)
-		if err != nil {
-			log.Errorln("[textsecure] get groupCredentials ", err)
-			return nil, err
-		}
+		return nil
 	}
 	for _, credential := range Credentials.Credentials {
 		if credential.RedemptionTime == day {
-			return &credential, nil
+			return &credential
 		}
 	}
-	return nil, fmt.Errorf("failed to get group credentials")
+	return nil
 }
 
 func GetCredentialForToday() (*GroupCredential, error) {
diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 01e9a8b..6cd2884 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -16,10 +16,13 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 		GroupContext: *group,
 	}
 	decryptedGroup, err := newGroup.decryptGroup()
+	if err != nil {
+		return err
+	}
 	g.GroupContext = newGroup.GroupContext
 	g.DecryptedGroup = decryptedGroup
 	g.CheckJoinStatus()
-	return err
+	return nil
 }
 func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	log.Debugln("[textsecure][groupsv2] decrypt group")
@@ -85,7 +88,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 
 	} else {
 		//TODO: check valid presentation
-		profileKeyCredentialPresentation, err := zkgroup.NewAuthCredentialPresentation(member.GetPresentation())
+		profileKeyCredentialPresentation, err := zkgroup.NewProfileKeyCredentialPresentation(member.GetPresentation())
 		if err != nil {
 			return nil, err
 		}
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 6360b60..5602367 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -103,7 +103,7 @@ func createAcceptInviteChange() {
 
 }
 func FindGroup(hexid string) *GroupV2 {
-	if len(groupsV2) == 0 {
+	if groupsV2[hexid] == nil {
 		group, err := loadGroupV2(hexid)
 		if err != nil {
 			log.Debugln("[textsecure][groupsv2] FindGroup", err)
@@ -277,6 +277,8 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 	} else if string(group.GroupContext.Title) == "" {
 		err = group.UpdateGroupFromServer()
 	}
+	// a change is handed over with the message which carried it
+	group.GroupAction = nil
 	// handle group changes
 	if len(groupContext.GroupChange) > 0 {
 		groupChange := &signalservice.GroupChange{}
@@ -290,19 +292,17 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		serverPublicParams, err := zkgroup.NewServerPublicParams(zkGroupServerPublicParams)
 		if err != nil {
 			log.Errorln("[textsecure][groupsv2] server public params", err)
-		} else {
-			if len(groupChange.GetActions()) != 0 {
-				if len(groupChange.GetServerSignature()) == 0 {
-					return nil, fmt.Errorf("group change without signature")
-				}
-				err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
-				if err != nil {
-					log.Errorln("[textsecure][groupsv2] signature verification failed", err)
-					return nil, err
-				}
-				log.Debugln("[textsecure][groupsv2] signature verification succesful")
-			}
+			return nil, err
 		}
+		if len(groupChange.GetActions()) == 0 || len(groupChange.GetServerSignature()) == 0 {
+			return nil, fmt.Errorf("group change is not signed")
+		}
+		err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
+		if err != nil {
+			log.Errorln("[textsecure][groupsv2] signature verification failed", err)
+			return nil, err
+		}
+		log.Debugln("[textsecure][groupsv2] signature verification succesful")
 
 		log.Debugln("[textsecure][groupsv2] handle group action ", hexid)
 
@@ -381,6 +381,9 @@ func loadGroupV2(hexid string) (*GroupV2, error) {
 	if err != nil {
 		return nil, err
 	}
+	if idToHex(group.MasterKey) != hexid {
+		return nil, fmt.Errorf("group file %s holds another group", path)
+	}
 	groupsV2[hexid] = group
 	return group, nil
 }
-- 
2.43.0


From b10abbd08dca85a1378a36473844cf47acd6df03 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 33/56] fix: take profile keys and nonces from the secure
 random source

---
 profiles/profile.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index f0c2607..97370ce 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -2,13 +2,13 @@ package profiles
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"math/rand"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -43,9 +43,17 @@ type ProfileSettings struct {
 // GenerateProfileKey generates a new ProfileKey
 func GenerateProfileKey() []byte {
 	profileKey := make([]byte, 32)
-	rand.Read(profileKey)
+	randBytes(profileKey)
 	return profileKey
 }
+
+// randBytes fills data from the CSPRNG
+func randBytes(data []byte) {
+	if _, err := io.ReadFull(rand.Reader, data); err != nil {
+		panic(err)
+	}
+}
+
 func uuidToByte(id string) []byte {
 	s, _ := uuidUtil.FromString(id)
 	return s.Bytes()
@@ -106,9 +114,10 @@ func encryptName(key, input []byte, paddedLength int) ([]byte, error) {
 	if inputLength > paddedLength {
 		return nil, errors.New("Input too long")
 	}
-	padded := append(input, make([]byte, paddedLength-inputLength)...)
+	padded := make([]byte, paddedLength)
+	copy(padded, input)
 	nonce := make([]byte, 12)
-	rand.Read(nonce)
+	randBytes(nonce)
 	ciphertext, err := crypto.AesgcmEncrypt(key, nonce, padded)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6ece51958c00b86766694015eab77f013f51ef13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 34/56] fix: show only profile data that decrypts, and refuse
 malformed profiles

---
 profiles/avatars.go |   3 +
 profiles/profile.go | 226 ++++++++++++++++++++++++--------------------
 2 files changed, 127 insertions(+), 102 deletions(-)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index fc0c180..9299660 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -121,6 +121,9 @@ func setupAvatarsPath() error {
 }
 
 func decryptAvatar(avatar []byte, identityKey []byte) ([]byte, error) {
+	if len(avatar) < NONCE_LEN || len(identityKey) < 32 {
+		return nil, fmt.Errorf("malformed avatar or key")
+	}
 	nonce := avatar[:NONCE_LEN]
 	encrypted_avatar := avatar[NONCE_LEN:]
 	decryptedAvatar, err := decrypt(identityKey[:32], encrypted_avatar, nonce)
diff --git a/profiles/profile.go b/profiles/profile.go
index 97370ce..a0ee0e7 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"strings"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -54,15 +55,28 @@ func randBytes(data []byte) {
 	}
 }
 
-func uuidToByte(id string) []byte {
-	s, _ := uuidUtil.FromString(id)
-	return s.Bytes()
+func uuidToByte(id string) ([]byte, error) {
+	s, err := uuidUtil.FromString(id)
+	if err != nil {
+		return nil, err
+	}
+	return s.Bytes(), nil
 }
 
+const profileKeyLength = 32
+
+var errProfileKeyLength = errors.New("profile key has not 32 bytes")
+
 // UpdateProfile ...
 func UpdateProfile(profileKey []byte, uuid, name string) error {
 	log.Debugln("[textsecure] UpdateProfile", uuid, name)
-	uuidByte := uuidToByte(uuid)
+	if len(profileKey) != profileKeyLength {
+		return errProfileKeyLength
+	}
+	uuidByte, err := uuidToByte(uuid)
+	if err != nil {
+		return err
+	}
 
 	profile := ProfileSettings{}
 	version, err := zkgroup.ProfileKeyGetProfileKeyVersion(profileKey, uuidByte)
@@ -178,46 +192,56 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 	if resp.IsError() {
 		return nil, resp
 	}
-	profile := &Profile{}
-	bytes, err := io.ReadAll(resp.Body)
+	profile, err := readProfile(resp.Body)
 	if err != nil {
+		log.Debugln("[textsecure] GetProfile decode error", err)
 		return nil, err
 	}
-	err = json.Unmarshal(bytes, profile)
-
+	accessKey := []byte(profile.UnidentifiedAccess)
+	err = decryptProfile(profileKey, profile)
+	if err != nil {
+		log.Errorln("[textsecure] decrypt profile error", err)
+		// return nil, err
+	}
+	resp, err = transport.Transport.GetWithUnidentifiedAccessKey(fmt.Sprintf(PROFILE_PATH, UUID), accessKey)
+	if err != nil {
+		return profile, err
+	}
+	if resp.IsError() {
+		return profile, resp
+	}
+	profile, err = readProfile(resp.Body)
 	if err != nil {
 		log.Debugln("[textsecure] GetProfile decode error", err)
 		return nil, err
-	} else {
-		err = decryptProfile(profileKey, profile)
-		if err != nil {
-			log.Errorln("[textsecure] decrypt profile error", err)
-			// return nil, err
-		}
-		resp, err = transport.Transport.GetWithUnidentifiedAccessKey(fmt.Sprintf(PROFILE_PATH, UUID), []byte(profile.UnidentifiedAccess))
-		if err != nil {
-			return profile, err
-		}
-		if resp.IsError() {
-			return profile, resp
-		}
-		bytes, err := io.ReadAll(resp.Body)
-		if err != nil {
-			return nil, err
-		}
-		err = json.Unmarshal(bytes, profile)
-		if err != nil {
-			log.Debugln("[textsecure] GetProfile decode error", err)
-			return nil, err
-		}
+	}
+	err = decryptProfile(profileKey, profile)
+	if err != nil {
+		log.Errorln("[textsecure] decrypt profile error", err)
 	}
 	return profile, nil
+}
 
+// readProfile decodes the answer of the server to a profile request
+func readProfile(body io.Reader) (*Profile, error) {
+	b, err := io.ReadAll(body)
+	if err != nil {
+		return nil, err
+	}
+	profile := &Profile{}
+	if err := json.Unmarshal(b, profile); err != nil {
+		return nil, err
+	}
+	return profile, nil
 }
+
 func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 	if len(profileKey) == 0 {
 		return nil, errors.New("profileKey is empty")
 	}
+	if len(profileKey) != profileKeyLength {
+		return nil, errProfileKeyLength
+	}
 	if (len(UUID) == 0) || (UUID == "00000000-0000-0000-0000-000000000000") {
 		return nil, errors.New("UUID is empty")
 	}
@@ -272,7 +296,7 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 		}
 	}
 	log.Debugf("[textsecure] GetProfileAndCredential profile %+v", profile)
-	if profile.Credential == nil {
+	if len(profile.Credential) == 0 {
 		log.Debugf("[textsecure] GetProfileAndCredential profile %+v", profile)
 		return nil, errors.New("profile credential is empty")
 	}
@@ -295,36 +319,27 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 	return profile, err
 
 }
+
+// decryptProfile decrypts the fields of a profile; what cannot be decrypted is left empty
 func decryptProfile(profileKey []byte, profile *Profile) error {
-	if len(profileKey) == 0 {
-		return fmt.Errorf("[textsecure] decryptProfile: no profile key")
-	}
 	log.Println("[textsecure] decryptProfile")
-	if profile.Name != "" {
-		name, err := decryptString(profileKey, profile.Name)
-		if err != nil {
-			log.Debugln("[textsecure] decryptProfile name", profile.Name, err)
-			return err
+	var failed error
+	for _, field := range []*string{&profile.Name, &profile.About, &profile.AboutEmoji} {
+		if *field == "" {
+			continue
 		}
-		profile.Name = name
-
-		if profile.About != "" {
-			about, err := decryptString(profileKey, profile.About)
-			if err != nil {
-				log.Debugln("[textsecure] decryptProfile about", err)
-				return err
-			}
-			profile.About = about
-		}
-		if profile.AboutEmoji != "" {
-
-			emoji, err := decryptString(profileKey, profile.AboutEmoji)
-			if err != nil {
-				log.Debugln("[textsecure] decryptProfile aboutEmoji", err)
-				return err
-			}
-			profile.AboutEmoji = emoji
+		plain, err := decryptString(profileKey, *field)
+		if err != nil {
+			log.Debugln("[textsecure] decryptProfile field", *field, err)
+			failed = err
 		}
+		*field = plain
+	}
+	if failed != nil {
+		return failed
+	}
+	if len(profileKey) == 0 {
+		return fmt.Errorf("[textsecure] decryptProfile: no profile key")
 	}
 	identityKey, err := base64.StdEncoding.DecodeString(profile.IdentityKey)
 	if err != nil {
@@ -365,38 +380,65 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	resp, err := transport.Transport.Get(fmt.Sprintf(PROFILE_PATH, tel))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
+	}
+	if resp.IsError() {
+		return contacts.Contact{}, resp
 	}
 
-	profile := &Profile{}
-	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&profile)
-
+	profile, err := readProfile(resp.Body)
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
+	}
+	if _, err := uuidUtil.FromString(profile.UUID); err != nil {
+		return contacts.Contact{}, err
 	}
-
-	avatar, _ := GetRemoteAvatar(profile.Avatar)
-	buf := new(bytes.Buffer)
-	buf.ReadFrom(avatar)
 
 	c := contacts.Contacts[profile.UUID]
-	avatarDecrypted, err := decryptAvatar(buf.Bytes(), []byte(profile.IdentityKey))
+	err = decryptProfile(c.ProfileKey, profile)
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
 	}
-	err = saveLocalAvatar(profile.UUID, avatarDecrypted)
-	if err != nil {
-		log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
+	if profile.Avatar != "" {
+		avatar, err := receiveAvatar(profile.UUID, "/"+profile.Avatar, c.ProfileKey)
+		if err != nil {
+			log.Errorln("[textsecure] GetProfileE164 ", err)
+		} else {
+			c.HasAvatar = true
+			c.AvatarImg = avatar
+		}
+	}
+	if profile.Name != "" {
+		c.Name = profile.Name
 	}
-	c.Name = profile.Name
 	c.UUID = profile.UUID
-	c.HasAvatar = true
-	c.AvatarImg = avatarDecrypted
 	contacts.Contacts[c.UUID] = c
 	contacts.WriteContactsToPath()
 	return c, nil
 }
 
+// receiveAvatar downloads, decrypts and saves an avatar
+func receiveAvatar(uuid, url string, profileKey []byte) ([]byte, error) {
+	if len(profileKey) == 0 {
+		return nil, errors.New("profile key doesn't exists")
+	}
+	avatar, err := GetRemoteAvatar(url)
+	if err != nil {
+		return nil, err
+	}
+	defer avatar.Close()
+	buf := new(bytes.Buffer)
+	if _, err := buf.ReadFrom(avatar); err != nil {
+		return nil, err
+	}
+	decrypted, err := decryptAvatar(buf.Bytes(), profileKey)
+	if err != nil {
+		return nil, err
+	}
+	return decrypted, SaveAvatar(uuid, decrypted)
+}
+
 // GetProfileUUID get a profile by a phone number
 func GetProfileUUID(uuid string) (*Profile, error) {
 	log.Debugln("[textsecure] GetProfileUUID", uuid)
@@ -418,47 +460,27 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 			return nil, resp
 		}
 
-		dec := json.NewDecoder(resp.Body)
-		err = dec.Decode(&profile)
+		profile, err = readProfile(resp.Body)
 		if err != nil {
 			log.Errorln("[textsecure] GetProfileUuid decode", err)
 			return nil, err
 		}
+		err = decryptProfile(nil, profile)
+		if err != nil {
+			log.Debugln("[textsecure] GetProfileUuid", err)
+		}
+	}
+	if !strings.EqualFold(profile.UUID, uuid) {
+		return nil, errors.New("profile of another account")
 	}
 	var avatarDecrypted []byte
 
 	if profile.Avatar != "" {
-		avatar, err := GetRemoteAvatar("/" + profile.Avatar)
+		avatarDecrypted, err = receiveAvatar(uuid, "/"+profile.Avatar, c.ProfileKey)
 		if err != nil {
 			log.Errorln("[textsecure] GetProfileUuid getting Avatar failed: ", err)
 			profile.Avatar = ""
-		} else {
-			buf := new(bytes.Buffer)
-			buf.ReadFrom(avatar)
-			key := c.ProfileKey
-			if len(key) == 0 {
-				log.Errorln("[textsecure] GetProfileUuid decrypting avatar failed: profile key doesn't exists")
-				profile.Avatar = ""
-			} else {
-				avatar := buf.Bytes()
-				if len(avatar) > 0 {
-					avatarDecrypted, err = decryptAvatar(buf.Bytes(), key)
-					if err != nil {
-						log.Errorln("[textsecure] GetProfileUuid Avatar decryption failed", err)
-						profile.Avatar = ""
-
-					}
-					err = saveLocalAvatar(profile.UUID, avatarDecrypted)
-					if err != nil {
-						log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
-					}
-				} else {
-					log.Errorln("[textsecure] GetProfileUuid decrypting avatar failed: avatar is empty")
-
-				}
-			}
 		}
-
 	}
 
 	// err = decryptProfile(c.ProfileKey, profile)
@@ -471,7 +493,7 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 	if c.Name == "" {
 		c.Name = profile.Name
 	}
-	c.UUID = profile.UUID
+	c.UUID = uuid
 	if profile.Avatar != "" {
 		c.HasAvatar = true
 		c.AvatarImg = avatarDecrypted
-- 
2.43.0


From d670a1ebd9b9d3556eb725a952592d5f15394f93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 35/56] fix: refuse malformed contact discovery answers and ask
 for phone numbers only

---
 contactDiscoveryCrypto/contactDiscoveryCrypto.go | 15 ++++++++++++++-
 contactsDiscovery/remoteAttestationUtil.go       | 16 +++++++++++++++-
 crypto/aesgcm.go                                 |  4 ++++
 server.go                                        |  7 +++++--
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/contactDiscoveryCrypto/contactDiscoveryCrypto.go b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
index d8136f6..30176c1 100644
--- a/contactDiscoveryCrypto/contactDiscoveryCrypto.go
+++ b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
@@ -101,7 +101,17 @@ func buildQueryDataWithNonce(addressBook []string, nonce []byte) ([]byte, error)
 }
 
 func parse(s string) (int64, error) {
-	return strconv.ParseInt(s, 10, 64)
+	id, err := strconv.ParseInt(s, 10, 64)
+	if err == nil && id < 0 {
+		return 0, errors.New("not a phone number: " + s)
+	}
+	return id, err
+}
+
+// IsNumber tells whether s is a phone number that can be asked for.
+func IsNumber(s string) bool {
+	_, err := parse(s)
+	return err == nil
 }
 
 func toByteArray(i int64) []byte {
@@ -195,6 +205,9 @@ func aesDecrypt(key, nonce, data, mac, aad []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("nonce has a wrong length")
+	}
 	ciphertext := append(data, mac...)
 	return aesgcm.Open(nil, nonce, ciphertext, aad)
 }
diff --git a/contactsDiscovery/remoteAttestationUtil.go b/contactsDiscovery/remoteAttestationUtil.go
index 41a0309..0913c38 100644
--- a/contactsDiscovery/remoteAttestationUtil.go
+++ b/contactsDiscovery/remoteAttestationUtil.go
@@ -2,6 +2,7 @@ package contactsDiscovery
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	axolotl "github.com/signal-golang/textsecure/axolotl"
@@ -80,10 +81,14 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
+
 	multiRemoteAttestationResponse := &MultiRemoteAttestationResponse{}
 	dec := json.NewDecoder(resp.Body)
 	// log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp", resp)
-	err = dec.Decode(&multiRemoteAttestationResponse)
+	err = dec.Decode(multiRemoteAttestationResponse)
 	if err != nil {
 		return nil, err
 	}
@@ -108,6 +113,9 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 
 		}
 	}
+	if len(assestations) == 0 {
+		return nil, errors.New("no valid attestation")
+	}
 
 	return assestations, nil
 }
@@ -119,6 +127,9 @@ func validateAndBuildRemoteAttestation(
 	keyPair *axolotl.ECKeyPair,
 	enclaveName string,
 ) (*RemoteAttestation, error) {
+	if remoteAttestation == nil {
+		return nil, errors.New("empty attestation")
+	}
 	keys, err := remoteAttestationKeys(keyPair, remoteAttestation.ServerEphemeralPublic, remoteAttestation.ServerStaticPublic)
 	log.Debugln("[textsecure] validateAndBuildRemoteAttestation ")
 	if err != nil {
@@ -142,6 +153,9 @@ func validateAndBuildRemoteAttestation(
 }
 
 func remoteAttestationKeys(keyPair *axolotl.ECKeyPair, serverPublicEphemarl []byte, serverPublicStatic []byte) (*RemoteAttestationKeys, error) {
+	if len(serverPublicEphemarl) != 32 || len(serverPublicStatic) != 32 {
+		return nil, errors.New("attestation key has a wrong length")
+	}
 
 	ephemeralToEphemeral := [32]byte{}
 	serverPublicEphemarlPublicKey := axolotl.NewECPublicKey(serverPublicEphemarl).GetKey()
diff --git a/crypto/aesgcm.go b/crypto/aesgcm.go
index 5891af8..eba8070 100644
--- a/crypto/aesgcm.go
+++ b/crypto/aesgcm.go
@@ -3,6 +3,7 @@ package crypto
 import (
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 )
 
 const TAG_LENGTH_BYTES = 16
@@ -18,6 +19,9 @@ func AesgcmDecrypt(key, nonce, data, mac []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("nonce has a wrong length")
+	}
 	ciphertext := append(data, mac...)
 
 	return aesgcm.Open(nil, nonce, ciphertext, nil)
diff --git a/server.go b/server.go
index dd26406..1c32ddc 100644
--- a/server.go
+++ b/server.go
@@ -621,7 +621,7 @@ func getContactDiscoveryRegisteredUsers(authorization string, request *contactDi
 	discoveryResponse := &contactDiscoveryCrypto.DiscoveryResponse{}
 	dec := json.NewDecoder(resp.Body)
 	log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp")
-	err = dec.Decode(&discoveryResponse)
+	err = dec.Decode(discoveryResponse)
 	if err != nil {
 		return nil, err
 	}
@@ -665,7 +665,7 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 	for _, c := range localContacts {
 		t := c.Tel
 		// check if the contact is a valid phone number and if it is not a duplicate
-		if t != "" && re.MatchString(t) && tokensMap[t] == nil {
+		if t != "" && re.MatchString(t) && contactDiscoveryCrypto.IsNumber(t) && tokensMap[t] == nil {
 			tokens = append(tokens, t)
 			tokensMap[t] = &t
 		} else {
@@ -704,6 +704,9 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 	}
 	uuidlength := 16
 	ind := 0
+	if len(responseData) != len(tokens)*uuidlength {
+		return nil, fmt.Errorf("contact discovery answered %d bytes for %d numbers", len(responseData), len(tokens))
+	}
 
 	contacts.Contacts = map[string]contacts.Contact{}
 	for _, phone := range tokens {
-- 
2.43.0


From 48d8d29e72cda1b68b30a9375ffa97a110b75900 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 36/56] fix: keep contacts apart and complete when they are
 updated and reloaded

---
 contacts/contacts.go                     | 19 +++++++++++++++----
 server.go                                | 12 +++++++++++-
 sync.go                                  | 11 ++++++++---
 unidentifiedAccess/unidentifiedAccess.go |  2 +-
 4 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index 950cb10..de2b272 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -50,10 +50,14 @@ var (
 	Contacts     = map[string]Contact{}
 )
 
-// LoadContacts reads a YAML contacts file
+// nilUUID is what contact discovery answers for numbers that are not registered
+const nilUUID = "00000000-0000-0000-0000-000000000000"
+
+// LoadContacts makes the contacts of a YAML contacts file the known contacts
 func LoadContacts(contactsYaml *yamlContacts) {
+	Contacts = map[string]Contact{}
 	for _, c := range contactsYaml.Contacts {
-		if c.UUID != "" && c.UUID != "0" && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
+		if c.UUID != "" && c.UUID != "0" && c.UUID != nilUUID && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
 			Contacts[c.UUID] = c
 
 		} else {
@@ -68,10 +72,11 @@ var filePath string
 func ReadContacts(fileName string) ([]Contact, error) {
 	log.Debug("[textsecure] read contacts from ", fileName)
 	b, err := os.ReadFile(fileName)
-	filePath = fileName
 	contactsYaml := &yamlContacts{}
-	if err != nil {
+	if os.IsNotExist(err) {
 		log.Debugln("[textsecure] ReadContacts: there is no contact file", err)
+	} else if err != nil {
+		return nil, err
 	} else {
 		// only read the contacts file if it exists
 		err = yaml.Unmarshal(b, contactsYaml)
@@ -79,6 +84,8 @@ func ReadContacts(fileName string) ([]Contact, error) {
 			return nil, err
 		}
 	}
+	// a file that could not be read must not be overwritten
+	filePath = fileName
 	LoadContacts(contactsYaml)
 	return contactsYaml.Contacts, nil
 }
@@ -162,6 +169,10 @@ func HandleContacts(src string, dm *signalservice.DataMessage) ([]*signalservice
 
 func UpdateProfileKey(src string, profileKey []byte) error {
 	log.Println("[textsecure] update profile key", src)
+	if len(profileKey) != 32 {
+		log.Errorln("[textsecure] ignoring a profile key of length", len(profileKey))
+		return nil
+	}
 	if contact, ok := Contacts[src]; ok {
 		contact.ProfileKey = profileKey
 		Contacts[src] = contact
diff --git a/server.go b/server.go
index 1c32ddc..285a2ca 100644
--- a/server.go
+++ b/server.go
@@ -708,7 +708,6 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 		return nil, fmt.Errorf("contact discovery answered %d bytes for %d numbers", len(responseData), len(tokens))
 	}
 
-	contacts.Contacts = map[string]contacts.Contact{}
 	for _, phone := range tokens {
 
 		UUID := idToHexUUID(responseData[ind*uuidlength : (ind+1)*uuidlength])
@@ -722,6 +721,17 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 			}
 		}
 		localContacts[index].UUID = UUID
+		// the number belongs to this contact now; other contacts stay as they are
+		known := contacts.Contacts[UUID]
+		for k, c := range contacts.Contacts {
+			if c.Tel == phone {
+				delete(contacts.Contacts, k)
+			}
+		}
+		if len(localContacts[index].ProfileKey) == 0 {
+			localContacts[index].ProfileKey = known.ProfileKey
+			localContacts[index].ProfileKeyCredential = known.ProfileKeyCredential
+		}
 		if len(UUID) > 0 && UUID != "00000000-0000-0000-0000-000000000000" {
 			// add registered contact by UUID
 			localContacts[index].Registered = true
diff --git a/sync.go b/sync.go
index 3d267a5..60c1b1f 100644
--- a/sync.go
+++ b/sync.go
@@ -92,9 +92,14 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		return fmt.Errorf("DataMessage was nil for SyncMessage_Sent")
 	}
 
-	flags, err := handleFlags(dest, dm)
-	if err != nil {
-		return err
+	flags := dm.GetFlags()
+	// the profile key in a sent message is our own, not the recipient's
+	if flags != uint32(ProfileKeyUpdatedFlag) {
+		var err error
+		flags, err = handleFlags(dest, dm)
+		if err != nil {
+			return err
+		}
 	}
 
 	atts, err := handleAttachments(dm)
diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index f542faf..53be9d2 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -83,7 +83,7 @@ func GetAccessForSync(profileKey []byte, cert []byte) (*UnidentifiedAccess, erro
 }
 func GetTargetUnidentifiedAccessKey(contact contacts.Contact) ([]byte, error) {
 	log.Infoln("[textsecure] Getting target unidentified access key")
-	if contact.ProfileKey != nil {
+	if len(contact.ProfileKey) > 0 {
 		return DeriveAccessKeyFrom(contact.ProfileKey)
 	} else {
 		token := make([]byte, 16)
-- 
2.43.0


From 7c2bba86894d2fd7bd2dca0627e2d734f76749b2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 37/56] fix: acknowledge only requests of the websocket

---
 websocket.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/websocket.go b/websocket.go
index fd8fd32..a311c28 100644
--- a/websocket.go
+++ b/websocket.go
@@ -181,6 +181,11 @@ func StartListening() error {
 			return err
 		}
 
+		if wsm.GetType() != signalservice.WebSocketMessage_REQUEST || wsm.GetRequest() == nil {
+			log.Debugln("[textsecure] Ignoring websocket message that is no request")
+			continue
+		}
+
 		m := wsm.GetRequest().GetBody()
 
 		if len(m) > 0 {
-- 
2.43.0


From 7c382a6b0950b0daa778aa006acfd58f7d24a401 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 38/56] fix: keep the saved contacts, groups and settings when
 a save is interrupted

---
 config.go            |  4 ++--
 contacts/contacts.go |  6 +++---
 groups.go            |  8 ++++----
 groupsv2/groupsv2.go |  4 ++--
 utils/utils.go       | 29 +++++++++++++++++++++++++++++
 5 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/config.go b/config.go
index 5bbd209..f59f30b 100644
--- a/config.go
+++ b/config.go
@@ -4,11 +4,11 @@
 package textsecure
 
 import (
-	"io/ioutil"
 	"os"
 
 	"github.com/go-yaml/yaml"
 	"github.com/signal-golang/textsecure/config"
+	"github.com/signal-golang/textsecure/utils"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -57,7 +57,7 @@ func WriteConfig(filename string, cfg *config.Config) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filename, b, 0600)
+	return utils.WriteFile(filename, b)
 }
 
 func saveConfig(cfg *config.Config) error {
diff --git a/contacts/contacts.go b/contacts/contacts.go
index de2b272..cf7f2bb 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -4,10 +4,10 @@
 package contacts
 
 import (
-	"io/ioutil"
 	"os"
 
 	signalservice "github.com/signal-golang/textsecure/protobuf"
+	"github.com/signal-golang/textsecure/utils"
 	log "github.com/sirupsen/logrus"
 
 	"gopkg.in/yaml.v2"
@@ -99,7 +99,7 @@ func WriteContacts(filename string, contacts []Contact) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filename, b, 0600)
+	return utils.WriteFile(filename, b)
 }
 
 // WriteContactsToPath saves a list of contacts to a file at the standard location
@@ -110,7 +110,7 @@ func WriteContactsToPath() error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePath, b, 0600)
+	return utils.WriteFile(filePath, b)
 }
 func contactsToYaml() *yamlContacts {
 	c := &yamlContacts{}
diff --git a/groups.go b/groups.go
index 27fc314..6e80eee 100644
--- a/groups.go
+++ b/groups.go
@@ -8,7 +8,6 @@ import (
 	"encoding/hex"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -21,6 +20,7 @@ import (
 	"github.com/signal-golang/textsecure/groupsv2"
 	groupsV2 "github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
+	"github.com/signal-golang/textsecure/utils"
 	"gopkg.in/yaml.v2"
 )
 
@@ -60,7 +60,7 @@ func saveGroup(hexid string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	return utils.WriteFile(idToPath(hexid), b)
 }
 
 // loadGroup loads a group's state from a file.
@@ -98,8 +98,8 @@ func setupGroups() error {
 		return err
 	}
 	filepath.Walk(groupDir, func(path string, fi os.FileInfo, err error) error {
-		if !fi.IsDir() {
-			if !strings.Contains(path, "avatar") {
+		if err == nil && !fi.IsDir() {
+			if !strings.Contains(fi.Name(), "avatar") && !strings.HasPrefix(fi.Name(), utils.TempPrefix) {
 				loadGroup(path)
 			}
 		}
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 5602367..092468a 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -5,7 +5,6 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
-	"io/ioutil"
 	"net/url"
 	"os"
 	"path/filepath"
@@ -15,6 +14,7 @@ import (
 	"github.com/signal-golang/textsecure/config"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/transport"
+	"github.com/signal-golang/textsecure/utils"
 	log "github.com/sirupsen/logrus"
 	"google.golang.org/protobuf/proto"
 	"gopkg.in/yaml.v2"
@@ -365,7 +365,7 @@ func saveGroupV2(hexid string) error {
 		return err
 	}
 	log.Debugln("[textsecure][groupv2] save group", idToPath(hexid))
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	return utils.WriteFile(idToPath(hexid), b)
 }
 
 // loadGroup loads a group's state from a file.
diff --git a/utils/utils.go b/utils/utils.go
index 79a704d..eabbf57 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -1,7 +1,9 @@
 package utils
 
 import (
+	"io/ioutil"
 	"os"
+	"path/filepath"
 	"time"
 
 	uuid "github.com/satori/go.uuid"
@@ -11,6 +13,33 @@ func Exists(path string) bool {
 	_, err := os.Stat(path)
 	return err == nil
 }
+
+// TempPrefix is how the names of files that are still being written begin
+const TempPrefix = ".tmp"
+
+// WriteFile saves a file only its owner can access. An interrupted save leaves
+// the previous file intact, so the new one is completed under another name
+// before it takes the place of the old one.
+func WriteFile(path string, b []byte) error {
+	f, err := ioutil.TempFile(filepath.Dir(path), TempPrefix)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(b)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+	}
+	return err
+}
 func UUIDStr(uuid_ba []byte) (string, error) {
 	u, err := uuid.FromBytes(uuid_ba)
 	if err != nil {
-- 
2.43.0


From 24e735267e641e374fc730741d079de55166b150 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:22:49 +0000
Subject: [PATCH 39/56] fix: forget a group that was left, name each member
 once and send group messages to others only

---
 groups.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/groups.go b/groups.go
index 6e80eee..b14aab4 100644
--- a/groups.go
+++ b/groups.go
@@ -227,13 +227,18 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 		return 0, fmt.Errorf("[textsecure] sendGroupV2Helper empty members list")
 	}
 	timestamp := uint64(time.Now().UnixNano() / 1000000)
+	ts = timestamp
 	groupsV2Context := &signalservice.GroupContextV2{
 		MasterKey: g.MasterKey,
 		Revision:  &g.DecryptedGroup.Revision,
 	}
 	for _, m := range g.DecryptedGroup.Members {
+		destination := idToHexUUID(m.Uuid)
+		if destination == config.ConfigFile.UUID {
+			continue
+		}
 		omsg := &outgoingMessage{
-			destination: idToHexUUID(m.Uuid),
+			destination: destination,
 			msg:         msg,
 			attachment:  attachmentPointer,
 			expireTimer: timer,
@@ -357,12 +362,28 @@ func changeGroup(hexid, name string, members []string) (*Group, error) {
 	}
 
 	g.Name = name
-	g.Members = append(members, config.ConfigFile.Tel)
-	saveGroup(hexid)
+	g.Members = withOurselves(members)
+	err := saveGroup(hexid)
+	if err != nil {
+		return nil, err
+	}
 
 	return g, nil
 }
 
+// withOurselves returns a list that names each of the members and us once.
+func withOurselves(members []string) []string {
+	all := []string{}
+	seen := map[string]bool{config.ConfigFile.Tel: true}
+	for _, m := range members {
+		if !seen[m] {
+			seen[m] = true
+			all = append(all, m)
+		}
+	}
+	return append(all, config.ConfigFile.Tel)
+}
+
 func sendUpdate(g *Group) error {
 	for _, m := range g.Members {
 		if m != config.ConfigFile.Tel {
@@ -391,7 +412,7 @@ func newGroup(name string, members []string) (*Group, error) {
 		ID:      id,
 		Hexid:   hexid,
 		Name:    name,
-		Members: append(members, config.ConfigFile.Tel),
+		Members: withOurselves(members),
 	}
 	err := saveGroup(hexid)
 	if err != nil {
@@ -494,8 +515,8 @@ func LeaveGroup(hexid string) error {
 			}
 		}
 	}
-	removeGroup(g.ID)
-	return nil
+	delete(groups, hexid)
+	return removeGroup(g.ID)
 }
 
 func JoinGroup(hexID string) (*groupsv2.GroupV2, error) {
-- 
2.43.0


From 76b1e32bdedf174f6b0c96fcf3bdc6cf5e9298ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:23:29 +0000
Subject: [PATCH 40/56] fix: report every message of a receipt, contacts in
 sent copies, and session ends of other own devices

---
 contacts/contacts.go |  2 +-
 handler.go           | 25 ++++++++++++++-----------
 sync.go              |  6 +++++-
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index cf7f2bb..1c7a226 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -164,7 +164,7 @@ func HandleContacts(src string, dm *signalservice.DataMessage) ([]*signalservice
 
 		log.Debugln("[textsecure] handle Contact", c.GetName())
 	}
-	return nil, nil
+	return cs, nil
 }
 
 func UpdateProfileKey(src string, profileKey []byte) error {
diff --git a/handler.go b/handler.go
index 001e988..aa0c920 100644
--- a/handler.go
+++ b/handler.go
@@ -70,20 +70,23 @@ func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *sign
 	if len(cm.GetTimestamp()) == 0 {
 		return errors.New("[textsecure] receipt for no message")
 	}
-	msg := &Message{
-		source:     src,
-		sourceUUID: srcUUID,
-		message:    "sentReceiptMessage",
-		timestamp:  cm.GetTimestamp()[0],
-	}
+	message := "sentReceiptMessage"
 	if cm.Type != nil && *cm.Type == signalservice.ReceiptMessage_READ {
-		msg.message = "readReceiptMessage"
+		message = "readReceiptMessage"
 	}
 	if cm.Type != nil && *cm.Type == signalservice.ReceiptMessage_DELIVERY {
-		msg.message = "deliveryReceiptMessage"
-	}
-	if client.ReceiptMessageHandler != nil {
-		client.ReceiptMessageHandler(msg)
+		message = "deliveryReceiptMessage"
+	}
+	// a receipt can be for several messages
+	for _, ts := range cm.GetTimestamp() {
+		if client.ReceiptMessageHandler != nil {
+			client.ReceiptMessageHandler(&Message{
+				source:     src,
+				sourceUUID: srcUUID,
+				message:    message,
+				timestamp:  ts,
+			})
+		}
 	}
 
 	return nil
diff --git a/sync.go b/sync.go
index 60c1b1f..a8e6f91 100644
--- a/sync.go
+++ b/sync.go
@@ -96,7 +96,11 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 	// the profile key in a sent message is our own, not the recipient's
 	if flags != uint32(ProfileKeyUpdatedFlag) {
 		var err error
-		flags, err = handleFlags(dest, dm)
+		recipient := destUUID
+		if recipient == "" {
+			recipient = dest
+		}
+		flags, err = handleFlags(recipient, dm)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1b1e1c0f39aeb407cc0225052f41a9c0dbab907c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 41/56] fix: group changes apply to the group's state and only
 as a whole

Requests to join and accepted invitations went to the encrypted context or
nowhere, invitations were refused unless they carried what an invitation must
not carry, changes refused midway were applied in part, and missing parts
crashed.
---
 groupsv2/groupAuth.go   | 18 +++++-----
 groupsv2/groupChange.go | 73 +++++++++++++++++++++++++++++++----------
 2 files changed, 64 insertions(+), 27 deletions(-)

diff --git a/groupsv2/groupAuth.go b/groupsv2/groupAuth.go
index 97c0863..3bac86c 100644
--- a/groupsv2/groupAuth.go
+++ b/groupsv2/groupAuth.go
@@ -19,7 +19,7 @@ func isDeleteMembersPendingAdminApprovalAllowed(user *entities.GroupUser, group
 }
 
 func isAddMembersPendingAdminApprovalAllowed(user *entities.GroupUser, inviteLinkPassword []byte, group *GroupV2) bool {
-	return group.DecryptedGroup.AccessControl.AddFromInviteLink == signalservice.AccessControl_ADMINISTRATOR &&
+	return group.DecryptedGroup.GetAccessControl().GetAddFromInviteLink() == signalservice.AccessControl_ADMINISTRATOR &&
 		bytes.Equal(group.DecryptedGroup.InviteLinkPassword, inviteLinkPassword)
 }
 
@@ -42,7 +42,7 @@ func isModifyAttributesAllowed(user *entities.GroupUser, group *GroupV2) bool {
 	if source == nil {
 		return false
 	}
-	switch group.DecryptedGroup.AccessControl.Attributes {
+	switch group.DecryptedGroup.GetAccessControl().GetAttributes() {
 	case signalservice.AccessControl_ANY:
 		return true
 	case signalservice.AccessControl_MEMBER:
@@ -68,8 +68,8 @@ func isAddMembersPendingProfileKeyAllowed(user *entities.GroupUser, group *Group
 	}
 
 	return member.Role == signalservice.Member_ADMINISTRATOR ||
-		group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_MEMBER ||
-		group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY
+		group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_MEMBER ||
+		group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY
 
 }
 
@@ -101,19 +101,19 @@ func isAddMemberAllowed(user *entities.GroupUser,
 		case signalservice.Member_ADMINISTRATOR:
 			return true
 		case signalservice.Member_DEFAULT:
-			return group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_MEMBER ||
-				group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY
+			return group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_MEMBER ||
+				group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY
 		default:
 			return false
 
 		}
 	}
 
-	return (group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY ||
-		(group.DecryptedGroup.AccessControl.AddFromInviteLink == signalservice.AccessControl_ANY &&
+	return (group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY ||
+		(group.DecryptedGroup.GetAccessControl().GetAddFromInviteLink() == signalservice.AccessControl_ANY &&
 			bytes.Equal(group.DecryptedGroup.InviteLinkPassword, inviteLinkPassword))) &&
 		len(actions) == 1 &&
-		user.IsMember(actions[0].Added.UserId, group.MasterKey)
+		user.IsMember(actions[0].GetAdded().GetUserId(), group.MasterKey)
 
 }
 func IsAccessRequiredOneOf(valueToTest signalservice.AccessControl_AccessRequired, acceptableValues ...signalservice.AccessControl_AccessRequired) bool {
diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 344cef7..9a45693 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -15,6 +15,14 @@ func getKey(userId []byte) string {
 	return base64.StdEncoding.EncodeToString(userId)
 }
 
+// accessControl returns the access control of the group, setting it if it is missing.
+func accessControl(group *GroupV2) *signalservice.AccessControl {
+	if group.DecryptedGroup.AccessControl == nil {
+		group.DecryptedGroup.AccessControl = &signalservice.AccessControl{}
+	}
+	return group.DecryptedGroup.AccessControl
+}
+
 type GroupChangeApplicator struct {
 	groupValidator *GroupValidator
 }
@@ -87,6 +95,7 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 	}
 
 	mapModifyUserId := make(map[string]signalservice.Member_Role)
+	var promoted []*signalservice.DecryptedMember
 	for _, item := range actions {
 		if item == nil {
 			return entities.Status(http.StatusBadRequest, "nil ptr in request")
@@ -106,15 +115,19 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 		if !ok {
 			return entities.Status(http.StatusBadRequest, "some user ids were not in the set of members pending admin approval")
 		}
+		if item.Role == signalservice.Member_UNKNOWN {
+			return entities.Status(http.StatusBadRequest, "role is unknown")
+		}
 		mapModifyUserId[key] = item.Role
-
-		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, &signalservice.DecryptedMember{
+		promoted = append(promoted, &signalservice.DecryptedMember{
 			Uuid:             item.UserId,
 			Role:             item.Role,
 			JoinedAtRevision: group.Revision + 1,
 			ProfileKey:       v,
 		})
 	}
+	group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, promoted...)
+
 	var ship []*signalservice.DecryptedRequestingMember
 	for _, item := range group.DecryptedGroup.RequestingMembers {
 		if _, ok := mapModifyUserId[getKey(item.Uuid)]; !ok {
@@ -184,7 +197,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingAdminApproval(user *entiti
 	}
 	mapModifyUserId := make(map[string]struct{})
 	for _, item := range actions {
-		if actions == nil {
+		if item.GetAdded() == nil {
 			return entities.Status(http.StatusBadRequest, "nil ptr in request")
 		}
 		key := getKey(item.Added.UserId)
@@ -226,7 +239,11 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingAdminApproval(user *entiti
 		return entities.Status(http.StatusBadRequest, "request contains non-self user ids")
 	}
 	for _, item := range actions {
-		group.GroupContext.RequestingMembers = append(group.GroupContext.RequestingMembers, item.Added)
+		group.DecryptedGroup.RequestingMembers = append(group.DecryptedGroup.RequestingMembers, &signalservice.DecryptedRequestingMember{
+			Uuid:       item.Added.UserId,
+			ProfileKey: item.Added.ProfileKey,
+			Timestamp:  item.Added.Timestamp,
+		})
 	}
 
 	return nil
@@ -250,7 +267,7 @@ func (g *GroupChangeApplicator) ApplyModifyAddFromInviteLinkAccess(user *entitie
 		return entities.Status(http.StatusBadRequest, "  action.AddFromInviteLinkAccess invalid")
 	}
 
-	group.DecryptedGroup.AccessControl.AddFromInviteLink = action.AddFromInviteLinkAccess
+	accessControl(group).AddFromInviteLink = action.AddFromInviteLinkAccess
 
 	return nil
 }
@@ -271,7 +288,7 @@ func (g *GroupChangeApplicator) ApplyModifyMembersAccess(user *entities.GroupUse
 	if !isAdminstrator(user, groupImmut) {
 		return entities.Status(http.StatusForbidden, "isAdminstrator(user,group)")
 	}
-	group.DecryptedGroup.AccessControl.Members = modifyMembersAccess.MembersAccess
+	accessControl(group).Members = modifyMembersAccess.MembersAccess
 
 	return nil
 }
@@ -292,7 +309,7 @@ func (g *GroupChangeApplicator) ApplyModifyAttributesAccess(user *entities.Group
 	if !isAdminstrator(user, groupImmut) {
 		return entities.Status(http.StatusForbidden, "isAdminstrator(user,group)")
 	}
-	group.DecryptedGroup.AccessControl.Attributes = modifyAttributesAccess.AttributesAccess
+	accessControl(group).Attributes = modifyAttributesAccess.AttributesAccess
 
 	return nil
 }
@@ -392,14 +409,21 @@ func (g *GroupChangeApplicator) ApplyPromoteMembersPendingProfileKey(user *entit
 		profileKeyCiphertext, _ := item.ProfileKeyCiphertext()
 		mapModifyUserId[k] = profileKeyCiphertext
 	}
-	for _, item := range group.GroupContext.PendingMembers {
-		key := getKey(item.Member.UserId)
-		if value, ok := mapModifyUserId[key]; ok {
-			item.Member.Presentation = nil
-			item.Member.ProfileKey = value
-			item.Member.JoinedAtRevision = group.Revision + 1
+	var ship []*signalservice.DecryptedPendingMember
+	for _, item := range group.DecryptedGroup.PendingMembers {
+		value, ok := mapModifyUserId[getKey(item.Uuid)]
+		if !ok {
+			ship = append(ship, item)
+			continue
 		}
+		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, &signalservice.DecryptedMember{
+			Uuid:             item.Uuid,
+			Role:             item.Role,
+			JoinedAtRevision: group.Revision + 1,
+			ProfileKey:       value,
+		})
 	}
+	group.DecryptedGroup.PendingMembers = ship
 
 	return nil
 }
@@ -460,16 +484,16 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 	}
 	mapAddUserId := make(map[string]struct{})
 	for _, item := range addMembersPendingProfileKeys {
-		if item.Added.Member == nil {
+		if item.GetAdded().GetMember() == nil {
 			return entities.Status(http.StatusBadRequest, "No member")
 		}
 		if len(item.Added.Member.UserId) == 0 {
 			return entities.Status(http.StatusBadRequest, "No user id")
 		}
-		if len(item.Added.Member.ProfileKey) == 0 {
+		if len(item.Added.Member.ProfileKey) != 0 {
 			return entities.Status(http.StatusBadRequest, "Profile key present for invitation")
 		}
-		if len(item.Added.Member.Presentation) == 0 {
+		if len(item.Added.Member.Presentation) != 0 {
 			return entities.Status(http.StatusBadRequest, "Presentation not empty for invitation")
 		}
 		if item.Added.Member.Role == signalservice.Member_UNKNOWN {
@@ -503,7 +527,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 		obj := &signalservice.DecryptedPendingMember{
 			Role:        item.Added.Member.Role,
 			Uuid:        item.Added.Member.UserId,
-			AddedByUuid: GetSourceMember(user, group).Uuid, //todo
+			AddedByUuid: GetSourceMember(user, groupImmut).Uuid, //todo
 			Timestamp:   uint64(utils.CurrentTimeMillis()),
 		}
 		group.DecryptedGroup.PendingMembers = append(group.DecryptedGroup.PendingMembers, obj)
@@ -528,6 +552,10 @@ func (g *GroupChangeApplicator) ApplyModifyMemberProfileKeys(user *entities.Grou
 		presentations = append(presentations, presentation)
 	}
 	//去从
+	mapUserId := make(map[string]struct{})
+	for _, member := range group.DecryptedGroup.Members {
+		mapUserId[getKey(member.Uuid)] = struct{}{}
+	}
 	mapModifyUserId := make(map[string][]byte)
 	for _, item := range presentations {
 		uuid_cipher, _ := item.UUIDCiphertext()
@@ -535,6 +563,9 @@ func (g *GroupChangeApplicator) ApplyModifyMemberProfileKeys(user *entities.Grou
 		if _, ok := mapModifyUserId[k]; ok {
 			return errors.New("ApplyModifyMemberProfileKeys:1-> duplicates userID")
 		}
+		if _, ok := mapUserId[k]; !ok {
+			return errors.New("ApplyModifyMemberProfileKeys:2-> not a member")
+		}
 		profileKeyCiphertext, _ := item.ProfileKeyCiphertext()
 		mapModifyUserId[k] = profileKeyCiphertext
 	}
@@ -663,6 +694,9 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 
 	mapModifyUserId := make(map[string]struct{})
 	for _, action := range addMembers {
+		if action.GetAdded() == nil {
+			return entities.Status(http.StatusBadRequest, "addMember member is missing")
+		}
 		key := getKey(action.Added.UserId)
 		if _, ok := mapModifyUserId[key]; ok {
 			return entities.Status(http.StatusBadRequest, "BadRequset Duplicates userId")
@@ -699,10 +733,13 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 		if action.Added.Role == signalservice.Member_UNKNOWN {
 			return entities.Status(http.StatusBadRequest, "addMember role is unknown")
 		}
+	}
+
+	for _, action := range addMembers {
 		member := &signalservice.DecryptedMember{
 			Role:             action.Added.Role,
 			JoinedAtRevision: group.Revision + 1,
-			Uuid:             userId,
+			Uuid:             action.Added.UserId,
 			ProfileKey:       action.Added.ProfileKey,
 		}
 
-- 
2.43.0


From 38f83069c480b863693b7ce03a03dbe998a5835f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 42/56] fix: group states are checked against the description
 limit and may lack rules

---
 groupsv2/groupValidator.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 52fa7d8..84bfad2 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -29,7 +29,7 @@ func NewGroupValidator(profileOp *zkgroup.ServerZkProfileOperations, config *con
 		profileOperations:              profileOp,
 		maxGroupSize:                   config.Group.MaxGroupSize,
 		maxGroupTitleLengthBytes:       config.Group.MaxGroupTitleLengthBytes,
-		maxGroupDescriptionLengthBytes: config.Group.MaxGroupTitleLengthBytes,
+		maxGroupDescriptionLengthBytes: config.Group.MaxGroupDescriptionLengthBytes,
 	}
 }
 
@@ -67,15 +67,15 @@ func (g *GroupValidator) ValidateAccessControl(group *signalservice.DecryptedGro
 
 	accessControl := group.AccessControl
 	list := []signalservice.AccessControl_AccessRequired{signalservice.AccessControl_MEMBER, signalservice.AccessControl_UNKNOWN, signalservice.AccessControl_ADMINISTRATOR}
-	if !IsAccessRequiredOneOf(accessControl.Attributes, list...) {
+	if !IsAccessRequiredOneOf(accessControl.GetAttributes(), list...) {
 		return errors.New("attribute access invalid")
 	}
 
-	if !IsAccessRequiredOneOf(accessControl.Members, list...) {
+	if !IsAccessRequiredOneOf(accessControl.GetMembers(), list...) {
 		return errors.New("attribute access invalid")
 	}
 
-	if !IsAccessRequiredOneOf(accessControl.AddFromInviteLink, append(list, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)...) {
+	if !IsAccessRequiredOneOf(accessControl.GetAddFromInviteLink(), append(list, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)...) {
 		return errors.New("add from invite link access invalid")
 	}
 
@@ -321,8 +321,8 @@ func (g *GroupValidator) ValidateAddMember(user *entities.GroupUser, inviteLinkP
 		action.Added = newAdd
 		if !IsMember(user, group) &&
 			user.IsMember(newAdd.UserId, groupPublicKey) &&
-			group.DecryptedGroup.AccessControl.Members != signalservice.AccessControl_ANY &&
-			group.DecryptedGroup.AccessControl.AddFromInviteLink == signalservice.AccessControl_ANY &&
+			group.DecryptedGroup.GetAccessControl().GetMembers() != signalservice.AccessControl_ANY &&
+			group.DecryptedGroup.GetAccessControl().GetAddFromInviteLink() == signalservice.AccessControl_ANY &&
 			bytes.Equal(group.DecryptedGroup.InviteLinkPassword, inviteLinkPassword) {
 			action.JoinFromInviteLink = true
 		}
-- 
2.43.0


From 835d6c5c1632c344b9e6f8303c0bc5e9e03d068d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 43/56] fix: messages decrypted with the session of a phone
 number are delivered

---
 textsecure.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 293d8e3..28bc5ee 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -603,11 +603,11 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 			// try the legacy way
 			log.Infof("[textsecure] Incoming WhisperMessage try legacy decrypting")
 
-			recid, err := recID(env.GetSourceUuid())
-			if err != nil {
-				recid = env.GetSourceUuid()
+			legacyID, idErr := recID(env.GetSourceUuid())
+			if idErr != nil {
+				legacyID = env.GetSourceUuid()
 			}
-			sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
+			sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, legacyID, env.GetSourceDevice())
 			b, err = sc.SessionDecryptWhisperMessage(wm)
 			if _, ok := err.(axolotl.DuplicateMessageError); ok {
 				log.Infof("[textsecure] Incoming WhisperMessage %s. Ignoring.\n", err)
-- 
2.43.0


From cfc2f0f3ed1355ae0b860a6ac4b8841d2a0c2f4f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:03:35 +0000
Subject: [PATCH 44/56] fix: a client counts as registered only once its
 prekeys are registered

---
 prekeys.go | 19 ++++++++++---------
 server.go  |  2 +-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index d3b2a49..2d46078 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -79,6 +79,9 @@ func generatePreKey(id uint32) error {
 
 var signedKey *axolotl.SignedPreKeyRecord
 
+// lastResortKey is stored, which makes the store valid, once it is registered
+var lastResortKey *axolotl.PreKeyRecord
+
 var preKeyBatchSize = 100
 
 // validPreKeyID wraps a number into the valid prekey ids, which are neither 0
@@ -103,10 +106,8 @@ func generatePreKeys() error {
 			return err
 		}
 	}
-	err := generatePreKey(lastResortPreKeyID)
-	if err != nil {
-		return err
-	}
+	lastResortKey = axolotl.NewPreKeyRecord(lastResortPreKeyID, axolotl.NewECKeyPair())
+	var err error
 	signedKey, err = generateSignedPreKey()
 	return err
 }
@@ -135,12 +136,12 @@ func generatePreKeyState() error {
 		return err
 	}
 	preKeys = &preKeyState{}
-	npkr := len(preKeyRecords)
-	preKeys.PreKeys = make([]*preKeyEntity, npkr-1)
-	for i := range preKeys.PreKeys {
-		preKeys.PreKeys[i] = generatepreKeyEntity(preKeyRecords[i])
+	for _, record := range preKeyRecords {
+		if record.Pkrs.Id != lastResortPreKeyID {
+			preKeys.PreKeys = append(preKeys.PreKeys, generatepreKeyEntity(record))
+		}
 	}
-	preKeys.LastResortKey = generatepreKeyEntity(preKeyRecords[npkr-1])
+	preKeys.LastResortKey = generatepreKeyEntity(lastResortKey)
 	preKeys.IdentityKey = helpers.Base64EncWithoutPadding(identityKey.PublicKey.Serialize())
 	preKeys.SignedPreKey = generateSignedPreKeyEntity(signedKey)
 	return nil
diff --git a/server.go b/server.go
index 285a2ca..a7cd4c2 100644
--- a/server.go
+++ b/server.go
@@ -576,7 +576,7 @@ func registerPreKeys() error {
 	if resp.IsError() {
 		return resp
 	}
-	return nil
+	return textSecureStore.StorePreKey(lastResortPreKeyID, lastResortKey)
 }
 
 // GET /v2/keys/{number}/{device_id}?relay={relay}
-- 
2.43.0


From 3cd28d845fd9fe068aa861bce03c8ac7866bf986 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 45/56] fix: registration needs settings and an account, and
 the backend learns which

---
 crayfish/register.go | 5 +++++
 textsecure.go        | 7 ++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crayfish/register.go b/crayfish/register.go
index 131c940..4094c44 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -2,6 +2,7 @@ package crayfish
 
 import (
 	"encoding/json"
+	"errors"
 	"strconv"
 
 	uuid "github.com/satori/go.uuid"
@@ -85,7 +86,11 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 	if err != nil {
 		return nil, err
 	}
+	if uuidString == uuid.Nil {
+		return nil, errors.New("[textsecure-crayfish-ws] registration without an account")
+	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish uuid %s", uuidString.String())
+	c.LocalUUID = uuidString.String()
 	return &CrayfishRegistration{
 		UUID: uuidString.String(),
 		Tel:  phoneNumber,
diff --git a/textsecure.go b/textsecure.go
index 28bc5ee..f2abd90 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -265,10 +265,10 @@ func Setup(c *Client) error {
 	client = c
 
 	config.ConfigFile, err = loadConfig()
-	go crayfish.Run()
 	if err != nil {
 		return err
 	}
+	go crayfish.Run()
 
 	setupLogging()
 	err = setupStore()
@@ -397,11 +397,12 @@ func RegisterWithCrayfish(regisrationInfo *registration.RegistrationInfo, phoneN
 
 func registerDevice() error {
 	log.Debugln("[texsecure] register Device")
-	var err error
-	config.ConfigFile, err = loadConfig()
+	// the backend uses the settings in the meantime
+	cfg, err := loadConfig()
 	if err != nil {
 		return err
 	}
+	config.ConfigFile = cfg
 	rootCa.SetupCA(config.ConfigFile.RootCA)
 
 	log.Debugln("[textsecure] Crayfish registration starting")
-- 
2.43.0


From 6c5a102a1e59b2bd382d676df2c8bbd4452d3820 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 46/56] fix: restarts keep the profile key, and credentials are
 used only with theirs

---
 textsecure.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index f2abd90..33ec32b 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -320,28 +320,24 @@ func Setup(c *Client) error {
 	transport.SetupStorageTransporter(STORAGE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupServiceTransporter(SIGNAL_SERVICE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	identityKey, err = textSecureStore.GetIdentityKeyPair()
+	if err != nil {
+		return err
+	}
 	// check if we have a uuid and if not get it
 	// config.ConfigFile = checkUUID(config.ConfigFile)
-	profileChanged := false
 	// check for a profileKey
 	if len(config.ConfigFile.ProfileKey) == 0 {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
+		// a credential is valid for one profile key only
+		config.ConfigFile.ProfileKeyCredential = nil
 		saveConfig(config.ConfigFile)
-		profileChanged = true
 	}
 	// check if a username is set
 	if config.ConfigFile.Name == "" {
 		config.ConfigFile.Name = client.GetUsername()
-		profileChanged = true
 		saveConfig(config.ConfigFile)
 	}
-	if profileChanged {
-		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
-	} else {
-		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
-		saveConfig(config.ConfigFile)
-		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
-	}
+	profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
 
 	// check for unidentified access
 	if len(config.ConfigFile.Certificate) == 0 {
@@ -456,6 +452,9 @@ func registerDevice() error {
 		return err
 	}
 	config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
+	// those of an earlier registration are not valid for this one
+	config.ConfigFile.ProfileKeyCredential = nil
+	config.ConfigFile.Certificate = nil
 	// config.ConfigFile = checkUUID(config.ConfigFile)
 	saveConfig(config.ConfigFile)
 
-- 
2.43.0


From 7913f5da8f9bb90632d089b8c06cbb1a55d64d32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:37:25 +0000
Subject: [PATCH 47/56] fix: the service learns the access key that contacts
 derive, and unsaved capabilities are reported

---
 server.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/server.go b/server.go
index a7cd4c2..41b1244 100644
--- a/server.go
+++ b/server.go
@@ -214,8 +214,7 @@ type RegistrationLockFailure struct {
 // verifyCode verificates the account with signal server
 func verifyCode(code string, pin *string, credentials *transport.AuthCredentials) (*transport.AuthCredentials, error) {
 	code = strings.Replace(code, "-", "", -1)
-	key := identityKey.PrivateKey.Key()[:]
-	unidentifiedAccessKey, err := unidentifiedAccess.DeriveAccessKeyFrom(key)
+	unidentifiedAccessKey, err := unidentifiedAccess.DeriveAccessKeyFrom(config.ConfigFile.ProfileKey)
 	if err != nil {
 		log.Debugln("[textsecure] verifyCode", err)
 	}
@@ -309,8 +308,8 @@ func RegisterWithUPS(token string) error {
 
 // SetAccountCapabilities lets the client decide when it's ready for new functions to support for example groupsv2
 func SetAccountCapabilities(capabilities config.AccountCapabilities) error {
-	key := identityKey.PrivateKey.Key()[:]
-	unidentifiedAccessKey, err := unidentifiedAccess.DeriveAccessKeyFrom(key)
+	// contacts derive the access key from our profile key
+	unidentifiedAccessKey, err := unidentifiedAccess.DeriveAccessKeyFrom(config.ConfigFile.ProfileKey)
 	if err != nil {
 		log.Errorln("[textsecure] SetAccountCapabilities ceating unidentifiedAccessKey: ", err)
 		return err
@@ -356,8 +355,7 @@ func setAccountAttributes(attributes *UpdateAccountAttributes) error {
 		return err
 	}
 	config.ConfigFile.AccountCapabilities = attributes.Capabilities
-	saveConfig(config.ConfigFile)
-	return nil
+	return saveConfig(config.ConfigFile)
 }
 
 type whoAmIResponse struct {
-- 
2.43.0


From 4e460aa3b9ed1647fbcc2998695952a8802ad286 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:37:25 +0000
Subject: [PATCH 48/56] fix: a verification code that failed is not used for
 the next linked device

---
 link.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/link.go b/link.go
index c39b679..4f14078 100644
--- a/link.go
+++ b/link.go
@@ -23,6 +23,8 @@ func AddNewLinkedDevice(uuid string, publicKey string) error {
 
 	err := addNewDevice(uuid, publicKey, code2)
 	if err != nil {
+		// the next attempt asks for a new code
+		code2 = ""
 		log.Errorf(err.Error())
 		return err
 	}
-- 
2.43.0


From d2a5ae447380961f6b5d02eb582fbe6a4c766651 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:02:18 +0000
Subject: [PATCH 49/56] fix: credentials that cannot be stored are reported

Setup went on, registered the account and counted as registered although
the registration id, the password or the signaling key was not stored, so
the next start had none or an old one.
---
 store.go      | 16 ++++++++--------
 textsecure.go | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/store.go b/store.go
index 613e371..780a2b2 100644
--- a/store.go
+++ b/store.go
@@ -120,9 +120,9 @@ func (s *store) readNumFromFile(path string) (uint32, error) {
 	return uint32(num), nil
 }
 
-func (s *store) writeNumToFile(path string, num uint32) {
+func (s *store) writeNumToFile(path string, num uint32) error {
 	b := []byte(strconv.Itoa(int(num)))
-	s.writeFile(path, b)
+	return s.writeFile(path, b)
 }
 
 func (s *store) genKeys(password string, salt []byte, count int) {
@@ -209,9 +209,9 @@ func (s *store) GetLocalRegistrationID() (uint32, error) {
 	return s.readNumFromFile(regidfile)
 }
 
-func (s *store) SetLocalRegistrationID(id uint32) {
+func (s *store) SetLocalRegistrationID(id uint32) error {
 	regidfile := filepath.Join(s.identityDir, "regid")
-	s.writeNumToFile(regidfile, id)
+	return s.writeNumToFile(regidfile, id)
 }
 
 func (s *store) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error) {
@@ -398,9 +398,9 @@ func (s *store) RemoveSignedPreKey(id uint32) {
 }
 
 // HTTP API store
-func (s *store) storeHTTPPassword(password string) {
+func (s *store) storeHTTPPassword(password string) error {
 	passFile := filepath.Join(s.identityDir, "http_password")
-	s.writeFile(passFile, []byte(password))
+	return s.writeFile(passFile, []byte(password))
 }
 
 func (s *store) loadHTTPPassword() (string, error) {
@@ -412,9 +412,9 @@ func (s *store) loadHTTPPassword() (string, error) {
 	return string(b), nil
 }
 
-func (s *store) storeHTTPSignalingKey(key []byte) {
+func (s *store) storeHTTPSignalingKey(key []byte) error {
 	keyFile := filepath.Join(s.identityDir, "http_signaling_key")
-	s.writeFile(keyFile, key)
+	return s.writeFile(keyFile, key)
 }
 
 func (s *store) loadHTTPSignalingKey() ([]byte, error) {
diff --git a/textsecure.go b/textsecure.go
index 33ec32b..194211d 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -280,13 +280,22 @@ func Setup(c *Client) error {
 		registration.Registration = registration.RegistrationInfo{
 			RegistrationID: generateRegistrationID(),
 		}
-		textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		err = textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.Password = generatePassword()
-		textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		err = textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.SignalingKey = generateSignalingKey()
-		textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		err = textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		if err != nil {
+			return err
+		}
 
 		identityKey = axolotl.GenerateIdentityKeyPair()
 		err := textSecureStore.SetIdentityKeyPair(identityKey)
-- 
2.43.0


From a0deb9eb42bf84306c435184d3951039c63fc10b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 50/56] fix: the profile key is saved with the account it is
 for

registerDevice saved the account first and reset the profile key, its
credential and the sender certificate only after the keys were published,
ignoring errors. A client that stopped in between kept those of the earlier
registration. Setup used a new profile key also when it was not saved, so
that the next start had another one.
---
 textsecure.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 194211d..92cecc6 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -339,7 +339,10 @@ func Setup(c *Client) error {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
 		// a credential is valid for one profile key only
 		config.ConfigFile.ProfileKeyCredential = nil
-		saveConfig(config.ConfigFile)
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 	}
 	// check if a username is set
 	if config.ConfigFile.Name == "" {
@@ -430,6 +433,10 @@ func registerDevice() error {
 	config.ConfigFile.Tel = crayfishRegistration.Tel
 	config.ConfigFile.UUID = crayfishRegistration.UUID
 	config.ConfigFile.Name = name
+	config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
+	// those of an earlier registration are not valid for this one
+	config.ConfigFile.ProfileKeyCredential = nil
+	config.ConfigFile.Certificate = nil
 	config.ConfigFile.AccountCapabilities = config.AccountCapabilities{
 		// Uuid:              false,
 		Gv2:               true,
@@ -460,13 +467,6 @@ func registerDevice() error {
 	if err != nil {
 		return err
 	}
-	config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
-	// those of an earlier registration are not valid for this one
-	config.ConfigFile.ProfileKeyCredential = nil
-	config.ConfigFile.Certificate = nil
-	// config.ConfigFile = checkUUID(config.ConfigFile)
-	saveConfig(config.ConfigFile)
-
 	client.RegistrationDone()
 	if client.RegistrationDone != nil {
 		log.Infoln("[textsecure] RegistrationDone")
-- 
2.43.0


From 8a6a3a6d98dde5485dbce51a5f26fe8de4b0ac01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 51/56] fix: group members who are not registered are not
 addressed by the nil UUID

---
 groups.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groups.go b/groups.go
index b14aab4..557f544 100644
--- a/groups.go
+++ b/groups.go
@@ -283,7 +283,7 @@ func sendGroupHelper(hexid string, msg string, attachmentPointer *attachmentPoin
 	for _, m := range g.Members {
 		if m != config.ConfigFile.Tel {
 			c := GetContactForTel(m)
-			if c != nil && c.UUID != "" && c.UUID != "0" && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
+			if c != nil && c.UUID != "" && c.UUID != "0" && c.UUID != "00000000-0000-0000-0000-000000000000" && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
 				m = c.UUID
 			}
 			omsg := &outgoingMessage{
-- 
2.43.0


From 75148d1af23c89ae0019d966f4bca78e27353658 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 52/56] fix: receiving does not hang when acknowledgements
 can't be sent

---
 websocket.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/websocket.go b/websocket.go
index a311c28..6029c4d 100644
--- a/websocket.go
+++ b/websocket.go
@@ -38,6 +38,9 @@ type Conn struct {
 
 	// Buffered channel of outbound messages
 	send chan []byte
+
+	// closed when no more messages are sent
+	done chan struct{}
 }
 
 var wsconn *Conn
@@ -94,8 +97,12 @@ func (c *Conn) sendAck(id uint64) error {
 		return err
 	}
 
-	c.send <- b
-	return nil
+	select {
+	case c.send <- b:
+		return nil
+	case <-c.done:
+		return errors.New("[textsecure] no more messages are sent")
+	}
 }
 
 // write writes a message with the given message type and payload.
@@ -111,6 +118,7 @@ func (c *Conn) writeWorker() {
 		log.Debugf("[textsecure] Closing writeWorker")
 		ticker.Stop()
 		c.ws.Close()
+		close(c.done)
 	}()
 	for {
 		select {
@@ -144,7 +152,7 @@ func (c *Conn) writeWorker() {
 func StartListening() error {
 	var err error
 
-	wsconn = &Conn{send: make(chan []byte, 256)}
+	wsconn = &Conn{send: make(chan []byte, 256), done: make(chan struct{})}
 	err = wsconn.connect(config.ConfigFile.Server+websocketPath, config.ConfigFile.UUID, registration.Registration.Password)
 	if err != nil {
 		log.Errorf(err.Error())
-- 
2.43.0


From 9a73f060963b1f487421ce72f37d3288a506675c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:43:37 +0000
Subject: [PATCH 53/56] fix: starting a session does not lose concurrent
 changes of it

---
 axolotl/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index ebd9469..56ca6d0 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -443,6 +443,9 @@ func (err InvalidSignatureError) Error() string {
 
 // BuildSenderSession creates a new session from a PreKeyBundle
 func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
+	sb.sessionStore.Lock()
+	defer sb.sessionStore.Unlock()
+
 	theirIdentityKey := pkb.IdentityKey
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
-- 
2.43.0


From d22c2193ee498389d60afd8b941f4fa5dc06339d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:51:26 +0000
Subject: [PATCH 54/56] fix: a new session is not used when its identity could
 not be recorded

---
 axolotl/session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 56ca6d0..d1d20bb 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -495,12 +495,12 @@ func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
 	sr.sessionState.setRemoteRegistrationID(pkb.RegistrationID)
 	sr.sessionState.setAliceBaseKey(ourBaseKey.PublicKey.Serialize())
 
-	err = sb.sessionStore.StoreSession(sb.recipientID, sb.deviceID, sr)
+	// Record the identity first: a session must not come into use without it.
+	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
 	if err != nil {
 		return err
 	}
-	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
-	return err
+	return sb.sessionStore.StoreSession(sb.recipientID, sb.deviceID, sr)
 }
 
 // SessionCipher represents a peer and its persistent stored session.
-- 
2.43.0


From 01605342c03b36d9267d2f67dc21b25f355ab40a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:50:03 +0000
Subject: [PATCH 55/56] fix: an id with path elements is no id of an avatar

The id may come from the network; the avatar was saved to, and read from,
any file it pointed to.
---
 profiles/avatars.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 9299660..b951f43 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	siv "github.com/Blackoverflow/gcmsiv"
 	"github.com/signal-golang/textsecure/config"
@@ -51,9 +52,18 @@ func GetLocalAvatarPath(uuid string) (string, error) {
 			return "", err
 		}
 	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
-	return avatarFile, nil
+	return avatarFilePath(uuid)
 }
+
+// avatarFilePath returns the file of an avatar. The id may come from the
+// network, so that it must name a file in the directory of the avatars.
+func avatarFilePath(uuid string) (string, error) {
+	if uuid == "." || uuid == ".." || strings.ContainsAny(uuid, `/\`+"\x00") {
+		return "", fmt.Errorf("%q is not an id of an avatar", uuid)
+	}
+	return filepath.Join(avatarsPath, uuid), nil
+}
+
 func GetLocalAvatar(uuid string) (io.ReadCloser, error) {
 	log.Debugln("[textsecure] get local avatar for ", uuid)
 	if uuid == "" {
@@ -65,7 +75,10 @@ func GetLocalAvatar(uuid string) (io.ReadCloser, error) {
 			return nil, err
 		}
 	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
+	avatarFile, err := avatarFilePath(uuid)
+	if err != nil {
+		return nil, err
+	}
 	f, err := os.Open(avatarFile)
 	if err != nil {
 		return nil, err
@@ -96,7 +109,10 @@ func saveLocalAvatar(uuid string, avatar []byte) error {
 			return err
 		}
 	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
+	avatarFile, err := avatarFilePath(uuid)
+	if err != nil {
+		return err
+	}
 	log.Debugln("[textsecure] save avatar to ", avatarFile)
 	f, err := os.Create(avatarFile)
 	if err != nil {
-- 
2.43.0


From ad94230cab9538d43e22c98d559840a81ed9f20e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:50:04 +0000
Subject: [PATCH 56/56] fix: an interrupted save of an avatar keeps the earlier
 one

---
 profiles/avatars.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index b951f43..d9250ef 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -10,6 +10,7 @@ import (
 	siv "github.com/Blackoverflow/gcmsiv"
 	"github.com/signal-golang/textsecure/config"
 	transport "github.com/signal-golang/textsecure/transport"
+	"github.com/signal-golang/textsecure/utils"
 
 	"crypto/aes"
 	"crypto/cipher"
@@ -114,12 +115,8 @@ func saveLocalAvatar(uuid string, avatar []byte) error {
 		return err
 	}
 	log.Debugln("[textsecure] save avatar to ", avatarFile)
-	f, err := os.Create(avatarFile)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-	_, err = f.Write(avatar)
+	// an interrupted save leaves the previous avatar intact
+	err = utils.WriteFile(avatarFile, avatar)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

