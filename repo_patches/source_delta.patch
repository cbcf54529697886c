From d86051f9985884ebad1bcefa229f300a7346e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 01/68] fix: report failure to build a pre-key message when
 encrypting

SessionEncryptMessage returned a nil message with a nil error.
---
 axolotl/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3283110..9eee25f 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -556,7 +556,7 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 			items.preKeyID, uint32(items.signedPreKeyID), items.baseKey,
 			ss.getLocalIdentityPublic(), wm)
 		if err != nil {
-			return nil, 0, nil
+			return nil, 0, err
 		}
 		msg = pkwm.serialize()
 		msgType = int32(signalservice.Envelope_PREKEY_BUNDLE)
-- 
2.43.0


From b62daa8568582f4caa549155fed8b7deab903e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 02/68] fix: hold the session lock while building a sender
 session

BuildSenderSession loads, changes and stores a session; a message received
meanwhile had its session update overwritten.
---
 axolotl/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index 9eee25f..95166cd 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -441,6 +441,9 @@ func (err InvalidSignatureError) Error() string {
 
 // BuildSenderSession creates a new session from a PreKeyBundle
 func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
+	sb.sessionStore.Lock()
+	defer sb.sessionStore.Unlock()
+
 	theirIdentityKey := pkb.IdentityKey
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
-- 
2.43.0


From 5aec5bd89d0cff6ed5e49721c2565be9c126ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 03/68] fix: reject a pre-key bundle without a signed pre-key

Building a session from one dereferenced a nil key.
---
 axolotl/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 95166cd..410534d 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -448,7 +448,7 @@ func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
 	}
-	if pkb.SignedPreKeyPublic != nil &&
+	if pkb.SignedPreKeyPublic == nil ||
 		!curve25519sign.Verify(*theirIdentityKey.Key(), pkb.SignedPreKeyPublic.Serialize(), &pkb.SignedPreKeySignature) {
 		return InvalidSignatureError{pkb}
 	}
-- 
2.43.0


From 7787d176ef426b0a5b0a3be4c4484029bbca3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 04/68] fix: remove a one-time pre-key only after its session
 is stored

If storing failed the pre-key was gone and the message could never be
decrypted again. No pre-key (id 0) removes none.
---
 axolotl/session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 410534d..0e4b607 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -693,13 +693,13 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
-	if pkid != 0xFFFFFF {
-		sc.PreKeyStore.RemovePreKey(pkid)
-	}
 	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
 	if err != nil {
 		return nil, err
 	}
+	if pkid != 0 && pkid != 0xFFFFFF {
+		sc.PreKeyStore.RemovePreKey(pkid)
+	}
 	return plaintext, nil
 }
 
-- 
2.43.0


From af0e214443ffabc94a06fbe3ea3364eff38c13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 05/68] fix: try a message on copies of the session states

A message that failed on a session state left that state changed (new
ratchet keys, skipped keys), and the change was stored when another state
accepted the message; the accepting state also stayed archived.
---
 axolotl/session.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 0e4b607..702a28f 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -35,6 +35,11 @@ func (ss *sessionState) setSessionVersion(version uint32) {
 	ss.SS.SessionVersion = version
 }
 
+// clone returns a copy on which a message can be tried without changing ss.
+func (ss *sessionState) clone() *sessionState {
+	return newSessionState(proto.Clone(ss.SS).(*protobuf.SessionStructure))
+}
+
 func (ss *sessionState) getSessionVersion() uint32 {
 	version := ss.SS.GetSessionVersion()
 	if version == 0 {
@@ -610,14 +615,18 @@ func (err InvalidMessageError) Error() string {
 }
 
 func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage) ([]byte, error) {
-	b, err := sr.sessionState.decrypt(ciphertext)
+	ss := sr.sessionState.clone()
+	b, err := ss.decrypt(ciphertext)
 	if err == nil {
+		sr.sessionState = ss
 		return b, nil
 	}
 
-	for _, ss := range sr.PreviousStates {
+	for i, previous := range sr.PreviousStates {
+		ss := previous.clone()
 		b, err := ss.decrypt(ciphertext)
 		if err == nil {
+			sr.PreviousStates = append(sr.PreviousStates[:i], sr.PreviousStates[i+1:]...)
 			sr.promoteState(ss)
 			return b, nil
 		}
-- 
2.43.0


From 6182f2d916c43094bf1c74833468c0cbfb11858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 06/68] fix: do not treat an unreadable identity record as
 absent

Any failure to stat the record (permissions, I/O) made every identity key
trusted on first use; only a missing record is a first use.
---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index b87b88b..c06b1cf 100644
--- a/store.go
+++ b/store.go
@@ -343,7 +343,7 @@ func (s *store) StoreSignedPreKey(id uint32, record *axolotl.SignedPreKeyRecord)
 
 func exists(path string) bool {
 	_, err := os.Stat(path)
-	return err == nil
+	return !os.IsNotExist(err)
 }
 
 func (s *store) valid() bool {
-- 
2.43.0


From 3f89e50b1f8201bea04f480482f81548827ad6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 07/68] fix: check the key lengths of received session messages

An empty pre-key message, or a ratchet, base or identity key of another
length, made the parsers panic.
---
 axolotl/messages.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/axolotl/messages.go b/axolotl/messages.go
index 32317d6..240ba81 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -26,6 +26,9 @@ const macLength = 8
 
 const currentVersion = 3
 
+// serializedKeyLength is the length of a public key in a message, with its type byte.
+const serializedKeyLength = 33
+
 func highBitsToInt(b byte) byte {
 	return (b & 0xF0) >> 4
 }
@@ -55,7 +58,7 @@ func LoadWhisperMessage(serialized []byte) (*WhisperMessage, error) {
 		return nil, err
 	}
 
-	if pwm.GetCiphertext() == nil || pwm.GetRatchetKey() == nil {
+	if pwm.GetCiphertext() == nil || len(pwm.GetRatchetKey()) != serializedKeyLength {
 		return nil, ErrIncompleteWhisperMessage
 	}
 
@@ -146,6 +149,10 @@ var ErrIncompletePreKeyWhisperMessage = errors.New("incomplete PreKeyWhisperMess
 
 // LoadPreKeyWhisperMessage creates a PreKeyWhisperMessage from serialized bytes.
 func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error) {
+	if len(serialized) == 0 {
+		return nil, ErrIncompletePreKeyWhisperMessage
+	}
+
 	version := highBitsToInt(serialized[0])
 
 	if version != currentVersion {
@@ -158,8 +165,8 @@ func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error)
 		return nil, err
 	}
 
-	if ppkwm.GetBaseKey() == nil ||
-		ppkwm.GetIdentityKey() == nil ||
+	if len(ppkwm.GetBaseKey()) != serializedKeyLength ||
+		len(ppkwm.GetIdentityKey()) != serializedKeyLength ||
 		ppkwm.GetMessage() == nil ||
 		ppkwm.GetSignedPreKeyId() == 0 {
 		return nil, ErrIncompletePreKeyWhisperMessage
-- 
2.43.0


From bf3473a4ba44d983ec268c36beee6b8a98b9ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 08/68] fix: do not panic when decrypting a ciphertext that is
 too short

A ciphertext without a block for the IV, or one whose padding is longer
than its plaintext, was sliced out of range.
---
 axolotl/crypto.go | 4 ++--
 crypto.go         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/axolotl/crypto.go b/axolotl/crypto.go
index 6aaaa42..262df12 100644
--- a/axolotl/crypto.go
+++ b/axolotl/crypto.go
@@ -28,7 +28,7 @@ func Decrypt(key, ciphertext []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	if len(ciphertext)%aes.BlockSize != 0 {
+	if len(ciphertext) < aes.BlockSize || len(ciphertext)%aes.BlockSize != 0 {
 		return nil, errors.New("not multiple of AES blocksize")
 	}
 
@@ -36,7 +36,7 @@ func Decrypt(key, ciphertext []byte) ([]byte, error) {
 	mode := cipher.NewCBCDecrypter(block, iv)
 	mode.CryptBlocks(ciphertext, ciphertext)
 	pad := ciphertext[len(ciphertext)-1]
-	if pad > aes.BlockSize {
+	if pad > aes.BlockSize || int(pad) > len(ciphertext)-aes.BlockSize {
 		return nil, fmt.Errorf("pad value (%d) larger than AES blocksize (%d)", pad, aes.BlockSize)
 	}
 	return ciphertext[aes.BlockSize : len(ciphertext)-int(pad)], nil
diff --git a/crypto.go b/crypto.go
index fd29e93..ddbd198 100644
--- a/crypto.go
+++ b/crypto.go
@@ -88,7 +88,7 @@ func aesDecrypt(key, ciphertext []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	if len(ciphertext)%aes.BlockSize != 0 {
+	if len(ciphertext) < aes.BlockSize || len(ciphertext)%aes.BlockSize != 0 {
 		length := len(ciphertext) % aes.BlockSize
 		log.Debugln("[textsecure] aesDecrypt ciphertext not multiple of AES blocksize", length)
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
@@ -98,7 +98,7 @@ func aesDecrypt(key, ciphertext []byte) ([]byte, error) {
 	mode := cipher.NewCBCDecrypter(block, iv)
 	mode.CryptBlocks(ciphertext, ciphertext)
 	pad := ciphertext[len(ciphertext)-1]
-	if pad > aes.BlockSize {
+	if pad > aes.BlockSize || int(pad) > len(ciphertext)-aes.BlockSize {
 		return nil, fmt.Errorf("pad value (%d) larger than AES blocksize (%d)", pad, aes.BlockSize)
 	}
 	return ciphertext[aes.BlockSize : len(ciphertext)-int(pad)], nil
@@ -110,7 +110,7 @@ func aesCtrNoPaddingDecrypt(key, ciphertext []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	if len(ciphertext)%aes.BlockSize != 0 {
+	if len(ciphertext) < aes.BlockSize || len(ciphertext)%aes.BlockSize != 0 {
 		length := len(ciphertext) % aes.BlockSize
 		log.Debugln("[textsecure] aesDecrypt ciphertext not multiple of AES blocksize", length)
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
-- 
2.43.0


From fa58e1546862fe437575fa69d656e47e43ff8868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 09/68] fix: reject attachments and avatars shorter than their
 MAC

A download or a key shorter than the code expects was sliced out of range.
---
 attachments.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/attachments.go b/attachments.go
index 6f098df..ccc02b6 100644
--- a/attachments.go
+++ b/attachments.go
@@ -112,6 +112,9 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 	}
 
 	l := len(b) - 32
+	if l < 0 || len(a.Key) < 32 {
+		return nil, ErrInvalidMACForAttachment
+	}
 	if !verifyMAC(a.Key[32:], b[:l], b[l:]) {
 		return nil, ErrInvalidMACForAttachment
 	}
@@ -144,6 +147,9 @@ func handleProfileAvatar(profileAvatar *signalservice.ContactDetails_Avatar, key
 	}
 
 	l := len(b) - 16
+	if l < 0 || len(key) < 16 {
+		return nil, ErrInvalidMACForAttachment
+	}
 	if !verifyMAC(key[16:], b[:l], b[l:]) {
 		return nil, ErrInvalidMACForAttachment
 	}
-- 
2.43.0


From 633ff9c579523007ce8b1ab218e0e92d0b6c3401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 10/68] fix: reject upload locations without a path

The location the CDN returned was sliced without checking its length.
---
 attachments.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/attachments.go b/attachments.go
index ccc02b6..31f5e70 100644
--- a/attachments.go
+++ b/attachments.go
@@ -195,12 +195,15 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	return &a, nil
 }
 
-func relativePath(url string) string {
+func relativePath(url string) (string, error) {
 	parts := strings.Split(url, "/")
-	return "/" + strings.Join(parts[3:], "/")
+	if len(parts) < 4 {
+		return "", fmt.Errorf("invalid upload location %q", url)
+	}
+	return "/" + strings.Join(parts[3:], "/"), nil
 }
 
-func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() string {
+func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() (string, error) {
 	return relativePath(a.SignedUploadLocation)
 }
 
@@ -209,8 +212,12 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return "", nil, err
 	}
+	signedLocation, err := uploadAttributes.relativeSignedUploadLocation()
+	if err != nil {
+		return "", nil, err
+	}
 	resp, err := transport.CdnTransport.PostWithHeaders(
-		uploadAttributes.relativeSignedUploadLocation(),
+		signedLocation,
 		[]byte{},
 		"application/octet-stream",
 		uploadAttributes.Headers)
@@ -221,8 +228,11 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 		log.Debug("[textsecure] allocateAttachmentV3 error response ", resp.Body)
 		return "", nil, resp
 	}
-	location := resp.Header.Get("Location")
-	return relativePath(location), uploadAttributes, nil
+	location, err := relativePath(resp.Header.Get("Location"))
+	if err != nil {
+		return "", nil, err
+	}
+	return location, uploadAttributes, nil
 }
 
 func getAttachmentLocation(id uint64, key string, cdnNumber uint32) (string, error) {
-- 
2.43.0


From ec257df3b2570bb21fcefe72b4b28d6ae66e45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 11/68] fix: reject a truncated store file

A file shorter than its MAC was sliced out of range.
---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index c06b1cf..f40c2bb 100644
--- a/store.go
+++ b/store.go
@@ -151,6 +151,9 @@ func (s *store) decrypt(ciphertext []byte) ([]byte, error) {
 	}
 
 	macPos := len(ciphertext) - 32
+	if macPos < 0 {
+		return nil, ErrStoreBadMAC
+	}
 
 	if !verifyMAC(s.macKey, ciphertext[:macPos], ciphertext[macPos:]) {
 		return nil, ErrStoreBadMAC
-- 
2.43.0


From d90352ec24569e4832ef8baf786728cde532ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 12/68] fix: handle receipts without a type or timestamp

Both fields are optional on the wire and were used without a check.
---
 handler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index c931b58..92b7982 100644
--- a/handler.go
+++ b/handler.go
@@ -1,6 +1,8 @@
 package textsecure
 
 import (
+	"errors"
+
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -52,16 +54,19 @@ func handleTypingMessage(src string, srcUUID string, timestamp uint64, cm *signa
 	return nil
 }
 func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *signalservice.ReceiptMessage) error {
+	if len(cm.GetTimestamp()) == 0 {
+		return errors.New("[textsecure] receipt message without timestamp")
+	}
 	msg := &Message{
 		source:     src,
 		sourceUUID: srcUUID,
 		message:    "sentReceiptMessage",
 		timestamp:  cm.GetTimestamp()[0],
 	}
-	if *cm.Type == signalservice.ReceiptMessage_READ {
+	if cm.GetType() == signalservice.ReceiptMessage_READ {
 		msg.message = "readReceiptMessage"
 	}
-	if *cm.Type == signalservice.ReceiptMessage_DELIVERY {
+	if cm.GetType() == signalservice.ReceiptMessage_DELIVERY {
 		msg.message = "deliveryReceiptMessage"
 	}
 	if client.ReceiptMessageHandler != nil {
-- 
2.43.0


From 06922a8cce1b1835fef028991686503c41d5d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 13/68] fix: check the length of avatars, envelopes and
 discovery responses

Answers shorter than expected were sliced out of range.
---
 profiles/avatars.go | 3 +++
 server.go           | 3 +++
 textsecure.go       | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 448a5ea..5a6b040 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -118,6 +118,9 @@ func setupAvatarsPath() error {
 }
 
 func decryptAvatar(avatar []byte, identityKey []byte) ([]byte, error) {
+	if len(avatar) < NONCE_LEN || len(identityKey) < 32 {
+		return nil, fmt.Errorf("avatar or profile key too short")
+	}
 	nonce := avatar[:NONCE_LEN]
 	encrypted_avatar := avatar[NONCE_LEN:]
 	decryptedAvatar, err := decrypt(identityKey[:32], encrypted_avatar, nonce)
diff --git a/server.go b/server.go
index 9f23563..1c8cdd8 100644
--- a/server.go
+++ b/server.go
@@ -682,6 +682,9 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 		return nil, fmt.Errorf("could not get get ContactDiscovery data %v", err)
 	}
 	uuidlength := 16
+	if len(responseData) < len(tokens)*uuidlength {
+		return nil, fmt.Errorf("contact discovery response too short: %d", len(responseData))
+	}
 	ind := 0
 
 	contacts.Contacts = map[string]contacts.Contact{}
diff --git a/textsecure.go b/textsecure.go
index 0dc7701..d21ab29 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -528,6 +528,10 @@ var ErrInvalidMACForMessage = errors.New("invalid MAC for incoming message")
 func decryptReceivedMessage(msg []byte) ([]byte, error) {
 	// decrypt signalservice envelope
 	macpos := len(msg) - 10
+	if macpos < 1 {
+		// too short to be encrypted with the signaling key
+		return msg, nil
+	}
 	tmac := msg[macpos:]
 	aesKey := registration.Registration.SignalingKey[:32]
 	macKey := registration.Registration.SignalingKey[32:]
-- 
2.43.0


From 1017b42f97c801ac98816997c9736ca7271c553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 14/68] fix: do not use an HTTP answer that failed or is null

---
 attachments.go                             |  3 +++
 contactsDiscovery/remoteAttestationUtil.go |  2 +-
 profiles/profile.go                        | 12 +++++++++---
 server.go                                  |  4 ++--
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/attachments.go b/attachments.go
index 31f5e70..c023870 100644
--- a/attachments.go
+++ b/attachments.go
@@ -26,6 +26,9 @@ func getAttachment(url string) (io.ReadCloser, error) {
 	customTransport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
 	c := &http.Client{Transport: customTransport}
 	req, err := http.NewRequest("GET", url, nil)
+	if err != nil {
+		return nil, err
+	}
 	req.Header.Add("Host", SERVICE_REFLECTOR_HOST)
 	req.Header.Add("Content-Type", "application/octet-stream")
 
diff --git a/contactsDiscovery/remoteAttestationUtil.go b/contactsDiscovery/remoteAttestationUtil.go
index 41a0309..a6eecdd 100644
--- a/contactsDiscovery/remoteAttestationUtil.go
+++ b/contactsDiscovery/remoteAttestationUtil.go
@@ -83,7 +83,7 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 	multiRemoteAttestationResponse := &MultiRemoteAttestationResponse{}
 	dec := json.NewDecoder(resp.Body)
 	// log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp", resp)
-	err = dec.Decode(&multiRemoteAttestationResponse)
+	err = dec.Decode(multiRemoteAttestationResponse)
 	if err != nil {
 		return nil, err
 	}
diff --git a/profiles/profile.go b/profiles/profile.go
index 092628b..f0db069 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -347,17 +347,23 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	resp, err := transport.Transport.Get(fmt.Sprintf(PROFILE_PATH, tel))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
 	}
 
 	profile := &Profile{}
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&profile)
+	err = dec.Decode(profile)
 
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
 	}
 
-	avatar, _ := GetRemoteAvatar(profile.Avatar)
+	avatar, err := GetRemoteAvatar(profile.Avatar)
+	if err != nil {
+		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
+	}
 	buf := new(bytes.Buffer)
 	buf.ReadFrom(avatar)
 
@@ -398,7 +404,7 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 		}
 
 		dec := json.NewDecoder(resp.Body)
-		err = dec.Decode(&profile)
+		err = dec.Decode(profile)
 		if err != nil {
 			log.Errorln("[textsecure] GetProfileUuid decode", err)
 			return nil, err
diff --git a/server.go b/server.go
index 1c8cdd8..2c0741d 100644
--- a/server.go
+++ b/server.go
@@ -453,7 +453,7 @@ func getLinkedDevices() ([]DeviceInfo, error) {
 	}
 
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&devices)
+	err = dec.Decode(devices)
 	if err != nil {
 		return devices.DeviceList, nil
 	}
@@ -603,7 +603,7 @@ func getContactDiscoveryRegisteredUsers(authorization string, request *contactDi
 	discoveryResponse := &contactDiscoveryCrypto.DiscoveryResponse{}
 	dec := json.NewDecoder(resp.Body)
 	log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp")
-	err = dec.Decode(&discoveryResponse)
+	err = dec.Decode(discoveryResponse)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 613d9b44d9ac4aaf1c8cf7a63a5edf924ba74921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 15/68] fix: do not use the result of a failed parse or pipe,
 or a crayfish message without a type

---
 crayfish/backend.go | 22 ++++++++++++++++++----
 websocket.go        |  6 ++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/crayfish/backend.go b/crayfish/backend.go
index 40551fe..c30b9b4 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -134,8 +134,14 @@ func Run() {
 	}
 	var stdout, stderr []byte
 	var errStdout, errStderr error
-	stdoutIn, _ := Instance.cmd.StdoutPipe()
-	stderrIn, _ := Instance.cmd.StderrPipe()
+	stdoutIn, err := Instance.cmd.StdoutPipe()
+	if err != nil {
+		log.Fatalf("[textsecure-crayfish] Starting crayfish-backend stdout failed with '%s'\n", err)
+	}
+	stderrIn, err := Instance.cmd.StderrPipe()
+	if err != nil {
+		log.Fatalf("[textsecure-crayfish] Starting crayfish-backend stderr failed with '%s'\n", err)
+	}
 	Instance.cmd.SysProcAttr = &syscall.SysProcAttr{
 		Pdeathsig: syscall.SIGTERM,
 	}
@@ -194,11 +200,13 @@ func copyAndCapture(w io.Writer, r io.Reader) ([]byte, error) {
 
 // Connect to Signal websocket API at originURL with user and pass credentials
 func (c *Conn) connect(originURL string) error {
-	u, _ := url.Parse(originURL)
+	u, err := url.Parse(originURL)
+	if err != nil {
+		return err
+	}
 
 	log.Debugf("[textsecure-crayfish-ws] websocket connecting to crayfish-server")
 
-	var err error
 	d := &websocket.Dialer{
 		ReadBufferSize:  1024,
 		WriteBufferSize: 1024,
@@ -359,11 +367,17 @@ func (c *CrayfishInstance) StopListening() error {
 }
 
 func handleCrayfishRequestMessage(request *CrayfishWebSocketRequestMessage) error {
+	if request == nil || request.Type == nil {
+		return errors.New("websocket request message without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket request message", *request.Type)
 	return nil
 }
 
 func (c *CrayfishInstance) handleCrayfishResponseMessage(response *CrayfishWebSocketResponseMessage) error {
+	if response == nil || response.Type == nil {
+		return errors.New("websocket response message without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket response message", *response.Type)
 	if c.receiveChannel != nil && *response.Type > 1 {
 		c.receiveChannel <- response
diff --git a/websocket.go b/websocket.go
index a687768..bdefe9e 100644
--- a/websocket.go
+++ b/websocket.go
@@ -49,12 +49,14 @@ func (c *Conn) connect(originURL, user, pass string) error {
 	v.Set("password", pass)
 	params := v.Encode()
 	wsURL := strings.Replace(originURL, "http", "ws", 1) + "?" + params
-	u, _ := url.Parse(wsURL)
+	u, err := url.Parse(wsURL)
+	if err != nil {
+		return err
+	}
 
 	log.Debugf("[textsecure] Websocket Connecting to signal-server")
 	// log.Debugf("Websocket Connecting to %s with user %s and pass %s", originURL, user, pass)
 
-	var err error
 	d := &websocket.Dialer{
 		ReadBufferSize:  1024,
 		WriteBufferSize: 1024,
-- 
2.43.0


From 159111b1c63a5f3a9f1670d5917e01f2ce330fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 16/68] fix: handle envelopes, data messages and certificates
 with fields missing

---
 handler.go                               | 2 +-
 sync.go                                  | 2 +-
 textsecure.go                            | 6 +++---
 unidentifiedAccess/unidentifiedAccess.go | 2 +-
 websocket.go                             | 4 +---
 5 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/handler.go b/handler.go
index 92b7982..fab1add 100644
--- a/handler.go
+++ b/handler.go
@@ -87,7 +87,7 @@ func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signals
 	if err != nil {
 		return err
 	}
-	log.Debugln("[textsecure] handleDataMessage", timestamp, *dm.Timestamp, dm.GetExpireTimer())
+	log.Debugln("[textsecure] handleDataMessage", timestamp, dm.GetTimestamp(), dm.GetExpireTimer())
 	gr2, err := groupsv2.HandleGroupsV2(src, dm)
 	if err != nil {
 		return err
diff --git a/sync.go b/sync.go
index d764ac7..08272ba 100644
--- a/sync.go
+++ b/sync.go
@@ -119,7 +119,7 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		flags:       flags,
 		expireTimer: dm.GetExpireTimer(),
 		profileKey:  dm.GetProfileKey(),
-		timestamp:   *dm.Timestamp,
+		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
 		contact:     cs,
 		sticker:     dm.GetSticker(),
diff --git a/textsecure.go b/textsecure.go
index d21ab29..4b47c38 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -571,7 +571,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 	recid := env.GetSourceUuid()
 
 	sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
-	switch *env.Type {
+	switch env.GetType() {
 	case signalservice.Envelope_RECEIPT:
 		handleReceipt(env)
 		return nil
@@ -648,7 +648,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 
 		p, _ := proto.Marshal(env)
-		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", *env.DestinationUuid)
+		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", env.GetDestinationUuid())
 		data, err := crayfish.Instance.HandleEnvelope(p)
 		if err != nil {
 			return err
@@ -670,7 +670,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 
 	default:
-		return MessageTypeNotImplementedError{uint32(*env.Type)}
+		return MessageTypeNotImplementedError{uint32(env.GetType())}
 	}
 
 	return nil
diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 593b9e2..a8255db 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -50,7 +50,7 @@ func CheckCertificate(certificate []byte) error {
 		log.Fatalln("Failed to parse sender certificate:", err)
 		return err
 	}
-	if *senderCertificate.Expires < uint64(time.Now().Unix()) {
+	if senderCertificate.GetExpires() < uint64(time.Now().Unix()) {
 		log.Errorln("Certificate expired")
 		return errors.New("certificate expired")
 	}
diff --git a/websocket.go b/websocket.go
index bdefe9e..1abafb1 100644
--- a/websocket.go
+++ b/websocket.go
@@ -197,9 +197,7 @@ func StartListening() error {
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure] Failed to create envelope")
-				}
-				err = handleReceivedMessage(env)
-				if err != nil {
+				} else if err = handleReceivedMessage(env); err != nil {
 					log.Debugf("[textsecure] Failed to handle received message: %+v", env)
 					log.WithFields(log.Fields{
 						"error": err,
-- 
2.43.0


From bad39d3e484ac1031f640735a9c91c51212e26b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 17/68] fix: do not panic when sending a sync message fails

---
 sender.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 177a6ee..2ccab88 100644
--- a/sender.go
+++ b/sender.go
@@ -84,7 +84,10 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	}
 
 	resp, err := buildAndSendMessage(user, padMessage(b), true, timestamp)
-	return resp.Timestamp, err
+	if err != nil {
+		return 0, err
+	}
+	return resp.Timestamp, nil
 }
 
 func sendVerifiedMessage(verified *signalservice.Verified, unidentifiedAccess *unidentifiedAccess.UnidentifiedAccess) error {
-- 
2.43.0


From 6dc5341dd5e2a9610679c95ea5db1edb68136c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 18/68] fix: stop on unreadable store entries and undecodable
 pre-keys instead of using them

---
 groups.go  |  3 +++
 prekeys.go | 10 ++++++++--
 store.go   |  3 +++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/groups.go b/groups.go
index 27fc314..db04cde 100644
--- a/groups.go
+++ b/groups.go
@@ -98,6 +98,9 @@ func setupGroups() error {
 		return err
 	}
 	filepath.Walk(groupDir, func(path string, fi os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if !fi.IsDir() {
 			if !strings.Contains(path, "avatar") {
 				loadGroup(path)
diff --git a/prekeys.go b/prekeys.go
index 0e01116..1297117 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -142,6 +142,9 @@ func loadPreKeys() error {
 	preKeyRecords = []*axolotl.PreKeyRecord{}
 	count := 0
 	err := filepath.Walk(textSecureStore.preKeysDir, func(path string, fi os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if !fi.IsDir() {
 			preKeyRecords = append(preKeyRecords, &axolotl.PreKeyRecord{})
 			_, fname := filepath.Split(path)
@@ -149,7 +152,10 @@ func loadPreKeys() error {
 			if err != nil {
 				return err
 			}
-			preKeyRecords[count], _ = textSecureStore.LoadPreKey(uint32(id))
+			preKeyRecords[count], err = textSecureStore.LoadPreKey(uint32(id))
+			if err != nil {
+				return err
+			}
 			count++
 		}
 		return nil
@@ -176,10 +182,10 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	} else {
 		preKeyId = d.PreKey.ID
 		decPK, err := decodeKey(d.PreKey.PublicKey)
-		preKey = axolotl.NewECPublicKey(decPK)
 		if err != nil {
 			return nil, err
 		}
+		preKey = axolotl.NewECPublicKey(decPK)
 	}
 
 	if d.SignedPreKey == nil {
diff --git a/store.go b/store.go
index f40c2bb..114050d 100644
--- a/store.go
+++ b/store.go
@@ -408,6 +408,9 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 	sessions := []uint32{}
 
 	filepath.Walk(s.sessionsDir, func(path string, fi os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if !fi.IsDir() {
 			i := strings.LastIndex(path, "_")
 			id, _ := strconv.Atoi(path[i+1:])
-- 
2.43.0


From 64033efde464b4a2359d752f9ab3f7867fd9bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 19/68] fix: do not use group state and credentials that are
 missing

---
 groupsv2/createGroupChange.go |  3 +++
 groupsv2/groupChange.go       |  8 ++++----
 groupsv2/groupValidator.go    |  9 +++++++++
 groupsv2/groupsv2.go          |  6 +++---
 groupsv2/groupsv2api.go       | 14 ++++++++++----
 handler.go                    |  2 +-
 6 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 8de5607..dee5425 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -119,6 +119,9 @@ func (g *GroupV2) EncryptUUID(uuid []byte) ([]byte, error) {
 }
 func (g *GroupV2) findMemberByUuid(uuid string) (*signalservice.Member, error) {
 	for _, member := range g.GroupContext.PendingMembers {
+		if member.GetMember() == nil {
+			continue
+		}
 		d, err := g.decryptUUID(member.Member.UserId)
 		if err != nil {
 			return nil, err
diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 344cef7..d9cd43e 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -393,8 +393,8 @@ func (g *GroupChangeApplicator) ApplyPromoteMembersPendingProfileKey(user *entit
 		mapModifyUserId[k] = profileKeyCiphertext
 	}
 	for _, item := range group.GroupContext.PendingMembers {
-		key := getKey(item.Member.UserId)
-		if value, ok := mapModifyUserId[key]; ok {
+		key := getKey(item.GetMember().GetUserId())
+		if value, ok := mapModifyUserId[key]; ok && item.Member != nil {
 			item.Member.Presentation = nil
 			item.Member.ProfileKey = value
 			item.Member.JoinedAtRevision = group.Revision + 1
@@ -460,7 +460,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 	}
 	mapAddUserId := make(map[string]struct{})
 	for _, item := range addMembersPendingProfileKeys {
-		if item.Added.Member == nil {
+		if item.GetAdded().GetMember() == nil {
 			return entities.Status(http.StatusBadRequest, "No member")
 		}
 		if len(item.Added.Member.UserId) == 0 {
@@ -503,7 +503,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 		obj := &signalservice.DecryptedPendingMember{
 			Role:        item.Added.Member.Role,
 			Uuid:        item.Added.Member.UserId,
-			AddedByUuid: GetSourceMember(user, group).Uuid, //todo
+			AddedByUuid: GetSourceMember(user, group).GetUuid(), //todo
 			Timestamp:   uint64(utils.CurrentTimeMillis()),
 		}
 		group.DecryptedGroup.PendingMembers = append(group.DecryptedGroup.PendingMembers, obj)
diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 52fa7d8..06079a0 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -56,6 +56,9 @@ func (g *GroupValidator) ValidatePresentationUpdate(source *entities.GroupUser,
 	if !source.IsMember(presentation_uuid, group.MasterKey) {
 		return nil, errors.New("ValidatePresentationUpdate 4.Forbidden ,reason:xxx ")
 	}
+	if g.profileOperations == nil {
+		return nil, errors.New("no operations to verify a presentation with")
+	}
 	err = g.profileOperations.VerifyProfileKeyCredentialPresentation(publicParams, presentation)
 	if err != nil {
 		return nil, errors.New("ValidatePresentationUpdate 5.  " + err.Error())
@@ -218,6 +221,9 @@ func (g *GroupValidator) ValidateMemberPendingAdminApproval(user *entities.Group
 		return nil, errors.New("1." + err.Error())
 	}
 
+	if g.profileOperations == nil {
+		return nil, errors.New("no operations to verify a presentation with")
+	}
 	err = g.profileOperations.VerifyProfileKeyCredentialPresentation(publicParams, profileKeyCredentialPresentation)
 	if err != nil {
 		log.Errorln("[textsecure] groupsv2-validator 2.", err)
@@ -347,6 +353,9 @@ func (g *GroupValidator) ValidateMember(group *GroupV2, member *signalservice.Me
 		log.Errorln("[textsecure] groupsv2-validator 3.", err)
 		return nil, errors.New("3." + err.Error())
 	}
+	if g.profileOperations == nil {
+		return nil, errors.New("no operations to verify a presentation with")
+	}
 	err = g.profileOperations.VerifyProfileKeyCredentialPresentation(publicParams, profileKeyCredentialPresentation)
 	if err != nil {
 		log.Errorln("[textsecure] groupsv2-validator 4.", err)
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index dae5b87..f6fbe36 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -234,7 +234,7 @@ func GetGroupV2MembersForGroup(group string) ([]*signalservice.DecryptedMember,
 		log.Debugln("[textsecure] could not update group from server")
 	}
 
-	return g.DecryptedGroup.Members, nil
+	return g.DecryptedGroup.GetMembers(), nil
 }
 func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error) {
 	groupContext := dm.GetGroupV2()
@@ -263,7 +263,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			log.Error("[textsecure][groupsv2] error updating group change from server", err)
 		}
 		// TODO only update group on wrong revision
-	} else if string(group.GroupContext.Title) == "" {
+	} else if string(group.GroupContext.GetTitle()) == "" {
 		err = group.UpdateGroupFromServer()
 	}
 	// handle group changes
@@ -310,7 +310,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		} else {
 			group.GroupAction = nil
 		}
-	} else if group.DecryptedGroup.Revision != groupContext.GetRevision() {
+	} else if group.DecryptedGroup.GetRevision() != groupContext.GetRevision() {
 		log.Debugln("[textsecure][groupsv2] outdated group, update")
 		group.UpdateGroupFromServer()
 	}
diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 28299e0..7e76822 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -17,10 +17,13 @@ type GroupsV2Authorization struct {
 
 func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Authorization, error) {
 	group := groupsV2[hexid]
+	if group == nil {
+		return nil, fmt.Errorf("group not found")
+	}
 	groupSecretParams, err := zkgroup.NewGroupSecretParams(group.MasterKey)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup", err.Error())
-
+		return nil, err
 	}
 
 	return NewGroupsV2Authorization(uuid, groupSecretParams)
@@ -28,6 +31,9 @@ func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Autho
 
 func NewGroupsV2Authorization(uuid []byte, groupSecretParams zkgroup.GroupSecretParams) (*GroupsV2Authorization, error) {
 	publicGroupParams, err := groupSecretParams.PublicParams()
+	if err != nil {
+		return nil, err
+	}
 	today := time.Now().Unix() / 86400
 	credential, err := GetCredentialForRedemption(today)
 	if err != nil {
@@ -37,18 +43,18 @@ func NewGroupsV2Authorization(uuid []byte, groupSecretParams zkgroup.GroupSecret
 	authCredentialResponse, err := zkgroup.NewAuthCredentialResponse(credential.Credential)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	zkGroupServerPublicParams, _ := base64.StdEncoding.DecodeString(config.ZKGROUP_SERVER_PUBLIC_PARAMS)
 	serverPublicParams, err := zkgroup.NewServerPublicParams(zkGroupServerPublicParams)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup1", err.Error())
-
+		return nil, err
 	}
 	clientZkAuthOperations, err := zkgroup.NewClientZkAuthOperations(serverPublicParams)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	authCredential, err := clientZkAuthOperations.ReceiveAuthCredential(uuid, (uint32)(today), authCredentialResponse)
 	if err != nil {
diff --git a/handler.go b/handler.go
index fab1add..979d54b 100644
--- a/handler.go
+++ b/handler.go
@@ -101,7 +101,7 @@ func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signals
 		flags:       flags,
 		expireTimer: dm.GetExpireTimer(),
 		profileKey:  dm.GetProfileKey(),
-		timestamp:   *dm.Timestamp,
+		timestamp:   dm.GetTimestamp(),
 		quote:       dm.GetQuote(),
 		contact:     dm.GetContact(),
 		sticker:     dm.GetSticker(),
-- 
2.43.0


From 5523977408790d66277a90a367dde796e3b5a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 20/68] fix: reject a nonce of the wrong length instead of
 panicking

---
 contactDiscoveryCrypto/contactDiscoveryCrypto.go | 3 +++
 crypto/aesgcm.go                                 | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/contactDiscoveryCrypto/contactDiscoveryCrypto.go b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
index d8136f6..2e2f53d 100644
--- a/contactDiscoveryCrypto/contactDiscoveryCrypto.go
+++ b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
@@ -195,6 +195,9 @@ func aesDecrypt(key, nonce, data, mac, aad []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("incorrect nonce length")
+	}
 	ciphertext := append(data, mac...)
 	return aesgcm.Open(nil, nonce, ciphertext, aad)
 }
diff --git a/crypto/aesgcm.go b/crypto/aesgcm.go
index 5891af8..9785005 100644
--- a/crypto/aesgcm.go
+++ b/crypto/aesgcm.go
@@ -3,6 +3,7 @@ package crypto
 import (
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 )
 
 const TAG_LENGTH_BYTES = 16
@@ -18,6 +19,9 @@ func AesgcmDecrypt(key, nonce, data, mac []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("incorrect nonce length")
+	}
 	ciphertext := append(data, mac...)
 
 	return aesgcm.Open(nil, nonce, ciphertext, nil)
-- 
2.43.0


From e3375e900567feedd653ad9316bc18f26fa8a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 21/68] fix: do not terminate the program over an unreadable
 certificate

---
 unidentifiedAccess/unidentifiedAccess.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index a8255db..521dc8e 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -42,12 +42,12 @@ func CheckCertificate(certificate []byte) error {
 	}
 	serverCert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(certificate, serverCert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return err
 	}
 	senderCertificate := &signalservice.SenderCertificate_Certificate{}
 	if err := proto.Unmarshal(serverCert.Certificate, senderCertificate); err != nil {
-		log.Fatalln("Failed to parse sender certificate:", err)
+		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
 	if senderCertificate.GetExpires() < uint64(time.Now().Unix()) {
@@ -147,7 +147,7 @@ func GetOurCertificate() ([]byte, error) {
 	log.Infoln("[textsecure] Getting our certificate")
 	cert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(config.ConfigFile.Certificate, cert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return nil, err
 	}
 	return cert.Certificate, nil
-- 
2.43.0


From c5f17fe2558b03ae149de0468ecaa4532dfeacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 22/68] fix: check the length of the public keys of a remote
 attestation

---
 contactsDiscovery/remoteAttestationUtil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contactsDiscovery/remoteAttestationUtil.go b/contactsDiscovery/remoteAttestationUtil.go
index a6eecdd..47852de 100644
--- a/contactsDiscovery/remoteAttestationUtil.go
+++ b/contactsDiscovery/remoteAttestationUtil.go
@@ -142,6 +142,9 @@ func validateAndBuildRemoteAttestation(
 }
 
 func remoteAttestationKeys(keyPair *axolotl.ECKeyPair, serverPublicEphemarl []byte, serverPublicStatic []byte) (*RemoteAttestationKeys, error) {
+	if len(serverPublicEphemarl) != 32 || len(serverPublicStatic) != 32 {
+		return nil, fmt.Errorf("remote attestation with public keys of the wrong length")
+	}
 
 	ephemeralToEphemeral := [32]byte{}
 	serverPublicEphemarlPublicKey := axolotl.NewECPublicKey(serverPublicEphemarl).GetKey()
-- 
2.43.0


From f3a40e5af1a58a6dc34e34b3db7751052272f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 23/68] fix: report a failure to save the registration
 credentials

---
 store.go      | 16 ++++++++--------
 textsecure.go | 17 +++++++++++++----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/store.go b/store.go
index 114050d..51c7f86 100644
--- a/store.go
+++ b/store.go
@@ -117,9 +117,9 @@ func (s *store) readNumFromFile(path string) (uint32, error) {
 	return uint32(num), nil
 }
 
-func (s *store) writeNumToFile(path string, num uint32) {
+func (s *store) writeNumToFile(path string, num uint32) error {
 	b := []byte(strconv.Itoa(int(num)))
-	s.writeFile(path, b)
+	return s.writeFile(path, b)
 }
 
 func (s *store) genKeys(password string, salt []byte, count int) {
@@ -187,9 +187,9 @@ func (s *store) GetLocalRegistrationID() (uint32, error) {
 	return s.readNumFromFile(regidfile)
 }
 
-func (s *store) SetLocalRegistrationID(id uint32) {
+func (s *store) SetLocalRegistrationID(id uint32) error {
 	regidfile := filepath.Join(s.identityDir, "regid")
-	s.writeNumToFile(regidfile, id)
+	return s.writeNumToFile(regidfile, id)
 }
 
 func (s *store) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error) {
@@ -370,9 +370,9 @@ func (s *store) RemoveSignedPreKey(id uint32) {
 }
 
 // HTTP API store
-func (s *store) storeHTTPPassword(password string) {
+func (s *store) storeHTTPPassword(password string) error {
 	passFile := filepath.Join(s.identityDir, "http_password")
-	s.writeFile(passFile, []byte(password))
+	return s.writeFile(passFile, []byte(password))
 }
 
 func (s *store) loadHTTPPassword() (string, error) {
@@ -384,9 +384,9 @@ func (s *store) loadHTTPPassword() (string, error) {
 	return string(b), nil
 }
 
-func (s *store) storeHTTPSignalingKey(key []byte) {
+func (s *store) storeHTTPSignalingKey(key []byte) error {
 	keyFile := filepath.Join(s.identityDir, "http_signaling_key")
-	s.writeFile(keyFile, key)
+	return s.writeFile(keyFile, key)
 }
 
 func (s *store) loadHTTPSignalingKey() ([]byte, error) {
diff --git a/textsecure.go b/textsecure.go
index 4b47c38..ed574ad 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -280,16 +280,25 @@ func Setup(c *Client) error {
 		registration.Registration = registration.RegistrationInfo{
 			RegistrationID: generateRegistrationID(),
 		}
-		textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		err = textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.Password = generatePassword()
-		textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		err = textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.SignalingKey = generateSignalingKey()
-		textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		err = textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		if err != nil {
+			return err
+		}
 
 		identityKey = axolotl.GenerateIdentityKeyPair()
-		err := textSecureStore.SetIdentityKeyPair(identityKey)
+		err = textSecureStore.SetIdentityKeyPair(identityKey)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0fcf63ea4ad7ad7245451545de51f6f410afbec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 24/68] fix: report a failure to store the signed prekey

---
 prekeys.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index 1297117..16b1794 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -101,15 +101,15 @@ func generatePreKeys() error {
 	if err != nil {
 		return err
 	}
-	signedKey = generateSignedPreKey()
-	return nil
+	signedKey, err = generateSignedPreKey()
+	return err
 }
 
 func getNextSignedPreKeyID() uint32 {
 	return randID()
 }
 
-func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
+func generateSignedPreKey() (*axolotl.SignedPreKeyRecord, error) {
 	kp := axolotl.NewECKeyPair()
 	id := getNextSignedPreKeyID()
 	var random [64]byte
@@ -117,8 +117,11 @@ func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
 	priv := identityKey.PrivateKey.Key()
 	signature := curve25519sign.Sign(priv, kp.PublicKey.Serialize(), random)
 	record := axolotl.NewSignedPreKeyRecord(id, uint64(time.Now().UnixNano()*1000), kp, signature[:])
-	textSecureStore.StoreSignedPreKey(id, record)
-	return record
+	err := textSecureStore.StoreSignedPreKey(id, record)
+	if err != nil {
+		return nil, err
+	}
+	return record, nil
 }
 
 func generatePreKeyState() error {
-- 
2.43.0


From 167bf65ce1c0db486277bf3b137309278f8beda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 25/68] fix: report a failure to save the configuration

---
 config.go     |  7 ++++---
 profile.go    |  4 ++--
 server.go     |  3 +--
 textsecure.go | 33 +++++++++++++++++++++++++++------
 4 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/config.go b/config.go
index 5bbd209..fd62caa 100644
--- a/config.go
+++ b/config.go
@@ -70,13 +70,14 @@ func saveConfig(cfg *config.Config) error {
 	}
 	return nil
 }
-func RefreshConfig() {
+// RefreshConfig loads the configuration and saves it with its defaults filled in
+func RefreshConfig() error {
 	cfg, err := loadConfig()
 	if err != nil {
 		log.Errorln("[textsecure] failed to load config", err)
-		return
+		return err
 	}
-	saveConfig(cfg)
+	return saveConfig(cfg)
 }
 
 // loadConfig gets the config via the client and makes sure
diff --git a/profile.go b/profile.go
index e384fe5..76c191e 100644
--- a/profile.go
+++ b/profile.go
@@ -3,7 +3,7 @@ package textsecure
 import "github.com/signal-golang/textsecure/config"
 
 // SetUsername sets the profile name
-func SetUsername(name string) {
+func SetUsername(name string) error {
 	config.ConfigFile.Name = name
-	saveConfig(config.ConfigFile)
+	return saveConfig(config.ConfigFile)
 }
diff --git a/server.go b/server.go
index 2c0741d..151bd30 100644
--- a/server.go
+++ b/server.go
@@ -356,8 +356,7 @@ func setAccountAttributes(attributes *UpdateAccountAttributes) error {
 		return err
 	}
 	config.ConfigFile.AccountCapabilities = attributes.Capabilities
-	saveConfig(config.ConfigFile)
-	return nil
+	return saveConfig(config.ConfigFile)
 }
 
 type whoAmIResponse struct {
diff --git a/textsecure.go b/textsecure.go
index ed574ad..e70bbd7 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -329,26 +329,38 @@ func Setup(c *Client) error {
 	transport.SetupStorageTransporter(STORAGE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupServiceTransporter(SIGNAL_SERVICE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	identityKey, err = textSecureStore.GetIdentityKeyPair()
+	if err != nil {
+		return err
+	}
 	// check if we have a uuid and if not get it
 	// config.ConfigFile = checkUUID(config.ConfigFile)
 	profileChanged := false
 	// check for a profileKey
 	if len(config.ConfigFile.ProfileKey) == 0 {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
-		saveConfig(config.ConfigFile)
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 		profileChanged = true
 	}
 	// check if a username is set
 	if config.ConfigFile.Name == "" {
 		config.ConfigFile.Name = client.GetUsername()
 		profileChanged = true
-		saveConfig(config.ConfigFile)
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 	}
 	if profileChanged {
 		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
 	} else {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
-		saveConfig(config.ConfigFile)
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
 	}
 
@@ -375,7 +387,10 @@ func Setup(c *Client) error {
 			return err
 		}
 		config.ConfigFile.ProfileKeyCredential = []byte(profile.Credential)
-		saveConfig(config.ConfigFile)
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 
 	} else {
 		log.Infoln("[textsecure] Using existing profile key credential", len(config.ConfigFile.ProfileKeyCredential))
@@ -390,7 +405,10 @@ func renewSenderCertificate() error {
 		return err
 	}
 	config.ConfigFile.Certificate = cert.Certificate
-	saveConfig(config.ConfigFile)
+	err = saveConfig(config.ConfigFile)
+	if err != nil {
+		return err
+	}
 	log.Debug(fmt.Sprintf("[textsecure] Sender certificate: %s", cert))
 	return nil
 
@@ -465,7 +483,10 @@ func registerDevice() error {
 	}
 	config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
 	// config.ConfigFile = checkUUID(config.ConfigFile)
-	saveConfig(config.ConfigFile)
+	err = saveConfig(config.ConfigFile)
+	if err != nil {
+		return err
+	}
 
 	client.RegistrationDone()
 	if client.RegistrationDone != nil {
-- 
2.43.0


From faadee4442f9b6ee8bff84a17a9bd3b875679011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 26/68] fix: report a failure to save the contacts

---
 profiles/profile.go | 10 ++++++++--
 server.go           |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index f0db069..e060a79 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -381,7 +381,10 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	c.HasAvatar = true
 	c.AvatarImg = avatarDecrypted
 	contacts.Contacts[c.UUID] = c
-	contacts.WriteContactsToPath()
+	err = contacts.WriteContactsToPath()
+	if err != nil {
+		return contacts.Contact{}, err
+	}
 	return c, nil
 }
 
@@ -468,6 +471,9 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 		c.AboutEmoji = profile.AboutEmoji
 	}
 	contacts.Contacts[c.UUID] = c
-	contacts.WriteContactsToPath()
+	err = contacts.WriteContactsToPath()
+	if err != nil {
+		return nil, err
+	}
 	return profile, nil
 }
diff --git a/server.go b/server.go
index 151bd30..8585048 100644
--- a/server.go
+++ b/server.go
@@ -715,6 +715,7 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 	err = contacts.WriteContactsToPath()
 	if err != nil {
 		log.Debugln("[textsecure] writing contacts failed", err)
+		return nil, err
 	}
 	log.Debug("[textsecure] GetRegisteredContacts synchronizing contacts finished")
 	return localContacts, nil
-- 
2.43.0


From 5765ad8d2d8a966d8c254481d9673bd6764674f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 27/68] fix: report a failure to save a group

---
 groups.go               | 5 ++++-
 groupsv2/groupModify.go | 5 ++++-
 groupsv2/groupsv2.go    | 6 +++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/groups.go b/groups.go
index db04cde..a284319 100644
--- a/groups.go
+++ b/groups.go
@@ -361,7 +361,10 @@ func changeGroup(hexid, name string, members []string) (*Group, error) {
 
 	g.Name = name
 	g.Members = append(members, config.ConfigFile.Tel)
-	saveGroup(hexid)
+	err := saveGroup(hexid)
+	if err != nil {
+		return nil, err
+	}
 
 	return g, nil
 }
diff --git a/groupsv2/groupModify.go b/groupsv2/groupModify.go
index 4d0da18..f97084b 100644
--- a/groupsv2/groupModify.go
+++ b/groupsv2/groupModify.go
@@ -246,7 +246,10 @@ func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams
 		return nil, entities.Status(http.StatusInternalServerError, err.Error())
 	}
 
-	saveGroupV2(g.Hexid)
+	err = saveGroupV2(g.Hexid)
+	if err != nil {
+		return nil, err
+	}
 	return &entities.Resp{Obj: signedGroupChange}, nil
 }
 
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index f6fbe36..f9de6ca 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -218,7 +218,10 @@ func (g *GroupV2) UpdateGroupFromServer() error {
 		return err
 	}
 	groupsV2[hexid] = group
-	saveGroupV2(hexid)
+	err = saveGroupV2(hexid)
+	if err != nil {
+		return err
+	}
 	log.Debugln("[textsecure][groupsv2] update group from server")
 	g = group
 
@@ -257,6 +260,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		err = saveGroupV2(hexid)
 		if err != nil {
 			log.Error("[textsecure][groupsv2] handle groupv2 save", err)
+			return nil, err
 		}
 		err = group.UpdateGroupFromServer()
 		if err != nil {
-- 
2.43.0


From 393348ccf7b10765671ac5e82e2b8c4868db3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 28/68] fix: report an error status of the server

---
 attachments.go                             |  8 ++++++++
 contactsDiscovery/remoteAttestationUtil.go |  4 ++++
 profiles/avatars.go                        |  4 ++++
 profiles/profile.go                        | 17 ++++++++++++++++-
 server.go                                  | 11 ++++++++++-
 transport/credentials.go                   |  8 +++++++-
 transport/unidentifiedCert.go              |  8 ++++++--
 7 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/attachments.go b/attachments.go
index c023870..d6e9ac5 100644
--- a/attachments.go
+++ b/attachments.go
@@ -37,6 +37,11 @@ func getAttachment(url string) (io.ReadCloser, error) {
 		return nil, err
 	}
 
+	if resp.StatusCode < 200 || resp.StatusCode >= 300 {
+		resp.Body.Close()
+		return nil, fmt.Errorf("download of the attachment failed with status code %d", resp.StatusCode)
+	}
+
 	return resp.Body, nil
 }
 
@@ -189,6 +194,9 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a attachmentV3UploadAttributes
 	err = dec.Decode(&a)
diff --git a/contactsDiscovery/remoteAttestationUtil.go b/contactsDiscovery/remoteAttestationUtil.go
index 47852de..a26be38 100644
--- a/contactsDiscovery/remoteAttestationUtil.go
+++ b/contactsDiscovery/remoteAttestationUtil.go
@@ -80,6 +80,10 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
+
 	multiRemoteAttestationResponse := &MultiRemoteAttestationResponse{}
 	dec := json.NewDecoder(resp.Body)
 	// log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp", resp)
diff --git a/profiles/avatars.go b/profiles/avatars.go
index 5a6b040..60546b9 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -35,6 +35,10 @@ func GetRemoteAvatar(avatarURL string) (io.ReadCloser, error) {
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
+
 	return resp.Body, nil
 }
 func GetLocalAvatarPath(uuid string) (string, error) {
diff --git a/profiles/profile.go b/profiles/profile.go
index e060a79..f98abdf 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -166,6 +166,9 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -184,7 +187,10 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 		}
 		resp, err = transport.Transport.GetWithUnidentifiedAccessKey(fmt.Sprintf(PROFILE_PATH, UUID), []byte(profile.UnidentifiedAccess))
 		if err != nil {
-			return profile, err
+			return nil, err
+		}
+		if resp.IsError() {
+			return nil, resp
 		}
 		bytes, err := io.ReadAll(resp.Body)
 		if err != nil {
@@ -237,6 +243,9 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 		log.Debugln("[textsecure] GetProfileAndCredential", err)
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -349,6 +358,9 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
 		return contacts.Contact{}, err
 	}
+	if resp.IsError() {
+		return contacts.Contact{}, resp
+	}
 
 	profile := &Profile{}
 	dec := json.NewDecoder(resp.Body)
@@ -405,6 +417,9 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 			log.Errorln("[textsecure] GetProfileUuid fetch profile:", err)
 			return nil, err
 		}
+		if resp.IsError() {
+			return nil, resp
+		}
 
 		dec := json.NewDecoder(resp.Body)
 		err = dec.Decode(profile)
diff --git a/server.go b/server.go
index 8585048..4927552 100644
--- a/server.go
+++ b/server.go
@@ -425,6 +425,9 @@ func getNewDeviceVerificationCode() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if resp.IsError() {
+		return "", resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var c jsonDeviceCode
 	dec.Decode(&c)
@@ -450,6 +453,9 @@ func getLinkedDevices() ([]DeviceInfo, error) {
 	if err != nil {
 		return devices.DeviceList, err
 	}
+	if resp.IsError() {
+		return devices.DeviceList, resp
+	}
 
 	dec := json.NewDecoder(resp.Body)
 	err = dec.Decode(devices)
@@ -461,10 +467,13 @@ func getLinkedDevices() ([]DeviceInfo, error) {
 }
 
 func unlinkDevice(id int) error {
-	_, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
+	resp, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
 	if err != nil {
 		return err
 	}
+	if resp.IsError() {
+		return resp
+	}
 	return nil
 }
 
diff --git a/transport/credentials.go b/transport/credentials.go
index 8e9cad3..7c29eca 100644
--- a/transport/credentials.go
+++ b/transport/credentials.go
@@ -33,9 +33,15 @@ func GetCredendtails(path string) (*AuthCredentials, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a AuthCredentials
-	dec.Decode(&a)
+	err = dec.Decode(&a)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugln("[textsecure] getCredentials ")
 	return &a, nil
 
diff --git a/transport/unidentifiedCert.go b/transport/unidentifiedCert.go
index bc21a5b..96edaa3 100644
--- a/transport/unidentifiedCert.go
+++ b/transport/unidentifiedCert.go
@@ -23,10 +23,14 @@ func GetSenderCertificate() (*SenderCertificate, error) {
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
+
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&certificates)
+	err = dec.Decode(certificates)
 	if err != nil {
-		return certificates, nil
+		return nil, err
 	}
 
 	return certificates, nil
-- 
2.43.0


From ea3922c8ce2fa68c5f618ce7c604db555e26b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 29/68] fix: report an answer of the server that cannot be read

---
 groupsv2/credentials.go |  5 ++++-
 groupsv2/groupsv2.go    | 21 ++++++++++++++-------
 server.go               | 32 +++++++++++++++++++++++++-------
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index ed64565..06eecad 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -74,7 +74,10 @@ func GetGroupAuthCredentials(startDay int64, endDay int64) error {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response GroupCredentials
-	dec.Decode(&response)
+	err = dec.Decode(&response)
+	if err != nil {
+		return err
+	}
 	Credentials = &response
 	return nil
 }
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index f9de6ca..cb4148d 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -1,10 +1,10 @@
 package groupsv2
 
 import (
-	"bytes"
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/url"
 	"os"
@@ -147,10 +147,12 @@ func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte
 	if resp.IsError() {
 		return nil, fmt.Errorf(fmt.Sprintf("getGroupJoinInfoFromServer %s", resp.Status))
 	}
-	buf := new(bytes.Buffer)
-	buf.ReadFrom(resp.Body)
+	body, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return nil, err
+	}
 	groupJoinInfo := &signalservice.GroupJoinInfo{}
-	err = proto.Unmarshal(buf.Bytes(), groupJoinInfo)
+	err = proto.Unmarshal(body, groupJoinInfo)
 	if err != nil {
 		return nil, err
 	}
@@ -184,11 +186,16 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 		}
 		return nil, resp
 	}
-	buf := new(bytes.Buffer)
-	buf.ReadFrom(resp.Body)
+	body, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return nil, err
+	}
 
 	group := &signalservice.Group{}
-	err = proto.Unmarshal(buf.Bytes(), group)
+	err = proto.Unmarshal(body, group)
+	if err != nil {
+		return nil, err
+	}
 	g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer group")
diff --git a/server.go b/server.go
index 4927552..ad071f4 100644
--- a/server.go
+++ b/server.go
@@ -412,7 +412,10 @@ func GetMyUUID() (string, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response whoAmIResponse
-	dec.Decode(&response)
+	err = dec.Decode(&response)
+	if err != nil {
+		return "", err
+	}
 	return response.UUID, nil
 }
 
@@ -430,7 +433,10 @@ func getNewDeviceVerificationCode() (string, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var c jsonDeviceCode
-	dec.Decode(&c)
+	err = dec.Decode(&c)
+	if err != nil {
+		return "", err
+	}
 	return c.VerificationCode, nil
 
 }
@@ -460,7 +466,7 @@ func getLinkedDevices() ([]DeviceInfo, error) {
 	dec := json.NewDecoder(resp.Body)
 	err = dec.Decode(devices)
 	if err != nil {
-		return devices.DeviceList, nil
+		return devices.DeviceList, err
 	}
 
 	return devices.DeviceList, nil
@@ -584,7 +590,10 @@ func getPreKeys(UUID string, deviceID string) (*preKeyResponse, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	k := &preKeyResponse{}
-	dec.Decode(k)
+	err = dec.Decode(k)
+	if err != nil {
+		return nil, err
+	}
 
 	return k, nil
 }
@@ -922,7 +931,10 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 	if resp.Status == mismatchedDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonMismatchedDevices
-		dec.Decode(&j)
+		err = dec.Decode(&j)
+		if err != nil {
+			return nil, err
+		}
 		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
 		devs := []uint32{}
 		for _, id := range deviceLists[uuid] {
@@ -943,7 +955,10 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 	if resp.Status == staleDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonStaleDevices
-		dec.Decode(&j)
+		err = dec.Decode(&j)
+		if err != nil {
+			return nil, err
+		}
 		log.Debugf("[textsecure] Stale devices: %+v\n", j)
 		for _, id := range j.StaleDevices {
 			uuidCleanup, err := recID(uuid)
@@ -960,7 +975,10 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 
 	var smRes sendMessageResponse
 	dec := json.NewDecoder(resp.Body)
-	dec.Decode(&smRes)
+	err = dec.Decode(&smRes)
+	if err != nil {
+		return nil, err
+	}
 	smRes.Timestamp = *timestamp
 
 	log.Debugf("[textsecure] SendMessageResponse: %+v\n", smRes)
-- 
2.43.0


From 389a3077ff276e2139478c66293b1285927ab7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 30/68] fix: do not take a failed group join for a success

---
 groupsv2/createGroupChange.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index dee5425..a7c1da7 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -102,6 +102,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 	}
 	err = PatchGroupV2(out, auth)
 	if err != nil {
+		return err
 	}
 	g.JoinStatus = GroupV2JoinsStatusMember
 	g.UpdateGroupFromServer()
-- 
2.43.0


From e5131bfa4da172761a9ee65c6cf1f91f53f7c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 31/68] fix: do not log the answer to a registration

---
 server.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/server.go b/server.go
index ad071f4..bb75159 100644
--- a/server.go
+++ b/server.go
@@ -273,11 +273,7 @@ func verifyCode(code string, pin *string, credentials *transport.AuthCredentials
 			return nil, resp
 		}
 	}
-	// extract uuid
-	buf := new(bytes.Buffer)
-	buf.ReadFrom(resp.Body)
-	newStr := buf.String()
-	log.Errorln("[textsecure] successful registration", newStr)
+	log.Infoln("[textsecure] successful registration")
 	defer resp.Body.Close()
 
 	config.ConfigFile.AccountCapabilities = vd.Capabilities
-- 
2.43.0


From b0d53a571d236f5a0d5b6ee1f83a7af6684a93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 32/68] fix: take profile keys and profile nonces from the
 secure random source

---
 profiles/profile.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index f98abdf..07826e7 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -2,13 +2,13 @@ package profiles
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"math/rand"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -43,7 +43,9 @@ type ProfileSettings struct {
 // GenerateProfileKey generates a new ProfileKey
 func GenerateProfileKey() []byte {
 	profileKey := make([]byte, 32)
-	rand.Read(profileKey)
+	if _, err := io.ReadFull(rand.Reader, profileKey); err != nil {
+		panic(err)
+	}
 	return profileKey
 }
 func uuidToByte(id string) []byte {
@@ -108,7 +110,9 @@ func encryptName(key, input []byte, paddedLength int) ([]byte, error) {
 	}
 	padded := append(input, make([]byte, paddedLength-inputLength)...)
 	nonce := make([]byte, 12)
-	rand.Read(nonce)
+	if _, err := io.ReadFull(rand.Reader, nonce); err != nil {
+		return nil, err
+	}
 	ciphertext, err := crypto.AesgcmEncrypt(key, nonce, padded)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 01d78b46c97731a71a31d809b2d93d5cee53fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 33/68] fix: report a failure to generate an unidentified
 access key

---
 unidentifiedAccess/unidentifiedAccess.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 521dc8e..c74e3e1 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -83,7 +83,9 @@ func GetTargetUnidentifiedAccessKey(contact contacts.Contact) ([]byte, error) {
 		return DeriveAccessKeyFrom(contact.ProfileKey)
 	} else {
 		token := make([]byte, 16)
-		rand.Read(token)
+		if _, err := rand.Read(token); err != nil {
+			return nil, err
+		}
 		return token, nil
 	}
 }
-- 
2.43.0


From 24a2cf68d9f6381a74cb7dbea429bb4d1974b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 34/68] fix: report a failure to derive the access key of a
 recipient

---
 unidentifiedAccess/unidentifiedAccess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index c74e3e1..d78807b 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -133,6 +133,9 @@ func GetAccessForUUID(recipent contacts.Contact) (*UnidentifiedAccessPair, error
 		return nil, err
 	}
 	theirUnidentifiedAccessKey, err := GetTargetUnidentifiedAccessKey(recipent)
+	if err != nil {
+		return nil, err
+	}
 
 	return &UnidentifiedAccessPair{
 		TargetUnidentifiedAccess: UnidentifiedAccess{
-- 
2.43.0


From 2d7859f00798e51d1536a8343d287c1919c2a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 35/68] fix: use the built-in root certificate when the
 configured one cannot be read

---
 rootCa/rootca.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rootCa/rootca.go b/rootCa/rootca.go
index 658a943..0daeb19 100644
--- a/rootCa/rootca.go
+++ b/rootCa/rootca.go
@@ -84,9 +84,9 @@ func SetupCA(rootca string) {
 		b, err := os.ReadFile(rootca)
 		if err != nil {
 			log.Error(err)
-			return
+		} else {
+			pem = b
 		}
-		pem = b
 	}
 
 	RootCA = x509.NewCertPool()
-- 
2.43.0


From d8ac75a271aaa9c68040ae624e7f72a42ef00e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 36/68] fix: be ready for the answer of crayfish before sending
 the request

---
 crayfish/avatar.go   | 2 +-
 crayfish/envelope.go | 2 +-
 crayfish/register.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 6893154..63bdbc2 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -34,8 +34,8 @@ func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] avatar send")
-	c.wsconn.send <- m
 	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
+	c.wsconn.send <- m
 	response := <-c.receiveChannel
 	log.Debugf("[textsecure-crayfish-ws] avatar recieved an response")
 	rm, err := json.Marshal(response.Message)
diff --git a/crayfish/envelope.go b/crayfish/envelope.go
index b7c2833..a224377 100644
--- a/crayfish/envelope.go
+++ b/crayfish/envelope.go
@@ -31,8 +31,8 @@ func (c *CrayfishInstance) HandleEnvelope(msg []byte) (*CrayfishWebSocketRespons
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope send")
-	c.wsconn.send <- m
 	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
+	c.wsconn.send <- m
 	response := <-c.receiveChannel
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope recieved an response")
 	rm, err := json.Marshal(response.Message)
diff --git a/crayfish/register.go b/crayfish/register.go
index ae8fddc..b7c90b3 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -69,8 +69,8 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send verification")
-	c.wsconn.send <- mv
 	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
+	c.wsconn.send <- mv
 	response := <-c.receiveChannel
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
-- 
2.43.0


From 325c75dec4db74a6c8bbdbfc191ab2f240a93e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 37/68] fix: refuse empty and short input to zkgroup instead of
 panicking

---
 groupsv2/createGroupChange.go |  4 ++--
 groupsv2/decrypt.go           | 23 ++++++++++++++---------
 groupsv2/groupActions.go      |  4 ++--
 groupsv2/groupValidator.go    |  3 +++
 groupsv2/groupsv2.go          |  4 ++--
 groupsv2/groupsv2api.go       |  2 +-
 groupsv2/helpers.go           | 25 ++++++++++++++++++++++++-
 profiles/profile.go           |  5 ++++-
 8 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index a7c1da7..072dd30 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -73,7 +73,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 		return err
 	}
 
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 	if err != nil {
 		return err
 	}
@@ -110,7 +110,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 }
 func (g *GroupV2) EncryptUUID(uuid []byte) ([]byte, error) {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 1b3df34..89f7713 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -1,6 +1,7 @@
 package groupsv2
 
 import (
+	"errors"
 	"strings"
 	"unicode"
 
@@ -23,7 +24,7 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	log.Debugln("[textsecure][groupsv2] decrypt group")
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
@@ -40,7 +41,7 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	}
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
-	title, err := g.cipher.DecryptBlob(g.GroupContext.GetTitle())
+	title, err := decryptBlob(g.cipher, g.GroupContext.GetTitle())
 	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
 	if err != nil {
 		return nil, err
@@ -65,7 +66,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 	var err error
 	decryptedMember := &signalservice.DecryptedMember{}
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
@@ -80,8 +81,9 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
-
+		if len(member.GetProfileKey()) != 0 {
+			decryptedMember.ProfileKey, _ = g.cipher.DecryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
+		}
 	} else {
 		//TODO: check valid presentation
 		profileKeyCredentialPresentation, err := zkgroup.NewAuthCredentialPresentation(member.GetPresentation())
@@ -112,12 +114,15 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 
 func (g *GroupV2) decryptUUID(uuid []byte) ([]byte, error) {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
 		g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 	}
+	if len(uuid) == 0 {
+		return nil, errors.New("encrypted uuid is empty")
+	}
 	return g.cipher.DecryptUUID(uuid)
 }
 
@@ -127,11 +132,11 @@ func (g *GroupV2) decryptPendingMembers(pendingMembers []*signalservice.GroupCha
 		added := pendingMember.GetAdded()
 		member := added.GetMember()
 		uuidCipherText := member.GetUserId()
-		uuid, err := g.cipher.DecryptUUID(uuidCipherText)
+		uuid, err := g.decryptUUID(uuidCipherText)
 		if err != nil {
 			log.Errorln(err)
 		}
-		addedByUuid, err := g.cipher.DecryptUUID(added.GetAddedByUserId())
+		addedByUuid, err := g.decryptUUID(added.GetAddedByUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
@@ -153,7 +158,7 @@ func (g *GroupV2) decryptDeletePendingMembers(deletedPendingMembers []*signalser
 	pendingMembersRemoval := []*signalservice.DecryptedPendingMemberRemoval{}
 	for _, deletedPendingMember := range deletedPendingMembers {
 
-		uuid, err := g.cipher.DecryptUUID(deletedPendingMember.DeletedUserId)
+		uuid, err := g.decryptUUID(deletedPendingMember.DeletedUserId)
 		if err != nil {
 			log.Errorln(err)
 		}
diff --git a/groupsv2/groupActions.go b/groupsv2/groupActions.go
index b54cacb..76325b8 100644
--- a/groupsv2/groupActions.go
+++ b/groupsv2/groupActions.go
@@ -10,7 +10,7 @@ import (
 func (g *GroupV2) decryptGroupJoinInfo(groupJoinInfo *signalservice.GroupJoinInfo, groupSecretParams zkgroup.GroupSecretParams) (*signalservice.DecryptedGroupJoinInfo, error) {
 	decryptedGroupJoinInfo := new(signalservice.DecryptedGroupJoinInfo)
 	clientZkGroupCipher := zkgroup.NewClientZkGroupCipher(groupSecretParams)
-	title, err := clientZkGroupCipher.DecryptBlob(groupJoinInfo.GetTitle())
+	title, err := decryptBlob(clientZkGroupCipher, groupJoinInfo.GetTitle())
 	if err != nil {
 		return nil, err
 	}
@@ -46,7 +46,7 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		Revision: groupActions.GetRevision(),
 	}
 	if groupActions.SourceUuid != nil {
-		uuid, err := g.cipher.DecryptUUID(groupActions.SourceUuid)
+		uuid, err := g.decryptUUID(groupActions.SourceUuid)
 		log.Debugln("[textsecure][groupsv2] SourceUuid", idToHex(uuid), err)
 	}
 	log.Debugln("[textsecure][groupsv2] Revision", groupActions.Revision)
diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 06079a0..4775600 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -347,6 +347,9 @@ func (g *GroupValidator) ValidateMember(group *GroupV2, member *signalservice.Me
 		log.Errorln("[textsecure] groupsv2-validator 2.Missing presentation")
 		return nil, errors.New("2.Missing presentation")
 	}
+	if len(publicKey) == 0 {
+		return nil, errors.New("missing public parameters")
+	}
 	var publicParams zkgroup.GroupPublicParams = publicKey
 	profileKeyCredentialPresentation, err := zkgroup.NewProfileKeyCredentialPresentation(member.Presentation)
 	if err != nil {
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index cb4148d..17c6e44 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -131,7 +131,7 @@ func uuidToByte(id string) []byte {
 	return s.Bytes()
 }
 func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte) (*signalservice.DecryptedGroupJoinInfo, error) {
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(masterKey)
+	groupSecretParams, err := newGroupSecretParams(masterKey)
 	if err != nil {
 		return nil, err
 	}
@@ -164,7 +164,7 @@ func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte
 }
 func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer")
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 	if err != nil {
 		return nil, err
 	}
diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 7e76822..d8ac8c8 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -20,7 +20,7 @@ func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Autho
 	if group == nil {
 		return nil, fmt.Errorf("group not found")
 	}
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(group.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(group.MasterKey)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup", err.Error())
 		return nil, err
diff --git a/groupsv2/helpers.go b/groupsv2/helpers.go
index 9619ac4..18459a5 100644
--- a/groupsv2/helpers.go
+++ b/groupsv2/helpers.go
@@ -1,6 +1,8 @@
 package groupsv2
 
 import (
+	"errors"
+
 	zkgroup "github.com/nanu-c/zkgroup"
 	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/helpers"
@@ -40,7 +42,7 @@ func (g *GroupV2) CheckJoinStatus() error {
 
 func (g *GroupV2) checkCipher() error {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return err
 		}
@@ -48,3 +50,24 @@ func (g *GroupV2) checkCipher() error {
 	}
 	return nil
 }
+
+// newGroupSecretParams derives the secrets of a group from its master key.
+// zkgroup panics on empty input.
+func newGroupSecretParams(masterKey []byte) (zkgroup.GroupSecretParams, error) {
+	if len(masterKey) == 0 {
+		return nil, errors.New("group master key is empty")
+	}
+	return zkgroup.NewGroupSecretParams(masterKey)
+}
+
+// blobOverhead is what an encrypted blob is longer than its padded plaintext.
+const blobOverhead = 29
+
+// decryptBlob decrypts a group attribute. zkgroup panics on input too short to
+// be one.
+func decryptBlob(cipher *zkgroup.ClientZkGroupCipher, ciphertext []byte) ([]byte, error) {
+	if len(ciphertext) <= blobOverhead {
+		return nil, errors.New("encrypted group attribute is too short")
+	}
+	return cipher.DecryptBlob(ciphertext)
+}
diff --git a/profiles/profile.go b/profiles/profile.go
index 07826e7..28f5a01 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -56,6 +56,9 @@ func uuidToByte(id string) []byte {
 // UpdateProfile ...
 func UpdateProfile(profileKey []byte, uuid, name string) error {
 	log.Debugln("[textsecure] UpdateProfile", uuid, name)
+	if len(profileKey) == 0 {
+		return errors.New("profileKey is empty")
+	}
 	uuidByte := uuidToByte(uuid)
 
 	profile := ProfileSettings{}
@@ -267,7 +270,7 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 		}
 	}
 	log.Debugf("[textsecure] GetProfileAndCredential profile %+v", profile)
-	if profile.Credential == nil {
+	if len(profile.Credential) == 0 {
 		log.Debugf("[textsecure] GetProfileAndCredential profile %+v", profile)
 		return nil, errors.New("profile credential is empty")
 	}
-- 
2.43.0


From 5e5d245abd29a9179aa1c9bb256a7d519184c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 38/68] fix: act on a group change only with a verified server
 signature

---
 groupsv2/groupsv2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 17c6e44..ff182d0 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -283,12 +283,17 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		err := proto.Unmarshal(groupContext.GroupChange, groupChange)
 		if err != nil {
 			log.Errorln(err)
+			return nil, err
+		}
+		if len(groupChange.GetActions()) == 0 || len(groupChange.GetServerSignature()) == 0 {
+			return nil, fmt.Errorf("group change without actions or server signature")
 		}
 		// verify server signature
 		zkGroupServerPublicParams, _ := base64.StdEncoding.DecodeString(config.ZKGROUP_SERVER_PUBLIC_PARAMS)
 		serverPublicParams, err := zkgroup.NewServerPublicParams(zkGroupServerPublicParams)
 		if err != nil {
 			log.Errorln("[textsecure][groupsv2] server public params", err)
+			return nil, err
 		} else {
 			if len(groupChange.GetActions()) != 0 {
 				err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
@@ -312,6 +317,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		err = proto.Unmarshal(groupChange.Actions, groupActions)
 		if err != nil {
 			log.Errorln(err)
+			return nil, err
 		}
 		decryptedGroupChange := group.decryptGroupChangeActions(groupActions)
 		handleGroupChangesForGroup(decryptedGroupChange, hexid)
-- 
2.43.0


From 9cefc8c46a258a74f688adfa789765e65346df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 39/68] fix: deliver a message the legacy session could decrypt

---
 textsecure.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index e70bbd7..8cb50ab 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -624,8 +624,8 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 			// try the legacy way
 			log.Infof("[textsecure] Incoming WhisperMessage try legacy decrypting")
 
-			recid, err := recID(env.GetSourceUuid())
-			if err != nil {
+			recid, idErr := recID(env.GetSourceUuid())
+			if idErr != nil {
 				recid = env.GetSourceUuid()
 			}
 			sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
-- 
2.43.0


From a442dcba677ddb413750c6568907fde925f43c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 40/68] fix: call RegistrationDone only when it is set, and
 once

---
 textsecure.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 8cb50ab..f90fe9e 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -321,7 +321,9 @@ func Setup(c *Client) error {
 		return err
 	}
 
-	client.RegistrationDone()
+	if client.RegistrationDone != nil {
+		client.RegistrationDone()
+	}
 	rootCa.SetupCA(config.ConfigFile.RootCA)
 	transport.SetupTransporter(config.ConfigFile.Server, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupCDNTransporter(SIGNAL_CDN2_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
@@ -488,7 +490,6 @@ func registerDevice() error {
 		return err
 	}
 
-	client.RegistrationDone()
 	if client.RegistrationDone != nil {
 		log.Infoln("[textsecure] RegistrationDone")
 
-- 
2.43.0


From fa61f45d58004b8824c5f006e8947435754feea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 41/68] fix: hand call messages to CallMessageHandler

---
 handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 979d54b..95e1066 100644
--- a/handler.go
+++ b/handler.go
@@ -149,7 +149,9 @@ func handleCallMessage(src string, srcUUID string, timestamp uint64, cm *signals
 		timestamp:  timestamp,
 	}
 
-	if client.MessageHandler != nil {
+	if client.CallMessageHandler != nil {
+		client.CallMessageHandler(msg)
+	} else if client.MessageHandler != nil {
 		client.MessageHandler(msg)
 	}
 	return nil
-- 
2.43.0


From 527c181d4126f41a5e7c6f2a3871aa02024a9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 42/68] fix: accept synchronisation messages only from the own
 account

---
 sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync.go b/sync.go
index 08272ba..463f299 100644
--- a/sync.go
+++ b/sync.go
@@ -3,6 +3,7 @@ package textsecure
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"regexp"
 
@@ -17,6 +18,9 @@ import (
 // handleSyncMessage handles an incoming SyncMessage.
 func handleSyncMessage(src string, srcUUID string, timestamp uint64, sm *signalservice.SyncMessage) error {
 	log.Debugf("[textsecure] SyncMessage recieved at %d", timestamp)
+	if srcUUID == "" || srcUUID != config.ConfigFile.UUID {
+		return errors.New("[textsecure] SyncMessage not sent by our own account")
+	}
 	if sm.GetSent() != nil {
 		log.Debugln("[textsecure] SyncMessage getSent")
 		return handleSyncSent(sm.GetSent(), timestamp)
-- 
2.43.0


From 3f78f98ab9e4287e3cca12cb68c4a61a934fe379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 43/68] fix: test the membership that was last determined
 before sending to a group

The membership was tested before the group was fetched, so the answer of the
server, which may say that the user has left or was only invited, was not looked
at, and an error in determining the membership was ignored.
---
 groups.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/groups.go b/groups.go
index a284319..daab5c9 100644
--- a/groups.go
+++ b/groups.go
@@ -212,20 +212,23 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 	if g == nil {
 		return 0, fmt.Errorf("group not found %s", hexid)
 	}
-	g.CheckJoinStatus()
 	if g == nil {
 		log.Infoln("[textsecure] sendGroupv2Helper unknown group id")
 		return 0, UnknownGroupIDError{hexid}
 	}
-	if g.JoinStatus != groupsV2.GroupV2JoinsStatusMember {
-		return 0, fmt.Errorf("Sending messages to a invited group is not allowed.")
-	}
 	if g.DecryptedGroup == nil {
 		err = g.UpdateGroupFromServer()
 		if err != nil {
 			return 0, err
 		}
 	}
+	err = g.CheckJoinStatus()
+	if err != nil {
+		return 0, err
+	}
+	if g.JoinStatus != groupsV2.GroupV2JoinsStatusMember {
+		return 0, fmt.Errorf("Sending messages to a invited group is not allowed.")
+	}
 	if len(g.DecryptedGroup.Members) == 0 {
 		return 0, fmt.Errorf("[textsecure] sendGroupV2Helper empty members list")
 	}
-- 
2.43.0


From 5f66f89231e0b9a0e574ff7de0a5125b2d3a0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 44/68] fix: do not record the user as a member of a group that
 could not be fetched

The status of a group first seen in a message was left zero, which reads as
full membership, when its state could not be fetched from the server.
---
 groupsv2/groupsv2.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index ff182d0..cf63e16 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -261,6 +261,8 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			MasterKey: groupContext.GetMasterKey(),
 			Hexid:     hexid,
 			Revision:  groupContext.GetRevision(),
+			// until the server has told otherwise
+			JoinStatus: GroupV2JoinsStatusInvite,
 		}
 		// TODO: get members from server
 		groupsV2[hexid] = group
-- 
2.43.0


From 976b9d82ac465ae8e012087475feed247e8fcc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 45/68] fix: give the receiving chain of a new session the key
 of the agreement

---
 axolotl/ratchet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/ratchet.go b/axolotl/ratchet.go
index 9a0d29e..49585a3 100644
--- a/axolotl/ratchet.go
+++ b/axolotl/ratchet.go
@@ -198,7 +198,7 @@ func initializeSenderSession(ss *sessionState, version byte, parameters aliceAxo
 		return err
 	}
 
-	ss.addReceiverChain(parameters.TheirRatchetKey, &sendingChain.chainKey)
+	ss.addReceiverChain(parameters.TheirRatchetKey, &dk.chainKey)
 	ss.setSenderChain(sendingRatchetKey, &sendingChain.chainKey)
 	ss.setRootKey(&sendingChain.rootKey)
 
-- 
2.43.0


From 874df1e19c8fb7ae4ad7c4f7f54a40908ee0f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 46/68] fix: use a one-time pre-key only together with its id

---
 axolotl/session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index 702a28f..15a3ba5 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -466,6 +466,10 @@ func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
 	theirSignedPreKey := pkb.SignedPreKeyPublic
 	theirOneTimePreKey := pkb.PreKeyPublic
 	theirOneTimePreKeyID := pkb.PreKeyID
+	if theirOneTimePreKey == nil || theirOneTimePreKeyID == 0 {
+		// the recipient takes part with a one-time key only if it is told which one
+		theirOneTimePreKey, theirOneTimePreKeyID = nil, 0
+	}
 
 	ourIdentityKey, err := sb.identityStore.GetIdentityKeyPair()
 	if err != nil {
-- 
2.43.0


From b5a4f6ae1b5b3a91f19f9708c3fe4c496164fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 47/68] fix: name a one-time pre-key in a first message only if
 there is one

---
 axolotl/messages.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/axolotl/messages.go b/axolotl/messages.go
index 240ba81..5866ad1 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -194,12 +194,14 @@ func newPreKeyWhisperMessage(messageVersion byte, registrationID, preKeyID, sign
 
 	ppkwm := &protobuf.PreKeySignalMessage{
 		RegistrationId: &registrationID,
-		PreKeyId:       &preKeyID,
 		SignedPreKeyId: &signedPreKeyID,
 		BaseKey:        baseKey.Serialize(),
 		IdentityKey:    identityKey.Serialize(),
 		Message:        wm.serialize(),
 	}
+	if preKeyID != 0 {
+		ppkwm.PreKeyId = &preKeyID
+	}
 
 	message, err := proto.Marshal(ppkwm)
 	if err != nil {
-- 
2.43.0


From adbada8e944e188677f02906f1b61fe0fd46979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 48/68] fix: do not log the profile key of an avatar

---
 crayfish/avatar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 63bdbc2..09510aa 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -8,7 +8,7 @@ import (
 )
 
 func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
-	log.Debugln("[textsecure-crayfish-ws] DecryptAvatar", key)
+	log.Debugln("[textsecure-crayfish-ws] DecryptAvatar")
 	messageType := CrayfishWebSocketMessage_REQUEST
 	requestType := CrayfishWebSocketRequestMessageTyp_DECRYPT_AVATAR
 	sEnc := b64.StdEncoding.EncodeToString(avatar)
-- 
2.43.0


From 3466da620fda0823e94f398c50b915b012195c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 49/68] fix: do not log what the helper process answers

---
 crayfish/avatar.go   | 2 +-
 crayfish/backend.go  | 2 +-
 crayfish/envelope.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 09510aa..997e36e 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -40,7 +40,7 @@ func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
 	log.Debugf("[textsecure-crayfish-ws] avatar recieved an response")
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
-		log.Errorln("[textsecure-crayfish-ws] failed to marshal response message", response.Message)
+		log.Errorln("[textsecure-crayfish-ws] failed to marshal response message", err)
 		return nil, err
 	}
 	var data CrayfishWebSocketResponse_AVATAR_MESSAGE
diff --git a/crayfish/backend.go b/crayfish/backend.go
index c30b9b4..7744075 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -333,7 +333,7 @@ func (c *CrayfishInstance) StartWebsocket() error {
 			return err
 		}
 		if csm.Type == nil {
-			log.Errorln("[textsecure-crayfish-ws] Websocket message type is nil", string(bmsg))
+			log.Errorln("[textsecure-crayfish-ws] Websocket message type is nil")
 		} else if *csm.Type == CrayfishWebSocketMessage_REQUEST {
 			err = handleCrayfishRequestMessage(csm.Request)
 			if err != nil {
diff --git a/crayfish/envelope.go b/crayfish/envelope.go
index a224377..5d9fece 100644
--- a/crayfish/envelope.go
+++ b/crayfish/envelope.go
@@ -37,7 +37,7 @@ func (c *CrayfishInstance) HandleEnvelope(msg []byte) (*CrayfishWebSocketRespons
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope recieved an response")
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
-		log.Errorln("[textsecure-crayfish-ws] failed to marshal response message", response.Message)
+		log.Errorln("[textsecure-crayfish-ws] failed to marshal response message", err)
 		return nil, err
 	}
 	var data CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE
-- 
2.43.0


From b9cf7fe983769ca6eee1495718128d810a1bd946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 50/68] fix: do not log the verification code

---
 crayfish/register.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crayfish/register.go b/crayfish/register.go
index b7c90b3..d6d9f1a 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -2,6 +2,7 @@ package crayfish
 
 import (
 	"encoding/json"
+	"errors"
 	"strconv"
 
 	uuid "github.com/satori/go.uuid"
@@ -43,7 +44,8 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 	code string) (*CrayfishRegistration, error) {
 	codeInt, err := strconv.ParseUint(code, 10, 32)
 	if err != nil {
-		return nil, err
+		// the error of the parser quotes the code
+		return nil, errors.New("verification code is not a number")
 	}
 	messageType := CrayfishWebSocketMessage_REQUEST
 	var signalingKey [52]byte
-- 
2.43.0


From 3f5262304b89093beedccd5582460546b2256ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 51/68] fix: do not log decrypted group titles

---
 groupsv2/decrypt.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 89f7713..c4148c2 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -42,7 +42,7 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
 	title, err := decryptBlob(g.cipher, g.GroupContext.GetTitle())
-	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
+	log.Debugln("[textsecure][groupsv2] decrypt group title")
 	if err != nil {
 		return nil, err
 	}
@@ -52,8 +52,6 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 		}
 		return -1
 	}, string(title))
-	log.Debugln("[textsecure][groupsv2] decrypt group title", cleanTitle)
-
 	decryptedGroup.Title = cleanTitle
 	decryptedGroup.Revision = g.GroupContext.Revision
 	decryptedGroup.Avatar = g.GroupContext.GetAvatar()
-- 
2.43.0


From 6f800ddfac45e108f7bf73d8a3a72d6ba97466a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 52/68] fix: do not log group actions with profile keys

---
 groupsv2/createGroupChange.go | 2 +-
 groupsv2/groupModify.go       | 5 -----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 072dd30..9022b3b 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -43,7 +43,7 @@ func CreateGroupChangeFromGroupActions(actions []byte) []byte {
 		ServerSignature: nil,
 		ChangeEpoch:     HIGHEST_KNOWN_EPOCH,
 	}
-	log.Debugln(groupChange)
+	log.Debugln("[textsecure][groupsv2] create group change, epoch", groupChange.ChangeEpoch)
 	return []byte{}
 
 }
diff --git a/groupsv2/groupModify.go b/groupsv2/groupModify.go
index f97084b..af98ee4 100644
--- a/groupsv2/groupModify.go
+++ b/groupsv2/groupModify.go
@@ -8,7 +8,6 @@ import (
 	"github.com/signal-golang/textsecure/entities"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/utils"
-	log "github.com/sirupsen/logrus"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -35,10 +34,6 @@ func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams
 		}
 	}
 
-	log.Infoln("[textsecure]=====================submittedActions=============")
-	log.Infoln("[textsecure]", submittedActions.String())
-	log.Infoln("[textsecure] =====================submittedActions=============")
-
 	//submittedActions.AddMembers
 	err := groupValidator.ValidateAddMember(user, inviteLinkPassword, g, submittedActions.AddMembers, g.MasterKey) //?
 	if err != nil {
-- 
2.43.0


From c66ef709db9e3d1348fe8f05aeefb213e4efa8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 53/68] fix: do not log decrypted messages

---
 handler.go   | 5 ++---
 websocket.go | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/handler.go b/handler.go
index 95e1066..84039c0 100644
--- a/handler.go
+++ b/handler.go
@@ -30,12 +30,11 @@ func handleMessage(srcE164 string, srcUUID string, timestamp uint64, b []byte) e
 	} else if tm := content.GetTypingMessage(); tm != nil {
 		return handleTypingMessage(srcE164, srcUUID, timestamp, tm)
 	} else if nm := content.GetNullMessage(); nm != nil {
-		log.Errorln("[textsecure] Nullmessage content received", content)
+		log.Errorln("[textsecure] Nullmessage content received")
 		return nil
 	}
 	//FIXME get the right content
-	// log.Errorf(content)
-	log.Errorln("[textsecure] Unknown message content received", content)
+	log.Errorln("[textsecure] Unknown message content received")
 	return nil
 }
 
diff --git a/websocket.go b/websocket.go
index 1abafb1..cc090a7 100644
--- a/websocket.go
+++ b/websocket.go
@@ -198,7 +198,7 @@ func StartListening() error {
 						"error": err,
 					}).Error("[textsecure] Failed to create envelope")
 				} else if err = handleReceivedMessage(env); err != nil {
-					log.Debugf("[textsecure] Failed to handle received message: %+v", env)
+					log.Debugf("[textsecure] Failed to handle received message of type %s", env.GetType())
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure] Failed to handle received message")
-- 
2.43.0


From 7a7c44ac05b1ae8b520bbe03cfec99ea88b5ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 54/68] fix: do not log the members and the avatar of a group

---
 groups.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groups.go b/groups.go
index daab5c9..79880f2 100644
--- a/groups.go
+++ b/groups.go
@@ -276,7 +276,7 @@ func sendGroupHelper(hexid string, msg string, attachmentPointer *attachmentPoin
 			log.Errorln("[textsecure] sendGroupHelper", err)
 		}
 		setupGroups()
-		log.Infoln("[textsecure] sendGroupHelper", g)
+		log.Infoln("[textsecure] sendGroupHelper", g.Hexid)
 		RequestGroupInfo(g)
 		return 0, fmt.Errorf("[textsecure] sendGroupHelper: need someone in the group to send you a message")
 	}
-- 
2.43.0


From b227976bc7b04b501a345908465102f92b16d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 55/68] fix: do not log the signaling key and the registration
 lock credentials

---
 server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index bb75159..c5cf90f 100644
--- a/server.go
+++ b/server.go
@@ -245,7 +245,7 @@ func verifyCode(code string, pin *string, credentials *transport.AuthCredentials
 		vd.Pin = pin
 		vd.BasicStorageCredentials = *credentials
 	}
-	log.Debugln("[textsecure] verifyCode", vd)
+	log.Debugln("[textsecure] verifyCode")
 	body, err := json.Marshal(vd)
 	if err != nil {
 		return nil, err
@@ -261,13 +261,13 @@ func verifyCode(code string, pin *string, credentials *transport.AuthCredentials
 			buf := new(bytes.Buffer)
 			buf.ReadFrom(resp.Body)
 			newStr := buf.String()
-			log.Errorln("[textsecure] verifyCode", newStr)
+			log.Errorln("[textsecure] verifyCode registration lock")
 			v := RegistrationLockFailure{}
 			err := json.Unmarshal([]byte(newStr), &v)
 			if err != nil {
 				return nil, err
 			}
-			return &v.Credentials, fmt.Errorf(fmt.Sprintf("RegistrationLockFailure \n Time to wait \n %s", newStr))
+			return &v.Credentials, fmt.Errorf("RegistrationLockFailure \n Time to wait \n %d", v.TimeRemaining)
 		} else {
 			// todo extract uuid from resp.Body
 			return nil, resp
-- 
2.43.0


From f0d33a38e061680eaf359825601f575f9c6e8e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 56/68] fix: do not log profile credentials

---
 profiles/profile.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 28f5a01..05dc102 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -269,9 +269,8 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 			return nil, err
 		}
 	}
-	log.Debugf("[textsecure] GetProfileAndCredential profile %+v", profile)
 	if len(profile.Credential) == 0 {
-		log.Debugf("[textsecure] GetProfileAndCredential profile %+v", profile)
+		log.Debugln("[textsecure] GetProfileAndCredential profile without credential")
 		return nil, errors.New("profile credential is empty")
 	}
 	response := zkgroup.ProfileKeyCredentialResponse(profile.Credential)
-- 
2.43.0


From 4cc3f8042640790e6634c5f1b5579dd5b7a8f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 57/68] fix: the text of a key pair does not contain the
 private key

---
 axolotl/keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/keys.go b/axolotl/keys.go
index d00fc36..ede30bb 100644
--- a/axolotl/keys.go
+++ b/axolotl/keys.go
@@ -96,7 +96,7 @@ func MakeECKeyPair(privateKey, publicKey []byte) *ECKeyPair {
 }
 
 func (kp *ECKeyPair) String() string {
-	return fmt.Sprintf("Public key : % 0X\nPrivate key: % 0X\n", kp.PublicKey.Key(), kp.PrivateKey.Key())
+	return fmt.Sprintf("Public key : % 0X\n", kp.PublicKey.Key())
 }
 
 // IdentityKey represents a Curve25519 public key used as a public identity.
-- 
2.43.0


From f5587067813cab412cd6fdc762c6cb6d05190d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 58/68] fix: do not log the master keys of groups

---
 groups.go            |  8 ++++----
 groupsv2/groupsv2.go | 22 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/groups.go b/groups.go
index 79880f2..ed2df73 100644
--- a/groups.go
+++ b/groups.go
@@ -156,7 +156,7 @@ type UnknownGroupIDError struct {
 }
 
 func (err UnknownGroupIDError) Error() string {
-	return fmt.Sprintf("unknown group ID %s", err.id)
+	return "unknown group ID"
 }
 
 // quitGroup removes a quitting member from the local group state.
@@ -184,7 +184,7 @@ func handleGroupsV2(src string, dm *signalservice.DataMessage) (*groupsv2.GroupV
 		return nil, nil
 	}
 	hexid := idToHex(gr.GetMasterKey())
-	log.Debugln("[textsecure] handle groupv2", hexid)
+	log.Debugln("[textsecure] handle groupv2")
 	// TODO handle group changes
 
 	return groupsv2.FindGroup(hexid), nil
@@ -210,7 +210,7 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 	var err error
 	g := groupsV2.FindGroup(hexid)
 	if g == nil {
-		return 0, fmt.Errorf("group not found %s", hexid)
+		return 0, fmt.Errorf("group not found")
 	}
 	if g == nil {
 		log.Infoln("[textsecure] sendGroupv2Helper unknown group id")
@@ -508,7 +508,7 @@ func LeaveGroup(hexid string) error {
 }
 
 func JoinGroup(hexID string) (*groupsv2.GroupV2, error) {
-	log.Debugln("[textsecure] join group", hexID)
+	log.Debugln("[textsecure] join group")
 	g := groupsv2.FindGroup(hexID)
 	if g == nil {
 		return nil, UnknownGroupIDError{hexID}
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index cf63e16..959bc51 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -3,6 +3,7 @@ package groupsv2
 import (
 	"encoding/base64"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -307,7 +308,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			}
 		}
 
-		log.Debugln("[textsecure][groupsv2] handle group action ", hexid)
+		log.Debugln("[textsecure][groupsv2] handle group action")
 
 		if err != nil {
 			log.Errorln("[textsecure][groupsv2] handle groupv2", err)
@@ -368,8 +369,12 @@ func saveGroupV2(hexid string) error {
 	if err != nil {
 		return err
 	}
-	log.Debugln("[textsecure][groupv2] save group", idToPath(hexid))
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	log.Debugln("[textsecure][groupv2] save group")
+	err = ioutil.WriteFile(idToPath(hexid), b, 0600)
+	if err != nil {
+		return fmt.Errorf("could not save group: %w", withoutPath(err))
+	}
+	return nil
 }
 
 // loadGroup loads a group's state from a file.
@@ -377,7 +382,7 @@ func loadGroupV2(hexid string) (*GroupV2, error) {
 	path := idToPath(hexid)
 	b, err := os.ReadFile(path)
 	if err != nil {
-		return nil, fmt.Errorf("group not found %s %s", err.Error(), path)
+		return nil, fmt.Errorf("group not found %s", withoutPath(err))
 	}
 
 	group := &GroupV2{}
@@ -389,6 +394,15 @@ func loadGroupV2(hexid string) (*GroupV2, error) {
 	return group, nil
 }
 
+// withoutPath removes the file name from an error, as the names of the group
+// files are the master keys of the groups.
+func withoutPath(err error) error {
+	if pathErr, ok := err.(*os.PathError); ok {
+		return pathErr.Err
+	}
+	return errors.New("group file not accessible")
+}
+
 // idToPath returns the path of the file for storing a group's state
 func idToPath(hexid string) string {
 	return filepath.Join(groupV2Dir, hexid)
-- 
2.43.0


From 939ffa306459923965812ded9798e8adeb380a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 59/68] fix: do not log the password when the server address is
 malformed

---
 websocket.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/websocket.go b/websocket.go
index cc090a7..abe2c93 100644
--- a/websocket.go
+++ b/websocket.go
@@ -48,11 +48,13 @@ func (c *Conn) connect(originURL, user, pass string) error {
 	v.Set("login", user)
 	v.Set("password", pass)
 	params := v.Encode()
-	wsURL := strings.Replace(originURL, "http", "ws", 1) + "?" + params
+	wsURL := strings.Replace(originURL, "http", "ws", 1)
 	u, err := url.Parse(wsURL)
 	if err != nil {
 		return err
 	}
+	// the error of the parser would quote the password
+	u.RawQuery = params
 
 	log.Debugf("[textsecure] Websocket Connecting to signal-server")
 	// log.Debugf("Websocket Connecting to %s with user %s and pass %s", originURL, user, pass)
-- 
2.43.0


From 428c1d33b5244ec3ba9403c08faec4435e808410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 60/68] fix: keep the files of sessions and identities in their
 directories

The addresses they are named after come from other parties and can contain
path separators.
---
 store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index 51c7f86..229a365 100644
--- a/store.go
+++ b/store.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -213,7 +214,7 @@ func (s *store) SetIdentityKeyPair(ikp *axolotl.IdentityKeyPair) error {
 }
 
 func (s *store) SaveIdentity(id string, key *axolotl.IdentityKey) error {
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
+	idkeyfile := filepath.Join(s.identityDir, "remote_"+url.PathEscape(id))
 	return s.writeFile(idkeyfile, key.Key()[:])
 }
 
@@ -223,7 +224,7 @@ func (s *store) IsTrustedIdentity(id string, key *axolotl.IdentityKey) bool {
 		// more securely and with a better UI.
 		return true
 	}
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
+	idkeyfile := filepath.Join(s.identityDir, "remote_"+url.PathEscape(id))
 	// Trust on first use (TOFU)
 	if !exists(idkeyfile) {
 		return true
@@ -256,7 +257,7 @@ func ContactIdentityKey(id string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	idkeyfile := filepath.Join(s.identityDir, "remote_"+idClean)
+	idkeyfile := filepath.Join(s.identityDir, "remote_"+url.PathEscape(idClean))
 	if !exists(idkeyfile) {
 		return nil, UnknownContactError{id}
 	}
@@ -401,7 +402,7 @@ func (s *store) loadHTTPSignalingKey() ([]byte, error) {
 // Session store
 
 func (s *store) sessionFilePath(recipientID string, deviceID uint32) string {
-	return filepath.Join(s.sessionsDir, fmt.Sprintf("%s_%d", recipientID, deviceID))
+	return filepath.Join(s.sessionsDir, fmt.Sprintf("%s_%d", url.PathEscape(recipientID), deviceID))
 }
 
 func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
-- 
2.43.0


From 52a17d626e9c7a7d48a0504c72cc55ed20f17ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 61/68] fix: keep avatars in their directory

The server names the account in a profile.
---
 profiles/avatars.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 60546b9..83af9a9 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -3,6 +3,7 @@ package profiles
 import (
 	"fmt"
 	"io"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -52,7 +53,7 @@ func GetLocalAvatarPath(uuid string) (string, error) {
 			return "", err
 		}
 	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
+	avatarFile := filepath.Join(avatarsPath, url.PathEscape(uuid))
 	return avatarFile, nil
 }
 func GetLocalAvatar(uuid string) (io.ReadCloser, error) {
@@ -66,7 +67,7 @@ func GetLocalAvatar(uuid string) (io.ReadCloser, error) {
 			return nil, err
 		}
 	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
+	avatarFile := filepath.Join(avatarsPath, url.PathEscape(uuid))
 	f, err := os.Open(avatarFile)
 	if err != nil {
 		return nil, err
@@ -97,7 +98,7 @@ func saveLocalAvatar(uuid string, avatar []byte) error {
 			return err
 		}
 	}
-	avatarFile := filepath.Join(avatarsPath, uuid)
+	avatarFile := filepath.Join(avatarsPath, url.PathEscape(uuid))
 	log.Debugln("[textsecure] save avatar to ", avatarFile)
 	f, err := os.Create(avatarFile)
 	if err != nil {
-- 
2.43.0


From d2faff95175be5ff602f70dd36e3eac7c675d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 62/68] fix: keep the files of groups in their directories

---
 groups.go            | 5 +++--
 groupsv2/groupsv2.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/groups.go b/groups.go
index ed2df73..73839fa 100644
--- a/groups.go
+++ b/groups.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strings"
@@ -47,7 +48,7 @@ func idToHex(id []byte) string {
 
 // idToPath returns the path of the file for storing a group's state
 func idToPath(hexid string) string {
-	return filepath.Join(groupDir, hexid)
+	return filepath.Join(groupDir, url.PathEscape(hexid))
 }
 
 // FIXME: for now using unencrypted YAML files for group state,
@@ -82,7 +83,7 @@ func loadGroup(path string) error {
 
 // RemoveGroupKey removes the group key
 func RemoveGroupKey(hexid string) error {
-	err := os.Remove(config.ConfigFile.StorageDir + "/groups/" + hexid)
+	err := os.Remove(config.ConfigFile.StorageDir + "/groups/" + url.PathEscape(hexid))
 	if err != nil {
 		return err
 	}
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 959bc51..dc62774 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -405,7 +405,7 @@ func withoutPath(err error) error {
 
 // idToPath returns the path of the file for storing a group's state
 func idToPath(hexid string) string {
-	return filepath.Join(groupV2Dir, hexid)
+	return filepath.Join(groupV2Dir, url.PathEscape(hexid))
 }
 
 func basicAuth(username, password string) string {
-- 
2.43.0


From 60ee6869f1f739b728864a289452bef2d25d684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:08 +0000
Subject: [PATCH 63/68] fix: generated pre-key ids are never 0 nor that of the
 last resort key

---
 prekeys.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index 16b1794..ffd4661 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -82,7 +82,8 @@ var signedKey *axolotl.SignedPreKeyRecord
 var preKeyBatchSize = 100
 
 func getNextPreKeyID() uint32 {
-	return randID()
+	// 0 stands for no pre-key, and a batch must not reach the last resort key
+	return 1 + randID()%(lastResortPreKeyID-uint32(preKeyBatchSize))
 }
 
 func generatePreKeys() error {
@@ -106,7 +107,8 @@ func generatePreKeys() error {
 }
 
 func getNextSignedPreKeyID() uint32 {
-	return randID()
+	// messages for the signed pre-key 0 are taken for incomplete
+	return 1 + randID()%(lastResortPreKeyID-1)
 }
 
 func generateSignedPreKey() (*axolotl.SignedPreKeyRecord, error) {
-- 
2.43.0


From c2d20f885fa18800c825a2fc2cda5a075555eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 64/68] fix: a receipt for several messages reaches the client
 for each of them

---
 handler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 84039c0..4d8b211 100644
--- a/handler.go
+++ b/handler.go
@@ -60,7 +60,6 @@ func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *sign
 		source:     src,
 		sourceUUID: srcUUID,
 		message:    "sentReceiptMessage",
-		timestamp:  cm.GetTimestamp()[0],
 	}
 	if cm.GetType() == signalservice.ReceiptMessage_READ {
 		msg.message = "readReceiptMessage"
@@ -69,7 +68,11 @@ func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *sign
 		msg.message = "deliveryReceiptMessage"
 	}
 	if client.ReceiptMessageHandler != nil {
-		client.ReceiptMessageHandler(msg)
+		for _, sent := range cm.GetTimestamp() {
+			receipt := *msg
+			receipt.timestamp = sent
+			client.ReceiptMessageHandler(&receipt)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 332b13ba0a07ef277924c9cefd1ae5b0967d1aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 65/68] fix: show the contacts shared in messages sent from
 other devices

---
 contacts/contacts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index 950cb10..ef17b1e 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -157,7 +157,7 @@ func HandleContacts(src string, dm *signalservice.DataMessage) ([]*signalservice
 
 		log.Debugln("[textsecure] handle Contact", c.GetName())
 	}
-	return nil, nil
+	return cs, nil
 }
 
 func UpdateProfileKey(src string, profileKey []byte) error {
-- 
2.43.0


From b7b376ec1f2e89b5a374a771a8fa4763563210ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 66/68] fix: messages sent from other devices to an unknown
 group are shown in it

---
 groups.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/groups.go b/groups.go
index 73839fa..82382ff 100644
--- a/groups.go
+++ b/groups.go
@@ -188,7 +188,11 @@ func handleGroupsV2(src string, dm *signalservice.DataMessage) (*groupsv2.GroupV
 	log.Debugln("[textsecure] handle groupv2")
 	// TODO handle group changes
 
-	return groupsv2.FindGroup(hexid), nil
+	if group := groupsv2.FindGroup(hexid); group != nil {
+		return group, nil
+	}
+	// not known on this device yet
+	return groupsv2.HandleGroupsV2(src, dm)
 }
 
 type groupMessage struct {
-- 
2.43.0


From 2e4ec2288ab3c0298626176f6072246d9fc85f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 67/68] fix: do not store the own profile key for the
 recipients of sent messages

---
 sync.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 463f299..f837f40 100644
--- a/sync.go
+++ b/sync.go
@@ -96,9 +96,14 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		return fmt.Errorf("DataMessage was nil for SyncMessage_Sent")
 	}
 
-	flags, err := handleFlags(dest, dm)
-	if err != nil {
-		return err
+	flags := dm.GetFlags()
+	// the profile key in a message we sent is our own, not that of dest
+	if flags != uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE) {
+		var err error
+		flags, err = handleFlags(dest, dm)
+		if err != nil {
+			return err
+		}
 	}
 
 	atts, err := handleAttachments(dm)
-- 
2.43.0


From df6f9e5591a53d1d2c406c6c074ff08f01a3db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:11 +0000
Subject: [PATCH 68/68] fix: received attachments end without the padding of
 their sender

---
 attachments.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attachments.go b/attachments.go
index d6e9ac5..60a382f 100644
--- a/attachments.go
+++ b/attachments.go
@@ -131,6 +131,10 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 	if err != nil {
 		return nil, err
 	}
+	// what follows is padding
+	if size := a.GetSize(); size != 0 && uint64(size) < uint64(len(b)) {
+		b = b[:size]
+	}
 
 	// TODO: verify digest
 
-- 
2.43.0

