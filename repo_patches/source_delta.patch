From 7eedc8cdcd0c31fbbce6684038a9065c55ad9f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:22 +0000
Subject: [PATCH 01/38] fix: sign TO0 blob with the algorithm of the owner key

With a P-256 device and an RSA-3072 owner (or P-384 and RSA-2048) the to1d
signature was made with the device's hash and every rendezvous refused it.
---
 core/do/to0/req-to0-22-OwnerSign.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 86db877..7bfb351 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -78,9 +78,10 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 		return nil, nil, errors.New("OwnerSign22: Error extracting private key. " + err.Error())
 	}
 
-	sgType, err := fdoshared.GetDeviceSgType(lastOvEntryPubKeyPkType, deviceHashAlg)
-	if err != nil {
-		return nil, nil, errors.New("OwnerSign22: Error getting device SgType. " + err.Error())
+	// The owner signs with its own key, so the algorithm follows the owner key and not the device hash
+	sgType, ok := fdoshared.PkToSgType[lastOvEntryPubKeyPkType]
+	if !ok {
+		return nil, nil, fmt.Errorf("OwnerSign22: Unsupported owner public key type %d", lastOvEntryPubKeyPkType)
 	}
 
 	to1d, err := fdoshared.GenerateCoseSignature(to1dPayloadBytes, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, privateKeyInst, sgType)
-- 
2.43.0


From d14b6f2bdd5ef9002c728f29ca27309380897c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 02/38] fix: encode ECDH coordinates at full length in key
 exchange

Coordinates with a leading zero byte were written short, so about one
key exchange in 128 was refused by the peer's length check.
---
 core/shared/kex.crypto.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index a42017b..c3d7084 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -158,12 +158,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 32))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 32))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -192,12 +192,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, 48))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, 48))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
-- 
2.43.0


From ba41ad03011e9ae5e73cca451da9b2a79812916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 03/38] fix: refuse encrypted messages without algorithm or IV
 instead of crashing

---
 core/shared/enc.crypto.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 7009d77..5abc011 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -371,11 +371,14 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *innerProtected.Alg != int(algInfo.CryptoAlg) {
+	if innerProtected.Alg == nil || *innerProtected.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := inner.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or malformed IV")
+	}
 
 	block, err := aes.NewCipher(sek)
 	if err != nil {
@@ -490,11 +493,14 @@ func decryptEMB(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *protectedHeader.Alg != int(algInfo.CryptoAlg) {
+	if protectedHeader.Alg == nil || *protectedHeader.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := embInst.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or malformed IV")
+	}
 
 	block, err := aes.NewCipher(sevk)
 	if err != nil {
-- 
2.43.0


From 5a4ddcbad18b4f94014f52bee0041beec4612816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 04/38] fix: device refuses ProveOVHdr without owner key or
 nonce instead of crashing

---
 core/device/to2/req-to2-60-HelloDevice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 91e67c0..a48c19b 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -60,6 +60,10 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 
 	// Signature verification
 	probableOwnerPubKey := proveOVHdr61.Unprotected.CUPHOwnerPubKey
+	if probableOwnerPubKey == nil || proveOVHdr61.Unprotected.CUPHNonce == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 is missing CUPHOwnerPubKey or CUPHNonce")
+	}
+
 	err = fdoshared.VerifyCoseSignature(proveOVHdr61, *probableOwnerPubKey)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From faddc1d285736b757d909c354aa52ad71ea5e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 05/38] fix: owner refuses ProveDevice without EUPHNonce
 instead of crashing

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d188dcb..844acc3 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -81,6 +81,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if proveDevice64.Unprotected.EUPHNonce == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "ProveDevice64 is missing EUPHNonce", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	// EATPayload
 	var eatPayload fdoshared.EATPayloadBase
 	err = fdoshared.CborCust.Unmarshal(proveDevice64.Payload, &eatPayload)
-- 
2.43.0


From cf846570fbb82d0b5ed39c75159d70e7e0ab6383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 06/38] fix: unknown or expired session tokens are an error,
 not a nil session

Every handler that needs a session dereferenced the nil session it got for
an unknown or expired token and crashed without a reply.
---
 core/do/dbs/session.db.go | 2 +-
 core/rv/session.db.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 47dcc1a..0c7292a 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -131,7 +131,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("session entry does not exist")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a6d5173..37fbbca 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -86,7 +86,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("session entry does not exist")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
-- 
2.43.0


From efa9f42334ff266f48459edc9ecc6d1492b7cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 07/38] fix: updating a protocol session keeps its ten-minute
 expiry

UpdateSessionEntry stored the record without expiry, so an
ownership-transfer session never expired after its first step.
---
 core/do/dbs/session.db.go | 3 ++-
 core/rv/session.db.go     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 0c7292a..aaa57ba 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -110,7 +110,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10)
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index 37fbbca..d54b652 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -65,7 +65,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10)
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From ccbd3de7ae0ab0d0fae2cae05fd7c711f94870cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 08/38] fix: refuse key exchange values that are not curve
 points instead of crashing

---
 core/shared/kex.crypto.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index c3d7084..ccd0df5 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -283,6 +283,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
 
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange is not a point on the curve")
+		}
+
 		ownerX := kexA.XAKeyExchange[2:34]
 		ownerY := kexA.XAKeyExchange[36:68]
 		xaRandom := kexA.XAKeyExchange[70:86]
@@ -328,6 +332,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			Y:     new(big.Int).SetBytes(deviceY),
 		}
 
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange is not a point on the curve")
+		}
+
 		ownerX := kexA.XAKeyExchange[2:50]
 		ownerY := kexA.XAKeyExchange[52:100]
 		xaRandom := kexA.XAKeyExchange[102:150]
-- 
2.43.0


From 7490afd191046da6823e1fae3921f44bd2394b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 09/38] fix: refuse vouchers without device certificate chain
 hash instead of crashing

---
 core/shared/voucher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index 5af3094..af9dc13 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -71,6 +71,10 @@ func (h OwnershipVoucher) Validate() error {
 		return errors.New("OVDeviceInfo is empty")
 	}
 
+	if ovHeader.OVDevCertChainHash == nil {
+		return errors.New("OVDevCertChainHash is missing")
+	}
+
 	ovDevCertChainCert, err := ComputeOVDevCertChainHash(*h.OVDevCertChain, ovHeader.OVDevCertChainHash.Type)
 	if err != nil {
 		return errors.New("could not compute OVDevCertChain hash ")
-- 
2.43.0


From afc92cdefc6201af559e91adcb16567322f1feab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 10/38] fix: error messages name the request they answer

---
 core/do/to2/common.go                      | 4 ++--
 core/do/to2/listener-to2-64-ProveDevice.go | 2 +-
 core/rv/listener-to0.go                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 3761735..6ffe562 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -113,11 +113,11 @@ func (h *DoTo2) GetOwnerSIMs(guid fdoshared.FdoGuid) ([]fdoshared.ServiceInfoKV,
 }
 
 func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
-	if !fdoshared.CheckHeaders(w, r, fdoshared.TO2_64_PROVE_DEVICE) {
+	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error checking header!")
 	}
 
-	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
+	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, currentCmd)
 	if !headerIsOk {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error getting session header!")
 	}
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 844acc3..c4e5018 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -24,7 +24,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(session.PrivateKeyDER)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, fdoshared.TO2_60_HELLO_DEVICE, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
diff --git a/core/rv/listener-to0.go b/core/rv/listener-to0.go
index f1987b1..4bf9d57 100644
--- a/core/rv/listener-to0.go
+++ b/core/rv/listener-to0.go
@@ -109,7 +109,7 @@ func (h *RvTo0) Handle22OwnerSign(w http.ResponseWriter, r *http.Request) {
 	/* ----- Process Body ----- */
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_20_HELLO, "Failed to read body!", http.StatusBadRequest)
+		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_22_OWNER_SIGN, "Failed to read body!", http.StatusBadRequest)
 		return
 	}
 
-- 
2.43.0


From af712a8d04bb344d76f76b09dc3a7ad9390ed92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 11/38] fix: a device that carries on after an invalid reply
 gets a protocol error

The listener answered with an empty 200 response.
---
 core/do/to2/listener-to2-62-GetOVNextEntry.go         | 1 +
 core/do/to2/listener-to2-64-ProveDevice.go            | 1 +
 core/do/to2/listener-to2-66-DeviceServiceInfoReady.go | 1 +
 core/do/to2/listener-to2-68-DeviceServiceInfo.go      | 1 +
 core/do/to2/listener-to2-70-Done.go                   | 1 +
 5 files changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index ffb8e71..77bc474 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -45,6 +45,7 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index c4e5018..d2485d6 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -51,6 +51,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
diff --git a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
index a4cdc14..a9d1fa0 100644
--- a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
+++ b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
@@ -44,6 +44,7 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index 4bfdca6..999fd51 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -47,6 +47,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index de702bd..40245c7 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -45,6 +45,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		}
 
 		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
 	}
-- 
2.43.0


From 297f28ce0fa7cb0cb3830b007b94534a59d45a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 12/38] fix: an undecodable Done gets one error reply, not two

---
 core/do/to2/listener-to2-70-Done.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 40245c7..f517e80 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -58,12 +58,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-		if testcomListener != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
-		}
-
-		log.Println("Done70: Error decoding request..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode body!", http.StatusBadRequest)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
-- 
2.43.0


From a3098d7e3eee109b90bee047a403d617496753d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 13/38] fix: owner accepts Done only after it has finished its
 service info

---
 core/do/to2/listener-to2-70-Done.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index f517e80..36e6cfb 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -55,6 +55,11 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if !session.OwnerSIMsFinishedSending {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Owner has not finished sending its service info", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-- 
2.43.0


From 16c770a87d805e93b0ad361901a98b0004f8537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 14/38] fix: virtual device refuses a voucher without entries
 instead of crashing

---
 main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.go b/main.go
index e1f0049..5ecf4c9 100644
--- a/main.go
+++ b/main.go
@@ -522,6 +522,11 @@ func main() {
 								return nil
 							}
 
+							if len(ovEntries) == 0 {
+								log.Println("Server returned a voucher without entries")
+								return nil
+							}
+
 							lastOvEntry := ovEntries[len(ovEntries)-1]
 							loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
-- 
2.43.0


From f1e5067059c08cac1d628df3dd9e685193b7cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 15/38] fix: do not let a concurrent request take an ownership
 transfer session back

---
 core/do/dbs/session.db.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index aaa57ba..8d722c1 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -1,6 +1,7 @@
 package dbs
 
 import (
+	"bytes"
 	"errors"
 	"time"
 
@@ -54,6 +55,9 @@ type SessionEntry struct {
 
 	// Conformance testing
 	RequestedOVEntries []uint8
+
+	// The stored record this entry was read from. Not encoded.
+	storedBytes []byte
 }
 
 // Conformance
@@ -110,6 +114,22 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
+	// A session is read and updated in different transactions. If another request
+	// has advanced it in between, saving this entry would take it back.
+	item, err := dbtxn.Get(sessionEntryId)
+	if err != nil {
+		return errors.New("Failed locating entry. The error is: " + err.Error())
+	}
+
+	currentBytes, err := item.ValueCopy(nil)
+	if err != nil {
+		return errors.New("Failed reading entry value. The error is: " + err.Error())
+	}
+
+	if !bytes.Equal(currentBytes, sessionInst.storedBytes) {
+		return errors.New("Session was changed by another request")
+	}
+
 	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10)
 	err = dbtxn.SetEntry(entry)
 	if err != nil {
@@ -149,5 +169,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 		return nil, errors.New("Failed cbor decoding entry value. The error is: " + err.Error())
 	}
 
+	sessionEntryInst.storedBytes = itemBytes
+
 	return &sessionEntryInst, nil
 }
-- 
2.43.0


From 7ca2414cfcefe0c3ce2103d789f087e84d0fb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 16/38] fix: use the key lengths that the AES-CCM-16 suites
 define

---
 core/shared/enc.crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 5abc011..2e98f9f 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -105,7 +105,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA256,
 		HashAlg:    HASH_SHA256,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 32,
+		SevkLength: 16,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
@@ -115,7 +115,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 16,
+		SevkLength: 32,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
-- 
2.43.0


From eadd89beab3048a3a927267e1aeb43b2caa57f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 17/38] fix: refuse ProveDevice when the stored voucher has no
 device certificate chain

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d2485d6..ac7ed4f 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -76,6 +76,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if session.Voucher.OVDevCertChain == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "ProveDevice64: Voucher has no device certificate chain", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
 	err = fdoshared.VerifyCoseSignatureWithCertificate(proveDevice64, pkType, *session.Voucher.OVDevCertChain)
 	if err != nil {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Error validating cose signature with certificate..."+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
-- 
2.43.0


From 7de0d69f1a2cc9976173da15a7f95a506297dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 18/38] fix: refuse ASYMKEX with a key that is not RSA instead
 of crashing

---
 core/shared/kex.crypto.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index ccd0df5..10753c3 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -398,8 +398,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 		return nil, errors.New("error parsing PKIX X509 Public Key. " + err.Error())
 	}
 
+	rsaPubKey, ok := pubKeyInst.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("error wrapping OAEP. Public key is not RSA")
+	}
+
 	hash := sha256.New()
-	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pubKeyInst.(*rsa.PublicKey), message, []byte{})
+	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, rsaPubKey, message, []byte{})
 	if err != nil {
 		return nil, errors.New("error wrapping OAEP. " + err.Error())
 	}
@@ -408,8 +413,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 }
 
 func UnwrapOAEP(ciphertext []byte, privateKeyInterface interface{}) ([]byte, error) {
+	rsaPrivateKey, ok := privateKeyInterface.(*rsa.PrivateKey)
+	if !ok {
+		return nil, errors.New("error unwrapping OAEP. Private key is not RSA")
+	}
+
 	hash := sha256.New()
-	message, err := rsa.DecryptOAEP(hash, rand.Reader, privateKeyInterface.(*rsa.PrivateKey), ciphertext, []byte{})
+	message, err := rsa.DecryptOAEP(hash, rand.Reader, rsaPrivateKey, ciphertext, []byte{})
 	if err != nil {
 		return nil, errors.New("error unwrapping OAEP. " + err.Error())
 	}
-- 
2.43.0


From bf39fbfd52388223b03bd84b5538c164b509270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 19/38] fix: give up on a hanging interop dashboard before the
 peer times out

The reply to the last message of TO0, TO1 and TO2 was held back for up to 30
seconds while the event was submitted. Peers give up after 30 seconds too, so a
dashboard that accepts connections but never answers made them fail.
---
 core/shared/interop.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/shared/interop.go b/core/shared/interop.go
index 187079f..6e16b6c 100644
--- a/core/shared/interop.go
+++ b/core/shared/interop.go
@@ -20,6 +20,10 @@ var (
 
 var IOPLOGGER_LOGGER_PATH = "/logger/101/msg"
 
+// The protocol reply waits for the event submission, so a dashboard that hangs
+// must be given up well before the peer's own 30 second timeout (see comms.go).
+const iopLoggerTimeout = 5 * time.Second
+
 type IopComp string
 
 const (
@@ -62,7 +66,7 @@ func SubmitIopLoggerEvent(ctx context.Context, guid FdoGuid, toProtocol FdoToPro
 	req.Header.Set("Authorization", authzHeader)
 	req.Header.Set("Content-Type", "application/cbor")
 
-	resp, err := (&http.Client{Timeout: 30 * time.Second}).Do(req)
+	resp, err := (&http.Client{Timeout: iopLoggerTimeout}).Do(req)
 	if err != nil {
 		return fmt.Errorf("Error sending post request to %s url. %s", srvUrl, err.Error())
 	}
-- 
2.43.0


From ba5bcefc47ee21368a58f6f4cc8a5198aed5e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 20/38] fix: do not lose concurrent changes of a user's tests

---
 api/testapi/device.api.go |  6 ++---
 api/testapi/do.api.go     |  5 ++--
 api/testapi/rv.api.go     |  6 ++---
 api/user.other.api.go     | 10 ++++----
 dbs/user.db.go            | 52 +++++++++++++++++++++++++++++++++++++++
 5 files changed, 66 insertions(+), 13 deletions(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index 8d33942..fc15171 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -147,9 +147,9 @@ func (h *DeviceTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.DeviceTestInsts = append(userInst.DeviceTestInsts, dbs.NewDeviceTestInst(createTestCase.Name, deviceListenerInsts.Uuid, ovHeader.OVGuid))
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Update(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DeviceTestInsts = append(usere.DeviceTestInsts, dbs.NewDeviceTestInst(createTestCase.Name, deviceListenerInsts.Uuid, ovHeader.OVGuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index f696cd1..c823f33 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -233,8 +233,9 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 	}
 
 	// Saving user
-	userInst.DOTestInsts = append(userInst.DOTestInsts, dbs.NewDOTestInst(doUrl, newDOTTestTo2.Uuid))
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Update(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DOTestInsts = append(usere.DOTestInsts, dbs.NewDOTestInst(doUrl, newDOTTestTo2.Uuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 877cbd7..bb6618e 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -125,9 +125,9 @@ func (h *RVTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.RVTestInsts = append(userInst.RVTestInsts, dbs.NewRVTestInst(rvUrl, newRVTestTo0.Uuid, newRVTestTo1.Uuid))
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Update(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.RVTestInsts = append(usere.RVTestInsts, dbs.NewRVTestInst(rvUrl, newRVTestTo0.Uuid, newRVTestTo1.Uuid))
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/user.other.api.go b/api/user.other.api.go
index ca7386f..698f7fd 100644
--- a/api/user.other.api.go
+++ b/api/user.other.api.go
@@ -121,11 +121,11 @@ func (h *UserAPI) PurgeTests(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.DeviceTestInsts = []dbs.DeviceTestInst{}
-	userInst.DOTestInsts = []dbs.DOTestInst{}
-	userInst.RVTestInsts = []dbs.RVTestInst{}
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Update(userInst.Email, func(usere *dbs.UserTestDBEntry) {
+		usere.DeviceTestInsts = []dbs.DeviceTestInst{}
+		usere.DOTestInsts = []dbs.DOTestInst{}
+		usere.RVTestInsts = []dbs.RVTestInst{}
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 8bd1558..8079deb 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -76,6 +76,58 @@ func (h *UserTestDB) Get(email string) (*UserTestDBEntry, error) {
 	return &usertEntryInst, nil
 }
 
+// Update changes the stored user in a single transaction, so that concurrent changes are not lost.
+func (h *UserTestDB) Update(email string, change func(usere *UserTestDBEntry)) error {
+	for {
+		err := h.tryUpdate(email, change)
+		if !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
+	}
+}
+
+func (h *UserTestDB) tryUpdate(email string, change func(usere *UserTestDBEntry)) error {
+	userEStorageId := append(h.prefix, []byte(strings.ToLower(email))...)
+
+	dbtxn := h.db.NewTransaction(true)
+	defer dbtxn.Discard()
+
+	item, err := dbtxn.Get(userEStorageId)
+	if err != nil {
+		return fmt.Errorf("Failed locating entry. The error is: %w", err)
+	}
+
+	itemBytes, err := item.ValueCopy(nil)
+	if err != nil {
+		return errors.New("Failed reading entry value. The error is: " + err.Error())
+	}
+
+	var usere UserTestDBEntry
+	err = fdoshared.CborCust.Unmarshal(itemBytes, &usere)
+	if err != nil {
+		return errors.New("Failed cbor decoding entry value. The error is: " + err.Error())
+	}
+
+	change(&usere)
+
+	usereBytes, err := fdoshared.CborCust.Marshal(usere)
+	if err != nil {
+		return errors.New("Failed to marshal User entry. The error is: " + err.Error())
+	}
+
+	err = dbtxn.Set(userEStorageId, usereBytes)
+	if err != nil {
+		return errors.New("Failed creating User db entry instance. The error is: " + err.Error())
+	}
+
+	err = dbtxn.Commit()
+	if err != nil {
+		return fmt.Errorf("Failed saving User entry. The error is: %w", err)
+	}
+
+	return nil
+}
+
 func (h *UserTestDB) ResetUsers() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
-- 
2.43.0


From 31e31fbd605b08b60badd004747aafae3c5650e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 21/38] fix: create an owner test with an RSA key instead of
 crashing

---
 core/shared/other.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/other.go b/core/shared/other.go
index 23124f9..77dc3c8 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -161,6 +161,11 @@ func (h *FdoSeedIDs) GetRandomTestGuidForSgType(sgType SgType) FdoGuid {
 	sh := *h
 	var randomGuids []FdoGuid = sh[sgType]
 
+	// Devices are only seeded with EC keys. An owner key of another type goes with any device.
+	if len(randomGuids) == 0 {
+		return h.GetRandomTestGuid()
+	}
+
 	randLoc := NewRandomInt(0, len(randomGuids)-1)
 	return randomGuids[randLoc]
 }
-- 
2.43.0


From 335fd7660a7bbb9a1443c5253c6a90067c316058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 22/38] fix: a login no longer replaces a user whose record
 could not be read

---
 api/user.auth.api.go | 17 ++++++-----------
 dbs/user.db.go       | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/api/user.auth.api.go b/api/user.auth.api.go
index f3b10ce..1a8c559 100644
--- a/api/user.auth.api.go
+++ b/api/user.auth.api.go
@@ -14,18 +14,13 @@ func (h *UserAPI) OnPremNoLogin(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	_, err := h.UserDB.Get(ONPREM_CONFIG)
+	err := h.UserDB.Create(dbs.UserTestDBEntry{
+		Email: strings.ToLower(ONPREM_CONFIG),
+	})
 	if err != nil {
-		newUserInst := dbs.UserTestDBEntry{
-			Email: strings.ToLower(ONPREM_CONFIG),
-		}
-
-		err = h.UserDB.Save(newUserInst)
-		if err != nil {
-			log.Println("Error saving user. " + err.Error())
-			commonapi.RespondError(w, "Internal server error.", http.StatusInternalServerError)
-			return
-		}
+		log.Println("Error saving user. " + err.Error())
+		commonapi.RespondError(w, "Internal server error.", http.StatusInternalServerError)
+		return
 	}
 
 	err = h.setUserSession(w, dbs.SessionEntry{Email: ONPREM_CONFIG, LoggedIn: true})
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 8079deb..6de54eb 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -76,6 +76,40 @@ func (h *UserTestDB) Get(email string) (*UserTestDBEntry, error) {
 	return &usertEntryInst, nil
 }
 
+// Create saves a new user, and leaves an existing one as it is.
+func (h *UserTestDB) Create(usere UserTestDBEntry) error {
+	userEStorageId := append(h.prefix, []byte(strings.ToLower(usere.Email))...)
+
+	usereBytes, err := fdoshared.CborCust.Marshal(usere)
+	if err != nil {
+		return errors.New("Failed to marshal User entry. The error is: " + err.Error())
+	}
+
+	dbtxn := h.db.NewTransaction(true)
+	defer dbtxn.Discard()
+
+	_, err = dbtxn.Get(userEStorageId)
+	if err == nil {
+		return nil
+	} else if !errors.Is(err, badger.ErrKeyNotFound) {
+		return errors.New("Failed locating entry. The error is: " + err.Error())
+	}
+
+	err = dbtxn.Set(userEStorageId, usereBytes)
+	if err != nil {
+		return errors.New("Failed creating User db entry instance. The error is: " + err.Error())
+	}
+
+	err = dbtxn.Commit()
+	if err != nil && errors.Is(err, badger.ErrConflict) {
+		return nil // somebody else just created it
+	} else if err != nil {
+		return errors.New("Failed saving User entry. The error is: " + err.Error())
+	}
+
+	return nil
+}
+
 // Update changes the stored user in a single transaction, so that concurrent changes are not lost.
 func (h *UserTestDB) Update(email string, change func(usere *UserTestDBEntry)) error {
 	for {
-- 
2.43.0


From f852ba94c807e03e5f1f0aa6782cfd0edc684e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 23/38] fix: a device test that cannot be read is no longer
 left out of the list

---
 api/testapi/device.api.go              | 7 ++++++-
 core/shared/testcom/dbs/listener.db.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index fc15171..f71ee85 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -11,6 +11,7 @@ import (
 	"net/http"
 	"strconv"
 
+	"github.com/dgraph-io/badger/v4"
 	"github.com/gorilla/mux"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/api/commonapi"
@@ -178,9 +179,13 @@ func (h *DeviceTestMgmtAPI) List(w http.ResponseWriter, r *http.Request) {
 
 	for _, devInsts := range userInst.DeviceTestInsts {
 		reqListener, err := h.ListenerDB.Get(devInsts.ListenerUuid)
-		if err != nil {
+		if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
 			log.Printf("Failed find entry for %s. %s", hex.EncodeToString(devInsts.Uuid), err.Error())
 			continue
+		} else if err != nil {
+			log.Println("Error reading device test. " + err.Error())
+			commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
+			return
 		}
 
 		var to1testRunHistory []listenertestsdeps.ListenerTestRun = []listenertestsdeps.ListenerTestRun{}
diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index f85ef2f..9747481 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -93,7 +93,7 @@ func (h *ListenerTestDB) Get(entryUuid []byte) (*listenertestsdeps.RequestListen
 
 	item, err := dbtxn.Get(h.getEntryId(entryUuid))
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, fmt.Errorf("The rvte entry with id %s does not exist", hex.EncodeToString(h.getEntryId(entryUuid)))
+		return nil, fmt.Errorf("The rvte entry with id %s does not exist. %w", hex.EncodeToString(h.getEntryId(entryUuid)), err)
 	} else if err != nil {
 		return nil, errors.New("Failed locating rvte entry." + err.Error())
 	}
-- 
2.43.0


From 0d863b2c49ae3354356cf77b1edbf1d15d48bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 24/38] fix: a test past its six months no longer breaks the
 whole list

---
 api/testapi/do.api.go              | 6 +++++-
 api/testapi/rv.api.go              | 6 +++++-
 core/shared/testcom/dbs/reqt.db.go | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index c823f33..1f5e261 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -17,6 +17,7 @@ import (
 	"net/http"
 	"net/url"
 
+	"github.com/dgraph-io/badger/v4"
 	"github.com/gorilla/mux"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/api/commonapi"
@@ -269,7 +270,10 @@ func (h *DOTestMgmtAPI) List(w http.ResponseWriter, r *http.Request) {
 		}
 
 		dotsInfoPayloadPtr, err := h.ReqTDB.Get(dotInfo.To2)
-		if err != nil {
+		if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
+			log.Println("The test was kept for six months and is gone. " + err.Error())
+			continue
+		} else if err != nil {
 			log.Println("Error reading dots. " + err.Error())
 			commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
 			return
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index bb6618e..9b7e398 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -10,6 +10,7 @@ import (
 	"net/http"
 	"net/url"
 
+	"github.com/dgraph-io/badger/v4"
 	"github.com/gorilla/mux"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/api/commonapi"
@@ -161,7 +162,10 @@ func (h *RVTestMgmtAPI) List(w http.ResponseWriter, r *http.Request) {
 		}
 
 		rvtsInfoPayloadsPtr, err := h.ReqTDB.GetMany([][]byte{rvtInfo.To0, rvtInfo.To1})
-		if err != nil {
+		if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
+			log.Println("The test was kept for six months and is gone. " + err.Error())
+			continue
+		} else if err != nil {
 			log.Println("Error reading rvts. " + err.Error())
 			commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
 			return
diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 3b5e4e0..dd6962f 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -86,7 +86,7 @@ func (h *RequestTestDB) Get(rvtId []byte) (*reqtestsdeps.RequestTestInst, error)
 
 	item, err := dbtxn.Get(rvteStorageId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, fmt.Errorf("The rvte entry with id %s does not exist", hex.EncodeToString(rvtId))
+		return nil, fmt.Errorf("The rvte entry with id %s does not exist. %w", hex.EncodeToString(rvtId), err)
 	} else if err != nil {
 		return nil, errors.New("Failed locating rvte entry. The error is: " + err.Error())
 	}
@@ -111,7 +111,7 @@ func (h *RequestTestDB) GetMany(rvtids [][]byte) (*[]reqtestsdeps.RequestTestIns
 	for _, rvtid := range rvtids {
 		rvt, err := h.Get(rvtid)
 		if err != nil {
-			return nil, fmt.Errorf("Error obtaining rvt for id %s. %s \n", hex.EncodeToString(rvtid), err.Error())
+			return nil, fmt.Errorf("Error obtaining rvt for id %s. %w \n", hex.EncodeToString(rvtid), err)
 		}
 
 		rvts = append(rvts, *rvt)
-- 
2.43.0


From 74dda719c2fe8b62b0e3437cd60aaf4e0246586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 25/38] fix: results go to the run they belong to, and storage
 errors of a run are reported

---
 api/testapi/do.api.go              |  14 ++-
 api/testapi/rv.api.go              |  17 +++-
 core/shared/testcom/dbs/reqt.db.go | 141 +++++++++++++++++++++--------
 testexec/do.to2.execute.go         |  13 ++-
 testexec/rvt.to0.execute.go        |  13 ++-
 testexec/rvt.to1.execute.go        |  23 +++--
 6 files changed, 162 insertions(+), 59 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index 1f5e261..5b23668 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -413,7 +413,12 @@ func (h *DOTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	h.ReqTDB.RemoveTestRun(dotId, testrunid)
+	err = h.ReqTDB.RemoveTestRun(dotId, testrunid)
+	if err != nil {
+		log.Println("Error removing test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
@@ -465,7 +470,12 @@ func (h *DOTestMgmtAPI) Execute(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	testexec.ExecuteDOTestsTo2(*rvte, h.ReqTDB)
+	err = testexec.ExecuteDOTestsTo2(*rvte, h.ReqTDB)
+	if err != nil {
+		log.Println("Error saving test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 9b7e398..131ef9d 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -226,7 +226,12 @@ func (h *RVTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	h.ReqTDB.RemoveTestRun(rvtId, testrunid)
+	err = h.ReqTDB.RemoveTestRun(rvtId, testrunid)
+	if err != nil {
+		log.Println("Error removing test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
@@ -279,14 +284,20 @@ func (h *RVTestMgmtAPI) Execute(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if rvte.Protocol == fdoshared.To0 {
-		testexec.ExecuteRVTestsTo0(*rvte, h.ReqTDB, h.DevBaseDB, h.Ctx)
+		err = testexec.ExecuteRVTestsTo0(*rvte, h.ReqTDB, h.DevBaseDB, h.Ctx)
 	} else if rvte.Protocol == fdoshared.To1 {
-		testexec.ExecuteRVTestsTo1(*rvte, h.ReqTDB, h.DevBaseDB, h.Ctx)
+		err = testexec.ExecuteRVTestsTo1(*rvte, h.ReqTDB, h.DevBaseDB, h.Ctx)
 	} else {
 		log.Printf("Protocol TO%d is not supported. ", rvte.Protocol)
 		commonapi.RespondError(w, "Unsupported protocol!", http.StatusBadRequest)
 		return
 	}
 
+	if err != nil {
+		log.Println("Error saving test run. " + err.Error())
+		commonapi.RespondError(w, "Internal server error!", http.StatusInternalServerError)
+		return
+	}
+
 	commonapi.RespondSuccess(w)
 }
diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index dd6962f..02334f9 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -18,6 +18,9 @@ type RequestTestDB struct {
 	db     *badger.DB
 	prefix []byte
 	ttl    int
+
+	runId  string // The run that results are reported to
+	runErr error  // The first error that kept a result from being saved
 }
 
 func NewRequestTestDB(db *badger.DB) *RequestTestDB {
@@ -120,73 +123,131 @@ func (h *RequestTestDB) GetMany(rvtids [][]byte) (*[]reqtestsdeps.RequestTestIns
 	return &rvts, nil
 }
 
-func (h *RequestTestDB) StartNewRun(rvteid []byte) {
-	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+// update changes the stored test in a single transaction, so that concurrent changes are not lost.
+func (h *RequestTestDB) update(rvteid []byte, change func(rvte *reqtestsdeps.RequestTestInst)) error {
+	for {
+		err := h.tryUpdate(rvteid, change)
+		if !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
 	}
+}
 
-	newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
+func (h *RequestTestDB) tryUpdate(rvteid []byte, change func(rvte *reqtestsdeps.RequestTestInst)) error {
+	rvteStorageId := append(h.prefix, rvteid...)
 
-	rvte.InProgress = true
-	rvte.CurrentTestRun = newRVTestRun
-	rvte.TestsHistory = append([]reqtestsdeps.RequestTestRun{newRVTestRun}, rvte.TestsHistory...)
+	dbtxn := h.db.NewTransaction(true)
+	defer dbtxn.Discard()
 
-	err = h.Save(*rvte)
+	item, err := dbtxn.Get(rvteStorageId)
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		return fmt.Errorf("Failed locating rvte entry. The error is: %w", err)
 	}
-}
 
-func (h *RequestTestDB) FinishRun(rvteid []byte) {
-	rvte, err := h.Get(rvteid)
+	itemBytes, err := item.ValueCopy(nil)
 	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return errors.New("Failed reading rvte entry value. The error is: " + err.Error())
 	}
 
-	rvte.InProgress = false
-
-	err = h.Save(*rvte)
+	var rvte reqtestsdeps.RequestTestInst
+	err = fdoshared.CborCust.Unmarshal(itemBytes, &rvte)
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		return errors.New("Failed cbor decoding rvte entry value. The error is: " + err.Error())
 	}
 
-	log.Printf("----- Finishing Run For %s -----", hex.EncodeToString(rvteid))
-}
+	change(&rvte)
 
-func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, testResult testcom.FDOTestState) {
-	rvte, err := h.Get(rvteid)
+	rvteBytes, err := fdoshared.CborCust.Marshal(rvte)
 	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return errors.New("Failed to marshal rvte. The error is: " + err.Error())
 	}
 
-	rvte.CurrentTestRun.Tests[testID] = testResult
-	rvte.TestsHistory[0] = rvte.CurrentTestRun
+	err = dbtxn.SetEntry(badger.NewEntry(rvteStorageId, rvteBytes).WithTTL(time.Second * time.Duration(h.ttl)))
+	if err != nil {
+		return errors.New("Failed creating rvte db entry instance. The error is: " + err.Error())
+	}
 
-	err = h.Save(*rvte)
+	err = dbtxn.Commit()
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		return fmt.Errorf("Failed saving rvte entry. The error is: %w", err)
 	}
+
+	return nil
 }
 
-func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
-	rvte, err := h.Get(rvteid)
+// StartNewRun starts a run, and returns the db to which the results of that run are reported.
+func (h *RequestTestDB) StartNewRun(rvteid []byte) (*RequestTestDB, error) {
+	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
+
+	runDB := *h
+	runDB.runErr = nil
+
+	err := h.update(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
+
+		rvte.InProgress = true
+		rvte.CurrentTestRun = newRVTestRun
+		rvte.TestsHistory = append([]reqtestsdeps.RequestTestRun{newRVTestRun}, rvte.TestsHistory...)
+
+		runDB.runId = newRVTestRun.Uuid
+	})
 	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		log.Printf("%s error starting test run. %s", hex.EncodeToString(rvteid), err.Error())
+		return nil, err
 	}
 
-	var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
-	for _, testRunEntry := range rvte.TestsHistory {
-		if testRunEntry.Uuid != testRunId {
-			updatedTestsHistory = append(updatedTestsHistory, testRunEntry)
+	return &runDB, nil
+}
+
+// FinishRun ends the run, and returns the first error that kept a result of it from being saved.
+func (h *RequestTestDB) FinishRun(rvteid []byte) error {
+	err := h.update(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		if rvte.CurrentTestRun.Uuid == h.runId {
+			rvte.InProgress = false
 		}
-	}
+	})
+	h.noteError(rvteid, err)
 
-	rvte.TestsHistory = updatedTestsHistory
+	log.Printf("----- Finishing Run For %s -----", hex.EncodeToString(rvteid))
 
-	err = h.Save(*rvte)
-	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+	return h.runErr
+}
+
+func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, testResult testcom.FDOTestState) {
+	err := h.update(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		if rvte.CurrentTestRun.Uuid == h.runId {
+			rvte.CurrentTestRun.Tests[testID] = testResult
+		}
+
+		for i := range rvte.TestsHistory {
+			if rvte.TestsHistory[i].Uuid == h.runId {
+				rvte.TestsHistory[i].Tests[testID] = testResult
+			}
+		}
+	})
+	h.noteError(rvteid, err)
+}
+
+func (h *RequestTestDB) noteError(rvteid []byte, err error) {
+	if err == nil {
+		return
 	}
+
+	log.Printf("%s error saving test entry. %s", hex.EncodeToString(rvteid), err.Error())
+	if h.runErr == nil {
+		h.runErr = err
+	}
+}
+
+func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) error {
+	return h.update(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
+		for _, testRunEntry := range rvte.TestsHistory {
+			if testRunEntry.Uuid != testRunId {
+				updatedTestsHistory = append(updatedTestsHistory, testRunEntry)
+			}
+		}
+
+		rvte.TestsHistory = updatedTestsHistory
+	})
 }
diff --git a/testexec/do.to2.execute.go b/testexec/do.to2.execute.go
index a34c173..9f3e79a 100644
--- a/testexec/do.to2.execute.go
+++ b/testexec/do.to2.execute.go
@@ -5,8 +5,15 @@ import (
 	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
 )
 
-func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB) {
-	reqtDB.StartNewRun(reqte.Uuid)
+func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB) (runErr error) {
+	reqtDB, err := reqtDB.StartNewRun(reqte.Uuid)
+	if err != nil {
+		return err
+	}
+
+	defer func() {
+		runErr = reqtDB.FinishRun(reqte.Uuid)
+	}()
 
 	executeTo2_60(reqte, reqtDB)
 	executeTo2_62(reqte, reqtDB)
@@ -15,5 +22,5 @@ func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 	executeTo2_68(reqte, reqtDB)
 	executeTo2_70(reqte, reqtDB)
 
-	reqtDB.FinishRun(reqte.Uuid)
+	return nil
 }
diff --git a/testexec/rvt.to0.execute.go b/testexec/rvt.to0.execute.go
index 307e646..43638c1 100644
--- a/testexec/rvt.to0.execute.go
+++ b/testexec/rvt.to0.execute.go
@@ -11,8 +11,15 @@ import (
 	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
 )
 
-func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
-	reqtDB.StartNewRun(reqte.Uuid)
+func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) (runErr error) {
+	reqtDB, err := reqtDB.StartNewRun(reqte.Uuid)
+	if err != nil {
+		return err
+	}
+
+	defer func() {
+		runErr = reqtDB.FinishRun(reqte.Uuid)
+	}()
 
 	for _, rv20test := range testcom.FIDO_TEST_LIST_RVT_20 {
 		randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -163,5 +170,5 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 		reqtDB.ReportTest(reqte.Uuid, rv22VoucherTest, *rvtTestState)
 	}
 
-	reqtDB.FinishRun(reqte.Uuid)
+	return nil
 }
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index e235f8e..0364ddd 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -12,8 +12,15 @@ import (
 	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
 )
 
-func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
-	reqtDB.StartNewRun(reqte.Uuid)
+func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) (runErr error) {
+	reqtDB, err := reqtDB.StartNewRun(reqte.Uuid)
+	if err != nil {
+		return err
+	}
+
+	defer func() {
+		runErr = reqtDB.FinishRun(reqte.Uuid)
+	}()
 
 	// Generating voucher
 	randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -25,7 +32,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 		}
 
 		reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TO1_SETUP, errTestState)
-		return
+		return nil
 	}
 
 	// Generating TO0 handler
@@ -42,7 +49,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			Error:  err.Error(),
 		}
 		reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TO1_SETUP, errTestState)
-		return
+		return nil
 	}
 
 	_, _, err = to0inst.OwnerSign22(helloAck.NonceTO0Sign, testcom.NULL_TEST)
@@ -52,7 +59,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			Error:  err.Error(),
 		}
 		reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TO1_SETUP, errTestState)
-		return
+		return nil
 	}
 
 	to1inst := to1.NewTo1Requestor(fdoshared.SRVEntry{
@@ -73,7 +80,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 					Error:  err.Error(),
 				}
 				reqtDB.ReportTest(reqte.Uuid, rv30test, errTestState)
-				return
+				return nil
 			} else {
 				errTestState = testcom.FDOTestState{
 					Passed: true,
@@ -119,7 +126,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 					Error:  err.Error(),
 				}
 				reqtDB.ReportTest(reqte.Uuid, rv32test, errTestState)
-				return
+				return nil
 			} else {
 				errTestState = testcom.FDOTestState{
 					Passed: true,
@@ -142,5 +149,5 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 		}
 	}
 
-	reqtDB.FinishRun(reqte.Uuid)
+	return nil
 }
-- 
2.43.0


From 3e1e138ff974e36713f9685f942828f0195fb2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 26/38] fix: device test runs are kept once, newest first, and
 survive concurrent changes

---
 api/testapi/device.api.go                    | 29 +++---
 core/shared/testcom/dbs/listener.db.go       | 92 +++++++++++---------
 core/shared/testcom/listener/listenert.db.go | 59 ++++++++++++-
 3 files changed, 121 insertions(+), 59 deletions(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index f71ee85..cb8e05e 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -256,21 +256,15 @@ func (h *DeviceTestMgmtAPI) StartNewTestRun(w http.ResponseWriter, r *http.Reque
 		return
 	}
 
-	reqListInst, err := h.ListenerDB.Get(testInstIdBytes)
-	if err != nil {
-		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
-		return
-	}
-
-	runnerInst, err := reqListInst.GetProtocolInst(int(toPInt))
-	if err != nil {
-		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
-		return
-	}
-
-	runnerInst.StartNewTestRun()
+	err = h.ListenerDB.Change(testInstIdBytes, func(reqListInst *listenertestsdeps.RequestListenerInst) error {
+		runnerInst, err := reqListInst.GetProtocolInst(int(toPInt))
+		if err != nil {
+			return err
+		}
 
-	err = h.ListenerDB.Update(reqListInst)
+		runnerInst.StartNewTestRun()
+		return nil
+	})
 	if err != nil {
 		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
 		return
@@ -321,7 +315,12 @@ func (h *DeviceTestMgmtAPI) DeleteTestRun(w http.ResponseWriter, r *http.Request
 		return
 	}
 
-	h.ListenerDB.RemoveTestRun(fdoshared.FdoToProtocol(topInt), testIstIdBytes, testrunid)
+	err = h.ListenerDB.RemoveTestRun(fdoshared.FdoToProtocol(topInt), testIstIdBytes, testrunid)
+	if err != nil {
+		log.Println("Failed to remove test run. " + err.Error())
+		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
+		return
+	}
 
 	commonapi.RespondSuccess(w)
 }
diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index 9747481..397167c 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -64,16 +64,47 @@ func (h *ListenerTestDB) Save(reqListener listenertestsdeps.RequestListenerInst)
 	return nil
 }
 
+// Update saves the runners that were changed since the test was read. It fails if any of those has been changed by
+// someone else in the meantime.
 func (h *ListenerTestDB) Update(reqListener *listenertestsdeps.RequestListenerInst) error {
-	structBytes, err := fdoshared.CborCust.Marshal(reqListener)
+	err := h.Change(reqListener.Uuid, reqListener.MergeInto)
 	if err != nil {
-		return errors.New("Failed to marshal listener entry." + err.Error())
+		return err
 	}
 
+	return reqListener.SetStored()
+}
+
+// Change changes the stored test in a single transaction, so that concurrent changes are not lost.
+func (h *ListenerTestDB) Change(entryUuid []byte, change func(current *listenertestsdeps.RequestListenerInst) error) error {
+	for {
+		err := h.tryChange(entryUuid, change)
+		if !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
+	}
+}
+
+func (h *ListenerTestDB) tryChange(entryUuid []byte, change func(current *listenertestsdeps.RequestListenerInst) error) error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
 
-	entry := badger.NewEntry(h.getEntryId(reqListener.Uuid), structBytes).WithTTL(time.Second * time.Duration(h.ttl))
+	current, err := h.get(dbtxn, entryUuid)
+	if err != nil {
+		return err
+	}
+
+	err = change(current)
+	if err != nil {
+		return err
+	}
+
+	structBytes, err := fdoshared.CborCust.Marshal(*current)
+	if err != nil {
+		return errors.New("Failed to marshal listener entry." + err.Error())
+	}
+
+	entry := badger.NewEntry(h.getEntryId(entryUuid), structBytes).WithTTL(time.Second * time.Duration(h.ttl))
 	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed creating rvte db entry instance." + err.Error())
@@ -81,7 +112,7 @@ func (h *ListenerTestDB) Update(reqListener *listenertestsdeps.RequestListenerIn
 
 	err = dbtxn.Commit()
 	if err != nil {
-		return errors.New("Failed saving rvte entry." + err.Error())
+		return fmt.Errorf("Failed saving rvte entry. %w", err)
 	}
 
 	return nil
@@ -91,6 +122,10 @@ func (h *ListenerTestDB) Get(entryUuid []byte) (*listenertestsdeps.RequestListen
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
 
+	return h.get(dbtxn, entryUuid)
+}
+
+func (h *ListenerTestDB) get(dbtxn *badger.Txn, entryUuid []byte) (*listenertestsdeps.RequestListenerInst, error) {
 	item, err := dbtxn.Get(h.getEntryId(entryUuid))
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
 		return nil, fmt.Errorf("The rvte entry with id %s does not exist. %w", hex.EncodeToString(h.getEntryId(entryUuid)), err)
@@ -109,6 +144,11 @@ func (h *ListenerTestDB) Get(entryUuid []byte) (*listenertestsdeps.RequestListen
 		return nil, errors.New("Failed cbor decoding rvte entry value." + err.Error())
 	}
 
+	err = reqListInst.SetStored()
+	if err != nil {
+		return nil, errors.New("Failed cbor copying rvte entry value." + err.Error())
+	}
+
 	return &reqListInst, nil
 }
 
@@ -210,44 +250,14 @@ func (h *ListenerTestDB) GetMany(entriesIds [][]byte) (*[]listenertestsdeps.Requ
 }
 
 func (h *ListenerTestDB) RemoveTestRun(toProtocol fdoshared.FdoToProtocol, testInstId []byte, testRunId string) error {
-	testInst, err := h.Get(testInstId)
-	if err != nil {
-		return fmt.Errorf("%s test entry can not be found. %s", hex.EncodeToString(testInstId), err.Error())
-	}
-
-	var chosenReqListRunner listenertestsdeps.RequestListenerRunnerInst
-	switch toProtocol {
-	case fdoshared.To0:
-		chosenReqListRunner = testInst.To0
-	case fdoshared.To1:
-		chosenReqListRunner = testInst.To1
-	case fdoshared.To2:
-		chosenReqListRunner = testInst.To2
-	default:
-		return fmt.Errorf("Unknown FDO protocol %d", toProtocol)
-	}
-
-	err = chosenReqListRunner.RemoveTestRun(testRunId)
-	if err != nil {
-		return err
-	}
-
-	switch toProtocol {
-	case fdoshared.To0:
-		testInst.To0 = chosenReqListRunner
-	case fdoshared.To1:
-		testInst.To1 = chosenReqListRunner
-	case fdoshared.To2:
-		testInst.To2 = chosenReqListRunner
-	}
-
-	err = h.Save(*testInst)
-	if err != nil {
-		log.Printf("%s error saving test entry. %s", hex.EncodeToString(testInstId), err.Error())
-		return err
-	}
+	return h.Change(testInstId, func(testInst *listenertestsdeps.RequestListenerInst) error {
+		runner, err := testInst.GetProtocolInst(int(toProtocol))
+		if err != nil {
+			return err
+		}
 
-	return nil
+		return runner.RemoveTestRun(testRunId)
+	})
 }
 
 func (h *ListenerTestDB) SaveMapping(guid fdoshared.FdoGuid, uuid []byte) error {
diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 48661db..d630266 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -2,6 +2,7 @@ package listener
 
 import (
 	"fmt"
+	"reflect"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -29,6 +30,57 @@ type RequestListenerInst struct {
 	To0         RequestListenerRunnerInst        `cbor:"to0,omitempty"`
 	To1         RequestListenerRunnerInst        `cbor:"to1,omitempty"`
 	To2         RequestListenerRunnerInst        `cbor:"to2,omitempty"`
+
+	stored *RequestListenerInst // The test as it is in the db
+}
+
+func (h *RequestListenerInst) runners() map[fdoshared.FdoToProtocol]*RequestListenerRunnerInst {
+	return map[fdoshared.FdoToProtocol]*RequestListenerRunnerInst{
+		fdoshared.To0: &h.To0,
+		fdoshared.To1: &h.To1,
+		fdoshared.To2: &h.To2,
+	}
+}
+
+// SetStored notes that the runners are in the db as they are now.
+func (h *RequestListenerInst) SetStored() error {
+	instBytes, err := fdoshared.CborCust.Marshal(*h)
+	if err != nil {
+		return err
+	}
+
+	var stored RequestListenerInst
+	err = fdoshared.CborCust.Unmarshal(instBytes, &stored)
+	if err != nil {
+		return err
+	}
+
+	h.stored = &stored
+	return nil
+}
+
+// MergeInto moves the runners that were changed since they were read into the current state of the test.
+// It fails if any of those has been changed in the db in the meantime.
+func (h *RequestListenerInst) MergeInto(current *RequestListenerInst) error {
+	read := h.stored
+	if read == nil {
+		read = &RequestListenerInst{}
+	}
+
+	readRunners, currentRunners := read.runners(), current.runners()
+	for protocol, runner := range h.runners() {
+		if reflect.DeepEqual(runner, readRunners[protocol]) {
+			continue
+		}
+
+		if !reflect.DeepEqual(currentRunners[protocol], readRunners[protocol]) {
+			return fmt.Errorf("The TO%d test has been changed in the meantime", protocol)
+		}
+
+		*currentRunners[protocol] = *runner
+	}
+
+	return nil
 }
 
 func (h *RequestListenerInst) GetProtocolInst(toProtocol int) (*RequestListenerRunnerInst, error) {
@@ -69,7 +121,7 @@ func (h *RequestListenerRunnerInst) CheckCmdTestingIsCompleted(currentCmd fdosha
 }
 
 func (h *RequestListenerRunnerInst) StartNewTestRun() {
-	if len(h.TestRunHistory) != 0 {
+	if h.Running {
 		h.TestRunHistory = append([]ListenerTestRun{h.CurrentTestRun}, h.TestRunHistory...)
 	}
 
@@ -78,6 +130,7 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 
 	h.CurrentTestRun = NewListenerTestRun(h.Protocol)
 	h.CurrentTestIndex = 0
+	h.LastTestID = ""
 	h.CompletedCmds = []fdoshared.FdoCmd{}
 
 	switch h.Protocol {
@@ -93,7 +146,7 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	var newList []ListenerTestRun = []ListenerTestRun{}
 
-	if h.CurrentTestRun.Uuid == id {
+	if h.Running && h.CurrentTestRun.Uuid == id {
 		h.CurrentTestRun = ListenerTestRun{}
 		h.Running = false
 		return nil
@@ -146,7 +199,7 @@ func (h *RequestListenerRunnerInst) CompleteTestRun() {
 	h.Completed = true
 
 	h.CurrentTestRun.Complete()
-	h.TestRunHistory = append(h.TestRunHistory, h.CurrentTestRun)
+	h.TestRunHistory = append([]ListenerTestRun{h.CurrentTestRun}, h.TestRunHistory...)
 }
 
 func (h *RequestListenerRunnerInst) PushFail(errorMsg string) {
-- 
2.43.0


From f2cd3a3e16b4ea4a66ae781d567c7aed5ffc11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 27/38] fix: spoilt replies of the device tests are spoilt in
 every suite, and only those

---
 core/do/to2/listener-to2-64-ProveDevice.go |  2 +-
 core/shared/conformance.go                 | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index ac7ed4f..c607bb3 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -162,7 +162,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_64_BAD_ENC_WRAPPING {
-		setupDeviceBytesEnc, err = fdoshared.Conf_Fuzz_AddWrapping(setupDeviceBytesEnc, session.SessionKey, session.CipherSuiteName)
+		setupDeviceBytesEnc, err = fdoshared.Conf_Fuzz_AddWrapping(setupDeviceBytes, *sessionKey, session.CipherSuiteName)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index eb59242..ada3f1d 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -215,7 +215,8 @@ func Conf_Fuzz_AddWrapping(payload []byte, sessionKeyInfo SessionKeyInfo, cipher
 			encryptedBytes = Conf_RandomCborBufferFuzzing(encryptedBytes)
 		}
 
-	case CIPHER_A128GCM, CIPHER_A256GCM:
+	case CIPHER_A128GCM, CIPHER_A256GCM,
+		CIPHER_AES_CCM_16_128_128, CIPHER_AES_CCM_16_128_256, CIPHER_AES_CCM_64_128_128, CIPHER_AES_CCM_64_128_256:
 		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_EMB[NewRandomInt(0, len(Conf_EncFuzzTypes_List_EMB)-1)]
 
 		encryptedBytes, err = encryptEMB(payload, sessionKeyInfo, cipherSuite)
@@ -265,7 +266,12 @@ var Conf_CoseSign_Field_List []Conf_CoseSign_Field = []Conf_CoseSign_Field{
 }
 
 func Conf_Fuzz_CoseSignature(coseSignature CoseSignature) CoseSignature {
-	var chosenType Conf_CoseSign_Field = Conf_CoseSign_Field_List[NewRandomInt(0, len(Conf_CoseSign_Field_List)-1)]
+	var chosenType Conf_CoseSign_Field = Conf_CoseSign_Field_List[NewRandomInt(0, len(Conf_CoseSign_Field_List))]
+
+	// There is nothing to spoil in an empty header
+	if chosenType == Conf_CoseSign_Field_Unprotected && coseSignature.Unprotected == (UnprotectedHeader{}) {
+		chosenType = Conf_CoseSign_Field_Signature
+	}
 
 	switch chosenType {
 	case Conf_CoseSign_Field_Protected:
-- 
2.43.0


From 5d73f8e058c0ded1f723e1310795dd70ebbf83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 28/38] fix: each device test is given once and judged by the
 message that follows it

---
 core/do/to2/common.go                         |  8 ++-
 core/do/to2/listener-to2-60-HelloDevice.go    | 39 +++++------
 core/do/to2/listener-to2-62-GetOVNextEntry.go | 35 +++++-----
 core/do/to2/listener-to2-64-ProveDevice.go    | 22 ++-----
 .../listener-to2-66-DeviceServiceInfoReady.go | 22 ++-----
 .../to2/listener-to2-68-DeviceServiceInfo.go  | 25 ++-----
 core/do/to2/listener-to2-70-Done.go           | 22 ++-----
 core/rv/listener-to1.go                       | 65 ++++++++++---------
 core/shared/testcom/dbs/listener.db.go        |  2 +-
 core/shared/testcom/listener/listenert.db.go  | 60 ++++++++++++-----
 10 files changed, 150 insertions(+), 150 deletions(-)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 6ffe562..da35b4f 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -129,7 +130,12 @@ func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, current
 	}
 
 	// Conformance
-	testcomListener, _ := h.listenerDB.GetEntryByFdoGuid(session.Guid)
+	testcomListener, err := h.listenerDB.GetEntryByFdoGuid(session.Guid)
+	if err != nil && !errors.Is(err, badger.ErrKeyNotFound) {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to find the test! "+err.Error(), http.StatusInternalServerError, nil, fdoshared.To2)
+
+		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("%d: Error finding the test... %s", currentCmd, err.Error())
+	}
 
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
diff --git a/core/do/to2/listener-to2-60-HelloDevice.go b/core/do/to2/listener-to2-60-HelloDevice.go
index f969d04..51ff6f5 100644
--- a/core/do/to2/listener-to2-60-HelloDevice.go
+++ b/core/do/to2/listener-to2-60-HelloDevice.go
@@ -1,11 +1,13 @@
 package to2
 
 import (
-	"fmt"
+	"errors"
 	"io"
 	"log"
 	"net/http"
 
+	"github.com/dgraph-io/badger/v4"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -37,27 +39,27 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 
 	// Test stuff
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
-	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(helloDevice.Guid)
-
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To2.CheckExpectedCmds([]fdoshared.FdoCmd{
-			currentCmd,
-			fdoshared.TO2_62_GET_OVNEXTENTRY,
-		}) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail(fmt.Sprintf("Expected TO2 %d. Got %d", testcomListener.To2.ExpectedCmd, currentCmd))
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
+	testcomListener, err = h.listenerDB.GetEntryByFdoGuid(helloDevice.Guid)
+	if err != nil && !errors.Is(err, badger.ErrKeyNotFound) {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to find the test! "+err.Error(), http.StatusInternalServerError, nil, fdoshared.To2)
+		return
+	}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
+	if testcomListener != nil {
+		isLastTestFailed := testcomListener.To2.JudgeLastTest(currentCmd, false)
 
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
 		}
+
+		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
+			return
+		}
+
+		fdoTestId = testcomListener.To2.GetNextTestID(currentCmd)
 	}
 
 	// Getting voucher from DB
@@ -201,9 +203,8 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 		sessionIdToken = ""
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_62_GET_OVNEXTENTRY)
+	if fdoTestId != testcom.NULL_TEST {
+		testcomListener.To2.GiveTest(fdoTestId, fdoshared.TO2_62_GET_OVNEXTENTRY)
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index 77bc474..c0a1aaf 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -4,11 +4,23 @@ import (
 	"log"
 	"net/http"
 
+	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
 	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
 )
 
+// isNextOVEntry tells whether the device asks for a further entry, after it was given the previous ones.
+func isNextOVEntry(session *dbs.SessionEntry, bodyBytes []byte) bool {
+	var getOVNextEntry fdoshared.GetOVNextEntry62
+	err := fdoshared.CborCust.Unmarshal(bodyBytes, &getOVNextEntry)
+	if err != nil {
+		return false
+	}
+
+	return session.PrevCMD == fdoshared.TO2_63_OV_NEXTENTRY && !session.Conf_RequestedOVEntriesContain(getOVNextEntry.GetOVNextEntry)
+}
+
 func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 	log.Println("GetOVNextEntry62: Receiving...")
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_62_GET_OVNEXTENTRY
@@ -24,19 +36,11 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
+	// The device may collect all the entries before it verifies them. Whether it carries on is not known until then.
+	isUndecided := testcomListener != nil && testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != "" && isNextOVEntry(session, bodyBytes)
 
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
+	if testcomListener != nil && !isUndecided {
+		isLastTestFailed := testcomListener.To2.JudgeLastTest(currentCmd, false)
 
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
@@ -48,6 +52,8 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
+
+		fdoTestId = testcomListener.To2.GetNextTestID(currentCmd)
 	}
 
 	if session.PrevCMD != fdoshared.TO2_61_PROVE_OVHDR && session.PrevCMD != fdoshared.TO2_63_OV_NEXTENTRY {
@@ -98,9 +104,8 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		ovNextEntryBytes = fdoshared.Conf_RandomCborBufferFuzzing(ovNextEntryBytes)
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_64_PROVE_DEVICE)
+	if fdoTestId != testcom.NULL_TEST {
+		testcomListener.To2.GiveTest(fdoTestId, fdoshared.TO2_64_PROVE_DEVICE)
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index c607bb3..3dc7239 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -30,19 +30,8 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	// Test stuff
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
+	if testcomListener != nil {
+		isLastTestFailed := testcomListener.To2.JudgeLastTest(currentCmd, false)
 
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
@@ -54,6 +43,8 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
+
+		fdoTestId = testcomListener.To2.GetNextTestID(currentCmd)
 	}
 
 	if session.PrevCMD != fdoshared.TO2_63_OV_NEXTENTRY {
@@ -182,9 +173,8 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
+	if fdoTestId != testcom.NULL_TEST {
+		testcomListener.To2.GiveTest(fdoTestId, fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
diff --git a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
index a9d1fa0..43c6188 100644
--- a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
+++ b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
@@ -23,19 +23,8 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
+	if testcomListener != nil {
+		isLastTestFailed := testcomListener.To2.JudgeLastTest(currentCmd, false)
 
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
@@ -47,6 +36,8 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
+
+		fdoTestId = testcomListener.To2.GetNextTestID(currentCmd)
 	}
 
 	if session.PrevCMD != fdoshared.TO2_65_SETUP_DEVICE {
@@ -108,9 +99,8 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_68_DEVICE_SERVICE_INFO)
+	if fdoTestId != testcom.NULL_TEST {
+		testcomListener.To2.GiveTest(fdoTestId, fdoshared.TO2_68_DEVICE_SERVICE_INFO)
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index 999fd51..e085ff8 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -23,22 +23,8 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE && session.PrevCMD == fdoshared.TO2_69_OWNER_SERVICE_INFO {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
+	if testcomListener != nil {
+		isLastTestFailed := testcomListener.To2.JudgeLastTest(currentCmd, session.PrevCMD == fdoshared.TO2_69_OWNER_SERVICE_INFO)
 
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
@@ -50,6 +36,8 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
+
+		fdoTestId = testcomListener.To2.GetNextTestID(currentCmd)
 	}
 
 	if session.PrevCMD != fdoshared.TO2_67_OWNER_SERVICE_INFO_READY && session.PrevCMD != fdoshared.TO2_69_OWNER_SERVICE_INFO {
@@ -148,9 +136,8 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_70_DONE)
+	if fdoTestId != testcom.NULL_TEST {
+		testcomListener.To2.GiveTest(fdoTestId, fdoshared.TO2_70_DONE)
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 36e6cfb..97ae4cb 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -24,19 +24,8 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	}
 
 	// Test params setup
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
+	if testcomListener != nil {
+		isLastTestFailed := testcomListener.To2.JudgeLastTest(currentCmd, false)
 
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
@@ -48,6 +37,8 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
 			return
 		}
+
+		fdoTestId = testcomListener.To2.GetNextTestID(currentCmd)
 	}
 
 	if session.PrevCMD != fdoshared.TO2_69_OWNER_SERVICE_INFO {
@@ -99,9 +90,8 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteTestRun()
+	if fdoTestId != testcom.NULL_TEST {
+		testcomListener.To2.GiveTest(fdoTestId, listenertestsdeps.NO_NEXT_CMD)
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index e5d57bf..e784de2 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -68,24 +69,27 @@ func (h *RvTo1) Handle30HelloRV(w http.ResponseWriter, r *http.Request) {
 
 	// Test stuff
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
-	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(helloRV30.Guid)
-
-	if testcomListener != nil && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To1.CheckExpectedCmd(currentCmd) && testcomListener.To1.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To1.PushFail(fmt.Sprintf("Expected TO1 %d. Got %d", testcomListener.To1.ExpectedCmd, currentCmd))
-		} else if testcomListener.To1.CurrentTestIndex != 0 {
-			testcomListener.To1.PushSuccess()
-		}
+	testcomListener, err = h.listenerDB.GetEntryByFdoGuid(helloRV30.Guid)
+	if err != nil && !errors.Is(err, badger.ErrKeyNotFound) {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to find the test! "+err.Error(), http.StatusInternalServerError, nil, fdoshared.To1)
+		return
+	}
 
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To1.GetNextTestID()
-		}
+	if testcomListener != nil {
+		isLastTestFailed := testcomListener.To1.JudgeLastTest(currentCmd, false)
 
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To1)
 			return
 		}
+
+		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
+			return
+		}
+
+		fdoTestId = testcomListener.To1.GetNextTestID(currentCmd)
 	}
 
 	_, err = h.ownersignDB.Get(helloRV30.Guid)
@@ -120,9 +124,8 @@ func (h *RvTo1) Handle30HelloRV(w http.ResponseWriter, r *http.Request) {
 		helloRVAckBytes = fdoshared.Conf_RandomCborBufferFuzzing(helloRVAckBytes)
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To1.CheckExpectedCmd(currentCmd) {
-		testcomListener.To1.PushSuccess()
-		testcomListener.To1.CompleteCmdAndSetNext(fdoshared.TO1_32_PROVE_TO_RV)
+	if fdoTestId != testcom.NULL_TEST {
+		testcomListener.To1.GiveTest(fdoTestId, fdoshared.TO1_32_PROVE_TO_RV)
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
@@ -172,24 +175,27 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 
 	// Test stuff
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
-	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(session.Guid)
-
-	if testcomListener != nil && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To1.CheckExpectedCmd(currentCmd) && testcomListener.To1.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To1.PushFail(fmt.Sprintf("Expected TO1 %d. Got %d", testcomListener.To1.ExpectedCmd, currentCmd))
-		} else if testcomListener.To1.CurrentTestIndex != 0 {
-			testcomListener.To1.PushSuccess()
-		}
+	testcomListener, err = h.listenerDB.GetEntryByFdoGuid(session.Guid)
+	if err != nil && !errors.Is(err, badger.ErrKeyNotFound) {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to find the test! "+err.Error(), http.StatusInternalServerError, nil, fdoshared.To1)
+		return
+	}
 
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To1.GetNextTestID()
-		}
+	if testcomListener != nil {
+		isLastTestFailed := testcomListener.To1.JudgeLastTest(currentCmd, false)
 
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To1)
 			return
 		}
+
+		if isLastTestFailed {
+			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest)
+			return
+		}
+
+		fdoTestId = testcomListener.To1.GetNextTestID(currentCmd)
 	}
 
 	var proveToRV32 fdoshared.CoseSignature
@@ -253,9 +259,8 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 		rvRedirectBytes = fdoshared.Conf_RandomCborBufferFuzzing(rvRedirectBytes)
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
-		testcomListener.To1.PushSuccess()
-		testcomListener.To1.CompleteTestRun()
+	if fdoTestId != testcom.NULL_TEST {
+		testcomListener.To1.GiveTest(fdoTestId, listenertestsdeps.NO_NEXT_CMD)
 		err := h.listenerDB.Update(testcomListener)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusInternalServerError, testcomListener, fdoshared.To1)
diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index 397167c..62fe5e3 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -284,7 +284,7 @@ func (h *ListenerTestDB) GetMappingEntry(guid fdoshared.FdoGuid) ([]byte, error)
 
 	item, err := dbtxn.Get(h.getMappingEntryId(guid))
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, fmt.Errorf("The mapping entry with id %s does not exist", hex.EncodeToString(h.getMappingEntryId(guid)))
+		return nil, fmt.Errorf("The mapping entry with id %s does not exist. %w", hex.EncodeToString(h.getMappingEntryId(guid)), err)
 	} else if err != nil {
 		return nil, errors.New("Failed locating mapping entry." + err.Error())
 	}
diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index d630266..0a119ec 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -8,6 +8,9 @@ import (
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
 )
 
+// NO_NEXT_CMD is for the last command of the protocol
+const NO_NEXT_CMD fdoshared.FdoCmd = 0
+
 type RequestListenerRunnerInst struct {
 	Protocol      fdoshared.FdoToProtocol `cbor:"protocol,omitempty"`
 	LastTestID    testcom.FDOTestID       `cbor:"lastTestID,omitempty"`
@@ -100,16 +103,6 @@ func (h *RequestListenerRunnerInst) CheckExpectedCmd(currentCmd fdoshared.FdoCmd
 	return currentCmd == h.ExpectedCmd
 }
 
-func (h *RequestListenerRunnerInst) CheckExpectedCmds(expectedCmds []fdoshared.FdoCmd) bool {
-	for _, cmd := range expectedCmds {
-		if h.ExpectedCmd == cmd {
-			return true
-		}
-	}
-
-	return false
-}
-
 func (h *RequestListenerRunnerInst) CheckCmdTestingIsCompleted(currentCmd fdoshared.FdoCmd) bool {
 	for _, completedCmd := range h.CompletedCmds {
 		if completedCmd == currentCmd {
@@ -167,20 +160,53 @@ func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	return nil
 }
 
-func (h *RequestListenerRunnerInst) GetNextTestID() testcom.FDOTestID {
-	if !h.Running {
+// JudgeLastTest takes the result of the test that was given last, if there is one without a result, from the message
+// that the device has sent next. The device passes when it starts over, and fails when it carries on: with a command
+// that has its tests still ahead, or with the next message of the same command.
+func (h *RequestListenerRunnerInst) JudgeLastTest(currentCmd fdoshared.FdoCmd, carriesOn bool) (failed bool) {
+	if !h.Running || h.LastTestID == "" || h.CheckCmdTestingIsCompleted(currentCmd) {
+		return false
+	}
+
+	if h.CheckExpectedCmd(currentCmd) && !carriesOn {
+		h.PushSuccess()
+	} else {
+		h.PushFail("Expected the device to fail, but it didn't")
+		failed = true
+	}
+
+	h.LastTestID = ""
+	return failed
+}
+
+// GetNextTestID returns the test to be given in response to the current command.
+func (h *RequestListenerRunnerInst) GetNextTestID(currentCmd fdoshared.FdoCmd) testcom.FDOTestID {
+	tests := h.Tests[currentCmd]
+	if !h.Running || !h.CheckExpectedCmd(currentCmd) || h.CurrentTestIndex >= len(tests) {
 		return testcom.NULL_TEST
 	}
 
-	selectedTestID := h.Tests[h.ExpectedCmd][h.CurrentTestIndex]
+	return tests[h.CurrentTestIndex]
+}
 
-	h.LastTestID = selectedTestID
+// GiveTest notes that the test is being given, now that its response is ready. The result is known once the device
+// reacts to it. Only the last, positive, one of each command has its result here.
+func (h *RequestListenerRunnerInst) GiveTest(testID testcom.FDOTestID, nextCMD fdoshared.FdoCmd) {
+	h.LastTestID = testID
+	h.CurrentTestIndex = h.CurrentTestIndex + 1
 
-	if h.CurrentTestIndex+1 < len(h.Tests[h.ExpectedCmd]) {
-		h.CurrentTestIndex = h.CurrentTestIndex + 1
+	if testID != testcom.FIDO_LISTENER_POSITIVE {
+		return
 	}
 
-	return selectedTestID
+	h.PushSuccess()
+	h.LastTestID = ""
+
+	if nextCMD == NO_NEXT_CMD {
+		h.CompleteTestRun()
+	} else {
+		h.CompleteCmdAndSetNext(nextCMD)
+	}
 }
 
 func (h *RequestListenerRunnerInst) GetLastTestID() testcom.FDOTestID {
-- 
2.43.0


From 3955fe565c8c234a47669ef939e893a991f3a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 29/38] fix: an owner server that numbers its voucher entries
 wrongly or has none fails the tests instead of crashing the tool

---
 testexec/do.to2.62.execute.go | 8 ++++++++
 testexec/do.to2.64.execute.go | 9 ++++++++-
 testexec/do.to2.66.execute.go | 9 ++++++++-
 testexec/do.to2.68.execute.go | 8 +++++++-
 testexec/do.to2.70.execute.go | 7 ++++++-
 5 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index eb22bed..3f429d0 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -73,6 +73,14 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				return
 			}
 
+			if len(ovEntries) == 0 {
+				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					Passed: false,
+					Error:  "Server returned a voucher without entries",
+				})
+				return
+			}
+
 			lastOvEntry := ovEntries[len(ovEntries)-1]
 			loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index f841de1..2cf8fce 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -1,6 +1,9 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +35,7 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -43,6 +46,10 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned a voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 76b9293..287f2ba 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -1,6 +1,9 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +35,7 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -43,6 +46,10 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned a voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index def4810..c033d33 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -1,6 +1,8 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
 	"log"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
@@ -34,7 +36,7 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -45,6 +47,10 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned a voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index 7ae34bc..81cfe6b 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -2,6 +2,7 @@ package testexec
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -34,7 +35,7 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -45,6 +46,10 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned a voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
-- 
2.43.0


From df0f90bd7dd40e95bc7fe0f3499a48e019562bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 30/38] fix: each TO2 entry test gets one verdict, under its
 own name, and ends with it

---
 testexec/do.to2.60.execute.go |  2 +-
 testexec/do.to2.62.execute.go | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index ed9dc2f..050746d 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -14,7 +14,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		if err != nil {
 			errTestState := testcom.NewFailTestState(fdoTestId, "Error getting voucher for TO2 60. "+err.Error())
 
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, fdoTestId, errTestState)
 			return
 		}
 
diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index 3f429d0..ebd6317 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -20,7 +20,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Error:  "Error getting voucher for TO2 60. " + err.Error(),
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 			return
 		}
 
@@ -35,7 +35,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Passed: false,
 				Error:  "Error running TO2 GetOVNextEntry62 tests. Failed to run HelloDevice60. " + err.Error(),
 			}
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 			return
 		}
 
@@ -99,6 +99,14 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 
 		default:
+			if proveOVHdrPayload61.NumOVEntries == 0 {
+				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					Passed: false,
+					Error:  "Server returned a voucher without entries",
+				})
+				return
+			}
+
 			randomTestIndex := fdoshared.NewRandomInt(0, int(proveOVHdrPayload61.NumOVEntries))
 			for i := 0; i < int(proveOVHdrPayload61.NumOVEntries); i++ {
 				selectedTestId := testcom.NULL_TEST
@@ -126,6 +134,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 				if randomTestIndex == i {
 					reqtDB.ReportTest(reqte.Uuid, testId, *testState)
+					break
 				}
 			}
 		}
-- 
2.43.0


From 75706a71fafa950c0d8f7c90695a3faa87a10eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 31/38] fix: the positive server tests judge the server's reply
 instead of always passing

---
 testexec/do.to2.60.execute.go | 2 +-
 testexec/do.to2.64.execute.go | 2 +-
 testexec/do.to2.66.execute.go | 2 +-
 testexec/rvt.to1.execute.go   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index 050746d..b5599f2 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -26,7 +26,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		switch fdoTestId {
 		case testcom.FIDO_DOT_60_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.HelloDevice60(fdoTestId)
+			_, _, err := to2requestor.HelloDevice60(testcom.NULL_TEST)
 			if err != nil {
 				errTestState := testcom.NewFailTestState(fdoTestId, err.Error())
 
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index 2cf8fce..985ace5 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -75,7 +75,7 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 		switch testId {
 		case testcom.FIDO_DOT_64_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.ProveDevice64(testId)
+			_, _, err := to2requestor.ProveDevice64(testcom.NULL_TEST)
 			if err != nil {
 				errTestState = testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 287f2ba..e26f041 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -79,7 +79,7 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 		switch testId {
 		case testcom.FIDO_DOT_66_POSITIVE:
-			_, _, err := to2requestor.DeviceServiceInfoReady66(testId)
+			_, _, err := to2requestor.DeviceServiceInfoReady66(testcom.NULL_TEST)
 			if err != nil {
 				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index 0364ddd..9c80728 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -72,7 +72,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_30_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.HelloRV30(rv30test)
+			_, _, err := to1inst.HelloRV30(testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
@@ -118,7 +118,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_33_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.ProveToRV32(*helloRvAck31, rv32test)
+			_, _, err := to1inst.ProveToRV32(*helloRvAck31, testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
-- 
2.43.0


From 72e90c7738908188e7411b9bba19b51d496e0886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 32/38] fix: null is neither a protocol error nor a valid reply
 of a server under test

---
 core/do/to0/common.go |  4 ++--
 core/shared/other.go  | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/do/to0/common.go b/core/do/to0/common.go
index 3a05092..ad4d2c0 100644
--- a/core/do/to0/common.go
+++ b/core/do/to0/common.go
@@ -48,7 +48,7 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 		}
 
 		var helloAck21 fdoshared.HelloAck21
-		err = fdoshared.CborCust.Unmarshal(bodyBytes, &helloAck21)
+		_, err = fdoshared.TryCborUnmarshal(bodyBytes, &helloAck21)
 		if err != nil {
 			return testcom.NewFailTestState(fdoTestID, "Error decoding HelloAck21. "+err.Error())
 		}
@@ -62,7 +62,7 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 		}
 
 		var acceptOwner fdoshared.AcceptOwner23
-		err = fdoshared.CborCust.Unmarshal(bodyBytes, &acceptOwner)
+		_, err = fdoshared.TryCborUnmarshal(bodyBytes, &acceptOwner)
 		if err != nil {
 			return testcom.NewFailTestState(fdoTestID, "Error decoding AcceptOwner23. "+err.Error())
 		}
diff --git a/core/shared/other.go b/core/shared/other.go
index 77dc3c8..2713299 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -252,10 +252,24 @@ func DecodeErrorResponse(bodyBytes []byte) (*FdoError, error) {
 		return nil, errors.New("error decoding FdoError " + err.Error())
 	}
 
+	// Null decodes into anything, leaving it empty. There is no error without a code.
+	if errInst.EMErrorCode == 0 {
+		return nil, errors.New("error decoding FdoError. The error code is missing")
+	}
+
 	return &errInst, nil
 }
 
+const (
+	cborNull      byte = 0xf6
+	cborUndefined byte = 0xf7
+)
+
 func TryCborUnmarshal(bodyBytes []byte, target interface{}) (*FdoError, error) {
+	if len(bodyBytes) == 1 && (bodyBytes[0] == cborNull || bodyBytes[0] == cborUndefined) {
+		return nil, errors.New("the message is null")
+	}
+
 	err := CborCust.Unmarshal(bodyBytes, target)
 	if err != nil {
 		return DecodeErrorResponse(bodyBytes)
-- 
2.43.0


From 4404ac88b2ad5a740280904171f1d169cf47aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 33/38] fix: the reset commands remove what they say instead of
 nothing or crashing

reset users committed inside an open iterator, which panics; reset listenerdb started at the first key of the
database, and stopped there unless that happened to be one of its own.
---
 core/shared/testcom/dbs/listener.db.go | 32 ++++++++++++++++----------
 dbs/user.db.go                         | 32 +++++++++++++++-----------
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index 62fe5e3..167d428 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -209,29 +209,37 @@ func (h *ListenerTestDB) ResetDB() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
 
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.ValidForPrefix(h.prefix) || iterTxn.ValidForPrefix(h.mapperGuidPrefix); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
-
+	for _, k := range h.allKeys(dbtxn) {
 		log.Println("Deleting... " + hex.EncodeToString(k))
 
 		err := dbtxn.Delete(k)
 		if err != nil {
-			log.Println("Error creating delete mapping... " + hex.EncodeToString(k))
-		}
-
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete mapping... " + hex.EncodeToString(k))
+			return errors.New("Failed initialise delete listener entry. " + err.Error())
 		}
+	}
 
+	err := dbtxn.Commit()
+	if err != nil {
+		return errors.New("Failed to delete listener entries. " + err.Error())
 	}
 
 	return nil
 }
 
+// allKeys lists the keys of the entries and of their guid mappings, which start with the prefix of the entries.
+func (h *ListenerTestDB) allKeys(dbtxn *badger.Txn) (keys [][]byte) {
+	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
+		Prefix: h.prefix,
+	})
+	defer iterTxn.Close()
+
+	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
+		keys = append(keys, iterTxn.Item().KeyCopy(nil))
+	}
+
+	return keys
+}
+
 /* ---- Test mgmt menthods ----- */
 
 func (h *ListenerTestDB) GetMany(entriesIds [][]byte) (*[]listenertestsdeps.RequestListenerInst, error) {
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 6de54eb..dd209a3 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -166,26 +166,32 @@ func (h *UserTestDB) ResetUsers() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
 
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
-		Prefix: h.prefix,
-	})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
-
+	for _, k := range h.userKeys(dbtxn) {
 		log.Println("Deleting... " + hex.EncodeToString(k))
 
 		err := dbtxn.Delete(k)
 		if err != nil {
-			log.Println("Error creater delete req... " + hex.EncodeToString(k))
+			return errors.New("Failed creating delete req. The error is: " + err.Error())
 		}
+	}
 
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete req... " + hex.EncodeToString(k))
-		}
+	err := dbtxn.Commit()
+	if err != nil {
+		return errors.New("Failed deleting users. The error is: " + err.Error())
 	}
 
 	return nil
 }
+
+func (h *UserTestDB) userKeys(dbtxn *badger.Txn) (keys [][]byte) {
+	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
+		Prefix: h.prefix,
+	})
+	defer iterTxn.Close()
+
+	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
+		keys = append(keys, iterTxn.Item().KeyCopy(nil))
+	}
+
+	return keys
+}
-- 
2.43.0


From 443c6e01d73d89c523b41f517cae649de2f71cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 34/38] fix: a failed read of the configuration no longer makes
 the tools seed again over it

---
 dbs/config.db.go | 2 +-
 main.go          | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dbs/config.db.go b/dbs/config.db.go
index 44feace..f79257c 100644
--- a/dbs/config.db.go
+++ b/dbs/config.db.go
@@ -59,7 +59,7 @@ func (h *ConfigDB) Get() (*MainConfig, error) {
 
 	item, err := dbtxn.Get(storageId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, fmt.Errorf("The MainConfig entry with does not exist")
+		return nil, fmt.Errorf("The MainConfig entry with does not exist. %w", err)
 	} else if err != nil {
 		return nil, errors.New("Failed locating MainConfig entry. The error is: " + err.Error())
 	}
diff --git a/main.go b/main.go
index 5ecf4c9..5630695 100644
--- a/main.go
+++ b/main.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/hex"
 	"encoding/pem"
+	"errors"
 	"fmt"
 	"log"
 	"net/http"
@@ -132,7 +133,9 @@ func checkAndSeed(db *badger.DB) error {
 	configdb := dbs.NewConfigDB(db)
 
 	_, err := configdb.Get()
-	if err != nil {
+	if err != nil && !errors.Is(err, badger.ErrKeyNotFound) {
+		return err
+	} else if err != nil {
 		log.Println("---------- NOTE ----------")
 		log.Println("\nPlease wait while tools pre-generate testing private keys. This may take up to five minutes...")
 		log.Println("---------- NOTE ----------")
-- 
2.43.0


From 147f4f61c7188ea6adafd4268ae119bc39e6cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 35/38] fix: verify that a voucher entry names the voucher's
 own device

---
 core/shared/voucher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index af9dc13..eb97b8a 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -147,6 +147,12 @@ func (h OVEntryArray) VerifyEntries(ovHeaderTag []byte, ovHeaderHMac HashOrHmac)
 			return errors.New("error decoding OVEntry payload: " + err.Error())
 		}
 
+		hdrInfo := append(voucherHeader.OVGuid[:], []byte(voucherHeader.OVDeviceInfo)...)
+		err = VerifyHash(hdrInfo, OVEntryPayload.OVEHashHdrInfo)
+		if err != nil {
+			return errors.New("error verifying OVEntry HdrInfo Hash: " + err.Error())
+		}
+
 		if i == 0 {
 			headerHmacBytes, _ := CborCust.Marshal(ovHeaderHMac)
 			firstEntryHashContents := append(ovHeaderTag, headerHmacBytes...)
-- 
2.43.0


From 7a9c60a561ccaac5d20a0f3ba217a82063e8fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 36/38] fix: refuse a registration whose address blob has no
 usable address

---
 core/rv/listener-to0.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/rv/listener-to0.go b/core/rv/listener-to0.go
index 4bf9d57..833043e 100644
--- a/core/rv/listener-to0.go
+++ b/core/rv/listener-to0.go
@@ -135,9 +135,17 @@ func (h *RvTo0) Handle22OwnerSign(w http.ResponseWriter, r *http.Request) {
 	}
 
 	// Verify all the RVTO2AddrEntry
+	if len(to1dPayload.To1dRV) == 0 {
+		log.Println("OwnerSign22: There is no RVTO2AddrEntry!")
+		fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, fdoshared.TO0_22_OWNER_SIGN, "Failed to validate owner sign!", http.StatusBadRequest)
+		return
+	}
+
 	for _, rvEntry := range to1dPayload.To1dRV {
-		if rvEntry.RVDNS == nil && rvEntry.RVIP == nil {
-			log.Println("OwnerSign22: Invalid RVTO2AddrEntry, both RVDNS and RVIP are nil!")
+		hasDNS := rvEntry.RVDNS != nil && *rvEntry.RVDNS != ""
+		hasIP := rvEntry.RVIP != nil && rvEntry.RVIP.IsValid()
+		if !hasDNS && !hasIP {
+			log.Println("OwnerSign22: Invalid RVTO2AddrEntry, neither RVDNS nor RVIP is usable!")
 			fdoshared.RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, fdoshared.TO0_22_OWNER_SIGN, "Failed to validate owner sign!", http.StatusBadRequest)
 			return
 		}
-- 
2.43.0


From 3af7cd606d3eead1afb9086714f6024a7b899aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 37/38] fix: refuse a Diffie-Hellman contribution that makes
 the session key a constant

---
 core/shared/kex.crypto.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index 10753c3..bbb6f8c 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -256,6 +256,12 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 		// Recover Bob's public key
 		dhkxBPubKey := dhkx.NewPublicKey(xBKeyExchange)
 
+		// 0, 1 and p-1 (or more) would make the key a constant, whatever our own contribution is
+		maxPubKey := new(big.Int).Sub(dhkxPrivKeyA.Group.P(), big.NewInt(2))
+		if dhkxBPubKey.Y.Cmp(big.NewInt(1)) <= 0 || dhkxBPubKey.Y.Cmp(maxPubKey) > 0 {
+			return nil, errors.New("error deriving shared key for KEX_DHKEX id14/id15. invalid public key")
+		}
+
 		// Compute the key
 		sharedPubKey, err := dhkxPrivKeyA.Group.ComputeKey(dhkxBPubKey, dhkxPrivKeyA)
 		if err != nil {
-- 
2.43.0


From 420e8b472c20d7855ec5b1e6e33a6819b4190142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 38/38] fix: keep the leading zeros of the ECDH shared secret

---
 core/shared/kex.crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index bbb6f8c..84f8deb 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -315,7 +315,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 32)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
@@ -364,7 +364,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, 48)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
-- 
2.43.0

