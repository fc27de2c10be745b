From 31cbc397e101afa99d33e8771725aa9676dffebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 01/71] fix: reject a padding byte of zero in pkcs7.Unpad

---
 pkcs7/pad.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkcs7/pad.go b/pkcs7/pad.go
index cba5a65..482404d 100644
--- a/pkcs7/pad.go
+++ b/pkcs7/pad.go
@@ -63,6 +63,10 @@ func Unpad(b []byte) ([]byte, error) {
 
 	padBytes := b[len(b)-1]
 
+	// There is always at least one byte of padding
+	if padBytes == 0 {
+		return nil, errPaddingInvalid
+	}
 	if int(padBytes) > len(b) {
 		return nil, errPaddingAmountImpossible
 	}
-- 
2.43.0


From 1fd79c8e1a63617ac49866ddd8c63a46ab019ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 02/71] fix: reject truncated and malformed files instead of
 crashing in crypt

---
 crypt/crypto.go    |  8 ++++++--
 crypt/crypto_v1.go | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index b9d11b3..871455e 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -183,7 +183,7 @@ func NewMasterKey(version int) (master, iv []byte, err error) {
 // will be returned. If the user was specified but was not found in the file
 // then ErrUnknownUser is returned.
 func Decrypt(user, passphrase, key, salt, encrypted []byte) (version int, p Params, pt []byte, err error) {
-	if bytes.Equal(v0Header, encrypted[:len(v0Header)]) {
+	if bytes.HasPrefix(encrypted, v0Header) {
 		pt, key, salt, err := decryptV0(passphrase, encrypted)
 		if err != nil {
 			return 0, p, nil, err
@@ -225,7 +225,7 @@ func IsMultiUser(encrypted []byte) (ok bool, err error) {
 
 	nUsersStr := string(encrypted[magicLen-4 : magicLen])
 	i, err := strconv.ParseInt(nUsersStr, 10, 32)
-	if err != nil {
+	if err != nil || i < 0 {
 		return false, ErrInvalidFileFormat
 	}
 
@@ -270,6 +270,10 @@ func getVersion(version int) (c config, err error) {
 
 // verifyMagic ensures the magic string is correct and decodes version
 func verifyMagic(in []byte) (version int, err error) {
+	if len(in) < magicLen {
+		return 0, ErrInvalidFileFormat
+	}
+
 	magicString := in[:magicLen/2]
 	in = in[magicLen/2:]
 	versionString := in[:magicLen/4]
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 1ccda10..c267e0d 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -215,6 +215,20 @@ func decryptV1(c config, user, passphrase, key, salt, encrypted []byte) (p Param
 	}
 
 	nUsers = int(i)
+	if nUsers < 0 {
+		return p, nil, ErrInvalidFileFormat
+	}
+
+	// Everything that precedes the ciphertext must be there
+	headerSize := magicLen + c.saltSize + c.blockSize
+	if nUsers != 0 {
+		userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+		headerSize = magicLen + userSize*nUsers + c.blockSize
+	}
+	if len(encrypted) < headerSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	if nUsers != 0 && len(user) == 0 {
 		return p, nil, ErrNeedUser
 	}
@@ -267,6 +281,9 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		ivOffset -= cipherBlockSize
 
 		// decrypt & discard padding
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
 		if err != nil {
@@ -276,6 +293,9 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
 	origShaSum := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
@@ -419,6 +439,9 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		ivOffset -= cipherBlockSize
 
 		// decrypt & discard padding
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
 		if err != nil {
@@ -429,6 +452,9 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	}
 
 	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
 	oldHash := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
-- 
2.43.0


From d181cff3c150de5f32d1ede21296d8cfe6f913be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 03/71] fix: do not use a key of the wrong size for decryption

---
 crypt/crypto_v1.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index c267e0d..285fef5 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -249,7 +249,7 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 	newSalt := encrypted[magicLen : magicLen+c.saltSize]
 	doDerive := !bytes.Equal(salt, newSalt)
 
-	if key == nil || doDerive {
+	if len(key) != c.keySize || doDerive {
 		if len(passphrase) == 0 {
 			return p, nil, ErrWrongPassphrase
 		}
@@ -375,7 +375,7 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	copy(p.IVM, plaintextHeader[:c.blockSize])
 	plaintextHeader = plaintextHeader[c.blockSize:]
 
-	if len(key) == 0 || !bytes.Equal(salt, p.Salts[p.User]) {
+	if len(key) != c.keySize || !bytes.Equal(salt, p.Salts[p.User]) {
 		if len(passphrase) == 0 {
 			return p, nil, ErrWrongPassphrase
 		}
-- 
2.43.0


From 37348f6bd9b207b3f2c9e31f37cec8adc4181b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 04/71] fix: an unknown user must not be tried with the first
 user's salt and master key

---
 crypt/crypto_v1.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 285fef5..dfa68c5 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -361,11 +361,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		// Here we could return ErrUnknownUser, but this is bad
 		// for security, lets just create some 0 bytes for the headers etc
 		// and let the cryptography fail.
-		p.Keys = append(p.Keys, nil)
 		p.Salts = append(p.Salts, make([]byte, c.saltSize))
 		p.IVs = append(p.IVs, make([]byte, c.blockSize))
 		p.MKeys = append(p.MKeys, make([]byte, c.keySize))
-		p.User = len(p.Keys) - 1
+		p.User = nUsers
 		p.NUsers++
 
 		//return p, nil, ErrUnknownUser
@@ -459,7 +458,7 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	plaintext = ciphertext[sha512.Size:]
 
 	newHash := sha512.New()
-	_, _ = newHash.Write(encrypted[:magicLen+(userSize*p.NUsers)+c.blockSize])
+	_, _ = newHash.Write(encrypted[:magicLen+(userSize*nUsers)+c.blockSize])
 	_, _ = newHash.Write(plaintext)
 	shaSum := newHash.Sum(nil)
 
-- 
2.43.0


From cae49f16ea85c6bebfc91983390c52d507ec24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 05/71] fix: refuse multi-user parameters that cannot be
 encrypted

---
 crypt/crypto.go    | 1 +
 crypt/crypto_v1.go | 4 ++++
 crypt/params.go    | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index 871455e..cdd81e1 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -33,6 +33,7 @@ const (
 	magicStr = "blobpass"
 
 	maxVersion = 9999
+	maxUsers   = 9999
 )
 
 // v0Header is a special case
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index dfa68c5..d78b8b2 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -97,6 +97,10 @@ func encryptV1Single(c config, p *Params, plaintext []byte) (encrypted []byte, e
 }
 
 func encryptV1Multi(c config, p *Params, plaintext []byte) (encrypted []byte, err error) {
+	if len(p.Master) == 0 || len(p.IVM) == 0 {
+		return nil, ErrNeedFullRekey
+	}
+
 	cipherSuite, err := cipherSuite(c)
 	if err != nil {
 		return nil, err
diff --git a/crypt/params.go b/crypt/params.go
index d544ce7..8843bde 100644
--- a/crypt/params.go
+++ b/crypt/params.go
@@ -73,6 +73,9 @@ func (p Params) validate(c config) error {
 		return nil
 	}
 
+	if p.NUsers > maxUsers {
+		return fmt.Errorf("there cannot be more than %d users", maxUsers)
+	}
 	if len(p.Keys) != p.NUsers {
 		return errors.New("each user must have a key")
 	}
-- 
2.43.0


From 8d9ef655f6c0072a7a6cb19bef07622699f3d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 06/71] fix: rolling back a transaction must invalidate a
 snapshot that includes its first change

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 8e4b0db..5f87782 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -160,7 +160,7 @@ func (s *DB) Rollback() {
 		panic("rollback called before begin")
 	}
 
-	if s.Version > uint(s.txPoint) {
+	if s.Version > uint(s.txPoint-1) {
 		s.ResetSnapshot()
 	}
 
-- 
2.43.0


From d70842096906d65586fa93d3dbe7ce44eaf0351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 07/71] fix: refuse negative versions instead of crashing in
 txlogs

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 5f87782..c8bb11d 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -231,7 +231,7 @@ func (s *DB) UpdateSnapshot() error {
 // SnapshotAt creates a new snapshot of a particular entry versionsAgo
 // in the past.
 func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
-	if versionsAgo > len(s.Log) {
+	if versionsAgo < 0 || versionsAgo > len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
@@ -250,7 +250,7 @@ func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
 // in the past. If history past the existence of the entry is requested
 // a KeyNotFound error may be present.
 func (s *DB) EntrySnapshotAt(uuid string, versionsAgo int) (Entry, error) {
-	if versionsAgo >= len(s.Log) {
+	if versionsAgo < 0 || versionsAgo >= len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From 77a812b9ae7d38179c17ae58f9121d0df0f13dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 08/71] fix: loading a json null must not crash

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index c8bb11d..88c05fb 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -53,7 +53,7 @@ type storeNoSnapshot struct {
 // New takes a json blob and unmarshals it into a DB
 func New(data []byte) (*DB, error) {
 	s := new(DB)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
@@ -63,7 +63,7 @@ func New(data []byte) (*DB, error) {
 // NewLog parses the same data as New() but only returns the log
 func NewLog(data []byte) ([]Tx, error) {
 	s := new(storeNoSnapshot)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 4c34328cf95e28c048a290d4db9aec7886939e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 09/71] fix: merging histories of equal length must not ignore
 a fork in the middle

Two copies that both merged the same later change start and end with the same
transaction and may be equally long, yet hold different changes in between.
The shortcut also crashed on two empty histories.
---
 txlogs/txlogs.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 88c05fb..d1369b5 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -312,9 +312,6 @@ func (s *DB) LastUpdated(uuid string) (last int64) {
 // Merge logs together. The standard case for merging is that the logs proceed
 // in order with the same uuids.
 //
-// There is a no-fork fast-path in which a is returned if lengths are the same
-// and they start and end with the same transaction ids.
-//
 // When a fork occurs the logs need to be reconciled. The reconciliation is
 // done by accepting each change in order deterministically, it sorts first
 // by timestamp, then by uuid as a fallback in case the changes (unlikely)
@@ -336,16 +333,6 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
-	if lena == lenb &&
-		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
-		// These are the same list of events
-		// There can be no possible fork that has happened if they
-		// 1. Are not of differing length
-		// 2. Start at the unique ID
-		// 3. End at the unique ID
-		return a, nil
-	}
-
 	most := lena
 	if lenb > most {
 		most = lenb
-- 
2.43.0


From fd864b0a4a90c722093ce5cac1331757b9e389a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 10/71] fix: different changes with the same timestamp are not
 the same change

Merge dropped one side's change when two copies made a change at the same
time, and applied a conflict's resolution to unrelated deletions.
---
 txlogs/tx.go     | 16 ++++++++++++++++
 txlogs/txlogs.go | 14 +++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/txlogs/tx.go b/txlogs/tx.go
index 3aaccf0..5c76df7 100644
--- a/txlogs/tx.go
+++ b/txlogs/tx.go
@@ -29,6 +29,22 @@ type Tx struct {
 	Value string `msgpack:"value,omitempty" json:"value,omitempty"`
 }
 
+// before orders transactions by time. Transactions that happened inside the
+// time's resolution are ordered by entry, then by what they do to it.
+func (t Tx) before(other Tx) bool {
+	switch {
+	case t.Time != other.Time:
+		return t.Time < other.Time
+	case t.UUID != other.UUID:
+		return t.UUID < other.UUID
+	case t.Kind != other.Kind:
+		return t.Kind < other.Kind
+	case t.Key != other.Key:
+		return t.Key < other.Key
+	}
+	return t.Value < other.Value
+}
+
 // conflict types
 const (
 	// ConflictKindDeleteSet occurs when an entry has been deleted
diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index d1369b5..a4dd11a 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -362,7 +362,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			// Before we mark ourselves as deleted, make sure we aren't
 			// part of a resolution.
 			for _, res := range resolved {
-				if res.Initial.Time != c[last].Time {
+				if res.Initial != c[last] {
 					continue
 				}
 
@@ -383,7 +383,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		deleteTx := c[ind]
 		// Check if its resolved
 		for _, res := range resolved {
-			if res.Initial.Time == deleteTx.Time {
+			if res.Initial == deleteTx {
 				// Assert for the impossible, and delete ourselves off the end
 				// This is impossible because if it was resolved in the other
 				// way it should have been handled above.
@@ -397,7 +397,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// Make sure we haven't noted this one already first
 		for _, con := range conflicts {
-			if con.Initial.Time == deleteTx.Time {
+			if con.Initial == deleteTx {
 				return
 			}
 		}
@@ -416,10 +416,10 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			break
 		}
 
-		// If ids are the same, append and move on, haven't reached fork
-		if a[i].Time == b[j].Time {
+		// If they are the same, append and move on, haven't reached fork
+		if a[i] == b[j] {
 			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = i
+				deleted[a[i].UUID] = len(c)
 			}
 
 			c = append(c, a[i])
@@ -445,7 +445,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// Compare the txs
-		if a[i].Time < b[j].Time {
+		if a[i].before(b[j]) {
 			c = append(c, a[i])
 			i++
 		} else {
-- 
2.43.0


From e42b5478796e71c3288ad0d6bc5e00c200052bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 11/71] fix: removing a label must keep all others and be dated

---
 blobformat/blobs.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c821741..7016045 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -440,20 +440,20 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 		return err
 	}
 
-	labels := strings.Split(entry[KeyLabels], ",")
-	if index >= len(labels) {
+	labels := entry.Labels()
+	if index < 0 || index >= len(labels) {
 		return errors.New("index out of range")
 	}
 
+	b.touchUpdated(uuid)
 	if len(labels) == 1 {
 		b.DB.DeleteKey(uuid, KeyLabels)
 		return nil
 	}
 
 	copy(labels[index:], labels[index+1:])
-	labels = labels[len(labels)-1:]
+	labels = labels[:len(labels)-1]
 
-	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyLabels, strings.Join(labels, ","))
 	return nil
 }
-- 
2.43.0


From e7cc079cc3258522a8a17ddaeadbb2a71b381777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 12/71] fix: searching by labels must find exactly the entries
 with all of them

---
 blobformat/blobs.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 7016045..aa21cce 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -143,33 +143,22 @@ func (b Blobs) SearchLabels(labels ...string) (entries SearchResults, err error)
 	}
 
 	entries = make(map[string]string)
+AllEntries:
 	for uuid, entry := range b.DB.Snapshot {
 		blob := Blob(entry)
+		haveLabels := blob.Labels()
 
-		lblVal := blob[KeyLabels]
-		if len(lblVal) == 0 {
-			continue
-		}
-
-		haveLabels := strings.Split(lblVal, ",")
-
-		found := 0
+	AllLabels:
 		for _, want := range labels {
 			for _, have := range haveLabels {
-				if have != want {
-					continue
-				}
-
-				found++
-				if found == len(labels) {
-					break
+				if have == want {
+					continue AllLabels
 				}
 			}
+			continue AllEntries
 		}
 
-		if found == len(labels) {
-			entries[uuid] = blob.Name()
-		}
+		entries[uuid] = blob.Name()
 	}
 
 	return entries, nil
-- 
2.43.0


From 912fc0b07acfa0de6af83a8ba7267d62d85445e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 13/71] fix: renaming duplicates must store the new names and
 keep them unique

---
 blobformat/blobs.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index aa21cce..5882f39 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -45,6 +46,7 @@ type SearchResults map[string]string
 
 // RenameDuplicates renames names (KeyName) that collide.
 // Creates snapshots as it does so. Returns a list of renames that it did.
+// The entry with the smallest uuid keeps the name.
 func (b Blobs) RenameDuplicates() (map[string]string, error) {
 	if err := b.UpdateSnapshot(); err != nil {
 		return nil, err
@@ -53,13 +55,20 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 	names := make(map[string]struct{})
 	renames := make(map[string]string)
 
+	uuids := make([]string, 0, len(b.Snapshot))
 	for uuid, entry := range b.Snapshot {
-		blob := Blob(entry)
-		name := blob.Name()
+		names[Blob(entry).Name()] = struct{}{}
+		uuids = append(uuids, uuid)
+	}
+	sort.Strings(uuids)
+
+	kept := make(map[string]struct{})
+	for _, uuid := range uuids {
+		name := Blob(b.Snapshot[uuid]).Name()
 
-		_, ok := names[name]
+		_, ok := kept[name]
 		if !ok {
-			names[name] = struct{}{}
+			kept[name] = struct{}{}
 			continue
 		}
 
@@ -69,10 +78,11 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 			_, ok = names[name]
 		}
 
+		names[name] = struct{}{}
 		renames[oldName] = name
 
 		b.touchUpdated(uuid)
-		b.Set(uuid, KeyName, name)
+		b.DB.Set(uuid, KeyName, name)
 	}
 
 	return renames, nil
-- 
2.43.0


From 38dae3f033dd0dcaa47064e68284c4624d92d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 14/71] fix: key material of users must not be deletable

---
 blobformat/blobs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 5882f39..2f9b03d 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -368,10 +368,11 @@ func (b Blobs) Set(uuid, key, value string) error {
 	return nil
 }
 
-// DeleteKey from an entry, follows the rules of Set() for protected keys.
+// DeleteKey from an entry, follows the rules of Set() for protected keys,
+// except that the two factor secret may be deleted.
 func (b Blobs) DeleteKey(uuid, key string) error {
 	switch key {
-	case KeyName, KeyUpdated:
+	case KeyName, KeyUpdated, KeyIV, KeySalt, KeyMKey:
 		return keyNotAllowed(key)
 	}
 
-- 
2.43.0


From f96820d3a9783ef276a9dbfe60628a08e2cd265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 15/71] fix: only names starting with user/ are users

---
 blobformat/blobs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 2f9b03d..5421156 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -494,12 +494,11 @@ func IsUserEntry(name string) bool {
 // SplitUsername returns a username from an entry name, returns empty string
 // if this was not a proper user entryname
 func SplitUsername(entryname string) string {
-	index := strings.Index(entryname, userPrefix)
-	if index < 0 {
+	if !IsUserEntry(entryname) {
 		return ""
 	}
 
-	return entryname[index+len(userPrefix):]
+	return entryname[len(userPrefix):]
 }
 
 // touchUpdated refreshes the updated timestamp for the given item
-- 
2.43.0


From 9b072b374eab74506f5175adead06fd5bd910205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 16/71] fix: refuse unusable two factor secrets and honour
 their parameters

---
 blobformat/blob.go  | 57 ++++++++++++++++++++++++++++++++++++++++++---
 blobformat/blobs.go |  5 +++-
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 59c6039..c0103d4 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -1,7 +1,9 @@
 package blobformat
 
 import (
+	"errors"
 	"fmt"
+	"net/url"
 	"strconv"
 	"strings"
 	"time"
@@ -63,17 +65,66 @@ func (b Blob) TwoFactor() (string, error) {
 		return "", fmt.Errorf("failed to parse two factor uri for %s: %w", b.Name(), err)
 	}
 
+	code, err := totpCode(key, time.Now().UTC())
+	if err != nil {
+		return "", fmt.Errorf("failed to create two factor code for %s: %w", b.Name(), err)
+	}
+
+	return code, nil
+}
+
+// totpCode for the given time, using the digits, period and algorithm of the
+// key if it has any.
+func totpCode(key *otp.Key, at time.Time) (string, error) {
 	// There's no constant for totp here
 	if key.Type() != "totp" {
-		return "", fmt.Errorf("two factor key for %s was not a totp key", b.Name())
+		return "", errors.New("not a totp key")
+	}
+	if len(strings.TrimSpace(key.Secret())) == 0 {
+		return "", errors.New("the secret is empty")
 	}
 
-	code, err := totp.GenerateCode(key.Secret(), time.Now().UTC())
+	uri, err := url.Parse(key.URL())
 	if err != nil {
 		return "", err
 	}
+	query := uri.Query()
 
-	return code, nil
+	opts := totp.ValidateOpts{
+		Period:    30,
+		Digits:    otp.DigitsSix,
+		Algorithm: otp.AlgorithmSHA1,
+	}
+
+	if period := query.Get("period"); len(period) != 0 {
+		p, err := strconv.ParseUint(period, 10, 31)
+		if err != nil || p == 0 {
+			return "", fmt.Errorf("bad period: %q", period)
+		}
+		opts.Period = uint(p)
+	}
+
+	switch digits := query.Get("digits"); digits {
+	case "", "6":
+	case "7":
+		opts.Digits = 7
+	case "8":
+		opts.Digits = otp.DigitsEight
+	default:
+		return "", fmt.Errorf("bad number of digits: %q", digits)
+	}
+
+	switch algorithm := query.Get("algorithm"); strings.ToUpper(algorithm) {
+	case "", "SHA1":
+	case "SHA256":
+		opts.Algorithm = otp.AlgorithmSHA256
+	case "SHA512":
+		opts.Algorithm = otp.AlgorithmSHA512
+	default:
+		return "", fmt.Errorf("unknown algorithm: %q", algorithm)
+	}
+
+	return totp.GenerateCodeCustom(key.Secret(), at, opts)
 }
 
 // Labels for the blob
diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 5421156..058a8ab 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -403,10 +403,13 @@ func (b Blobs) SetTwofactor(uuid, uriOrKey string) error {
 		)
 	}
 
-	_, err := otp.NewKeyFromURL(uri)
+	key, err := otp.NewKeyFromURL(uri)
 	if err != nil {
 		return fmt.Errorf("could not set two factor key, uri wouldn't parse: %w", err)
 	}
+	if _, err = totpCode(key, time.Now().UTC()); err != nil {
+		return fmt.Errorf("could not set two factor key: %w", err)
+	}
 
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyTwoFactor, uri)
-- 
2.43.0


From 4ce757b8e4d51c363438e12953f341e98a5e4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 17/71] fix: fuzzy matching must not depend on the length of
 the encoding

---
 fuzzy/fuzzy.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index e58ab6f..7e6a3f3 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -13,22 +13,13 @@ import (
 // Lowercase letters match both upper and lowercase letters, where uppercase
 // matches only uppercase letters.
 func Match(s string, search string) bool {
-	slen := len(s)
-	searchLen := len(search)
-
-	if searchLen > slen {
-		return false
-	}
-	if searchLen == slen && s == search {
-		return true
-	}
-
 	// Use for range to get the unicode semantics
 Search:
 	for _, searchChar := range search {
 		for i, char := range s {
 			if searchChar == char || searchChar == unicode.ToLower(char) {
-				s = s[utf8.RuneLen(char)+i:]
+				_, size := utf8.DecodeRuneInString(s[i:])
+				s = s[i+size:]
 				continue Search
 			}
 		}
-- 
2.43.0


From 327fd5c2c0fa2e0dc72158d670da4658bc228071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 18/71] fix: exit status must report failures

---
 main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 1bf94b4..ee5284e 100644
--- a/main.go
+++ b/main.go
@@ -123,13 +123,16 @@ func main() {
 
 Exit:
 	if !flagNoClearClip {
-		if err = clipboard.WriteAll(""); err != nil {
+		if clipErr := clipboard.WriteAll(""); clipErr != nil {
 			fmt.Println("failed to clear the clipboard")
 		}
 	}
 
-	if err = ctx.in.Close(); err != nil {
-		fmt.Println("failed to close terminal properly:", err)
+	if closeErr := ctx.in.Close(); closeErr != nil {
+		fmt.Println("failed to close terminal properly:", closeErr)
+		if err == nil {
+			err = closeErr
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From 5cf76544de4d125989755a627a72b5cd02f86297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 19/71] fix: a failed write must not destroy the previous file

---
 main.go | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 sync.go |  2 +-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index ee5284e..5b19220 100644
--- a/main.go
+++ b/main.go
@@ -272,7 +272,50 @@ func (u *uiContext) saveBlob() error {
 		return err
 	}
 
-	return ioutil.WriteFile(flagFile, data, 0600)
+	return writeFile(flagFile, data)
+}
+
+// writeFile replaces the contents of the file. The data is written to a
+// temporary file beside it first, so that the old contents survive a failure.
+func writeFile(filename string, data []byte) (err error) {
+	// Replace what a symlink points to, not the symlink
+	if resolved, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = resolved
+	}
+
+	mode := os.FileMode(0600)
+	if info, err := os.Stat(filename); err == nil {
+		if !info.Mode().IsRegular() {
+			return fmt.Errorf("%s is not a regular file", filename)
+		}
+		mode = info.Mode().Perm()
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(filename), ".bpass-*.tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			_ = tmp.Close()
+			_ = os.Remove(tmp.Name())
+		}
+	}()
+
+	if _, err = tmp.Write(data); err != nil {
+		return err
+	}
+	if err = tmp.Chmod(mode); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmp.Name(), filename)
 }
 
 func shortPath(filename string) string {
diff --git a/sync.go b/sync.go
index 706fd9b..780ce03 100644
--- a/sync.go
+++ b/sync.go
@@ -297,7 +297,7 @@ func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err
 		hostentry, err = sshPush(u, entry, payload)
 	case syncFile:
 		path := filepath.FromSlash(uri.Path)
-		err = ioutil.WriteFile(path, payload, 0600)
+		err = writeFile(path, payload)
 	}
 
 	return hostentry, err
-- 
2.43.0


From 1dcb3bb6bc401d8babe09b84a30a0e2ee07562c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 20/71] fix: remember the passphrase of a new file

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 5b19220..ca315e9 100644
--- a/main.go
+++ b/main.go
@@ -183,6 +183,7 @@ func (u *uiContext) loadBlob() error {
 			return err
 		}
 
+		u.pass = pwd
 		u.key = key
 		u.salt = salt
 	} else {
-- 
2.43.0


From 44b683a8f4ec48b4b6dd5f633480bcaf3a84d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 21/71] fix: save the file when the final sync fails

---
 main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index ca315e9..19c370a 100644
--- a/main.go
+++ b/main.go
@@ -108,17 +108,17 @@ func main() {
 
 		wrote := ctx.startTx != len(ctx.store.DB.Log)
 		if wrote && !ctx.readOnly && !flagNoAutoSync {
+			// Do not lose the changes because of this, save them first
 			if err = ctx.sync("", true, true); err != nil {
 				fmt.Println("failed to synchronize:", err)
-				goto Exit
 			}
 		}
 	}
 
 	// save the changed data
-	if err = ctx.saveBlob(); err != nil {
-		fmt.Printf("failed to save file: %+v\n", err)
-		goto Exit
+	if saveErr := ctx.saveBlob(); saveErr != nil {
+		fmt.Printf("failed to save file: %+v\n", saveErr)
+		err = saveErr
 	}
 
 Exit:
-- 
2.43.0


From 2c8218bee9241812038b35d5a39c958bad8a36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 22/71] fix: refuse to import in read-only mode

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 19c370a..8c64bd8 100644
--- a/main.go
+++ b/main.go
@@ -79,6 +79,10 @@ func main() {
 	}
 
 	switch {
+	case lpassImportCmd.Used && ctx.readOnly:
+		err = errors.New("cannot import in read-only mode")
+		errColor.Println(err)
+		goto Exit
 	case lpassImportCmd.Used:
 		if err = importLastpass(ctx); err != nil {
 			fmt.Printf("error occurred: %+v\nexiting without saving", err)
-- 
2.43.0


From 47255a19ae714bb2f3f647a5731d9899ae005136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 23/71] fix: read-only mode for times far from now

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 8c64bd8..94a9c6b 100644
--- a/main.go
+++ b/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"time"
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
@@ -42,7 +43,7 @@ func main() {
 		color.Writer = writer
 		ctx.out = writer
 	}
-	if !historyTime.IsZero() {
+	if len(flagTime) != 0 {
 		ctx.readOnly = true
 	}
 
@@ -239,9 +240,8 @@ func (u *uiContext) loadBlob() error {
 	} else if u.readOnly {
 		infoColor.Println("opened file in read-only mode at:", historyTime.Format("January 02, 2006 - 15:04:05"))
 		u.store.DB.ResetSnapshot()
-		historyUnix := historyTime.UnixNano()
 		for i, tx := range u.store.DB.Log {
-			if tx.Time > historyUnix {
+			if time.Unix(0, tx.Time).After(historyTime) {
 				u.store.DB.Log = u.store.DB.Log[0:i]
 				break
 			}
-- 
2.43.0


From 019e00d3810222ef17664df05ce1adec282850f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 24/71] fix: an aborted or failed command must not end the
 session without saving

---
 repl.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/repl.go b/repl.go
index 7c314da..ec63b62 100644
--- a/repl.go
+++ b/repl.go
@@ -168,10 +168,19 @@ func (r *repl) run() error {
 		}
 
 		err = replCommand.Run(r, cmd, args)
-		if err == errExit {
+		switch err {
+		case nil:
+			// Allow through
+		case errExit:
 			return nil
-		} else if err != nil {
+		case ErrInterrupt:
 			return err
+		case ErrEnd:
+			// Only the dialogue of the command is over
+			errColor.Println("Aborted")
+		default:
+			// The changes of the session must not be lost because of this
+			errColor.Printf("error occurred: %+v\n", err)
 		}
 
 		r.ctx.in.AddHistory(line)
-- 
2.43.0


From 96de05fa375589357d724c9e91a2f30a9635c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 25/71] fix: the entry that was cd'ed into must stay the same
 one

---
 repl.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/repl.go b/repl.go
index ec63b62..8b8a97a 100644
--- a/repl.go
+++ b/repl.go
@@ -122,13 +122,42 @@ type repl struct {
 
 	prompt   string
 	ctxEntry string
+	// ctxUUID is the uuid of the entry named ctxEntry
+	ctxUUID string
+}
+
+// refreshContext follows a rename of the entry we're in, and leaves the entry
+// when it's gone.
+func (r *repl) refreshContext() error {
+	if len(r.ctxUUID) == 0 {
+		return nil
+	}
+
+	blob, err := r.ctx.store.Find(r.ctxUUID)
+	if err != nil {
+		return err
+	}
+
+	if blob == nil {
+		r.ctxEntry, r.ctxUUID = "", ""
+		r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
+	} else if name := blob.Name(); name != r.ctxEntry {
+		r.ctxEntry = name
+		r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
+	}
+
+	return nil
 }
 
 func (r *repl) run() error {
 	r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-	r.ctxEntry = ""
+	r.ctxEntry, r.ctxUUID = "", ""
 
 	for {
+		if err := r.refreshContext(); err != nil {
+			return err
+		}
+
 		line, err := r.ctx.in.Line(r.prompt)
 		switch err {
 		case ErrInterrupt:
@@ -259,15 +288,7 @@ var replCmds = map[string]replCmd{
 				errColor.Println("syntax: rm <name>")
 				return nil
 			}
-			name := args[0]
-			err := r.ctx.deleteEntry(name)
-
-			if err == nil && r.ctxEntry == name {
-				r.ctxEntry = ""
-				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-			}
-
-			return err
+			return r.ctx.deleteEntry(args[0])
 		},
 	},
 
@@ -304,7 +325,7 @@ var replCmds = map[string]replCmd{
 		Run: func(r *repl, _ string, args []string) error {
 			switch len(args) {
 			case 0:
-				r.ctxEntry = ""
+				r.ctxEntry, r.ctxUUID = "", ""
 				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
 			case 1:
 				var uuid string
@@ -322,7 +343,7 @@ var replCmds = map[string]replCmd{
 					return err
 				}
 
-				r.ctxEntry = blob.Name()
+				r.ctxEntry, r.ctxUUID = blob.Name(), uuid
 				r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
 			default:
 				fmt.Println("cd needs an argument")
-- 
2.43.0


From 4435d892f82fbe2e03b9d031cc9d2cc6acc5f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 26/71] fix: rekeyall must hand out the new master key

---
 commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index b5b025b..c281065 100644
--- a/commands.go
+++ b/commands.go
@@ -259,7 +259,8 @@ func (u *uiContext) rekeyAll() error {
 			u.salt = salt
 		}
 
-		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+		// The file is going to be encrypted with the new master key
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9ba4ccb756ecf5f03820a670e3b297f286767660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 27/71] fix: passwd and rekey must change the given user and
 only that

---
 commands.go | 89 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 34 deletions(-)

diff --git a/commands.go b/commands.go
index c281065..b7c1610 100644
--- a/commands.go
+++ b/commands.go
@@ -48,7 +48,41 @@ const (
 	syncFile = "file"
 )
 
+// findUserForUpdate returns the uuid of the user's entry (empty in a
+// single-user file) and if it is the current user's. The current user may be
+// given as an empty string. ok is false if there's no such user, in which case
+// an error message will have been printed to the user.
+func (u *uiContext) findUserForUpdate(user string) (uuid string, isCurrentUser, ok bool, err error) {
+	if len(u.master) == 0 {
+		if len(user) != 0 {
+			errColor.Printf("user %q not found, this is a single user file\n", user)
+			return "", false, false, nil
+		}
+		return "", true, true, nil
+	}
+
+	if len(user) == 0 {
+		user = u.user
+	}
+
+	uuid, _, err = u.store.FindUser(user)
+	if err != nil {
+		return "", false, false, err
+	}
+	if len(uuid) == 0 {
+		errColor.Printf("user %q not found\n", user)
+		return "", false, false, nil
+	}
+
+	return uuid, user == u.user, true, nil
+}
+
 func (u *uiContext) passwd(user string) error {
+	uuid, isCurrentUser, ok, err := u.findUserForUpdate(user)
+	if err != nil || !ok {
+		return err
+	}
+
 	pass, err := u.getPassword()
 	if err != nil {
 		return err
@@ -64,20 +98,8 @@ func (u *uiContext) passwd(user string) error {
 		return err
 	}
 
-	// Update our "fast-path" credentials if we're re-doing the current user
-	if len(u.user) == 0 || u.user == user {
-		u.pass = pass
-		u.key = key
-		u.salt = salt
-	}
-
 	// We have to update the user entry if it's a multi-user file
-	if len(u.master) != 0 {
-		uuid, _, err := u.store.MustFindUser(u.user)
-		if err != nil {
-			return err
-		}
-
+	if len(uuid) != 0 {
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
@@ -88,6 +110,13 @@ func (u *uiContext) passwd(user string) error {
 		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
 	}
 
+	// Update our "fast-path" credentials if we're re-doing the current user
+	if isCurrentUser {
+		u.pass = pass
+		u.key = key
+		u.salt = salt
+	}
+
 	infoColor.Println("passphrase updated, bits will be re-encrypted with it on exit")
 	return nil
 }
@@ -143,10 +172,12 @@ func (u *uiContext) adduser(user string) error {
 }
 
 func (u *uiContext) rekey(user string) error {
-	isCurrentUser := len(user) == 0
+	uuid, isCurrentUser, ok, err := u.findUserForUpdate(user)
+	if err != nil || !ok {
+		return err
+	}
 
 	var pass string
-	var err error
 	if isCurrentUser {
 		pass = u.pass
 	} else {
@@ -167,25 +198,8 @@ func (u *uiContext) rekey(user string) error {
 		return err
 	}
 
-	if isCurrentUser {
-		// Update fast-path credentials
-		u.pass = pass
-		u.key = key
-		u.salt = salt
-	}
-
-	if len(u.master) != 0 {
-		// If we're multi-user we need to update the corresponding user entry
-		username := u.user
-		if len(user) != 0 {
-			username = user
-		}
-
-		uuid, _, err := u.store.MustFindUser(username)
-		if err != nil {
-			return err
-		}
-
+	// If we're multi-user we need to update the corresponding user entry
+	if len(uuid) != 0 {
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
@@ -196,6 +210,13 @@ func (u *uiContext) rekey(user string) error {
 		u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
 	}
 
+	if isCurrentUser {
+		// Update fast-path credentials
+		u.pass = pass
+		u.key = key
+		u.salt = salt
+	}
+
 	infoColor.Println("key updated, bits will be re-encrypted with it on exit")
 	return nil
 }
-- 
2.43.0


From 9d132d90f08cf0514ff305a04b0a2a003df998c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 28/71] fix: adduser must not leave half-made users behind

---
 commands.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/commands.go b/commands.go
index b7c1610..6ec87da 100644
--- a/commands.go
+++ b/commands.go
@@ -122,23 +122,26 @@ func (u *uiContext) passwd(user string) error {
 }
 
 func (u *uiContext) adduser(user string) error {
-	uuid, err := u.store.NewUser(user)
-	if err == blobformat.ErrNameNotUnique {
+	// Nothing may be changed until everything that can fail or be aborted is
+	// done, a half-made user would prevent the file from being saved.
+	uuid, _, err := u.store.FindUser(user)
+	if err != nil {
+		return err
+	}
+	if len(uuid) != 0 {
 		errColor.Println("user already exists")
 		return nil
-	} else if err != nil {
-		return err
 	}
 
+	master, ivm := u.master, u.ivm
 	var key, salt []byte
 	var pass string
-	if len(u.master) == 0 {
-		u.master, u.ivm, err = crypt.NewMasterKey(cryptVersion)
+	if len(master) == 0 {
+		master, ivm, err = crypt.NewMasterKey(cryptVersion)
 		if err != nil {
-			return nil
+			return err
 		}
 
-		u.user = user
 		key = u.key
 		salt = u.salt
 	} else {
@@ -147,13 +150,23 @@ func (u *uiContext) adduser(user string) error {
 			return err
 		}
 
+		if len(pass) == 0 {
+			errColor.Println("refusing to use empty password")
+			return nil
+		}
+
 		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
 		if err != nil {
 			return err
 		}
 	}
 
-	mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+	mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
+	if err != nil {
+		return err
+	}
+
+	uuid, err = u.store.NewUser(user)
 	if err != nil {
 		return err
 	}
@@ -162,6 +175,11 @@ func (u *uiContext) adduser(user string) error {
 	u.store.DB.Set(uuid, blobformat.KeyIV, hex.EncodeToString(iv))
 	u.store.DB.Set(uuid, blobformat.KeyMKey, hex.EncodeToString(mkey))
 
+	if len(u.master) == 0 {
+		u.user = user
+		u.master, u.ivm = master, ivm
+	}
+
 	if len(pass) == 0 {
 		infoColor.Printf("re-used your key to create first user: %s\n", user)
 	} else {
-- 
2.43.0


From 87af819e3a32ef6105fa54557488c037c07bbfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 29/71] fix: there is no current user after the last one is
 deleted

---
 commands.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commands.go b/commands.go
index 6ec87da..be7d7c0 100644
--- a/commands.go
+++ b/commands.go
@@ -627,6 +627,7 @@ func (u *uiContext) deleteEntry(name string) error {
 	if deleteSelf {
 		// We are always the last user and so we must should clear the master
 		// key and IVM to ensure that we are not encrypted as a multi-user file
+		u.user = ""
 		u.master = nil
 		u.ivm = nil
 	}
-- 
2.43.0


From 9082c2654eeb107f4dd523f9a47745f278cdc4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 30/71] fix: entries named like users must not prevent saving

---
 commands.go  |  9 +++++++++
 uicontext.go | 13 ++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/commands.go b/commands.go
index be7d7c0..ed61e04 100644
--- a/commands.go
+++ b/commands.go
@@ -281,6 +281,15 @@ func (u *uiContext) rekeyAll() error {
 	for uuid, name := range users {
 		username := blobformat.SplitUsername(name)
 
+		blob, err := u.store.MustFind(uuid)
+		if err != nil {
+			return err
+		}
+		if len(username) == 0 || len(blob[blobformat.KeyMKey]) == 0 {
+			// Not a user, see makeParams
+			continue
+		}
+
 		pass, err := genPassword(32, 0, 0, 0, 0, 0)
 		if err != nil {
 			return err
diff --git a/uicontext.go b/uicontext.go
index fee873b..1bce3d4 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -54,17 +54,20 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 	index := 0
 	for uuid, name := range users {
 		name = blobformat.SplitUsername(name)
-		if len(name) == 0 {
-			return nil, errors.New("params name was not a username")
-		}
-
-		username := sha256.Sum256([]byte(name))
 
 		blob, err := u.store.MustFind(uuid)
 		if err != nil {
 			return nil, errors.New("could not find user we just found")
 		}
 
+		// An entry can be named like a user by any means, it's not a user of
+		// the file until it has a name and credentials (see adduser, passwd).
+		if len(name) == 0 || len(blob[blobformat.KeyMKey]) == 0 {
+			continue
+		}
+
+		username := sha256.Sum256([]byte(name))
+
 		salt, err := hex.DecodeString(blob[blobformat.KeySalt])
 		if err != nil {
 			return nil, errors.New("user entry had bad salt")
-- 
2.43.0


From 906a9af8adca4584cec7b933749b21d34393e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 31/71] fix: the current user must remain one when renamed

---
 commands.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/commands.go b/commands.go
index ed61e04..0243c45 100644
--- a/commands.go
+++ b/commands.go
@@ -582,6 +582,13 @@ func (u *uiContext) rename(src, dst string) error {
 		return nil
 	}
 
+	// Keep track of ourselves, and stay a user
+	renameSelf := len(u.master) != 0 && blobformat.IsUserEntry(src) && blobformat.SplitUsername(src) == u.user
+	if renameSelf && len(blobformat.SplitUsername(dst)) == 0 {
+		errColor.Println("cannot rename the current user to something that is not a user")
+		return nil
+	}
+
 	if err := u.store.Rename(oldUUID, dst); err == blobformat.ErrNameNotUnique {
 		errColor.Println(dst, "already exists")
 		return nil
@@ -589,6 +596,10 @@ func (u *uiContext) rename(src, dst string) error {
 		return err
 	}
 
+	if renameSelf {
+		u.user = blobformat.SplitUsername(dst)
+	}
+
 	infoColor.Printf("moved %q => %q\n", src, dst)
 	return nil
 }
-- 
2.43.0


From 6529b67949bc8783ffc6ef01c734289f0de54cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 32/71] fix: passwords of any length must be generated and
 shuffled properly

---
 passwd_gen.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/passwd_gen.go b/passwd_gen.go
index 2936382..9f7900c 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -3,8 +3,12 @@ package main
 import (
 	"crypto/rand"
 	"errors"
+	"math/big"
 )
 
+// maxPasswordLength limits what can be asked for
+const maxPasswordLength = 65536
+
 var (
 	alphabetUppercase    = `ABCDEFGHIJKLMNOPQRSTUVWXYZ`
 	alphabetLowercase    = `abcdefghijklmnopqrstuvwxyz`
@@ -18,8 +22,15 @@ var (
 )
 
 func genPassword(length, upper, lower, numbers, basic, extra int) (string, error) {
+	if length < 0 || length > maxPasswordLength {
+		return "", errPasswordImpossible
+	}
+
 	needLen := 0
 	for _, i := range []int{upper, lower, numbers, basic, extra} {
+		if i > length {
+			return "", errPasswordImpossible
+		}
 		if i > 0 {
 			needLen += i
 		}
@@ -36,7 +47,7 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 	// eOffset is the entropy offset
 	eOffset := 0
 	password := make([]byte, length)
-	entropy := make([]byte, needLen+(randomPicks*2)+length)
+	entropy := make([]byte, needLen+(randomPicks*2))
 	n, err := rand.Read(entropy)
 	if err != nil {
 		return "", err
@@ -90,11 +101,14 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 		eOffset++
 	}
 
-	for i := 0; i < length; i++ {
+	for i := length - 1; i > 0; i-- {
 		// swap i with
-		swap := entropy[eOffset] % byte(length)
-		password[i], password[swap] = password[swap], password[i]
-		eOffset++
+		swap, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))
+		if err != nil {
+			return "", err
+		}
+		j := swap.Int64()
+		password[i], password[j] = password[j], password[i]
 	}
 
 	return string(password), nil
-- 
2.43.0


From 0280eecdfba0de9fb4c1d70a23fed2a036e13efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 33/71] fix: password prompt must not crash or accept an
 impossible password

---
 uihelpers.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/uihelpers.go b/uihelpers.go
index 10afb1b..1f02630 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -240,18 +240,19 @@ func (u *uiContext) getPassword() (string, error) {
 
 	var err error
 	var choice, password string
-	regen := true
+	regen, impossible := true, false
 	for {
 		if regen {
 			password, err = genPassword(length, upper, lower, number, basic, extra)
-			if err == errPasswordImpossible {
+			impossible = err == errPasswordImpossible
+			if impossible {
 				errColor.Println("Could not generate password with these requirements")
 			} else if err != nil {
 				return "", err
 			}
 		}
 
-		if err == nil {
+		if !impossible {
 			fmt.Fprintln(u.out, promptColor.Sprint("password:"), passColor.Sprint(password))
 		}
 
@@ -264,8 +265,10 @@ func (u *uiContext) getPassword() (string, error) {
 		splits := strings.Fields(choice)
 
 		switch {
-		case choice == "":
+		case len(splits) == 0:
 			// Just regen
+		case impossible && (choice == "y" || splits[0] == "c"):
+			// There's no password, say so again
 		case choice == "y":
 			return password, nil
 		case choice == "m":
-- 
2.43.0


From 60ad8cc0cbd035462d3ba0758b3bc6ba2350ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 34/71] fix: login must copy what it can when the two factor
 secret is broken

---
 commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 0243c45..64692a4 100644
--- a/commands.go
+++ b/commands.go
@@ -816,7 +816,8 @@ func (u *uiContext) login(search string) error {
 			if k == blobformat.KeyTwoFactor {
 				value, err = blob.TwoFactor()
 				if err != nil {
-					return err
+					errColor.Println(err)
+					continue
 				}
 			}
 			keyVals = append(keyVals, keyVal{Key: k, Val: value})
-- 
2.43.0


From bc3b4df334e258af8bff1f03ee2004d3bea3adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 35/71] fix: set and edit must report keys that may not be set

---
 commands.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/commands.go b/commands.go
index 64692a4..9f2bd53 100644
--- a/commands.go
+++ b/commands.go
@@ -856,15 +856,15 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
 	case blobformat.KeyTwoFactor:
 		if err := u.store.SetTwofactor(uuid, value); err != nil {
 			errColor.Println(err)
 			return nil
 		}
 	case blobformat.KeyURL:
-		uri, err := url.Parse(value)
-		if err != nil {
+		uri, parseErr := url.Parse(value)
+		if parseErr != nil {
 			errColor.Println("not a valid url")
 			return nil
 		} else if uri.Scheme == "" || uri.Opaque != "" {
@@ -872,7 +872,7 @@ func (u *uiContext) set(search, key, value string) error {
 			return nil
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
 	default:
 		// no known key was provided,  setting custom key
 
@@ -884,7 +884,14 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
+	}
+
+	if blobformat.IsKeyNotAllowed(err) {
+		errColor.Println(err)
+		return nil
+	} else if err != nil {
+		return err
 	}
 
 	infoColor.Printf("set %s = %s\n", key, value)
@@ -993,12 +1000,24 @@ func (u *uiContext) edit(search, key string) error {
 		maxLen = len(newValue)
 	}
 
-	if len(newValue) == 0 {
+	erase := len(newValue) == 0
+	if erase {
+		err = u.store.DeleteKey(uuid, key)
+	} else {
+		err = u.store.Set(uuid, key, string(newValue))
+	}
+
+	if blobformat.IsKeyNotAllowed(err) {
+		errColor.Println(err)
+		return nil
+	} else if err != nil {
+		return err
+	}
+
+	if erase {
 		infoColor.Println("erasing value")
-		u.store.DeleteKey(uuid, key)
 	} else {
 		infoColor.Printf("set %s\n", key)
-		u.store.Set(uuid, key, string(newValue))
 	}
 
 	return nil
-- 
2.43.0


From 9588ca6e4b44a16253c6cfab3a1507b270157814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 36/71] fix: lastpass import must not import the header or
 error messages

---
 import.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/import.go b/import.go
index ef60100..51bb298 100644
--- a/import.go
+++ b/import.go
@@ -5,12 +5,15 @@ import (
 	"encoding/csv"
 	"errors"
 	"io"
+	"os"
 	"os/exec"
 	"strings"
 
 	"github.com/aarondl/bpass/blobformat"
 )
 
+var errLastpassFormat = errors.New("lastpass csv format not recognized")
+
 func importLastpass(u *uiContext) error {
 	if !u.created {
 		infoColor.Println("this is not a new file")
@@ -31,7 +34,8 @@ func importLastpass(u *uiContext) error {
 
 	// get data from lpass command line client
 	lpassCmd := exec.Command("lpass", "export", "--color=never")
-	out, err := lpassCmd.CombinedOutput()
+	lpassCmd.Stderr = os.Stderr
+	out, err := lpassCmd.Output()
 	if err != nil {
 		return err
 	}
@@ -41,16 +45,21 @@ func importLastpass(u *uiContext) error {
 	for i := 0; ; i++ {
 		record, err := reader.Read()
 		if err != nil {
-			if err == io.EOF {
+			if err == io.EOF && i > 0 {
 				break
+			} else if err == io.EOF {
+				return errLastpassFormat
 			}
 			return err
 		}
 
 		if i == 0 {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
-				return errors.New("lastpass csv format not recognized")
+				return errLastpassFormat
 			}
+
+			// This is the header
+			continue
 		}
 
 		// Fields:
-- 
2.43.0


From f64492343bf56dad9d685eb972f0836f0b154ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 37/71] fix: export the current data and report when it was not
 written

---
 export.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/export.go b/export.go
index 385f189..59bd02f 100644
--- a/export.go
+++ b/export.go
@@ -11,6 +11,10 @@ import (
 )
 
 func export(u *uiContext) error {
+	if err := u.store.UpdateSnapshot(); err != nil {
+		return err
+	}
+
 	var entries []string
 	keysSet := make(map[string]struct{})
 
@@ -53,6 +57,9 @@ func export(u *uiContext) error {
 	if err := out.Error(); err != nil {
 		return fmt.Errorf("failed to flush csv file: %w", err)
 	}
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("failed to close csv file: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From 7e8eb3b15882914915b2ebf1315b439f8e47d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 38/71] fix: resolving sync conflicts must end the dialogue and
 keep the answers

---
 merging.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/merging.go b/merging.go
index c46e738..b219f94 100644
--- a/merging.go
+++ b/merging.go
@@ -213,9 +213,9 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 	}
 
 	var c []txlogs.Tx
-	var conflicts []txlogs.Conflict
+	var conflicts, resolved []txlogs.Conflict
 	for {
-		c, conflicts = txlogs.Merge(local, remote, conflicts)
+		c, conflicts = txlogs.Merge(local, remote, resolved)
 
 		if len(conflicts) == 0 {
 			break
@@ -244,7 +244,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					time.Unix(0, c.Conflict.Time).Format(time.RFC3339),
 				)
 
-				switch c.Initial.Kind {
+				switch c.Conflict.Kind {
 				case txlogs.TxSetKey:
 					infoColor.Printf("a set happened:\n%s = %s\n",
 						c.Conflict.Key,
@@ -256,6 +256,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					)
 				}
 
+			Prompt:
 				for {
 					line, err := u.prompt(promptColor.Sprint("[R]estore item? [D]elete item? (r/R/d/D): "))
 					if err != nil {
@@ -265,14 +266,17 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					switch line {
 					case "R", "r":
 						conflicts[i].DiscardInitial()
+						break Prompt
 					case "D", "d":
 						conflicts[i].DiscardConflict()
-					default:
-						continue
+						break Prompt
 					}
 				}
 			}
 		}
+
+		// Earlier resolutions still apply to the next attempt
+		resolved = append(resolved, conflicts...)
 	}
 
 	return c, nil
-- 
2.43.0


From 236af8a44218f941e74cb6ac0a037e44e068a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 39/71] fix: merge each remote into the result of the previous
 ones

---
 merging.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/merging.go b/merging.go
index b219f94..9180200 100644
--- a/merging.go
+++ b/merging.go
@@ -77,14 +77,14 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			return m, err
 		}
 
-		if len(u.master) == 0 && len(r.Params.Master) == 0 {
-			if !bytes.Equal(u.key, r.Params.Keys[r.Params.User]) {
+		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
+			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
 				// to see which credential set we should keep.
-				lastTimeLocal := m.Log[len(m.Log)-1].Time
-				lastTimeRemote := r.Log[len(r.Log)-1].Time
+				lastTimeLocal := lastTime(m.Log)
+				lastTimeRemote := lastTime(r.Log)
 
 				if lastTimeLocal < lastTimeRemote {
 					takeRemoteCreds = true
@@ -96,7 +96,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
-		} else if len(u.master) != len(r.Params.Master) {
+		} else if len(m.Master) != len(r.Params.Master) {
 			// There's been a single->multi or multi->single change
 			// We have to instantiate the merged blob and check user counts
 			db := &txlogs.DB{Log: merged}
@@ -106,25 +106,25 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				return m, err
 			}
 
-			if len(users) == 0 && len(u.master) != 0 {
+			if len(users) == 0 && len(m.Master) != 0 {
 				// There's no users remaining in the merged DB, and the local
 				// file is multi, meaning that the remote wins the merge
 				// and we become a single-user file
 				infoColor.Println("local file converted to single-user file")
 				takeRemoteCreds = true
-			} else if len(users) != 0 && len(u.master) == 0 {
+			} else if len(users) != 0 && len(m.Master) == 0 {
 				// There's users remaining in the merged DB, and the local file
 				// is not multi, meaning that the remote wins the merge
 				// and we become a multi-user file.
 				infoColor.Println("local file converted to multi-user file")
 				takeRemoteCreds = true
 			}
-		} else if !bytes.Equal(u.master, r.Params.Master) {
+		} else if !bytes.Equal(m.Master, r.Params.Master) {
 			// There's been a master change in a multi multi
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
 			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
-			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
 			userUUID, localUser, err := localStore.FindUser(m.User)
 			if err != nil {
 				return m, err
@@ -202,6 +202,15 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 	return m, nil
 }
 
+// lastTime is the time of the last change in the log
+func lastTime(log []txlogs.Tx) int64 {
+	if len(log) == 0 {
+		return 0
+	}
+
+	return log[len(log)-1].Time
+}
+
 var syncNoCommonAncestryWarning = `WARNING: There is no common ancestry between
 the local and the remote file. What this probably means is that the wrong
 file is in the sync location, and proceeding would mean that both files become
-- 
2.43.0


From 2cb3ea3f0d7b8edec52a1680a79818d82e546a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 40/71] fix: follow changes of the current user's credentials
 when syncing

---
 merging.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/merging.go b/merging.go
index 9180200..68c7b5d 100644
--- a/merging.go
+++ b/merging.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bytes"
+	"encoding/hex"
 	"errors"
 	"time"
 
@@ -187,6 +188,12 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
+		} else {
+			// The master key is the same, but our own entry in the user db
+			// could have been changed on the remote side.
+			if takeRemoteCreds, err = mergeOwnUser(&m, r, merged); err != nil {
+				return m, err
+			}
 		}
 
 		if takeRemoteCreds {
@@ -202,6 +209,45 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 	return m, nil
 }
 
+// mergeOwnUser follows what happened to the entry of the current user, it
+// returns true if the credentials we know for the remote are the ones that
+// ended up in the merged log.
+func mergeOwnUser(m *mergeResult, r blobParts, merged []txlogs.Tx) (takeRemoteCreds bool, err error) {
+	localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
+	mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+
+	users, err := mergedStore.Users()
+	if err != nil {
+		return false, err
+	}
+	if len(users) == 0 {
+		infoColor.Println("local file converted to single-user file")
+		m.User = ""
+		m.Master, m.IVM = nil, nil
+		return false, nil
+	}
+
+	userUUID, _, err := localStore.FindUser(m.User)
+	if err != nil {
+		return false, err
+	}
+	mergedUser, err := mergedStore.Find(userUUID)
+	if err != nil {
+		return false, err
+	}
+	if mergedUser == nil {
+		infoColor.Printf("the current user %q has been deleted\n", m.User)
+		return false, nil
+	}
+	if name := blobformat.SplitUsername(mergedUser.Name()); len(name) != 0 {
+		m.User = name
+	}
+
+	salt := mergedUser[blobformat.KeySalt]
+	return salt != hex.EncodeToString(m.Salt) &&
+		salt == hex.EncodeToString(r.Params.Salts[r.Params.User]), nil
+}
+
 // lastTime is the time of the last change in the log
 func lastTime(log []txlogs.Tx) int64 {
 	if len(log) == 0 {
-- 
2.43.0


From 0453960227d659689613f5d656906a757314d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 41/71] fix: syncing an entry that is not a sync entry must not
 crash

---
 sync.go | 55 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/sync.go b/sync.go
index 780ce03..43823e5 100644
--- a/sync.go
+++ b/sync.go
@@ -55,6 +55,10 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 			return nil
 		}
 
+		if !validSync(u.store.Snapshot[uuid]) {
+			return nil
+		}
+
 		syncs = []string{uuid}
 	} else {
 		syncs, err = collectSyncs(u.store)
@@ -231,33 +235,42 @@ func collectSyncs(store blobformat.Blobs) ([]string, error) {
 			continue
 		}
 
-		name := entry[blobformat.KeyName]
-		if len(name) == 0 {
-			errColor.Printf("%q is a sync entry but its name is broken (skipping)", uuid)
-			continue
+		if validSync(entry) {
+			validSyncs = append(validSyncs, uuid)
 		}
+	}
 
-		uri := entry[blobformat.KeyURL]
-		if len(uri) == 0 {
-			errColor.Printf("%q is a sync entry but it has no %q key (skipping)\n", name, blobformat.KeyURL)
-			continue
-		}
+	return validSyncs, nil
+}
 
-		u, err := url.Parse(uri)
-		if err != nil {
-			errColor.Printf("%q is a sync account but it's url is not parseable (skipping)\n", name)
-			continue
-		}
+// validSync checks that the basic attributes of a sync entry are available, it
+// prints an error message and returns false if they're not.
+func validSync(entry txlogs.Entry) bool {
+	name := entry[blobformat.KeyName]
+	if len(name) == 0 {
+		errColor.Println("there is a sync entry but its name is broken (skipping)")
+		return false
+	}
 
-		switch u.Scheme {
-		case syncSCP, syncFile:
-			validSyncs = append(validSyncs, uuid)
-		default:
-			errColor.Printf("entry %q is a %q sync account, but this kind is unknown (old bpass version?)\n", name, u.Scheme)
-		}
+	uri := entry[blobformat.KeyURL]
+	if len(uri) == 0 {
+		errColor.Printf("%q is a sync entry but it has no %q key (skipping)\n", name, blobformat.KeyURL)
+		return false
 	}
 
-	return validSyncs, nil
+	u, err := url.Parse(uri)
+	if err != nil {
+		errColor.Printf("%q is a sync account but it's url is not parseable (skipping)\n", name)
+		return false
+	}
+
+	switch u.Scheme {
+	case syncSCP, syncFile:
+		return true
+	default:
+		errColor.Printf("entry %q is a %q sync account, but this kind is unknown (old bpass version?)\n", name, u.Scheme)
+		return false
+	}
 }
 
 // pullBlob tries to download a file from the given sync entry
-- 
2.43.0


From a3da237e04d187f1855b7b91a199df98b79b19c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 42/71] fix: scp urls may lack a path or a port

---
 sync.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 43823e5..772e8df 100644
--- a/sync.go
+++ b/sync.go
@@ -390,7 +390,10 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 	user := uri.User.Username()
 	pass, _ := uri.User.Password()
 	secretKey := entry[blobformat.KeyPriv]
-	path = uri.Path[1:]
+	path = strings.TrimPrefix(uri.Path, "/")
+	if len(port) == 0 {
+		port = "22"
+	}
 
 	if len(user) == 0 {
 		return "", "", nil, errors.New("url missing user")
-- 
2.43.0


From eec554ace73b3b45d1f90e2534b27df9dbd309dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 43/71] fix: malformed known hosts must not crash

---
 sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync.go b/sync.go
index 772e8df..d63c100 100644
--- a/sync.go
+++ b/sync.go
@@ -448,6 +448,10 @@ func (h *hostAsker) callback(hostname string, remote net.Addr, key ssh.PublicKey
 			continue
 		}
 
+		if len(vals) != 4 {
+			return errors.New("known host's entry is malformed, refusing to connect")
+		}
+
 		// Same host, double check key is same
 		if vals[2] != keyType {
 			return errors.New("known host's key type has changed, could be a mitm attack")
-- 
2.43.0


From f3d2614e0409df0a1c28b2b31a2dadb238b83f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 44/71] fix: remember a confirmed host also when the push fails

---
 sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index d63c100..809d4e7 100644
--- a/sync.go
+++ b/sync.go
@@ -373,7 +373,7 @@ func sshPush(u *uiContext, entry txlogs.Entry, ct []byte) (hostentry string, err
 
 	err = scpsync.Send(address, config, path, 0600, ct)
 	if err != nil {
-		return "", err
+		return asker.newHost, err
 	}
 
 	return asker.newHost, nil
-- 
2.43.0


From 583089b58573ded38f9ea9a9a2b4a349367c97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 45/71] fix: report why a remote could not be decrypted

---
 sync.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sync.go b/sync.go
index 809d4e7..04337cd 100644
--- a/sync.go
+++ b/sync.go
@@ -107,10 +107,6 @@ Syncs:
 			errColor.Printf("failed to decrypt %q: %v\n", name, err)
 			syncs[i] = ""
 			continue
-		} else if len(pt) == 0 {
-			errColor.Printf("failed to decrypt %q: %v\n", name, err)
-			syncs[i] = ""
-			continue
 		}
 
 		log, err := txlogs.NewLog(pt)
@@ -332,12 +328,15 @@ func decryptBlob(u *uiContext, name string, ct []byte) (params crypt.Params, cre
 		case crypt.ErrNeedUser, crypt.ErrUnknownUser:
 			creds.User, err = u.prompt(promptColor.Sprintf("%s user: ", name))
 			if err != nil {
-				return params, creds, nil, nil
+				return params, creds, nil, err
 			}
 		case crypt.ErrWrongPassphrase:
 			creds.Pass, err = u.promptPassword(promptColor.Sprintf("%s passphrase: ", name))
-			if err != nil || len(creds.Pass) == 0 {
-				return params, creds, nil, nil
+			if err != nil {
+				return params, creds, nil, err
+			}
+			if len(creds.Pass) == 0 {
+				return params, creds, nil, crypt.ErrWrongPassphrase
 			}
 		}
 	}
-- 
2.43.0


From 2bda65ab9263cc20925cc24bf3fe12300d855642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 46/71] fix: refuse remotes with a log that cannot be used

---
 sync.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 04337cd..92d317d 100644
--- a/sync.go
+++ b/sync.go
@@ -116,7 +116,13 @@ Syncs:
 			continue
 		}
 
-		if len(log) == len(u.store.DB.Log) &&
+		if err = checkLog(log); err != nil {
+			errColor.Printf("unusable log %q: %v\n", name, err)
+			syncs[i] = ""
+			continue
+		}
+
+		if len(log) != 0 && len(log) == len(u.store.DB.Log) &&
 			log[0].Time == u.store.DB.Log[0].Time &&
 			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
 			infoColor.Printf("skip: %s (no changes)\n", name)
@@ -202,6 +208,23 @@ Syncs:
 	return nil
 }
 
+// checkLog ensures that the log can be replayed, and that the entries that
+// come out of it have what is required of all entries.
+func checkLog(log []txlogs.Tx) error {
+	db := txlogs.DB{Log: log}
+	if err := db.UpdateSnapshot(); err != nil {
+		return err
+	}
+
+	for uuid, entry := range db.Snapshot {
+		if _, ok := entry[blobformat.KeyName]; !ok {
+			return fmt.Errorf("%s has no name", uuid)
+		}
+	}
+
+	return nil
+}
+
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
 		entry := store.Snapshot[uuid]
-- 
2.43.0


From 88987e1646ce48da136396e65fe05cceba1fe449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 47/71] fix: a failed sync must leave the local data as it was

---
 main.go | 17 +++++++++++------
 sync.go | 33 +++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/main.go b/main.go
index 94a9c6b..295e415 100644
--- a/main.go
+++ b/main.go
@@ -262,22 +262,27 @@ func (u *uiContext) saveBlob() error {
 		return nil
 	}
 
-	data, err := u.store.Save()
+	data, err := u.encryptBlob()
 	if err != nil {
 		return err
 	}
 
-	params, err := u.makeParams()
+	return writeFile(flagFile, data)
+}
+
+// encryptBlob encodes and encrypts the store
+func (u *uiContext) encryptBlob() ([]byte, error) {
+	data, err := u.store.Save()
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	data, err = crypt.Encrypt(cryptVersion, params, data)
+	params, err := u.makeParams()
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	return writeFile(flagFile, data)
+	return crypt.Encrypt(cryptVersion, params, data)
 }
 
 // writeFile replaces the contents of the file. The data is written to a
diff --git a/sync.go b/sync.go
index 92d317d..a4ebaae 100644
--- a/sync.go
+++ b/sync.go
@@ -143,6 +143,20 @@ Syncs:
 		errColor.Println("aborting sync, failed to merge logs:", err)
 		return nil
 	}
+	if err = checkLog(out.Log); err != nil {
+		errColor.Println("aborting sync, merged log is unusable:", err)
+		return nil
+	}
+
+	old := *u
+	oldLog := u.store.Log
+	restore := func() {
+		u.user, u.pass = old.user, old.pass
+		u.key, u.salt = old.key, old.salt
+		u.master, u.ivm = old.master, old.ivm
+		u.store.ResetSnapshot()
+		u.store.Log = oldLog
+	}
 
 	u.user, u.pass = out.User, out.Pass
 	u.key, u.salt = out.Key, out.Salt
@@ -151,9 +165,9 @@ Syncs:
 	u.store.ResetSnapshot()
 	u.store.Log = out.Log
 	if err = u.store.UpdateSnapshot(); err != nil {
-		errColor.Println("failed to rebuild snapshot, poisoned by sync:", err)
-		errColor.Println("exiting to avoid corrupting local file")
-		os.Exit(1)
+		errColor.Println("aborting sync, failed to rebuild snapshot:", err)
+		restore()
+		return u.store.UpdateSnapshot()
 	}
 
 	if err = saveHosts(u.store.DB, hosts); err != nil {
@@ -165,16 +179,11 @@ Syncs:
 	}
 
 	// Save & encrypt in memory
-	var pt, ct []byte
-	if pt, err = u.store.Save(); err != nil {
-		return err
-	}
-	params, err := u.makeParams()
+	ct, err := u.encryptBlob()
 	if err != nil {
-		return err
-	}
-	if ct, err = crypt.Encrypt(cryptVersion, params, pt); err != nil {
-		return err
+		errColor.Println("aborting sync, failed to encrypt:", err)
+		restore()
+		return u.store.UpdateSnapshot()
 	}
 
 	// Push back to other machines
-- 
2.43.0


From 18dcffbee0f4a6e328005cb064ff2d0b518aac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 48/71] fix: remember confirmed hosts also when the merge is
 aborted

---
 sync.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sync.go b/sync.go
index a4ebaae..583b714 100644
--- a/sync.go
+++ b/sync.go
@@ -138,6 +138,11 @@ Syncs:
 		})
 	}
 
+	// Hosts that were confirmed are remembered whatever comes of the merge
+	if err = saveHosts(u.store.DB, hosts); err != nil {
+		return err
+	}
+
 	out, err := mergeBlobs(u, blobs)
 	if err != nil {
 		errColor.Println("aborting sync, failed to merge logs:", err)
@@ -170,10 +175,6 @@ Syncs:
 		return u.store.UpdateSnapshot()
 	}
 
-	if err = saveHosts(u.store.DB, hosts); err != nil {
-		return err
-	}
-
 	if !push {
 		return nil
 	}
-- 
2.43.0


From 57af84d2a1c1148bdee91951188feab4d6e6342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 49/71] fix: push only where was pulled from

---
 sync.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sync.go b/sync.go
index 583b714..5d1c914 100644
--- a/sync.go
+++ b/sync.go
@@ -70,12 +70,14 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
+	uris := make(map[string]string)
 	dupeCheck := make([][64]byte, 0, len(syncs))
 	blobs := make([]blobParts, 0, len(syncs))
 Syncs:
 	for i, uuid := range syncs {
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
+		uris[uuid] = entry[blobformat.KeyURL]
 
 		infoColor.Println("pull:", name)
 
@@ -199,6 +201,13 @@ Syncs:
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
 
+		if uri, ok := entry[blobformat.KeyURL]; !ok || uri != uris[uuid] {
+			// The merge deleted or changed the entry, do not overwrite
+			// something that was not pulled.
+			infoColor.Printf("skip: %s (sync entry changed)\n", name)
+			continue
+		}
+
 		infoColor.Println("push:", name)
 
 		hostentry, err := pushBlob(u, uuid, ct)
-- 
2.43.0


From dc724e6fae6f6a123426e08804bf8080c1b2f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 50/71] fix: every remote must be brought up to date by a sync

---
 sync.go | 52 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/sync.go b/sync.go
index 5d1c914..43d1e4b 100644
--- a/sync.go
+++ b/sync.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"crypto/sha256"
 	"crypto/sha512"
 	"errors"
@@ -71,9 +72,9 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
 	uris := make(map[string]string)
-	dupeCheck := make([][64]byte, 0, len(syncs))
+	dupeCheck := make(map[[64]byte]blobParts)
+	pulled := make(map[string]blobParts)
 	blobs := make([]blobParts, 0, len(syncs))
-Syncs:
 	for i, uuid := range syncs {
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
@@ -97,11 +98,10 @@ Syncs:
 		}
 
 		hash := sha512.Sum512(ct)
-		for _, d := range dupeCheck {
-			if hash == d {
-				infoColor.Printf("skip: %s (duplicate remote)\n", name)
-				continue Syncs
-			}
+		if parts, ok := dupeCheck[hash]; ok {
+			infoColor.Printf("skip: %s (duplicate remote)\n", name)
+			pulled[uuid] = parts
+			continue
 		}
 
 		params, creds, pt, err := decryptBlob(u, name, ct)
@@ -124,20 +124,15 @@ Syncs:
 			continue
 		}
 
-		if len(log) != 0 && len(log) == len(u.store.DB.Log) &&
-			log[0].Time == u.store.DB.Log[0].Time &&
-			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
-			infoColor.Printf("skip: %s (no changes)\n", name)
-			syncs[i] = ""
-			continue
-		}
-
-		blobs = append(blobs, blobParts{
+		parts := blobParts{
 			Name:   name,
 			Creds:  creds,
 			Params: params,
 			Log:    log,
-		})
+		}
+		dupeCheck[hash] = parts
+		pulled[uuid] = parts
+		blobs = append(blobs, parts)
 	}
 
 	// Hosts that were confirmed are remembered whatever comes of the merge
@@ -208,6 +203,11 @@ Syncs:
 			continue
 		}
 
+		if parts, ok := pulled[uuid]; ok && u.isUpToDate(parts) {
+			infoColor.Printf("skip: %s (no changes)\n", name)
+			continue
+		}
+
 		infoColor.Println("push:", name)
 
 		hostentry, err := pushBlob(u, uuid, ct)
@@ -227,6 +227,24 @@ Syncs:
 	return nil
 }
 
+// isUpToDate checks if a remote has what we have
+func (u *uiContext) isUpToDate(remote blobParts) bool {
+	if len(remote.Log) != len(u.store.Log) {
+		return false
+	}
+	for i, tx := range remote.Log {
+		if tx != u.store.Log[i] {
+			return false
+		}
+	}
+
+	if len(u.master) != 0 {
+		return bytes.Equal(u.master, remote.Params.Master)
+	}
+	return len(remote.Params.Master) == 0 &&
+		bytes.Equal(u.key, remote.Params.Keys[remote.Params.User])
+}
+
 // checkLog ensures that the log can be replayed, and that the entries that
 // come out of it have what is required of all entries.
 func checkLog(log []txlogs.Tx) error {
-- 
2.43.0


From 4a4198d8b832cd56f330b43b66061d229e7b05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 51/71] fix: entries with the same name must be renamed when
 syncing

---
 sync.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sync.go b/sync.go
index 43d1e4b..9bd2b14 100644
--- a/sync.go
+++ b/sync.go
@@ -172,6 +172,17 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 		return u.store.UpdateSnapshot()
 	}
 
+	// Entries that were added with the same name on both sides
+	renames, err := u.store.RenameDuplicates()
+	if err != nil {
+		errColor.Println("aborting sync, failed to rename duplicates:", err)
+		restore()
+		return u.store.UpdateSnapshot()
+	}
+	for from, to := range renames {
+		infoColor.Printf("renamed %q => %q (name was not unique)\n", from, to)
+	}
+
 	if !push {
 		return nil
 	}
-- 
2.43.0


From 28deca305695b1a32cb5a2ee01a55e8b6c19d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 52/71] fix: errors that scp reports late must not be missed

---
 scpsync/scpsync.go | 118 +++++++++++++++++++++++++++++++--------------
 1 file changed, 81 insertions(+), 37 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 166f023..a09a56a 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -56,6 +56,9 @@ import (
 	"golang.org/x/crypto/ssh"
 )
 
+// maxLineLength is the longest message that is accepted from a server
+const maxLineLength = 64 * 1024
+
 type readWriter struct {
 	io.Reader
 	io.Writer
@@ -73,10 +76,10 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 	defer func() {
 		closeErr := client.Close()
 		if closeErr != nil {
+			// The server may be gone already, that does not matter once
+			// the transfer is complete.
 			if err != nil {
 				err = fmt.Errorf("%w, and failed to close ssh connection: %w", err, closeErr)
-			} else {
-				err = fmt.Errorf("failed to close ssh connection: %w", closeErr)
 			}
 		}
 	}()
@@ -107,7 +110,8 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 		return nil, err
 	}
 
-	if err = write.Close(); err != nil {
+	// EOF means that the server is done already
+	if err = write.Close(); err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to close write stream: %w", err)
 	}
 
@@ -133,10 +137,10 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 	defer func() {
 		closeErr := client.Close()
 		if closeErr != nil {
+			// The server may be gone already, that does not matter once
+			// the transfer is complete.
 			if err != nil {
 				err = fmt.Errorf("%w, and failed to close ssh connection: %w", err, closeErr)
-			} else {
-				err = fmt.Errorf("failed to close ssh connection: %w", closeErr)
 			}
 		}
 	}()
@@ -165,7 +169,13 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 		return err
 	}
 
-	if err = write.Close(); err != nil {
+	// EOF means that the server is done already
+	if err = write.Close(); err != nil && err != io.EOF {
+		return err
+	}
+
+	// There's more than one response, errors may still occur
+	if err = readResponses(stream); err != io.EOF {
 		return err
 	}
 
@@ -209,6 +219,11 @@ func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, m
 	// Copy the data
 	n, err := io.Copy(stream, file)
 	if err != nil {
+		// The server might have said why it's not interested anymore
+		var e Err
+		if respErr := readResponses(stream); errors.As(respErr, &e) {
+			return respErr
+		}
 		return fmt.Errorf("failed to deliver file data: %w", err)
 	} else if n != ln {
 		return fmt.Errorf("failed to deliver file data bytes, expected to copy %d but copied %d", ln, n)
@@ -229,35 +244,36 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 	}
 
 	reader := bufio.NewReader(stream)
-	str, err := reader.ReadString('\n')
+	str, err := readLine(reader)
+	if len(str) != 0 && (str[0] == 1 || str[0] == 2) {
+		// The server might not get to finish its message
+		return file, Err{Code: int(str[0]), Msg: str[1:]}
+	}
 	if err != nil {
 		return file, fmt.Errorf("failed to read intitial file header: %w", err)
-	} else if len(str) == 0 {
-		return file, errors.New("empty request")
 	}
 
 	switch str[0] {
 	case 'C':
 		// This is a happy case, let it go
-	case 1, 2:
-		return file, Err{Code: int(str[0]), Msg: str[1:]}
 	default:
 		return file, fmt.Errorf("want initial character C but got: %c", str[0])
 	}
 
 	str = str[1:]
 
-	fields := strings.Fields(str)
+	// The last one is the filename, it may contain spaces
+	fields := strings.SplitN(strings.TrimSuffix(str, "\n"), " ", 3)
 	if len(fields) != 3 {
 		return file, fmt.Errorf("protocol demands 3 fields, got %d", len(fields))
 	}
 
-	mode, err := strconv.ParseInt(fields[0], 8, 32)
+	mode, err := strconv.ParseUint(fields[0], 8, 31)
 	if err != nil {
 		return file, fmt.Errorf("failed to parse the mode: %q (%w)", fields[0], err)
 	}
 
-	length, err := strconv.ParseInt(fields[1], 10, 32)
+	length, err := strconv.ParseUint(fields[1], 10, 63)
 	if err != nil {
 		return file, fmt.Errorf("failed to parse the length: %q (%w)", fields[1], err)
 	}
@@ -267,15 +283,17 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 		return file, err
 	}
 
-	file.Contents = make([]byte, length+1)
-	if n, err := io.ReadFull(reader, file.Contents); err != nil {
+	// Do not trust the length, make room for what's really coming
+	var contents bytes.Buffer
+	if _, err := io.CopyN(&contents, reader, int64(length)); err == io.EOF {
+		return file, fmt.Errorf("short read, want %d bytes but got %d", length, contents.Len())
+	} else if err != nil {
 		return file, err
-	} else if int64(n) != length+1 {
-		return file, fmt.Errorf("short read, want %d bytes but got %d", length+1, n)
 	}
 
-	if file.Contents[len(file.Contents)-1] != 0 {
-		return file, errors.New("protocol error, expect 0 byte after file data")
+	// The server reports here if it could not read all of the file
+	if err := readResponse(reader); err != nil {
+		return file, fmt.Errorf("protocol error, expect 0 byte after file data: %w", err)
 	}
 
 	// Acknowledge we've received the file
@@ -285,9 +303,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 
 	file.Filename = fields[2]
 	file.Mode = int(mode)
-	file.Length = length
-	// Truncate the \0 byte
-	file.Contents = file.Contents[:len(file.Contents)-1]
+	file.Length = int64(length)
+	file.Contents = contents.Bytes()
 
 	return file, nil
 }
@@ -297,39 +314,66 @@ func sendOKResponse(stream io.Writer) error {
 	return err
 }
 
+// readResponses reads all responses until there's an error, io.EOF means that
+// the server has no more to say.
+func readResponses(stream io.Reader) error {
+	for {
+		if err := readResponse(stream); err != nil {
+			return err
+		}
+	}
+}
+
 func readResponse(stream io.Reader) error {
 	// Get the response
-	response := make([]byte, 256)
-	nRead, err := stream.Read(response)
-	if err != nil {
+	response := make([]byte, 1)
+	if _, err := io.ReadFull(stream, response); err != nil {
 		return err
-	} else if nRead == 0 {
-		return errors.New("failed to read a response byte")
 	}
 
 	switch response[0] {
 	case 0:
 		return nil
 	case 1, 2:
-		var e Err
-		if nRead > 2 {
-			e.Msg = string(response[1:nRead])
+		// What follows is a message, the server might not get to finish it
+		msg, err := readLine(stream)
+		if err != nil && err != io.EOF {
+			return err
 		}
-		e.Code = int(response[0])
-		return e
+		return Err{Code: int(response[0]), Msg: msg}
 	default:
-		return fmt.Errorf("unknown response from scp: %x", response[:nRead])
+		return fmt.Errorf("unknown response from scp: %x", response)
 	}
 }
 
+// readLine reads up to and including a newline, and nothing after it. What
+// has been read is returned together with an error.
+func readLine(stream io.Reader) (string, error) {
+	var line []byte
+	char := make([]byte, 1)
+	for len(line) < maxLineLength {
+		if _, err := io.ReadFull(stream, char); err != nil {
+			return string(line), err
+		}
+
+		line = append(line, char[0])
+		if char[0] == '\n' {
+			return string(line), nil
+		}
+	}
+
+	return string(line), errors.New("line is too long")
+}
+
 // IsNotFoundErr checks to see if the error was a file not found error
 // from the server.
 func IsNotFoundErr(err error) bool {
-	e, ok := err.(Err)
-	if !ok {
+	var e Err
+	if !errors.As(err, &e) {
 		return false
 	}
 
+	// The name of the file precedes the reason
 	return e.Code == 1 &&
-		strings.Contains(strings.ToLower(e.Msg), "no such file or directory")
+		strings.HasSuffix(strings.ToLower(strings.TrimSpace(e.Msg)), "no such file or directory")
 }
-- 
2.43.0


From 52d42c4568fb1f87518a6fd3cda1d324675c3ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 53/71] fix: an scp server's message must be read also when it
 is gone

---
 scpsync/scpsync.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index a09a56a..8a03afd 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -213,6 +213,10 @@ func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, m
 	// Send header
 	_, err := fmt.Fprintf(stream, "C0%o %d %s\n", mode, ln, filepath.Base(filename))
 	if err != nil {
+		var e Err
+		if respErr := readResponses(stream); errors.As(respErr, &e) {
+			return respErr
+		}
 		return fmt.Errorf("failed to send create message: %w", err)
 	}
 
@@ -311,6 +315,10 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 
 func sendOKResponse(stream io.Writer) error {
 	_, err := stream.Write([]byte{0})
+	if err == io.EOF {
+		// The server is gone, what it said before that is still to be read
+		return nil
+	}
 	return err
 }
 
-- 
2.43.0


From 1ff981b622155c16dbfd4d2513aeb5f1650c9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 54/71] fix: passphrases must pass through the pinentry
 protocol unchanged

---
 pinentry/pinentry.go | 51 ++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/pinentry/pinentry.go b/pinentry/pinentry.go
index d785262..2c8399a 100644
--- a/pinentry/pinentry.go
+++ b/pinentry/pinentry.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net/url"
 	"os"
 	"os/exec"
 	"strings"
@@ -24,10 +25,10 @@ var (
 		"pinentry-tty",
 	}
 
-	pinEntryReplace = strings.NewReplacer(
-		"%25", "%",
-		"%0D", "\r",
-		"%0A", "\n",
+	pinEntryEscape = strings.NewReplacer(
+		"%", "%25",
+		"\r", "%0D",
+		"\n", "%0A",
 	)
 
 	cachedPinEntry string
@@ -81,28 +82,37 @@ func Password(prompt string) (password string, err error) {
 
 	defer func() {
 		if r := recover(); r != nil {
+			password = ""
 			err = fmt.Errorf("failed to communicate with pinentry: %v", r)
 		}
 	}()
 
 	scanner := bufio.NewScanner(out)
 	getLine := func() string {
-		if !scanner.Scan() {
-			if e := scanner.Err(); e != nil {
-				panic(e)
+		for {
+			if !scanner.Scan() {
+				if e := scanner.Err(); e != nil {
+					panic(e)
+				}
+				panic("failed to scan line")
+			}
+
+			line := scanner.Text()
+			if strings.HasPrefix(line, "#") || strings.HasPrefix(line, "S ") {
+				// Comments and status information
+				continue
 			}
-			panic("failed to scan line")
+			return line
 		}
-		return scanner.Text()
 	}
 
-	if getLine() != "OK Pleased to meet you" {
+	if greeting := getLine(); greeting != "OK" && !strings.HasPrefix(greeting, "OK ") {
 		return "", errors.New("rogue pinentry program")
 	}
 
 	setup := []string{
 		fmt.Sprintf("SETTITLE %s\n", "Bpass password entry"),
-		fmt.Sprintf("SETDESC %s\n", prompt),
+		fmt.Sprintf("SETDESC %s\n", pinEntryEscape.Replace(prompt)),
 		fmt.Sprintf("OPTION lc-ctype %s\n", "UTF-8"),
 	}
 	if term := os.Getenv("TERM"); len(term) != 0 {
@@ -116,30 +126,39 @@ func Password(prompt string) (password string, err error) {
 		mustWrite(in.Write([]byte(s)))
 
 		if getLine() != "OK" {
-			return "", fmt.Errorf("failed setting option (%s): %w", s, err)
+			return "", fmt.Errorf("failed setting option (%s)", strings.TrimSpace(s))
 		}
 	}
 
 	mustWrite(fmt.Fprintln(in, "GETPIN"))
 
+	// The password may be sent in several pieces
 	resp := getLine()
-	if strings.HasPrefix(resp, "D ") {
-		password = resp[2:]
+	var data strings.Builder
+	for strings.HasPrefix(resp, "D ") {
+		data.WriteString(resp[2:])
 		resp = getLine()
-	} else if strings.HasPrefix(resp, "ERR") && strings.Contains(resp, "Operation cancelled") {
+	}
+	if data.Len() == 0 && strings.HasPrefix(resp, "ERR") && strings.Contains(resp, "Operation cancelled") {
 		return "", nil
 	}
 	if resp != "OK" {
 		return "", fmt.Errorf("rogue pinentry program")
 	}
 
+	// All percent-escapes mean something, not only those that are required.
+	password, err = url.PathUnescape(data.String())
+	if err != nil {
+		return "", fmt.Errorf("rogue pinentry program: %w", err)
+	}
+
 	mustWrite(fmt.Fprintln(in, "BYE"))
 
 	if err = cmd.Wait(); err != nil {
 		return "", err
 	}
 
-	return pinEntryReplace.Replace(password), nil
+	return password, nil
 }
 
 func mustWrite(_ int, err error) {
-- 
2.43.0


From cfcdba9562319c4a3a44a0bb0574f72256354cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 55/71] fix: crash when a file is opened at the time an entry
 is being added

The time given with -t may fall between the creation of an entry and the
change that gives it its name, anything that looks at names paniced then.
---
 main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/main.go b/main.go
index 295e415..df14245 100644
--- a/main.go
+++ b/main.go
@@ -249,6 +249,14 @@ func (u *uiContext) loadBlob() error {
 		if err := u.store.DB.UpdateSnapshot(); err != nil {
 			return err
 		}
+
+		// The time may fall between the creation of an entry and it being
+		// given its name, it's not there yet in that case.
+		for uuid, entry := range u.store.DB.Snapshot {
+			if _, ok := entry[blobformat.KeyName]; !ok {
+				delete(u.store.DB.Snapshot, uuid)
+			}
+		}
 	}
 
 	// Save this to know if we've actually edited the database in some way
-- 
2.43.0


From 7068f90701926267104bf7f8ca104dfdef5a1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 56/71] fix: session hangs after the input ended in the middle
 of a dialogue

Once readline has reported the end of its input (or has read a NUL, ctrl-space
on a terminal) it blocks forever when it's asked for another line, and all
changes of the session are lost.
---
 readline.go | 55 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/readline.go b/readline.go
index 085b53a..54686a4 100644
--- a/readline.go
+++ b/readline.go
@@ -3,10 +3,12 @@
 package main
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"os"
 	"sort"
+	"sync/atomic"
 
 	"github.com/aarondl/readline"
 )
@@ -24,18 +26,51 @@ type readlineEditor struct {
 	promptNeedsReset bool
 	instance         *readline.Instance
 	out              io.Writer
+	stdin            *stdinReader
+}
+
+// stdinReader is stdin without what readline cannot cope with. It ends for good
+// (and hangs when it's used again) not only after the end of the input but also
+// after a NUL.
+type stdinReader struct {
+	*os.File
+	eof   int32 // all of the input has been read
+	ended bool  // readline has said so
+}
+
+// Read implements io.Reader
+func (s *stdinReader) Read(b []byte) (int, error) {
+	for {
+		n, err := s.File.Read(b)
+		if err != nil {
+			atomic.StoreInt32(&s.eof, 1)
+			return n, err
+		}
+
+		kept := bytes.ReplaceAll(b[:n], []byte{0}, nil)
+		if n = copy(b, kept); n > 0 || len(b) == 0 {
+			return n, nil
+		}
+	}
+}
+
+// end is called when readline reports the end of the input, which is not the
+// end of all input if it was typed.
+func (s *stdinReader) end() {
+	s.ended = atomic.LoadInt32(&s.eof) == 1
 }
 
 func newReadlineEditor(out io.Writer, fn completer) (readlineEditor, error) {
-	instance, err := readline.NewEx(readlineConfig(out, fn))
+	stdin := &stdinReader{File: os.Stdin}
+	instance, err := readline.NewEx(readlineConfig(stdin, out, fn))
 	if err != nil {
 		return readlineEditor{}, err
 	}
 
-	return readlineEditor{instance: instance, out: out}, nil
+	return readlineEditor{instance: instance, out: out, stdin: stdin}, nil
 }
 
-func readlineConfig(out io.Writer, entryCompleter completer) *readline.Config {
+func readlineConfig(stdin *stdinReader, out io.Writer, entryCompleter completer) *readline.Config {
 	var completer readline.AutoCompleter
 	if entryCompleter != nil {
 		completer = readlineAutocompleter(entryCompleter)
@@ -53,7 +88,7 @@ func readlineConfig(out io.Writer, entryCompleter completer) *readline.Config {
 		InterruptPrompt: "interrupt",
 		EOFPrompt:       "exit",
 
-		Stdin:  os.Stdin,
+		Stdin:  stdin,
 		Stdout: out,
 		Stderr: os.Stderr,
 
@@ -63,6 +98,10 @@ func readlineConfig(out io.Writer, entryCompleter completer) *readline.Config {
 
 // Line implements LineEditor.Line
 func (r readlineEditor) Line(prompt string) (string, error) {
+	if r.stdin.ended {
+		return "", ErrEnd
+	}
+
 	if r.currentPrompt != prompt || r.promptNeedsReset {
 		r.currentPrompt = prompt
 		r.promptNeedsReset = false
@@ -75,6 +114,7 @@ func (r readlineEditor) Line(prompt string) (string, error) {
 		return s, nil
 	case io.EOF:
 		r.promptNeedsReset = true
+		r.stdin.end()
 		return "", ErrEnd
 	case readline.ErrInterrupt:
 		return "", ErrInterrupt
@@ -85,12 +125,17 @@ func (r readlineEditor) Line(prompt string) (string, error) {
 
 // LineHidden implements LineEditor.LineHidden
 func (r readlineEditor) LineHidden(prompt string) (string, error) {
+	if r.stdin.ended {
+		return "", ErrEnd
+	}
+
 	byt, err := r.instance.ReadPassword(prompt)
 	switch err {
 	case nil:
 		return string(byt), nil
 	case io.EOF:
 		r.promptNeedsReset = true
+		r.stdin.end()
 		return "", ErrEnd
 	case readline.ErrInterrupt:
 		return "", ErrInterrupt
@@ -109,7 +154,7 @@ func (r readlineEditor) AddHistory(line string) {
 
 // SetEntryCompleter sets a completion function for entries.
 func (r readlineEditor) SetEntryCompleter(entryCompleter func(string) []string) {
-	r.instance.SetConfig(readlineConfig(r.out, entryCompleter))
+	r.instance.SetConfig(readlineConfig(r.stdin, r.out, entryCompleter))
 }
 
 func entryCompleter(u *uiContext) func(string) []string {
-- 
2.43.0


From c649958d72353a01cb7e6237fd8699eaae08d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 57/71] fix: crash on a tab or ctrl-r when the input is not a
 terminal

---
 readline.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/readline.go b/readline.go
index 54686a4..9dd5e5e 100644
--- a/readline.go
+++ b/readline.go
@@ -92,10 +92,24 @@ func readlineConfig(stdin *stdinReader, out io.Writer, entryCompleter completer)
 		Stdout: out,
 		Stderr: os.Stderr,
 
+		FuncGetWidth: screenWidth,
+
 		UniqueEditLine: false,
 	}
 }
 
+// screenWidth is 0 if there's no terminal, readline crashes on a tab or ctrl-r
+// otherwise. It hangs or crashes on a terminal without a width, however.
+func screenWidth() int {
+	if width := readline.GetScreenWidth(); width > 0 {
+		return width
+	}
+	if readline.DefaultIsTerminal() {
+		return 80
+	}
+	return 0
+}
+
 // Line implements LineEditor.Line
 func (r readlineEditor) Line(prompt string) (string, error) {
 	if r.stdin.ended {
-- 
2.43.0


From e915d92ab51e075a86636a66c83065a27cd7ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 58/71] fix: line editor crashes on ctrl-t in a line of one
 character and on ctrl-r at a password prompt

---
 readline.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/readline.go b/readline.go
index 9dd5e5e..12f1cfc 100644
--- a/readline.go
+++ b/readline.go
@@ -93,11 +93,18 @@ func readlineConfig(stdin *stdinReader, out io.Writer, entryCompleter completer)
 		Stderr: os.Stderr,
 
 		FuncGetWidth: screenWidth,
+		Listener:     readline.FuncListener(fixCursor),
 
 		UniqueEditLine: false,
 	}
 }
 
+// fixCursor keeps the cursor inside of the line, readline crashes on the key
+// after a ctrl-t in a line of one character otherwise.
+func fixCursor(line []rune, pos int, _ rune) ([]rune, int, bool) {
+	return line, len(line), pos > len(line)
+}
+
 // screenWidth is 0 if there's no terminal, readline crashes on a tab or ctrl-r
 // otherwise. It hangs or crashes on a terminal without a width, however.
 func screenWidth() int {
@@ -143,7 +150,11 @@ func (r readlineEditor) LineHidden(prompt string) (string, error) {
 		return "", ErrEnd
 	}
 
-	byt, err := r.instance.ReadPassword(prompt)
+	cfg := r.instance.GenPasswordConfig()
+	cfg.Prompt = prompt
+	cfg.FuncGetWidth = screenWidth
+	cfg.Listener = readline.FuncListener(fixCursor)
+	byt, err := r.instance.ReadPasswordWithConfig(cfg)
 	switch err {
 	case nil:
 		return string(byt), nil
-- 
2.43.0


From 6fd2c5f84797f1dde7caecc11ada4491f21c9245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 59/71] fix: line editor crashes on completions wider than the
 terminal and on ctrl-k and ctrl-t while choosing one

---
 readline.go | 89 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 80 insertions(+), 9 deletions(-)

diff --git a/readline.go b/readline.go
index 12f1cfc..cf1d851 100644
--- a/readline.go
+++ b/readline.go
@@ -25,6 +25,7 @@ type readlineEditor struct {
 	currentPrompt    string
 	promptNeedsReset bool
 	instance         *readline.Instance
+	guard            *lineGuard
 	out              io.Writer
 	stdin            *stdinReader
 }
@@ -67,7 +68,16 @@ func newReadlineEditor(out io.Writer, fn completer) (readlineEditor, error) {
 		return readlineEditor{}, err
 	}
 
-	return readlineEditor{instance: instance, out: out, stdin: stdin}, nil
+	cfg := instance.Config.Clone()
+	guard := &lineGuard{AutoCompleter: cfg.AutoComplete, op: instance.Operation}
+	if fn != nil {
+		cfg.AutoComplete = guard
+	}
+	cfg.Listener = guard
+	cfg.FuncFilterInputRune = guard.filterKey
+	instance.SetConfig(cfg)
+
+	return readlineEditor{instance: instance, guard: guard, out: out, stdin: stdin}, nil
 }
 
 func readlineConfig(stdin *stdinReader, out io.Writer, entryCompleter completer) *readline.Config {
@@ -93,18 +103,11 @@ func readlineConfig(stdin *stdinReader, out io.Writer, entryCompleter completer)
 		Stderr: os.Stderr,
 
 		FuncGetWidth: screenWidth,
-		Listener:     readline.FuncListener(fixCursor),
 
 		UniqueEditLine: false,
 	}
 }
 
-// fixCursor keeps the cursor inside of the line, readline crashes on the key
-// after a ctrl-t in a line of one character otherwise.
-func fixCursor(line []rune, pos int, _ rune) ([]rune, int, bool) {
-	return line, len(line), pos > len(line)
-}
-
 // screenWidth is 0 if there's no terminal, readline crashes on a tab or ctrl-r
 // otherwise. It hangs or crashes on a terminal without a width, however.
 func screenWidth() int {
@@ -153,7 +156,8 @@ func (r readlineEditor) LineHidden(prompt string) (string, error) {
 	cfg := r.instance.GenPasswordConfig()
 	cfg.Prompt = prompt
 	cfg.FuncGetWidth = screenWidth
-	cfg.Listener = readline.FuncListener(fixCursor)
+	cfg.Listener = r.guard
+	cfg.FuncFilterInputRune = r.guard.filterKey
 	byt, err := r.instance.ReadPasswordWithConfig(cfg)
 	switch err {
 	case nil:
@@ -182,6 +186,73 @@ func (r readlineEditor) SetEntryCompleter(entryCompleter func(string) []string)
 	r.instance.SetConfig(readlineConfig(r.stdin, r.out, entryCompleter))
 }
 
+// lineGuard keeps readline from crashing on some keys
+type lineGuard struct {
+	readline.AutoCompleter
+	op     *readline.Operation
+	length int // of the line
+	width  int // of a completion on the screen
+}
+
+// OnChange implements readline.Listener
+func (l *lineGuard) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
+	if key != 0 {
+		l.length = len(line)
+	}
+	return nil, 0, false
+}
+
+// Do implements readline.AutoCompleter
+func (l *lineGuard) Do(line []rune, pos int) ([][]rune, int) {
+	candidates, length := l.AutoCompleter.Do(line, pos)
+
+	// The shared characters are only repeated in the list, and they have to be
+	// as wide as there are many.
+	runes := readline.Runes{}
+	if length > pos || runes.WidthAll(line[pos-length:pos]) > length {
+		length = 0
+	}
+
+	l.width = 0
+	for _, c := range candidates {
+		if w := runes.WidthAll(c) + length + 1; w > l.width {
+			l.width = w
+		}
+	}
+	return candidates, length
+}
+
+// filterKey leaves out or replaces the keys that cannot be used
+func (l *lineGuard) filterKey(key rune) (rune, bool) {
+	if key == readline.CharTranspose && l.length < 2 {
+		return key, false
+	}
+
+	if !l.op.IsInCompleteSelectMode() {
+		return key, true
+	}
+
+	if key == readline.CharKill {
+		l.op.ExitCompleteMode(true)
+		return key, true
+	}
+
+	if l.width < screenWidth() {
+		return key, true
+	}
+
+	// There's not even one column
+	switch key {
+	case readline.CharNext:
+		return readline.CharForward, true
+	case readline.CharPrev:
+		return readline.CharBackward, true
+	case readline.CharLineStart, readline.CharLineEnd:
+		return key, false
+	}
+	return key, true
+}
+
 func entryCompleter(u *uiContext) func(string) []string {
 	return func(s string) []string {
 		if u == nil || u.store.DB == nil {
-- 
2.43.0


From 1e89ba7817b5e4df543c20083783e2e6b4b298d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 60/71] fix: edit wipes the temporary file also when the editor
 fails

The file was only overwritten up to the length of the values that were read,
what an editor left before failing stayed on the disk.
---
 commands.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/commands.go b/commands.go
index 9f2bd53..7c69c11 100644
--- a/commands.go
+++ b/commands.go
@@ -950,6 +950,10 @@ func (u *uiContext) edit(search, key string) error {
 	// data that was inside it. So we write max(len(oldValue),len(newValue))
 	// bytes to the file before deletion.
 	defer func() {
+		// The editor may have left more than we have read
+		if info, err := tmp.Stat(); err == nil && info.Size() > int64(maxLen) {
+			maxLen = int(info.Size())
+		}
 		if maxLen == 0 {
 			return
 		}
@@ -970,14 +974,7 @@ func (u *uiContext) edit(search, key string) error {
 	}
 
 	// Run the editor for the OS and wait until it exits
-	editExit := 0
-	if err = osutil.RunEditor(fname); err != nil {
-		e, ok := err.(*exec.ExitError)
-		if !ok {
-			return err
-		}
-		editExit = e.ExitCode()
-	}
+	editErr := osutil.RunEditor(fname)
 
 	tmp, err = os.OpenFile(fname, os.O_RDWR, 0600)
 	if err != nil {
@@ -985,6 +982,15 @@ func (u *uiContext) edit(search, key string) error {
 		return nil
 	}
 
+	editExit := 0
+	if editErr != nil {
+		e, ok := editErr.(*exec.ExitError)
+		if !ok {
+			return editErr
+		}
+		editExit = e.ExitCode()
+	}
+
 	if editExit != 0 {
 		errColor.Printf("editor exit non-zero (%d), not saving value\n", editExit)
 		return nil
-- 
2.43.0


From 1e0ba66160667c09623cdae71c85a7716614afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 61/71] fix: scp announces all permissions with four digits

---
 scpsync/scpsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 8a03afd..280e6cf 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -211,7 +211,7 @@ func (e Err) Error() string {
 
 func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, mode int) error {
 	// Send header
-	_, err := fmt.Fprintf(stream, "C0%o %d %s\n", mode, ln, filepath.Base(filename))
+	_, err := fmt.Fprintf(stream, "C%04o %d %s\n", mode, ln, filepath.Base(filename))
 	if err != nil {
 		var e Err
 		if respErr := readResponses(stream); errors.As(respErr, &e) {
-- 
2.43.0


From d121e7118df269883302d5df191e2f9c0041f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 62/71] fix: an scp upload is complete only when it was
 confirmed

---
 scpsync/scpsync.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 280e6cf..9a6ca6c 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -174,7 +174,17 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 		return err
 	}
 
-	// There's more than one response, errors may still occur
+	// The start, the header and the data are confirmed one by one, the first
+	// of these has been seen
+	for i := 0; i < 2; i++ {
+		if err = readResponse(stream); err == io.EOF {
+			return errors.New("the server ended without confirming the file")
+		} else if err != nil {
+			return err
+		}
+	}
+
+	// Errors may still occur
 	if err = readResponses(stream); err != io.EOF {
 		return err
 	}
-- 
2.43.0


From f2a375848b954e7fa647bf05e5f8da0ea838293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 63/71] fix: addsync must refuse ports that do not exist

---
 commands.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commands.go b/commands.go
index 7c69c11..1679a2d 100644
--- a/commands.go
+++ b/commands.go
@@ -424,9 +424,9 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 			break
 		}
 
-		_, err = strconv.Atoi(port)
-		if err != nil {
-			errColor.Printf("port must be an integer between %d and %d\n", 1, int(math.MaxUint16)-1)
+		n, err := strconv.Atoi(port)
+		if err != nil || n < 1 || n > math.MaxUint16 {
+			errColor.Printf("port must be an integer between %d and %d\n", 1, math.MaxUint16)
 			continue
 		}
 
-- 
2.43.0


From 94f97191e5c6fed8073bd0c6f61e3364eefa7525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 64/71] fix: addsync scp must keep an absolute path absolute

---
 commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 1679a2d..46040d5 100644
--- a/commands.go
+++ b/commands.go
@@ -441,7 +441,8 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 	uri.Scheme = syncSCP
 	uri.User = url.User(user)
 	uri.Host = net.JoinHostPort(host, port)
-	uri.Path = file
+	// The slash after the host does not belong to the path
+	uri.Path = "/" + file
 
 	promptColor.Println("Key type:")
 	choice, err := u.getMenuChoice(promptColor.Sprint("> "), []string{"ED25519", "RSA 4096", "Password"})
-- 
2.43.0


From c499089fe35a871161e6df2252715c39fbda9182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 65/71] fix: set: do not print a password that was typed at the
 hidden prompt

---
 commands.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/commands.go b/commands.go
index 46040d5..c8716b7 100644
--- a/commands.go
+++ b/commands.go
@@ -847,6 +847,7 @@ func (u *uiContext) set(search, key, value string) error {
 		return nil
 	}
 
+	hidden := false
 	switch key {
 	case blobformat.KeyPass:
 		if len(value) == 0 {
@@ -855,6 +856,7 @@ func (u *uiContext) set(search, key, value string) error {
 			if err != nil {
 				return err
 			}
+			hidden = true
 		}
 
 		err = u.store.Set(uuid, key, value)
@@ -895,6 +897,12 @@ func (u *uiContext) set(search, key, value string) error {
 		return err
 	}
 
+	if hidden {
+		// It may have been typed without being shown
+		infoColor.Printf("set %s\n", key)
+		return nil
+	}
+
 	infoColor.Printf("set %s = %s\n", key, value)
 
 	return nil
-- 
2.43.0


From 80d6fe71db14ef471b150eb56e481f9587de3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 66/71] fix: readline: keep passwords out of the line history

---
 readline.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readline.go b/readline.go
index cf1d851..350b946 100644
--- a/readline.go
+++ b/readline.go
@@ -158,6 +158,8 @@ func (r readlineEditor) LineHidden(prompt string) (string, error) {
 	cfg.FuncGetWidth = screenWidth
 	cfg.Listener = r.guard
 	cfg.FuncFilterInputRune = r.guard.filterKey
+	// It may end up in the history of the lines otherwise
+	cfg.DisableAutoSaveHistory = true
 	byt, err := r.instance.ReadPasswordWithConfig(cfg)
 	switch err {
 	case nil:
-- 
2.43.0


From 7368c93ff9ba541e4d3b028bf0287554faf33bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 67/71] fix: sync: do not print secrets of an entry when
 reporting a conflict

---
 merging.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/merging.go b/merging.go
index 68c7b5d..edb252d 100644
--- a/merging.go
+++ b/merging.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"errors"
+	"net/url"
 	"time"
 
 	"github.com/aarondl/bpass/blobformat"
@@ -303,7 +304,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 				case txlogs.TxSetKey:
 					infoColor.Printf("a set happened:\n%s = %s\n",
 						c.Conflict.Key,
-						c.Conflict.Value,
+						conflictValue(c.Conflict.Key, c.Conflict.Value),
 					)
 				case txlogs.TxDeleteKey:
 					infoColor.Printf("a delete happened for key:\n%s\n",
@@ -336,3 +337,22 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 
 	return c, nil
 }
+
+// conflictValue is what to show of a value that takes part in a conflict,
+// secrets must not be printed just because of a sync.
+func conflictValue(key, value string) string {
+	switch key {
+	case blobformat.KeyPass, blobformat.KeyTwoFactor, blobformat.KeyPriv:
+		return "(hidden)"
+	case blobformat.KeyURL:
+		uri, err := url.Parse(value)
+		if err != nil {
+			break
+		}
+		if _, ok := uri.User.Password(); ok {
+			return uri.Redacted()
+		}
+	}
+
+	return value
+}
-- 
2.43.0


From 94c1018c446e71dca3343560ec31a0b9c56d748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 68/71] fix: edit: refuse text that is not UTF-8 as it cannot
 be stored

Saving replaced the offending bytes without a word.
---
 commands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/commands.go b/commands.go
index c8716b7..a220acc 100644
--- a/commands.go
+++ b/commands.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
@@ -1015,6 +1016,11 @@ func (u *uiContext) edit(search, key string) error {
 		maxLen = len(newValue)
 	}
 
+	if !utf8.Valid(newValue) {
+		errColor.Println("the text is not valid utf-8, not saving value")
+		return nil
+	}
+
 	erase := len(newValue) == 0
 	if erase {
 		err = u.store.DeleteKey(uuid, key)
-- 
2.43.0


From 4fd2780c1db3fcfa35b795c8705134947fa9b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 69/71] fix: lastpass import: refuse an export that is not
 UTF-8

Saving replaced the offending bytes without a word.
---
 import.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/import.go b/import.go
index 51bb298..74b4c59 100644
--- a/import.go
+++ b/import.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"os/exec"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/aarondl/bpass/blobformat"
 )
@@ -40,6 +41,10 @@ func importLastpass(u *uiContext) error {
 		return err
 	}
 
+	if !utf8.Valid(out) {
+		return errors.New("lastpass csv is not valid utf-8")
+	}
+
 	reader := csv.NewReader(bytes.NewReader(out))
 
 	for i := 0; ; i++ {
-- 
2.43.0


From 4dd4afee56eecaeb0b216429b8498d7a9591b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:41 +0000
Subject: [PATCH 70/71] fix: sync: users keep access when copies rekey and
 change passwords at once

---
 merging.go | 84 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 5 deletions(-)

diff --git a/merging.go b/merging.go
index edb252d..0f3c473 100644
--- a/merging.go
+++ b/merging.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"net/url"
+	"sort"
 	"time"
 
 	"github.com/aarondl/bpass/blobformat"
@@ -143,11 +144,6 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				return m, errors.New("could not find current user entry in merged user db")
 			}
 
-			// Figure out if the local mkey is in the merged database
-			// to see which side wins. Whichever side loses may have invalid
-			// users if they were not present for the rekey, find them
-			// and warn that they will not work until they're re-passworded
-			localWins := localUser[blobformat.KeyMKey] == mergedUser[blobformat.KeyMKey]
 			localUsers, err := localStore.Users()
 			if err != nil {
 				return m, err
@@ -157,6 +153,20 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				return m, err
 			}
 
+			// The side that was rekeyed last wins. Whichever side loses may have
+			// invalid users if they were not present for the rekey, find them
+			// and warn that they will not work until they're re-passworded
+			localWins := rekeyedLater(m.Log, r.Log, localUsers, remoteUsers)
+			if localWins {
+				err = keepRekeyed(mergedStore, localStore, localUsers)
+			} else {
+				err = keepRekeyed(mergedStore, remoteStore, remoteUsers)
+			}
+			if err != nil {
+				return m, err
+			}
+			merged = mergedStore.Log
+
 			if localWins {
 				// Find remoteUsers not in local
 				for remoteUUID, user := range remoteUsers {
@@ -249,6 +259,70 @@ func mergeOwnUser(m *mergeResult, r blobParts, merged []txlogs.Tx) (takeRemoteCr
 		salt == hex.EncodeToString(r.Params.Salts[r.Params.User]), nil
 }
 
+// rekeyedLater tells if all users were rekeyed later in the local log than in
+// the remote log. Only the users both have are considered, and the one who
+// got the current master key first tells since when it is in use.
+func rekeyedLater(local, remote []txlogs.Tx, localUsers, remoteUsers map[string]string) bool {
+	localTimes, remoteTimes := mkeyTimes(local), mkeyTimes(remote)
+
+	var ours, theirs []int64
+	for uuid := range localUsers {
+		if _, ok := remoteUsers[uuid]; ok {
+			ours = append(ours, localTimes[uuid])
+			theirs = append(theirs, remoteTimes[uuid])
+		}
+	}
+	sort.Slice(ours, func(i, j int) bool { return ours[i] < ours[j] })
+	sort.Slice(theirs, func(i, j int) bool { return theirs[i] < theirs[j] })
+
+	for i := range ours {
+		if ours[i] != theirs[i] {
+			return ours[i] > theirs[i]
+		}
+	}
+
+	return true
+}
+
+// mkeyTimes finds when users were given the master key they have
+func mkeyTimes(log []txlogs.Tx) map[string]int64 {
+	times := make(map[string]int64)
+	for _, tx := range log {
+		if tx.Kind == txlogs.TxSetKey && tx.Key == blobformat.KeyMKey {
+			times[tx.UUID] = tx.Time
+		}
+	}
+
+	return times
+}
+
+// keepRekeyed makes sure that the users who were present for a rekey have the
+// credentials from there, later ones from the other side are useless because
+// they belong to a master key that's no longer in use.
+func keepRekeyed(merged, rekeyed blobformat.Blobs, users map[string]string) error {
+	for uuid, name := range users {
+		user, err := merged.Find(uuid)
+		if err != nil {
+			return err
+		}
+		want, err := rekeyed.Find(uuid)
+		if err != nil {
+			return err
+		}
+
+		if user == nil || user[blobformat.KeyMKey] == want[blobformat.KeyMKey] {
+			continue
+		}
+
+		infoColor.Printf("user %q has the credentials of the rekey\n", name)
+		for _, k := range []string{blobformat.KeySalt, blobformat.KeyIV, blobformat.KeyMKey} {
+			merged.DB.Set(uuid, k, want[k])
+		}
+	}
+
+	return nil
+}
+
 // lastTime is the time of the last change in the log
 func lastTime(log []txlogs.Tx) int64 {
 	if len(log) == 0 {
-- 
2.43.0


From 3ad99874a4dfc3edd4960d33e60587762dfcd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:58 +0000
Subject: [PATCH 71/71] fix: a session that changed the log without changing
 its length was not synchronised when it ended

---
 main.go      | 19 +++++++++++++++++--
 uicontext.go |  3 ++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index df14245..d0b1f3a 100644
--- a/main.go
+++ b/main.go
@@ -111,7 +111,7 @@ func main() {
 			goto Exit
 		}
 
-		wrote := ctx.startTx != len(ctx.store.DB.Log)
+		wrote := ctx.changedLog()
 		if wrote && !ctx.readOnly && !flagNoAutoSync {
 			// Do not lose the changes because of this, save them first
 			if err = ctx.sync("", true, true); err != nil {
@@ -260,11 +260,26 @@ func (u *uiContext) loadBlob() error {
 	}
 
 	// Save this to know if we've actually edited the database in some way
-	u.startTx = len(u.store.DB.Log)
+	u.startLog = append([]txlogs.Tx(nil), u.store.DB.Log...)
 
 	return nil
 }
 
+// changedLog checks if the log is another one than when it was loaded. The
+// length says nothing, a sync can discard changes that are in conflict.
+func (u *uiContext) changedLog() bool {
+	if len(u.startLog) != len(u.store.DB.Log) {
+		return true
+	}
+	for i, tx := range u.startLog {
+		if tx != u.store.DB.Log[i] {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (u *uiContext) saveBlob() error {
 	if u.readOnly {
 		return nil
diff --git a/uicontext.go b/uicontext.go
index 1bce3d4..c8fbae2 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/aarondl/bpass/blobformat"
 	"github.com/aarondl/bpass/crypt"
+	"github.com/aarondl/bpass/txlogs"
 )
 
 type uiContext struct {
@@ -18,7 +19,7 @@ type uiContext struct {
 
 	created  bool
 	readOnly bool
-	startTx  int
+	startLog []txlogs.Tx
 
 	filename      string
 	shortFilename string
-- 
2.43.0

