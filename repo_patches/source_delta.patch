From 07121b350ef0f5b944cf7dc9860b65ced8013519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 01/65] fix: rollback of a transaction with one applied change
 left its effects in the snapshot

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 8e4b0db..3875c42 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -160,7 +160,7 @@ func (s *DB) Rollback() {
 		panic("rollback called before begin")
 	}
 
-	if s.Version > uint(s.txPoint) {
+	if s.Version >= uint(s.txPoint) {
 		s.ResetSnapshot()
 	}
 
-- 
2.43.0


From c72d67c0b530d1159e91c71e0a4f4aaba6730885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 02/65] fix: nested Begin panics as documented instead of
 moving the rollback point

---
 txlogs/txlogs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 3875c42..5061467 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -143,6 +143,10 @@ func (s *DB) appendLog(tx Tx) {
 // We add 1 to the length to keep the 0 valid as a "no transaction started"
 // sentinel value.
 func (s *DB) Begin() {
+	if s.txPoint != 0 {
+		panic("begin called before commit or rollback")
+	}
+
 	s.txPoint = len(s.Log) + 1
 }
 
-- 
2.43.0


From bb03cecff8457e0dfe2783fc9849a58970d6af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 03/65] fix: asking for a negative number of versions ago is an
 error, not a crash

---
 txlogs/txlogs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 5061467..b3f459d 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -235,7 +235,7 @@ func (s *DB) UpdateSnapshot() error {
 // SnapshotAt creates a new snapshot of a particular entry versionsAgo
 // in the past.
 func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
-	if versionsAgo > len(s.Log) {
+	if versionsAgo < 0 || versionsAgo > len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
@@ -254,7 +254,7 @@ func (s *DB) SnapshotAt(versionsAgo int) (map[string]Entry, error) {
 // in the past. If history past the existence of the entry is requested
 // a KeyNotFound error may be present.
 func (s *DB) EntrySnapshotAt(uuid string, versionsAgo int) (Entry, error) {
-	if versionsAgo >= len(s.Log) {
+	if versionsAgo < 0 || versionsAgo >= len(s.Log) {
 		return nil, errors.New("there are not that many versions")
 	}
 
-- 
2.43.0


From 1cf33dc052797be43ede2b5b4d08bd755e067786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 04/65] fix: reading the log of a null store does not crash

---
 txlogs/txlogs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index b3f459d..892aaf7 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -63,7 +63,7 @@ func New(data []byte) (*DB, error) {
 // NewLog parses the same data as New() but only returns the log
 func NewLog(data []byte) ([]Tx, error) {
 	s := new(storeNoSnapshot)
-	if err := json.Unmarshal(data, &s); err != nil {
+	if err := json.Unmarshal(data, s); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 15a62f2bb27b18258b291a8521d7f8287e0d5795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 05/65] fix: merging two empty logs does not crash

---
 txlogs/txlogs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index 892aaf7..c64b9f8 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -340,6 +340,10 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
+	if lena == 0 && lenb == 0 {
+		return a, nil
+	}
+
 	if lena == lenb &&
 		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
 		// These are the same list of events
-- 
2.43.0


From eb6194360d80c5eac33ba45b83796d760b9c36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 06/65] fix: merge compares whole transactions and breaks
 timestamp ties by uuid

Different changes with an equal timestamp were taken for the same change and
one of them was dropped, and logs which differ only in the middle were taken
for identical.
---
 txlogs/txlogs.go | 54 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index c64b9f8..c0eefde 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -316,8 +316,7 @@ func (s *DB) LastUpdated(uuid string) (last int64) {
 // Merge logs together. The standard case for merging is that the logs proceed
 // in order with the same uuids.
 //
-// There is a no-fork fast-path in which a is returned if lengths are the same
-// and they start and end with the same transaction ids.
+// There is a no-fork fast-path in which a is returned if both logs are the same.
 //
 // When a fork occurs the logs need to be reconciled. The reconciliation is
 // done by accepting each change in order deterministically, it sorts first
@@ -340,17 +339,8 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	lena := len(a)
 	lenb := len(b)
 
-	if lena == 0 && lenb == 0 {
-		return a, nil
-	}
-
-	if lena == lenb &&
-		a[0].Time == b[0].Time && a[lena-1].Time == b[lenb-1].Time {
-		// These are the same list of events
-		// There can be no possible fork that has happened if they
-		// 1. Are not of differing length
-		// 2. Start at the unique ID
-		// 3. End at the unique ID
+	if SameLog(a, b) {
+		// These are the same list of events, no fork has happened
 		return a, nil
 	}
 
@@ -437,8 +427,8 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			break
 		}
 
-		// If ids are the same, append and move on, haven't reached fork
-		if a[i].Time == b[j].Time {
+		// If txs are the same, append and move on, haven't reached fork
+		if a[i] == b[j] {
 			if a[i].Kind == TxDelete {
 				deleted[a[i].UUID] = i
 			}
@@ -466,7 +456,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		}
 
 		// Compare the txs
-		if a[i].Time < b[j].Time {
+		if a[i].before(b[j]) {
 			c = append(c, a[i])
 			i++
 		} else {
@@ -494,6 +484,38 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	return c, nil
 }
 
+// SameLog checks if two logs are exactly the same list of events
+func SameLog(a, b []Tx) bool {
+	if len(a) != len(b) {
+		return false
+	}
+
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
+// before gives a total order to txs: by time, then by uuid as a fallback
+// (and then by what the change is, so that no two different txs are equal)
+func (t Tx) before(o Tx) bool {
+	switch {
+	case t.Time != o.Time:
+		return t.Time < o.Time
+	case t.UUID != o.UUID:
+		return t.UUID < o.UUID
+	case t.Kind != o.Kind:
+		return t.Kind < o.Kind
+	case t.Key != o.Key:
+		return t.Key < o.Key
+	default:
+		return t.Value < o.Value
+	}
+}
+
 // applyTx applies the src transactions to the destination snapshot
 func applyTx(dst map[string]Entry, tx Tx) error {
 	switch tx.Kind {
-- 
2.43.0


From 82c9c4bdb13d28cd50f7737b0fc4369782d9198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 07/65] fix: merge attributes conflicts and resolutions to the
 right deletion

The deletion of an entry before the end of the shared history was remembered
by its index in one of the inputs, and resolutions were matched by time only.
---
 txlogs/txlogs.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index c0eefde..f7eb7ec 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -373,7 +373,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 			// Before we mark ourselves as deleted, make sure we aren't
 			// part of a resolution.
 			for _, res := range resolved {
-				if res.Initial.Time != c[last].Time {
+				if res.Kind != ConflictKindDeleteSet || res.Initial != c[last] {
 					continue
 				}
 
@@ -394,7 +394,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 		deleteTx := c[ind]
 		// Check if its resolved
 		for _, res := range resolved {
-			if res.Initial.Time == deleteTx.Time {
+			if res.Kind == ConflictKindDeleteSet && res.Initial == deleteTx {
 				// Assert for the impossible, and delete ourselves off the end
 				// This is impossible because if it was resolved in the other
 				// way it should have been handled above.
@@ -408,7 +408,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// Make sure we haven't noted this one already first
 		for _, con := range conflicts {
-			if con.Initial.Time == deleteTx.Time {
+			if con.Kind == ConflictKindDeleteSet && con.Initial == deleteTx {
 				return
 			}
 		}
@@ -429,13 +429,10 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 
 		// If txs are the same, append and move on, haven't reached fork
 		if a[i] == b[j] {
-			if a[i].Kind == TxDelete {
-				deleted[a[i].UUID] = i
-			}
-
 			c = append(c, a[i])
 			i++
 			j++
+			checkConflict()
 			continue
 		}
 
-- 
2.43.0


From 439fbc7ea31db2b439f1d46aeff36ee9a70020dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 08/65] fix: merge never takes the same transaction twice

---
 txlogs/txlogs.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/txlogs/txlogs.go b/txlogs/txlogs.go
index f7eb7ec..472c185 100644
--- a/txlogs/txlogs.go
+++ b/txlogs/txlogs.go
@@ -350,6 +350,7 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	}
 
 	c = make([]Tx, 0, most)
+	seen := make(map[Tx]struct{}, most)
 	deleted := make(map[string]int)
 
 	// CheckConflict checks the last thing that was appended to c to see
@@ -361,6 +362,16 @@ func Merge(a, b []Tx, resolved []Conflict) (c []Tx, conflicts []Conflict) {
 	// or by deleting the sets that conflicted with it off of c
 	checkConflict := func() {
 		last := len(c) - 1
+
+		// When clocks disagree and a past conflict resolution removed events
+		// from one of the logs, a shared event is not necessarily reached in
+		// both logs at once. It still happened only once.
+		if _, ok := seen[c[last]]; ok {
+			c = c[:last]
+			return
+		}
+		seen[c[last]] = struct{}{}
+
 		ind, wasDeleted := deleted[c[last].UUID]
 		// If we haven't been marked as deleted, and we're a delete event
 		// mark it as such. If we haven't been marked as deleted before
-- 
2.43.0


From 02e3b4ed3454c8e644ac3c10b5bb81ec4ffb9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 09/65] fix: sync conflict prompt ends once it has been
 answered

---
 merging.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/merging.go b/merging.go
index c46e738..8b3b9bd 100644
--- a/merging.go
+++ b/merging.go
@@ -213,9 +213,11 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 	}
 
 	var c []txlogs.Tx
-	var conflicts []txlogs.Conflict
+	var conflicts, resolved []txlogs.Conflict
 	for {
-		c, conflicts = txlogs.Merge(local, remote, conflicts)
+		// Resolving conflicts may uncover others, keep everything that's been
+		// decided so far
+		c, conflicts = txlogs.Merge(local, remote, resolved)
 
 		if len(conflicts) == 0 {
 			break
@@ -244,7 +246,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					time.Unix(0, c.Conflict.Time).Format(time.RFC3339),
 				)
 
-				switch c.Initial.Kind {
+				switch c.Conflict.Kind {
 				case txlogs.TxSetKey:
 					infoColor.Printf("a set happened:\n%s = %s\n",
 						c.Conflict.Key,
@@ -256,6 +258,7 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					)
 				}
 
+			Prompt:
 				for {
 					line, err := u.prompt(promptColor.Sprint("[R]estore item? [D]elete item? (r/R/d/D): "))
 					if err != nil {
@@ -265,14 +268,16 @@ func mergeLogs(u *uiContext, local []txlogs.Tx, remote []txlogs.Tx) ([]txlogs.Tx
 					switch line {
 					case "R", "r":
 						conflicts[i].DiscardInitial()
+						break Prompt
 					case "D", "d":
 						conflicts[i].DiscardConflict()
-					default:
-						continue
+						break Prompt
 					}
 				}
 			}
 		}
+
+		resolved = append(resolved, conflicts...)
 	}
 
 	return c, nil
-- 
2.43.0


From 325f729a5a4daf74e7373431b5a6d85ed94d7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 10/65] fix: rekeyall encrypts the new master key for the
 users, not the old one

---
 commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index b5b025b..6281b6e 100644
--- a/commands.go
+++ b/commands.go
@@ -259,7 +259,7 @@ func (u *uiContext) rekeyAll() error {
 			u.salt = salt
 		}
 
-		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
+		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, master)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4328b472732986d0ca4730d93488a88727a40847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 11/65] fix: passwd and rekey change the named user, and refuse
 unknown ones

---
 commands.go | 51 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/commands.go b/commands.go
index 6281b6e..a7512e5 100644
--- a/commands.go
+++ b/commands.go
@@ -49,6 +49,11 @@ const (
 )
 
 func (u *uiContext) passwd(user string) error {
+	uuid, isCurrentUser, err := u.findKeyUser(user)
+	if err != nil || (len(u.master) != 0 && len(uuid) == 0) {
+		return err
+	}
+
 	pass, err := u.getPassword()
 	if err != nil {
 		return err
@@ -65,7 +70,7 @@ func (u *uiContext) passwd(user string) error {
 	}
 
 	// Update our "fast-path" credentials if we're re-doing the current user
-	if len(u.user) == 0 || u.user == user {
+	if isCurrentUser {
 		u.pass = pass
 		u.key = key
 		u.salt = salt
@@ -73,11 +78,6 @@ func (u *uiContext) passwd(user string) error {
 
 	// We have to update the user entry if it's a multi-user file
 	if len(u.master) != 0 {
-		uuid, _, err := u.store.MustFindUser(u.user)
-		if err != nil {
-			return err
-		}
-
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
@@ -92,6 +92,27 @@ func (u *uiContext) passwd(user string) error {
 	return nil
 }
 
+// findKeyUser finds the user whose key a command is about: the given user, or
+// the current one if it's empty. In a single-user file there is only the
+// current user and he has no entry. If the user could not be found an error
+// message is printed and uuid is empty.
+func (u *uiContext) findKeyUser(user string) (uuid string, isCurrentUser bool, err error) {
+	if len(u.master) == 0 {
+		return "", true, nil
+	}
+
+	if len(user) == 0 {
+		user = u.user
+	}
+
+	uuid, _, err = u.store.FindUser(user)
+	if err == nil && len(uuid) == 0 {
+		errColor.Printf("user %q not found\n", user)
+	}
+
+	return uuid, user == u.user, err
+}
+
 func (u *uiContext) adduser(user string) error {
 	uuid, err := u.store.NewUser(user)
 	if err == blobformat.ErrNameNotUnique {
@@ -143,11 +164,13 @@ func (u *uiContext) adduser(user string) error {
 }
 
 func (u *uiContext) rekey(user string) error {
-	isCurrentUser := len(user) == 0
+	uuid, isCurrentUser, err := u.findKeyUser(user)
+	if err != nil || (len(u.master) != 0 && len(uuid) == 0) {
+		return err
+	}
 
 	var pass string
-	var err error
-	if isCurrentUser {
+	if len(user) == 0 {
 		pass = u.pass
 	} else {
 		infoColor.Println("in order to rekey this user we need a new password")
@@ -176,16 +199,6 @@ func (u *uiContext) rekey(user string) error {
 
 	if len(u.master) != 0 {
 		// If we're multi-user we need to update the corresponding user entry
-		username := u.user
-		if len(user) != 0 {
-			username = user
-		}
-
-		uuid, _, err := u.store.MustFindUser(username)
-		if err != nil {
-			return err
-		}
-
 		mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 		if err != nil {
 			return err
-- 
2.43.0


From 4a88108bababbbf22985c7a84c24248b2f56cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 12/65] fix: adduser refuses an empty password, which could
 never be used to log in

---
 commands.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/commands.go b/commands.go
index a7512e5..45cbeb5 100644
--- a/commands.go
+++ b/commands.go
@@ -114,12 +114,13 @@ func (u *uiContext) findKeyUser(user string) (uuid string, isCurrentUser bool, e
 }
 
 func (u *uiContext) adduser(user string) error {
-	uuid, err := u.store.NewUser(user)
-	if err == blobformat.ErrNameNotUnique {
+	uuid, _, err := u.store.FindUser(user)
+	if err != nil {
+		return err
+	}
+	if len(uuid) != 0 {
 		errColor.Println("user already exists")
 		return nil
-	} else if err != nil {
-		return err
 	}
 
 	var key, salt []byte
@@ -139,12 +140,22 @@ func (u *uiContext) adduser(user string) error {
 			return err
 		}
 
+		if len(pass) == 0 {
+			errColor.Println("refusing to use empty password")
+			return nil
+		}
+
 		key, salt, err = crypt.DeriveKey(cryptVersion, []byte(pass))
 		if err != nil {
 			return err
 		}
 	}
 
+	uuid, err = u.store.NewUser(user)
+	if err != nil {
+		return err
+	}
+
 	mkey, iv, err := crypt.EncryptMasterKey(cryptVersion, key, u.master)
 	if err != nil {
 		return err
-- 
2.43.0


From fcc519594c4997e0f1c077d59955f47a7c03389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 13/65] fix: a name that merely contains user/ is not a
 username

---
 blobformat/blobs.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index c821741..dd94872 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -494,12 +494,11 @@ func IsUserEntry(name string) bool {
 // SplitUsername returns a username from an entry name, returns empty string
 // if this was not a proper user entryname
 func SplitUsername(entryname string) string {
-	index := strings.Index(entryname, userPrefix)
-	if index < 0 {
+	if !IsUserEntry(entryname) {
 		return ""
 	}
 
-	return entryname[index+len(userPrefix):]
+	return entryname[len(userPrefix):]
 }
 
 // touchUpdated refreshes the updated timestamp for the given item
-- 
2.43.0


From ad0edabd916c69ebbd11f658b9b22a59c3026e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 14/65] fix: deleting the last user forgets who was logged in

---
 commands.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commands.go b/commands.go
index 45cbeb5..dda88ff 100644
--- a/commands.go
+++ b/commands.go
@@ -613,6 +613,7 @@ func (u *uiContext) deleteEntry(name string) error {
 		// key and IVM to ensure that we are not encrypted as a multi-user file
 		u.master = nil
 		u.ivm = nil
+		u.user = ""
 	}
 
 	u.store.Delete(uuid)
-- 
2.43.0


From 3ef753375b1d34d272fcb4357e240a919844dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 15/65] fix: a multi-user file can be saved whatever entries
 have been named user/...

An entry that was added, imported or renamed to user/<name> has no keys, and
saving (as well as pushing) failed because of it, losing the session. The same
happened once the last user had been renamed.
---
 uicontext.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/uicontext.go b/uicontext.go
index fee873b..988326c 100644
--- a/uicontext.go
+++ b/uicontext.go
@@ -37,11 +37,12 @@ type uiContext struct {
 }
 
 func (u *uiContext) makeParams() (*crypt.Params, error) {
+	singleUser := &crypt.Params{
+		Keys:  [][]byte{u.key},
+		Salts: [][]byte{u.salt},
+	}
 	if len(u.master) == 0 {
-		return &crypt.Params{
-			Keys:  [][]byte{u.key},
-			Salts: [][]byte{u.salt},
-		}, nil
+		return singleUser, nil
 	}
 
 	var p crypt.Params
@@ -54,10 +55,6 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 	index := 0
 	for uuid, name := range users {
 		name = blobformat.SplitUsername(name)
-		if len(name) == 0 {
-			return nil, errors.New("params name was not a username")
-		}
-
 		username := sha256.Sum256([]byte(name))
 
 		blob, err := u.store.MustFind(uuid)
@@ -65,6 +62,12 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 			return nil, errors.New("could not find user we just found")
 		}
 
+		// Any entry can be given a user's name, but without a name to log in
+		// with and keys to decrypt the file with it's not a user
+		if len(name) == 0 || len(blob[blobformat.KeyMKey]) == 0 {
+			continue
+		}
+
 		salt, err := hex.DecodeString(blob[blobformat.KeySalt])
 		if err != nil {
 			return nil, errors.New("user entry had bad salt")
@@ -92,6 +95,11 @@ func (u *uiContext) makeParams() (*crypt.Params, error) {
 		index++
 	}
 
+	if p.NUsers == 0 {
+		// There's no users left, the current key is all that can open the file
+		return singleUser, nil
+	}
+
 	p.IVM = u.ivm
 	p.Master = u.master
 
-- 
2.43.0


From e342e07580c2b193d5e174f3b7a9821eecf078ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 16/65] fix: the current user is still known after renaming its
 entry

---
 commands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/commands.go b/commands.go
index dda88ff..9e867ec 100644
--- a/commands.go
+++ b/commands.go
@@ -564,6 +564,12 @@ func (u *uiContext) rename(src, dst string) error {
 		return err
 	}
 
+	if username := blobformat.SplitUsername(dst); len(username) > 0 &&
+		len(u.user) > 0 && blobformat.SplitUsername(src) == u.user {
+		// We renamed ourselves
+		u.user = username
+	}
+
 	infoColor.Printf("moved %q => %q\n", src, dst)
 	return nil
 }
-- 
2.43.0


From 41dadeb952a39bd756e474024408147382d72164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 17/65] fix: removing a label removes that label, not all but
 one of the others

---
 blobformat/blobs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index dd94872..1656a7d 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -441,17 +441,18 @@ func (b Blobs) RemoveLabel(uuid string, index int) (err error) {
 	}
 
 	labels := strings.Split(entry[KeyLabels], ",")
-	if index >= len(labels) {
+	if index < 0 || index >= len(labels) {
 		return errors.New("index out of range")
 	}
 
 	if len(labels) == 1 {
+		b.touchUpdated(uuid)
 		b.DB.DeleteKey(uuid, KeyLabels)
 		return nil
 	}
 
 	copy(labels[index:], labels[index+1:])
-	labels = labels[len(labels)-1:]
+	labels = labels[:len(labels)-1]
 
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyLabels, strings.Join(labels, ","))
-- 
2.43.0


From e30d6aae0dfba30039b3065b8acfe0daa3c14bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 18/65] fix: label search counts every wanted label once

---
 blobformat/blobs.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 1656a7d..27d00a8 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -156,12 +156,8 @@ func (b Blobs) SearchLabels(labels ...string) (entries SearchResults, err error)
 		found := 0
 		for _, want := range labels {
 			for _, have := range haveLabels {
-				if have != want {
-					continue
-				}
-
-				found++
-				if found == len(labels) {
+				if have == want {
+					found++
 					break
 				}
 			}
-- 
2.43.0


From 684c8f68850e7443dec13dab6804d716a7d729b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 19/65] fix: RenameDuplicates does not give two duplicates the
 same new name

---
 blobformat/blobs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 27d00a8..001368f 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -69,6 +69,7 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 			_, ok = names[name]
 		}
 
+		names[name] = struct{}{}
 		renames[oldName] = name
 
 		b.touchUpdated(uuid)
-- 
2.43.0


From 509d41acd4d0e4465ba452946c2f5d2dc8c66862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 20/65] fix: a user's key material cannot be deleted with rmk
 or edit

---
 blobformat/blobs.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 001368f..d567028 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -367,10 +367,12 @@ func (b Blobs) Set(uuid, key, value string) error {
 }
 
 // DeleteKey from an entry, follows the rules of Set() for protected keys.
+// The two factor key only needs a special setter, it may be deleted.
 func (b Blobs) DeleteKey(uuid, key string) error {
-	switch key {
-	case KeyName, KeyUpdated:
-		return keyNotAllowed(key)
+	for _, p := range protectedKeys {
+		if strings.EqualFold(key, p) && p != KeyTwoFactor {
+			return keyNotAllowed(key)
+		}
 	}
 
 	b.touchUpdated(uuid)
-- 
2.43.0


From 82173f7fa577943544e32486897d04c0f41d1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 21/65] fix: set and edit do not claim to have set a key that
 may not be set

---
 commands.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/commands.go b/commands.go
index 9e867ec..8ceff90 100644
--- a/commands.go
+++ b/commands.go
@@ -825,7 +825,7 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
 	case blobformat.KeyTwoFactor:
 		if err := u.store.SetTwofactor(uuid, value); err != nil {
 			errColor.Println(err)
@@ -853,7 +853,14 @@ func (u *uiContext) set(search, key, value string) error {
 			}
 		}
 
-		u.store.Set(uuid, key, value)
+		err = u.store.Set(uuid, key, value)
+	}
+
+	if blobformat.IsKeyNotAllowed(err) {
+		errColor.Println(err)
+		return nil
+	} else if err != nil {
+		return err
 	}
 
 	infoColor.Printf("set %s = %s\n", key, value)
@@ -963,11 +970,21 @@ func (u *uiContext) edit(search, key string) error {
 	}
 
 	if len(newValue) == 0 {
-		infoColor.Println("erasing value")
-		u.store.DeleteKey(uuid, key)
+		err = u.store.DeleteKey(uuid, key)
 	} else {
+		err = u.store.Set(uuid, key, string(newValue))
+	}
+
+	switch {
+	case blobformat.IsKeyNotAllowed(err):
+		errColor.Println(err)
+		return nil
+	case err != nil:
+		return err
+	case len(newValue) == 0:
+		infoColor.Println("erasing value")
+	default:
 		infoColor.Printf("set %s\n", key)
-		u.store.Set(uuid, key, string(newValue))
 	}
 
 	return nil
-- 
2.43.0


From 02be571ed6d9ce41fd7a815dced945570d1fafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 22/65] fix: the temporary file of edit is wiped however the
 editor ends

It was removed without being wiped when no editor could be run, which also
ended the program and lost the session, and whatever a failing editor had
written beyond the old value was left unwiped.
---
 commands.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/commands.go b/commands.go
index 8ceff90..e3f3bc6 100644
--- a/commands.go
+++ b/commands.go
@@ -900,8 +900,7 @@ func (u *uiContext) edit(search, key string) error {
 	// Close and delete the file at the end
 	defer func() {
 		tmp.Close()
-		err = os.Remove(fname)
-		if err != nil {
+		if err := os.Remove(fname); err != nil {
 			errColor.Println("failed to remove tmp file:", fname)
 		}
 	}()
@@ -919,16 +918,20 @@ func (u *uiContext) edit(search, key string) error {
 	// data that was inside it. So we write max(len(oldValue),len(newValue))
 	// bytes to the file before deletion.
 	defer func() {
+		// The editor may have left more behind than we have read
+		if info, err := tmp.Stat(); err == nil && info.Size() > int64(maxLen) {
+			maxLen = int(info.Size())
+		}
 		if maxLen == 0 {
 			return
 		}
 
-		if _, err = tmp.Seek(0, os.SEEK_SET); err != nil {
+		if _, err := tmp.Seek(0, os.SEEK_SET); err != nil {
 			errColor.Println("failed to seek in file:", err)
 			return
 		}
 
-		if _, err = tmp.Write(make([]byte, maxLen)); err != nil {
+		if _, err := tmp.Write(make([]byte, maxLen)); err != nil {
 			errColor.Println("failed to zero the tmp file:", err)
 		}
 	}()
@@ -939,14 +942,7 @@ func (u *uiContext) edit(search, key string) error {
 	}
 
 	// Run the editor for the OS and wait until it exits
-	editExit := 0
-	if err = osutil.RunEditor(fname); err != nil {
-		e, ok := err.(*exec.ExitError)
-		if !ok {
-			return err
-		}
-		editExit = e.ExitCode()
-	}
+	editErr := osutil.RunEditor(fname)
 
 	tmp, err = os.OpenFile(fname, os.O_RDWR, 0600)
 	if err != nil {
@@ -954,6 +950,16 @@ func (u *uiContext) edit(search, key string) error {
 		return nil
 	}
 
+	editExit := 0
+	if editErr != nil {
+		e, ok := editErr.(*exec.ExitError)
+		if !ok {
+			errColor.Println("failed to run editor, not saving value:", editErr)
+			return nil
+		}
+		editExit = e.ExitCode()
+	}
+
 	if editExit != 0 {
 		errColor.Printf("editor exit non-zero (%d), not saving value\n", editExit)
 		return nil
-- 
2.43.0


From 55776ea5282cad7c3e59e73f4ea27cd6313d993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 23/65] fix: edit does not offer a truncated value for editing

---
 commands.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/commands.go b/commands.go
index e3f3bc6..611aa49 100644
--- a/commands.go
+++ b/commands.go
@@ -905,13 +905,7 @@ func (u *uiContext) edit(search, key string) error {
 		}
 	}()
 
-	// Write the old value
 	oldValue := blob[key]
-	if len(oldValue) != 0 {
-		if _, err = io.WriteString(tmp, oldValue); err != nil {
-			errColor.Println("failed to write to tmp file")
-		}
-	}
 	maxLen := len(oldValue)
 
 	// At this point, we want to ensure that we wipe the file of any
@@ -936,6 +930,14 @@ func (u *uiContext) edit(search, key string) error {
 		}
 	}()
 
+	// Write the old value
+	if len(oldValue) != 0 {
+		if _, err = io.WriteString(tmp, oldValue); err != nil {
+			errColor.Println("failed to write to tmp file")
+			return nil
+		}
+	}
+
 	if err = tmp.Close(); err != nil {
 		errColor.Println("failed to close file:", err)
 		return nil
-- 
2.43.0


From 31cccff1eb94effc8ec34aa82dc74e991ad8cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 24/65] fix: password generation does not crash on unusual
 lengths

Every length that is a multiple of 256 divided by zero, and huge lengths or
counts crashed.
---
 passwd_gen.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/passwd_gen.go b/passwd_gen.go
index 2936382..d96b28f 100644
--- a/passwd_gen.go
+++ b/passwd_gen.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"crypto/rand"
+	"encoding/binary"
 	"errors"
 )
 
@@ -13,13 +14,24 @@ var (
 	alphabetExtraSymbols = `()_+-=<>,.{}[]\|?/~"\'` + "`"
 )
 
+// maxPasswordLen is far beyond what is useful, it keeps a typo from using up
+// the memory
+const maxPasswordLen = 1 << 16
+
 var (
 	errPasswordImpossible = errors.New("password cannot be generated")
 )
 
 func genPassword(length, upper, lower, numbers, basic, extra int) (string, error) {
+	if length > maxPasswordLen {
+		return "", errPasswordImpossible
+	}
+
 	needLen := 0
 	for _, i := range []int{upper, lower, numbers, basic, extra} {
+		if i > length-needLen {
+			return "", errPasswordImpossible
+		}
 		if i > 0 {
 			needLen += i
 		}
@@ -36,7 +48,7 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 	// eOffset is the entropy offset
 	eOffset := 0
 	password := make([]byte, length)
-	entropy := make([]byte, needLen+(randomPicks*2)+length)
+	entropy := make([]byte, needLen+(randomPicks*2)+length*4)
 	n, err := rand.Read(entropy)
 	if err != nil {
 		return "", err
@@ -92,9 +104,9 @@ func genPassword(length, upper, lower, numbers, basic, extra int) (string, error
 
 	for i := 0; i < length; i++ {
 		// swap i with
-		swap := entropy[eOffset] % byte(length)
+		swap := binary.BigEndian.Uint32(entropy[eOffset:]) % uint32(length)
 		password[i], password[swap] = password[swap], password[i]
-		eOffset++
+		eOffset += 4
 	}
 
 	return string(password), nil
-- 
2.43.0


From 8a14c547c396a4485a903c34f71cdd92eb019335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 25/65] fix: there is nothing to accept when no password could
 be generated

---
 uihelpers.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/uihelpers.go b/uihelpers.go
index 10afb1b..af8b980 100644
--- a/uihelpers.go
+++ b/uihelpers.go
@@ -240,10 +240,11 @@ func (u *uiContext) getPassword() (string, error) {
 
 	var err error
 	var choice, password string
-	regen := true
+	regen, possible := true, false
 	for {
 		if regen {
 			password, err = genPassword(length, upper, lower, number, basic, extra)
+			possible = err == nil
 			if err == errPasswordImpossible {
 				errColor.Println("Could not generate password with these requirements")
 			} else if err != nil {
@@ -251,7 +252,7 @@ func (u *uiContext) getPassword() (string, error) {
 			}
 		}
 
-		if err == nil {
+		if possible {
 			fmt.Fprintln(u.out, promptColor.Sprint("password:"), passColor.Sprint(password))
 		}
 
@@ -264,8 +265,12 @@ func (u *uiContext) getPassword() (string, error) {
 		splits := strings.Fields(choice)
 
 		switch {
+		case len(splits) == 0 && choice != "":
+			// Nothing but spaces
 		case choice == "":
 			// Just regen
+		case !possible && (choice == "y" || splits[0] == "c"):
+			errColor.Println("there is no password to use")
 		case choice == "y":
 			return password, nil
 		case choice == "m":
-- 
2.43.0


From 130c14bd57990a3d6f529138111b91195933b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 26/65] fix: export writes the entries, not an empty snapshot

---
 export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export.go b/export.go
index 385f189..a41144a 100644
--- a/export.go
+++ b/export.go
@@ -11,6 +11,10 @@ import (
 )
 
 func export(u *uiContext) error {
+	if err := u.store.UpdateSnapshot(); err != nil {
+		return err
+	}
+
 	var entries []string
 	keysSet := make(map[string]struct{})
 
-- 
2.43.0


From fd7233a5a86a646ac45dd41b3a351b5e8b763ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 27/65] fix: the exported plain text is not readable by
 everybody

---
 export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.go b/export.go
index a41144a..c0b6a3a 100644
--- a/export.go
+++ b/export.go
@@ -33,7 +33,8 @@ func export(u *uiContext) error {
 		return errors.New("only supported format for export is csv")
 	}
 
-	f, err := os.Create(flagExportFilename)
+	// Everything in here is in plain text, keep it private
+	f, err := os.OpenFile(flagExportFilename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return fmt.Errorf("failed to create file (%s): %w", flagExportFilename, err)
 	}
-- 
2.43.0


From 132f91f75567204c7ade09fc48eebc7772ce6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 28/65] fix: the header of the lastpass export is not imported
 as an entry

---
 import.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/import.go b/import.go
index ef60100..f9cf441 100644
--- a/import.go
+++ b/import.go
@@ -51,6 +51,9 @@ func importLastpass(u *uiContext) error {
 			if strings.Join(record, ",") != "url,username,password,extra,name,grouping,fav" {
 				return errors.New("lastpass csv format not recognized")
 			}
+
+			// It's only the header
+			continue
 		}
 
 		// Fields:
-- 
2.43.0


From 5d3325c183face682d7cd9da163f38149128c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 29/65] fix: the exit status tells about failures again

Clearing the clipboard and closing the terminal overwrote the error.
---
 main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 1bf94b4..658e2d4 100644
--- a/main.go
+++ b/main.go
@@ -123,13 +123,15 @@ func main() {
 
 Exit:
 	if !flagNoClearClip {
-		if err = clipboard.WriteAll(""); err != nil {
+		if clipErr := clipboard.WriteAll(""); clipErr != nil {
 			fmt.Println("failed to clear the clipboard")
 		}
 	}
 
-	if err = ctx.in.Close(); err != nil {
-		fmt.Println("failed to close terminal properly:", err)
+	if ctx.in != nil {
+		if closeErr := ctx.in.Close(); closeErr != nil {
+			fmt.Println("failed to close terminal properly:", closeErr)
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From 72f937f2810bb558df6fb271794e86ba10680617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 30/65] fix: decrypting a damaged file or with wrong
 credentials does not crash

Anything too short, or with a bad number of users, went out of bounds. With
the wrong key what looks like padding can be of any size, so the rest is not
necessarily made of full blocks, nor long enough for the checksum.
---
 crypt/crypto.go    |  6 +++++-
 crypt/crypto_v1.go | 29 +++++++++++++++++++++++++++++
 pkcs7/pad.go       |  5 +++++
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/crypt/crypto.go b/crypt/crypto.go
index b9d11b3..517dfaa 100644
--- a/crypt/crypto.go
+++ b/crypt/crypto.go
@@ -183,7 +183,7 @@ func NewMasterKey(version int) (master, iv []byte, err error) {
 // will be returned. If the user was specified but was not found in the file
 // then ErrUnknownUser is returned.
 func Decrypt(user, passphrase, key, salt, encrypted []byte) (version int, p Params, pt []byte, err error) {
-	if bytes.Equal(v0Header, encrypted[:len(v0Header)]) {
+	if bytes.HasPrefix(encrypted, v0Header) {
 		pt, key, salt, err := decryptV0(passphrase, encrypted)
 		if err != nil {
 			return 0, p, nil, err
@@ -270,6 +270,10 @@ func getVersion(version int) (c config, err error) {
 
 // verifyMagic ensures the magic string is correct and decodes version
 func verifyMagic(in []byte) (version int, err error) {
+	if len(in) < magicLen {
+		return 0, ErrInvalidFileFormat
+	}
+
 	magicString := in[:magicLen/2]
 	in = in[magicLen/2:]
 	versionString := in[:magicLen/4]
diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index 1ccda10..f9f7397 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -214,7 +214,16 @@ func decryptV1(c config, user, passphrase, key, salt, encrypted []byte) (p Param
 		return p, nil, ErrInvalidFileFormat
 	}
 
+	// Everything up to the payload has to be there
 	nUsers = int(i)
+	headerSize := magicLen + c.saltSize + c.blockSize
+	if nUsers != 0 {
+		headerSize = magicLen + nUsers*(sha256.Size+c.saltSize+c.blockSize+c.keySize) + c.blockSize
+	}
+	if nUsers < 0 || len(encrypted) < headerSize {
+		return p, nil, ErrInvalidFileFormat
+	}
+
 	if nUsers != 0 && len(user) == 0 {
 		return p, nil, ErrNeedUser
 	}
@@ -266,6 +275,12 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		// With the wrong key the padding that was discarded last could have
+		// been anything
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -276,6 +291,10 @@ func decryptV1Single(c config, passphrase, key, salt, encrypted []byte) (p Param
 		}
 	}
 
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	origShaSum := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
@@ -418,6 +437,12 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		cbc := cipher.NewCBCDecrypter(c, iv[ivOffset-cipherBlockSize:ivOffset])
 		ivOffset -= cipherBlockSize
 
+		// With the wrong key the padding that was discarded last could have
+		// been anything
+		if len(ciphertext)%cipherBlockSize != 0 {
+			return p, nil, ErrWrongPassphrase
+		}
+
 		// decrypt & discard padding
 		cbc.CryptBlocks(ciphertext, ciphertext)
 		ciphertext, err = pkcs7.Unpad(ciphertext)
@@ -429,6 +454,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	}
 
 	userSize := sha256.Size + c.saltSize + c.blockSize + c.keySize
+	if len(ciphertext) < sha512.Size {
+		return p, nil, ErrWrongPassphrase
+	}
+
 	oldHash := ciphertext[:sha512.Size]
 	plaintext = ciphertext[sha512.Size:]
 
diff --git a/pkcs7/pad.go b/pkcs7/pad.go
index cba5a65..83fdd36 100644
--- a/pkcs7/pad.go
+++ b/pkcs7/pad.go
@@ -63,6 +63,11 @@ func Unpad(b []byte) ([]byte, error) {
 
 	padBytes := b[len(b)-1]
 
+	if padBytes == 0 {
+		// There's always at least one byte of padding
+		return nil, errPaddingInvalid
+	}
+
 	if int(padBytes) > len(b) {
 		return nil, errPaddingAmountImpossible
 	}
-- 
2.43.0


From 0d0d85602d5fa3f3ec42c9cf5b48ad466fc5a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 31/65] fix: an unknown user is not treated as the first one

The first user's salt, iv and master key were used, and the checksum was
computed beyond the end of short files, which crashed.
---
 crypt/crypto_v1.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crypt/crypto_v1.go b/crypt/crypto_v1.go
index f9f7397..2a8ba36 100644
--- a/crypt/crypto_v1.go
+++ b/crypt/crypto_v1.go
@@ -360,11 +360,10 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 		// Here we could return ErrUnknownUser, but this is bad
 		// for security, lets just create some 0 bytes for the headers etc
 		// and let the cryptography fail.
-		p.Keys = append(p.Keys, nil)
 		p.Salts = append(p.Salts, make([]byte, c.saltSize))
 		p.IVs = append(p.IVs, make([]byte, c.blockSize))
 		p.MKeys = append(p.MKeys, make([]byte, c.keySize))
-		p.User = len(p.Keys) - 1
+		p.User = nUsers
 		p.NUsers++
 
 		//return p, nil, ErrUnknownUser
@@ -462,7 +461,7 @@ func decryptV1Multi(c config, nUsers int, user, passphrase, key, salt, encrypted
 	plaintext = ciphertext[sha512.Size:]
 
 	newHash := sha512.New()
-	_, _ = newHash.Write(encrypted[:magicLen+(userSize*p.NUsers)+c.blockSize])
+	_, _ = newHash.Write(encrypted[:magicLen+(userSize*nUsers)+c.blockSize])
 	_, _ = newHash.Write(plaintext)
 	shaSum := newHash.Sum(nil)
 
-- 
2.43.0


From 889c332475d3773d53dbd18068ae7b44ebdf61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 32/65] fix: a failed or interrupted save does not destroy the
 file

The only copy was truncated before the new contents were written.
---
 main.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 658e2d4..152993a 100644
--- a/main.go
+++ b/main.go
@@ -271,7 +271,46 @@ func (u *uiContext) saveBlob() error {
 		return err
 	}
 
-	return ioutil.WriteFile(flagFile, data, 0600)
+	return writeFile(flagFile, data)
+}
+
+// writeFile replaces the contents of a file such that at any moment, whatever
+// happens, either the old or the new contents can be read from it.
+func writeFile(filename string, data []byte) (err error) {
+	mode := os.FileMode(0600)
+	if path, err := filepath.EvalSymlinks(filename); err == nil {
+		// Replace what the link points to, not the link
+		filename = path
+	}
+	if info, err := os.Stat(filename); err == nil {
+		mode = info.Mode().Perm()
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(filename), "."+filepath.Base(filename)+".*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	if _, err = tmp.Write(data); err != nil {
+		return err
+	}
+	if err = tmp.Chmod(mode); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmp.Name(), filename)
 }
 
 func shortPath(filename string) string {
-- 
2.43.0


From dafb37ac9febde6e49343f6545ca549bde423fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 33/65] fix: a failed or interrupted push does not destroy the
 remote file

---
 sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 706fd9b..780ce03 100644
--- a/sync.go
+++ b/sync.go
@@ -297,7 +297,7 @@ func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err
 		hostentry, err = sshPush(u, entry, payload)
 	case syncFile:
 		path := filepath.FromSlash(uri.Path)
-		err = ioutil.WriteFile(path, payload, 0600)
+		err = writeFile(path, payload)
 	}
 
 	return hostentry, err
-- 
2.43.0


From e038a1199b09a20c46d7023bfe2f283e1253daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 34/65] fix: sync compares whole logs and copes with empty ones

Logs that only agree in their length and the times of their ends are not the
same, and an empty one crashed.
---
 merging.go | 12 ++++++++++--
 sync.go    |  4 +---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/merging.go b/merging.go
index 8b3b9bd..00c14d1 100644
--- a/merging.go
+++ b/merging.go
@@ -83,8 +83,8 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
 				// to see which credential set we should keep.
-				lastTimeLocal := m.Log[len(m.Log)-1].Time
-				lastTimeRemote := r.Log[len(r.Log)-1].Time
+				lastTimeLocal := lastTime(m.Log)
+				lastTimeRemote := lastTime(r.Log)
 
 				if lastTimeLocal < lastTimeRemote {
 					takeRemoteCreds = true
@@ -202,6 +202,14 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 	return m, nil
 }
 
+// lastTime is the time of the last event, 0 if there is none
+func lastTime(log []txlogs.Tx) int64 {
+	if len(log) == 0 {
+		return 0
+	}
+	return log[len(log)-1].Time
+}
+
 var syncNoCommonAncestryWarning = `WARNING: There is no common ancestry between
 the local and the remote file. What this probably means is that the wrong
 file is in the sync location, and proceeding would mean that both files become
diff --git a/sync.go b/sync.go
index 780ce03..f02262f 100644
--- a/sync.go
+++ b/sync.go
@@ -116,9 +116,7 @@ Syncs:
 			continue
 		}
 
-		if len(log) == len(u.store.DB.Log) &&
-			log[0].Time == u.store.DB.Log[0].Time &&
-			log[len(log)-1].Time == u.store.DB.Log[len(u.store.DB.Log)-1].Time {
+		if txlogs.SameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
 			syncs[i] = ""
 			continue
-- 
2.43.0


From 609ac9d666f89300e0e93956ac4323c7a171062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 35/65] fix: sync also pushes what another remote had to the
 remotes without changes

They had no changes compared to the local file, which is not to say they have
what was merged into it from elsewhere.
---
 sync.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index f02262f..b1fbe00 100644
--- a/sync.go
+++ b/sync.go
@@ -66,6 +66,7 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
+	unchanged := make(map[string]bool)
 	dupeCheck := make([][64]byte, 0, len(syncs))
 	blobs := make([]blobParts, 0, len(syncs))
 Syncs:
@@ -118,7 +119,7 @@ Syncs:
 
 		if txlogs.SameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
-			syncs[i] = ""
+			unchanged[uuid] = true
 			continue
 		}
 
@@ -130,6 +131,7 @@ Syncs:
 		})
 	}
 
+	oldLog := u.store.Log
 	out, err := mergeBlobs(u, blobs)
 	if err != nil {
 		errColor.Println("aborting sync, failed to merge logs:", err)
@@ -177,6 +179,10 @@ Syncs:
 			// to push here.
 			continue
 		}
+		if unchanged[uuid] && txlogs.SameLog(oldLog, u.store.Log) {
+			// It has everything already
+			continue
+		}
 
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
-- 
2.43.0


From 2e9ae10745fb92cf2f91fb60690e50525d0da571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 36/65] fix: a broken remote aborts the sync instead of the
 program

Exiting lost everything that was done in the session.
---
 sync.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index b1fbe00..9405fad 100644
--- a/sync.go
+++ b/sync.go
@@ -138,6 +138,13 @@ Syncs:
 		return nil
 	}
 
+	// Never let a broken remote get into the local file
+	merged := &txlogs.DB{Log: out.Log}
+	if err = merged.UpdateSnapshot(); err != nil {
+		errColor.Println("aborting sync, failed to rebuild snapshot, poisoned by sync:", err)
+		return nil
+	}
+
 	u.user, u.pass = out.User, out.Pass
 	u.key, u.salt = out.Key, out.Salt
 	u.master, u.ivm = out.Master, out.IVM
@@ -145,9 +152,7 @@ Syncs:
 	u.store.ResetSnapshot()
 	u.store.Log = out.Log
 	if err = u.store.UpdateSnapshot(); err != nil {
-		errColor.Println("failed to rebuild snapshot, poisoned by sync:", err)
-		errColor.Println("exiting to avoid corrupting local file")
-		os.Exit(1)
+		return err
 	}
 
 	if err = saveHosts(u.store.DB, hosts); err != nil {
-- 
2.43.0


From 23a4190f17e1d4c31c32445163b74496ea4fc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 37/65] fix: sync entries that are deleted or moved by the sync
 itself

The session was lost if the host of one was new, and its new location was
overwritten without ever having been looked at.
---
 sync.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 9405fad..dd76e4f 100644
--- a/sync.go
+++ b/sync.go
@@ -66,6 +66,7 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// From this point on we don't worry about keys not being present for
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
+	urls := make(map[string]string)
 	unchanged := make(map[string]bool)
 	dupeCheck := make([][64]byte, 0, len(syncs))
 	blobs := make([]blobParts, 0, len(syncs))
@@ -75,6 +76,7 @@ Syncs:
 		name, _ := entry[blobformat.KeyName]
 
 		infoColor.Println("pull:", name)
+		urls[uuid] = entry[blobformat.KeyURL]
 
 		ct, hostentry, err := pullBlob(u, uuid)
 
@@ -192,6 +194,13 @@ Syncs:
 		entry := u.store.Snapshot[uuid]
 		name, _ := entry[blobformat.KeyName]
 
+		if entry[blobformat.KeyURL] != urls[uuid] {
+			// The merge deleted or moved it. We don't know what's there now so
+			// don't overwrite it, the next sync will pull it first.
+			infoColor.Printf("skip: %s (url changed)\n", name)
+			continue
+		}
+
 		infoColor.Println("push:", name)
 
 		hostentry, err := pushBlob(u, uuid, ct)
@@ -213,7 +222,11 @@ Syncs:
 
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
-		entry := store.Snapshot[uuid]
+		entry, ok := store.Snapshot[uuid]
+		if !ok {
+			// The merge deleted it
+			continue
+		}
 		hosts := entry[blobformat.KeyKnownHosts]
 		if len(hosts) == 0 {
 			store.Set(uuid, blobformat.KeyKnownHosts, hostentry)
-- 
2.43.0


From bd4cfb97df7d398e56fbb32b44421a6790b906a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 38/65] fix: syncing an entry by name whose url is missing or
 bad does not crash

---
 sync.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index dd76e4f..baf0046 100644
--- a/sync.go
+++ b/sync.go
@@ -285,8 +285,10 @@ func collectSyncs(store blobformat.Blobs) ([]string, error) {
 // pullBlob tries to download a file from the given sync entry
 func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
-	// We know this parses because we parsed it once before
-	uri, _ := url.Parse(entry[blobformat.KeyURL])
+	uri, err := url.Parse(entry[blobformat.KeyURL])
+	if err != nil {
+		return nil, "", err
+	}
 
 	switch uri.Scheme {
 	case syncSCP:
@@ -300,6 +302,8 @@ func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error
 		if os.IsNotExist(err) {
 			return nil, "", errNotFound
 		}
+	default:
+		err = fmt.Errorf("unknown sync kind: %q", uri.Scheme)
 	}
 
 	if err != nil {
@@ -312,6 +316,7 @@ func pullBlob(u *uiContext, uuid string) (ct []byte, hostentry string, err error
 // pushBlob uploads a file to a given sync entry
 func pushBlob(u *uiContext, uuid string, payload []byte) (hostentry string, err error) {
 	entry := u.store.Snapshot[uuid]
+	// We know this parses because we have pulled from it
 	uri, _ := url.Parse(entry[blobformat.KeyURL])
 
 	switch uri.Scheme {
@@ -399,7 +404,7 @@ func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConf
 	user := uri.User.Username()
 	pass, _ := uri.User.Password()
 	secretKey := entry[blobformat.KeyPriv]
-	path = uri.Path[1:]
+	path = strings.TrimPrefix(uri.Path, "/")
 
 	if len(user) == 0 {
 		return "", "", nil, errors.New("url missing user")
-- 
2.43.0


From dac701d3522c7165c68d36980f7bbc1e073e18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 39/65] fix: merging several remotes compares credentials with
 what's been merged so far

The credentials may have been taken from an earlier remote already. The users
of the remote are those in its log, not those in the merged one, so that the
ones that have to be rekeyed are found.
---
 merging.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/merging.go b/merging.go
index 00c14d1..3c6ccb6 100644
--- a/merging.go
+++ b/merging.go
@@ -77,8 +77,8 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			return m, err
 		}
 
-		if len(u.master) == 0 && len(r.Params.Master) == 0 {
-			if !bytes.Equal(u.key, r.Params.Keys[r.Params.User]) {
+		if len(m.Master) == 0 && len(r.Params.Master) == 0 {
+			if !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
 				// Key has changed
 				// Either the salt has changed or the password has changed, either
 				// way we'll try to determine who has the latest updates in the log
@@ -96,7 +96,7 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 					}
 				}
 			}
-		} else if len(u.master) != len(r.Params.Master) {
+		} else if len(m.Master) != len(r.Params.Master) {
 			// There's been a single->multi or multi->single change
 			// We have to instantiate the merged blob and check user counts
 			db := &txlogs.DB{Log: merged}
@@ -106,25 +106,25 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 				return m, err
 			}
 
-			if len(users) == 0 && len(u.master) != 0 {
+			if len(users) == 0 && len(m.Master) != 0 {
 				// There's no users remaining in the merged DB, and the local
 				// file is multi, meaning that the remote wins the merge
 				// and we become a single-user file
 				infoColor.Println("local file converted to single-user file")
 				takeRemoteCreds = true
-			} else if len(users) != 0 && len(u.master) == 0 {
+			} else if len(users) != 0 && len(m.Master) == 0 {
 				// There's users remaining in the merged DB, and the local file
 				// is not multi, meaning that the remote wins the merge
 				// and we become a multi-user file.
 				infoColor.Println("local file converted to multi-user file")
 				takeRemoteCreds = true
 			}
-		} else if !bytes.Equal(u.master, r.Params.Master) {
+		} else if !bytes.Equal(m.Master, r.Params.Master) {
 			// There's been a master change in a multi multi
 
 			localStore := blobformat.Blobs{DB: &txlogs.DB{Log: m.Log}}
 			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
-			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			remoteStore := blobformat.Blobs{DB: &txlogs.DB{Log: r.Log}}
 			userUUID, localUser, err := localStore.FindUser(m.User)
 			if err != nil {
 				return m, err
-- 
2.43.0


From b84492c000d2a7394bbf9611266b0de1eeffe010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 40/65] fix: a negative file length from scp is an error, not a
 crash

---
 scpsync/scpsync.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 166f023..e1b555d 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -260,6 +260,8 @@ func readFile(stream io.ReadWriter) (file scpFile, err error) {
 	length, err := strconv.ParseInt(fields[1], 10, 32)
 	if err != nil {
 		return file, fmt.Errorf("failed to parse the length: %q (%w)", fields[1], err)
+	} else if length < 0 {
+		return file, fmt.Errorf("length is negative: %q", fields[1])
 	}
 
 	// Acknowledge we've received the initial header
-- 
2.43.0


From cb3c7d612b4ee25d971bff4b5e181ac1c27696d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 41/65] fix: a malformed line in knownhosts is an error, not a
 crash

---
 sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync.go b/sync.go
index baf0046..cf44eda 100644
--- a/sync.go
+++ b/sync.go
@@ -459,6 +459,10 @@ func (h *hostAsker) callback(hostname string, remote net.Addr, key ssh.PublicKey
 			continue
 		}
 
+		if len(vals) != 4 {
+			return errors.New("known host's line is malformed")
+		}
+
 		// Same host, double check key is same
 		if vals[2] != keyType {
 			return errors.New("known host's key type has changed, could be a mitm attack")
-- 
2.43.0


From 3f8e8fba9ea05e64fc0638c9ee1deb56a9245aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 42/65] fix: searching text that is not valid utf-8 does not
 crash

---
 fuzzy/fuzzy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index e58ab6f..7d2a8ca 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -28,7 +28,9 @@ Search:
 	for _, searchChar := range search {
 		for i, char := range s {
 			if searchChar == char || searchChar == unicode.ToLower(char) {
-				s = s[utf8.RuneLen(char)+i:]
+				// Invalid bytes are shorter than the rune they're read as
+				_, width := utf8.DecodeRuneInString(s[i:])
+				s = s[i+width:]
 				continue Search
 			}
 		}
-- 
2.43.0


From d01288409680b3aee9a9a2f412197ce9fe9c1033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 43/65] fix: a letter whose lowercase is longer than itself can
 be searched for

---
 fuzzy/fuzzy.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/fuzzy/fuzzy.go b/fuzzy/fuzzy.go
index 7d2a8ca..95b7f2d 100644
--- a/fuzzy/fuzzy.go
+++ b/fuzzy/fuzzy.go
@@ -13,13 +13,7 @@ import (
 // Lowercase letters match both upper and lowercase letters, where uppercase
 // matches only uppercase letters.
 func Match(s string, search string) bool {
-	slen := len(s)
-	searchLen := len(search)
-
-	if searchLen > slen {
-		return false
-	}
-	if searchLen == slen && s == search {
+	if s == search {
 		return true
 	}
 
-- 
2.43.0


From a0b5a8d1b06bc6106cd75e9a07da5d48d8cad817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 44/65] fix: the entry that was cd'ed into is followed when
 it's renamed or deleted

A command could otherwise end up using another entry that happens to match the
old name. Declining to delete the entry does not leave it anymore.
---
 repl.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/repl.go b/repl.go
index 7c314da..cd81609 100644
--- a/repl.go
+++ b/repl.go
@@ -122,11 +122,12 @@ type repl struct {
 
 	prompt   string
 	ctxEntry string
+	ctxUUID  string
 }
 
 func (r *repl) run() error {
 	r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-	r.ctxEntry = ""
+	r.ctxEntry, r.ctxUUID = "", ""
 
 	for {
 		line, err := r.ctx.in.Line(r.prompt)
@@ -174,10 +175,37 @@ func (r *repl) run() error {
 			return err
 		}
 
+		if err = r.refreshCtx(); err != nil {
+			return err
+		}
+
 		r.ctx.in.AddHistory(line)
 	}
 }
 
+// refreshCtx keeps track of the entry that was "cd"ed into. Commands may rename
+// or delete it, after which its old name could lead to another entry.
+func (r *repl) refreshCtx() error {
+	if len(r.ctxUUID) == 0 {
+		return nil
+	}
+
+	blob, err := r.ctx.store.Find(r.ctxUUID)
+	if err != nil {
+		return err
+	}
+
+	if blob == nil {
+		r.ctxEntry, r.ctxUUID = "", ""
+		r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
+		return nil
+	}
+
+	r.ctxEntry = blob.Name()
+	r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
+	return nil
+}
+
 type replCmd struct {
 	ReadOnly bool
 	Run      func(r *repl, cmd string, args []string) error
@@ -250,15 +278,7 @@ var replCmds = map[string]replCmd{
 				errColor.Println("syntax: rm <name>")
 				return nil
 			}
-			name := args[0]
-			err := r.ctx.deleteEntry(name)
-
-			if err == nil && r.ctxEntry == name {
-				r.ctxEntry = ""
-				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
-			}
-
-			return err
+			return r.ctx.deleteEntry(args[0])
 		},
 	},
 
@@ -295,7 +315,7 @@ var replCmds = map[string]replCmd{
 		Run: func(r *repl, _ string, args []string) error {
 			switch len(args) {
 			case 0:
-				r.ctxEntry = ""
+				r.ctxEntry, r.ctxUUID = "", ""
 				r.prompt = mainPromptColor.Sprintf(normalPrompt, r.ctx.shortFilename)
 			case 1:
 				var uuid string
@@ -313,7 +333,7 @@ var replCmds = map[string]replCmd{
 					return err
 				}
 
-				r.ctxEntry = blob.Name()
+				r.ctxEntry, r.ctxUUID = blob.Name(), uuid
 				r.prompt = mainPromptColor.Sprintf(dirPrompt, r.ctx.shortFilename, r.ctxEntry)
 			default:
 				fmt.Println("cd needs an argument")
-- 
2.43.0


From 0e8255993adc5ca4fabe01a1d10ae1fb21788bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 45/65] fix: login with a broken two factor key does not end
 the session

---
 commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index 611aa49..d25e590 100644
--- a/commands.go
+++ b/commands.go
@@ -786,7 +786,8 @@ func (u *uiContext) login(search string) error {
 			if k == blobformat.KeyTwoFactor {
 				value, err = blob.TwoFactor()
 				if err != nil {
-					return err
+					errColor.Println(err)
+					continue
 				}
 			}
 			keyVals = append(keyVals, keyVal{Key: k, Val: value})
-- 
2.43.0


From 5c2444f5cfbdfc5f0c97420f951d8d6887b7657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 46/65] fix: a two factor key is checked for a usable secret
 before it's set

---
 blobformat/blobs.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index d567028..6b33a43 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -12,6 +12,7 @@ import (
 	"github.com/aarondl/bpass/txlogs"
 
 	"github.com/pquerna/otp"
+	"github.com/pquerna/otp/totp"
 )
 
 // Sentinel errors
@@ -402,10 +403,16 @@ func (b Blobs) SetTwofactor(uuid, uriOrKey string) error {
 		)
 	}
 
-	_, err := otp.NewKeyFromURL(uri)
+	key, err := otp.NewKeyFromURL(uri)
 	if err != nil {
 		return fmt.Errorf("could not set two factor key, uri wouldn't parse: %w", err)
 	}
+	if key.Type() != "totp" || len(key.Secret()) == 0 {
+		return errors.New("could not set two factor key, it has no totp secret")
+	}
+	if _, err = totp.GenerateCode(key.Secret(), time.Now()); err != nil {
+		return fmt.Errorf("could not set two factor key, its secret is not valid: %w", err)
+	}
 
 	b.touchUpdated(uuid)
 	b.DB.Set(uuid, KeyTwoFactor, uri)
-- 
2.43.0


From ceb15e658e3d3ceee32b304a70707d85732f7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 47/65] fix: an entry without a name does not crash every
 command

One can be seen when looking at the very moment it was added, or come from a
remote.
---
 blobformat/blob.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/blobformat/blob.go b/blobformat/blob.go
index 59c6039..0ad26e7 100644
--- a/blobformat/blob.go
+++ b/blobformat/blob.go
@@ -23,14 +23,10 @@ func (b Blob) Keys() (keys []string) {
 	return keys
 }
 
-// Name returns the name of the blob. Panics if the key is not found.
+// Name returns the name of the blob. It's empty if the blob does not have one,
+// which it has not been given yet at the moment it's added.
 func (b Blob) Name() string {
-	name, ok := b[KeyName]
-	if !ok {
-		panic("name was not set")
-	}
-
-	return name
+	return b[KeyName]
 }
 
 // Get a specific value. Panics if name is not found. Special keys require the
-- 
2.43.0


From 6437cc1a87e6c69b0dbd900e954b444cbd172b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 48/65] fix: RenameDuplicates renames, instead of being refused
 to set the name

---
 blobformat/blobs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 6b33a43..02098c8 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -74,7 +74,7 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 		renames[oldName] = name
 
 		b.touchUpdated(uuid)
-		b.Set(uuid, KeyName, name)
+		b.DB.Set(uuid, KeyName, name)
 	}
 
 	return renames, nil
-- 
2.43.0


From 92402d91107988cb8cbffb2662c4c87532aee958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 49/65] fix: RenameDuplicates does not take the name of an
 entry that has no duplicate

---
 blobformat/blobs.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blobformat/blobs.go b/blobformat/blobs.go
index 02098c8..78726a1 100644
--- a/blobformat/blobs.go
+++ b/blobformat/blobs.go
@@ -52,8 +52,13 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 	}
 
 	names := make(map[string]struct{})
+	taken := make(map[string]struct{})
 	renames := make(map[string]string)
 
+	for _, entry := range b.Snapshot {
+		taken[Blob(entry).Name()] = struct{}{}
+	}
+
 	for uuid, entry := range b.Snapshot {
 		blob := Blob(entry)
 		name := blob.Name()
@@ -67,10 +72,10 @@ func (b Blobs) RenameDuplicates() (map[string]string, error) {
 		oldName := name
 		for ok {
 			name = name + "1"
-			_, ok = names[name]
+			_, ok = taken[name]
 		}
 
-		names[name] = struct{}{}
+		taken[name] = struct{}{}
 		renames[oldName] = name
 
 		b.touchUpdated(uuid)
-- 
2.43.0


From 57ecc4e583cba4887a10f75add28bd4a0cc76c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 50/65] fix: keys of an old master key do not make a user who
 cannot open the file

An entry renamed so that it is no user, missing a rekeyall, and renamed back
was saved as a user with a key for the old master key. If there was no other
user the file could not be opened by anybody any more.
---
 commands.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/commands.go b/commands.go
index d25e590..4f8c1e0 100644
--- a/commands.go
+++ b/commands.go
@@ -130,6 +130,7 @@ func (u *uiContext) adduser(user string) error {
 		if err != nil {
 			return nil
 		}
+		u.dropOldKeys(false)
 
 		u.user = user
 		key = u.key
@@ -174,6 +175,19 @@ func (u *uiContext) adduser(user string) error {
 	return nil
 }
 
+// dropOldKeys deletes the keys of a previous master key from entries. An entry
+// that isn't a user now could become one by being renamed, and would then be
+// saved as a user who's not able to open the file.
+func (u *uiContext) dropOldKeys(keepUsers bool) {
+	for uuid, entry := range u.store.DB.Snapshot {
+		name := blobformat.Blob(entry).Name()
+		if len(entry[blobformat.KeyMKey]) == 0 || (keepUsers && blobformat.IsUserEntry(name)) {
+			continue
+		}
+		u.store.DB.DeleteKey(uuid, blobformat.KeyMKey)
+	}
+}
+
 func (u *uiContext) rekey(user string) error {
 	uuid, isCurrentUser, err := u.findKeyUser(user)
 	if err != nil || (len(u.master) != 0 && len(uuid) == 0) {
@@ -254,6 +268,7 @@ func (u *uiContext) rekeyAll() error {
 	if err != nil {
 		return err
 	}
+	u.dropOldKeys(true)
 
 	var width int
 	for _, name := range users {
-- 
2.43.0


From a036b82c4ccf2b72b92aac59eb687843dc77e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 51/65] fix: an empty lastpass export is not a successful
 import

---
 import.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/import.go b/import.go
index f9cf441..356f982 100644
--- a/import.go
+++ b/import.go
@@ -42,6 +42,9 @@ func importLastpass(u *uiContext) error {
 		record, err := reader.Read()
 		if err != nil {
 			if err == io.EOF {
+				if i == 0 {
+					return errors.New("lastpass csv format not recognized")
+				}
 				break
 			}
 			return err
-- 
2.43.0


From b57b2e5c0724a87cbff69890be90f1dcbc82716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 52/65] fix: a file with a long name can be saved

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 152993a..d40d317 100644
--- a/main.go
+++ b/main.go
@@ -286,7 +286,7 @@ func writeFile(filename string, data []byte) (err error) {
 		mode = info.Mode().Perm()
 	}
 
-	tmp, err := ioutil.TempFile(filepath.Dir(filename), "."+filepath.Base(filename)+".*")
+	tmp, err := ioutil.TempFile(filepath.Dir(filename), ".bpass-*")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cab478ef1948de1cbf4e2b17fc8b705f463d6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 53/65] fix: the passphrase of a new file can be used to rekey
 it

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index d40d317..e75b569 100644
--- a/main.go
+++ b/main.go
@@ -182,6 +182,7 @@ func (u *uiContext) loadBlob() error {
 			return err
 		}
 
+		u.pass = pwd
 		u.key = key
 		u.salt = salt
 	} else {
-- 
2.43.0


From 952c3f7c45bc22c748b1ea56ff48f09262d07c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 54/65] fix: a remote with a broken history does not keep
 others from being synced

---
 sync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sync.go b/sync.go
index cf44eda..6e194ae 100644
--- a/sync.go
+++ b/sync.go
@@ -118,6 +118,11 @@ Syncs:
 			syncs[i] = ""
 			continue
 		}
+		if err = (&txlogs.DB{Log: log}).UpdateSnapshot(); err != nil {
+			errColor.Printf("history of %q is broken: %v\n", name, err)
+			syncs[i] = ""
+			continue
+		}
 
 		if txlogs.SameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
-- 
2.43.0


From 307900329ce0be42454a454a8101746f9d9b1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 55/65] fix: a remote that has everything already is not
 written to

---
 sync.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sync.go b/sync.go
index 6e194ae..995a114 100644
--- a/sync.go
+++ b/sync.go
@@ -67,7 +67,7 @@ func (u *uiContext) sync(name string, auto, push bool) error {
 	// the most part since collectSyncs should only return valid things
 	hosts := make(map[string]string)
 	urls := make(map[string]string)
-	unchanged := make(map[string]bool)
+	pulled := make(map[string]blobParts)
 	dupeCheck := make([][64]byte, 0, len(syncs))
 	blobs := make([]blobParts, 0, len(syncs))
 Syncs:
@@ -124,21 +124,22 @@ Syncs:
 			continue
 		}
 
+		parts := blobParts{
+			Name:   name,
+			Creds:  creds,
+			Params: params,
+			Log:    log,
+		}
+		pulled[uuid] = parts
+
 		if txlogs.SameLog(log, u.store.DB.Log) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
-			unchanged[uuid] = true
 			continue
 		}
 
-		blobs = append(blobs, blobParts{
-			Name:   name,
-			Creds:  creds,
-			Params: params,
-			Log:    log,
-		})
+		blobs = append(blobs, parts)
 	}
 
-	oldLog := u.store.Log
 	out, err := mergeBlobs(u, blobs)
 	if err != nil {
 		errColor.Println("aborting sync, failed to merge logs:", err)
@@ -191,7 +192,7 @@ Syncs:
 			// to push here.
 			continue
 		}
-		if unchanged[uuid] && txlogs.SameLog(oldLog, u.store.Log) {
+		if r, ok := pulled[uuid]; ok && txlogs.SameLog(r.Log, u.store.Log) {
 			// It has everything already
 			continue
 		}
-- 
2.43.0


From d408568512f09715959deae2db17e7e88509f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 56/65] fix: sync asks about a passphrase that's different
 without other changes

---
 sync.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sync.go b/sync.go
index 995a114..3aad8e9 100644
--- a/sync.go
+++ b/sync.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"crypto/sha256"
 	"crypto/sha512"
 	"errors"
@@ -132,7 +133,7 @@ Syncs:
 		}
 		pulled[uuid] = parts
 
-		if txlogs.SameLog(log, u.store.DB.Log) {
+		if txlogs.SameLog(log, u.store.DB.Log) && u.opens(parts) {
 			infoColor.Printf("skip: %s (no changes)\n", name)
 			continue
 		}
@@ -192,7 +193,7 @@ Syncs:
 			// to push here.
 			continue
 		}
-		if r, ok := pulled[uuid]; ok && txlogs.SameLog(r.Log, u.store.Log) {
+		if r, ok := pulled[uuid]; ok && txlogs.SameLog(r.Log, u.store.Log) && u.opens(r) {
 			// It has everything already
 			continue
 		}
@@ -226,6 +227,14 @@ Syncs:
 	return nil
 }
 
+// opens checks if the current credentials are those of the given blob too
+func (u *uiContext) opens(b blobParts) bool {
+	if len(u.master) != 0 {
+		return bytes.Equal(u.master, b.Params.Master)
+	}
+	return len(b.Params.Master) == 0 && bytes.Equal(u.key, b.Params.Keys[b.Params.User])
+}
+
 func saveHosts(store *txlogs.DB, newHosts map[string]string) error {
 	for uuid, hostentry := range newHosts {
 		entry, ok := store.Snapshot[uuid]
-- 
2.43.0


From 9670a1cac581cdd6d3ab06f02f400146cdf407f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 57/65] fix: sync takes over a passphrase of the current user
 that was changed elsewhere

---
 merging.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/merging.go b/merging.go
index 3c6ccb6..8e3b28c 100644
--- a/merging.go
+++ b/merging.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bytes"
+	"encoding/hex"
 	"errors"
 	"time"
 
@@ -189,6 +190,19 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 			}
 		}
 
+		if len(m.Master) != 0 && bytes.Equal(m.Master, r.Params.Master) &&
+			m.User == r.Creds.User && !bytes.Equal(m.Key, r.Params.Keys[r.Params.User]) {
+			// The passphrase of the current user has changed, the merged log has
+			// the one that's good from now on
+			mergedStore := blobformat.Blobs{DB: &txlogs.DB{Log: merged}}
+			_, mergedUser, err := mergedStore.FindUser(m.User)
+			if err != nil {
+				return m, err
+			}
+			remoteSalt := hex.EncodeToString(r.Params.Salts[r.Params.User])
+			takeRemoteCreds = mergedUser != nil && mergedUser[blobformat.KeySalt] == remoteSalt
+		}
+
 		if takeRemoteCreds {
 			infoColor.Printf("local credentials updated from remote: %q\n", r.Name)
 			m.User, m.Pass = r.Creds.User, r.Creds.Pass
-- 
2.43.0


From a9c3f3a379524f6f2fedeec70bc00f588fbadfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 58/65] fix: a sync does not lock the person who does it out of
 the file

If all users were removed elsewhere and one that is not there was added here
the merge removes the current user and the file stays a multi-user file. If the
keys of the other users were made for an old master key nobody could open the
local file and the remotes any more.
---
 merging.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/merging.go b/merging.go
index 8e3b28c..0386d6a 100644
--- a/merging.go
+++ b/merging.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"time"
 
 	"github.com/aarondl/bpass/blobformat"
@@ -213,9 +214,47 @@ func mergeBlobs(u *uiContext, remotes []blobParts) (m mergeResult, err error) {
 		m.Log = merged
 	}
 
+	if len(m.Master) != 0 {
+		// Somebody who's removed themselves is fine with it
+		was, err := lockedOut(u.store.Log, u.user)
+		if err != nil {
+			return m, err
+		}
+		is, err := lockedOut(m.Log, m.User)
+		if err != nil {
+			return m, err
+		}
+		if is && !was {
+			return m, fmt.Errorf("user %q would not be able to open the merged file", m.User)
+		}
+	}
+
 	return m, nil
 }
 
+// lockedOut checks if there are users in a log but the given one isn't
+func lockedOut(log []txlogs.Tx, user string) (bool, error) {
+	store := blobformat.Blobs{DB: &txlogs.DB{Log: log}}
+	users, err := store.Users()
+	if err != nil {
+		return false, err
+	}
+
+	others := false
+	for uuid, name := range users {
+		name = blobformat.SplitUsername(name)
+		if len(name) == 0 || len(store.Snapshot[uuid][blobformat.KeyMKey]) == 0 {
+			continue
+		}
+		if name == user {
+			return false, nil
+		}
+		others = true
+	}
+
+	return others, nil
+}
+
 // lastTime is the time of the last event, 0 if there is none
 func lastTime(log []txlogs.Tx) int64 {
 	if len(log) == 0 {
-- 
2.43.0


From 29ea4fc8eb08cffa2b788e33f23ef95a528f997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 59/65] fix: a file is only sent if the remote end acknowledged
 all of it

Only the first of its three answers was waited for.
---
 scpsync/scpsync.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index e1b555d..a93d425 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -35,7 +35,9 @@
 //
 // And the way it works in sink mode (-t):
 //
+//  scp -t: 0
 //  client: Cmmmm <length> <filename>\n
+//  scp -t: 0
 //  client: DATA (length bytes)
 //  client: 0
 //  scp -t: 0
@@ -200,11 +202,19 @@ func (e Err) Error() string {
 }
 
 func sendFile(stream io.ReadWriter, file io.Reader, filename string, ln int64, mode int) error {
+	// The remote end acknowledges that it's been started
+	if err := readResponse(stream); err != nil {
+		return err
+	}
+
 	// Send header
 	_, err := fmt.Fprintf(stream, "C0%o %d %s\n", mode, ln, filepath.Base(filename))
 	if err != nil {
 		return fmt.Errorf("failed to send create message: %w", err)
 	}
+	if err = readResponse(stream); err != nil {
+		return err
+	}
 
 	// Copy the data
 	n, err := io.Copy(stream, file)
@@ -300,27 +310,21 @@ func sendOKResponse(stream io.Writer) error {
 }
 
 func readResponse(stream io.Reader) error {
-	// Get the response
-	response := make([]byte, 256)
-	nRead, err := stream.Read(response)
-	if err != nil {
-		return err
-	} else if nRead == 0 {
-		return errors.New("failed to read a response byte")
+	// Get the response, but nothing that might come after it
+	response := make([]byte, 1)
+	if _, err := io.ReadFull(stream, response); err != nil {
+		return fmt.Errorf("failed to read a response byte: %w", err)
 	}
 
 	switch response[0] {
 	case 0:
 		return nil
 	case 1, 2:
-		var e Err
-		if nRead > 2 {
-			e.Msg = string(response[1:nRead])
-		}
-		e.Code = int(response[0])
-		return e
+		// The message is informative, if it can't be read we don't mind
+		msg, _ := bufio.NewReader(io.LimitReader(stream, 256)).ReadString('\n')
+		return Err{Code: int(response[0]), Msg: msg}
 	default:
-		return fmt.Errorf("unknown response from scp: %x", response[:nRead])
+		return fmt.Errorf("unknown response from scp: %x", response)
 	}
 }
 
-- 
2.43.0


From 2b66b6f6c9df0ba721d4cef6a15655d88b20960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 60/65] fix: a remote scp that ends before its input is closed
 is not an error

Its exit status decides.
---
 scpsync/scpsync.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index a93d425..650c1b9 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -109,7 +109,8 @@ func Recv(hostport string, config *ssh.ClientConfig, filename string) (content [
 		return nil, err
 	}
 
-	if err = write.Close(); err != nil {
+	// It may have ended already, Wait knows how
+	if err = write.Close(); err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to close write stream: %w", err)
 	}
 
@@ -167,7 +168,8 @@ func Send(hostport string, config *ssh.ClientConfig, filename string, mode int,
 		return err
 	}
 
-	if err = write.Close(); err != nil {
+	// It may have ended already, Wait knows how
+	if err = write.Close(); err != nil && err != io.EOF {
 		return err
 	}
 
-- 
2.43.0


From 90685e30837a0eaff86c7fde0053a4d081bd7d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 61/65] fix: a missing file is recognised when closing the
 connection fails too

---
 scpsync/scpsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scpsync/scpsync.go b/scpsync/scpsync.go
index 650c1b9..87a90aa 100644
--- a/scpsync/scpsync.go
+++ b/scpsync/scpsync.go
@@ -333,8 +333,8 @@ func readResponse(stream io.Reader) error {
 // IsNotFoundErr checks to see if the error was a file not found error
 // from the server.
 func IsNotFoundErr(err error) bool {
-	e, ok := err.(Err)
-	if !ok {
+	var e Err
+	if !errors.As(err, &e) {
 		return false
 	}
 
-- 
2.43.0


From 9bba0cdbc78219f5fcc64e73fa3e89fe88693234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 62/65] fix: confirmed hosts are recorded when the sync is
 given up or a push fails

---
 sync.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sync.go b/sync.go
index 3aad8e9..cdc0a5f 100644
--- a/sync.go
+++ b/sync.go
@@ -144,14 +144,14 @@ Syncs:
 	out, err := mergeBlobs(u, blobs)
 	if err != nil {
 		errColor.Println("aborting sync, failed to merge logs:", err)
-		return nil
+		return saveHosts(u.store.DB, hosts)
 	}
 
 	// Never let a broken remote get into the local file
 	merged := &txlogs.DB{Log: out.Log}
 	if err = merged.UpdateSnapshot(); err != nil {
 		errColor.Println("aborting sync, failed to rebuild snapshot, poisoned by sync:", err)
-		return nil
+		return saveHosts(u.store.DB, hosts)
 	}
 
 	u.user, u.pass = out.User, out.Pass
@@ -401,11 +401,7 @@ func sshPush(u *uiContext, entry txlogs.Entry, ct []byte) (hostentry string, err
 	config.HostKeyCallback = asker.callback
 
 	err = scpsync.Send(address, config, path, 0600, ct)
-	if err != nil {
-		return "", err
-	}
-
-	return asker.newHost, nil
+	return asker.newHost, err
 }
 
 func sshConfig(entry txlogs.Entry) (address, path string, config *ssh.ClientConfig, err error) {
-- 
2.43.0


From 616f64f4ff281f7af29f3581d02e74c2696baaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:25 +0000
Subject: [PATCH 63/65] fix: addsync takes ports nothing can be reached at

The port was only checked to be an integer of any kind. With one like -1 or
+22 the url of the new entry cannot be parsed, so it is skipped by every sync,
and one above 65535 cannot be connected to. Ask again, as for other answers
that are not a port.
---
 commands.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commands.go b/commands.go
index 4f8c1e0..de2a935 100644
--- a/commands.go
+++ b/commands.go
@@ -414,9 +414,9 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 			break
 		}
 
-		_, err = strconv.Atoi(port)
-		if err != nil {
-			errColor.Printf("port must be an integer between %d and %d\n", 1, int(math.MaxUint16)-1)
+		number, err := strconv.ParseUint(port, 10, 16)
+		if err != nil || number == 0 {
+			errColor.Printf("port must be an integer between %d and %d\n", 1, int(math.MaxUint16))
 			continue
 		}
 
-- 
2.43.0


From 9f713ddca268d39df101ee149f0b9655abad228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:26 +0000
Subject: [PATCH 64/65] fix: addsync makes absolute scp paths relative

The slash between the host and the path of the url is not part of the path,
so /srv/file.bp was synced to srv/file.bp in the home directory of the user.
---
 commands.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands.go b/commands.go
index de2a935..372a687 100644
--- a/commands.go
+++ b/commands.go
@@ -431,7 +431,9 @@ func addSCPEntry(u *uiContext, uuid string) (uri url.URL, err error) {
 	uri.Scheme = syncSCP
 	uri.User = url.User(user)
 	uri.Host = net.JoinHostPort(host, port)
-	uri.Path = file
+	// The first slash only ends the host, the rest is the path at the host:
+	// without it an absolute path would be taken for a relative one
+	uri.Path = "/" + file
 
 	promptColor.Println("Key type:")
 	choice, err := u.getMenuChoice(promptColor.Sprint("> "), []string{"ED25519", "RSA 4096", "Password"})
-- 
2.43.0


From a0ed416d8ecb9717f7abbd9c8afab171a67f02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:47 +0000
Subject: [PATCH 65/65] fix: -f with the default file was overruled by BPASS

---
 cli.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli.go b/cli.go
index 0b97a9f..3ce65c9 100644
--- a/cli.go
+++ b/cli.go
@@ -40,6 +40,9 @@ func parseCli() {
 	if err == nil && len(homeDir) != 0 {
 		defaultFilePath = filepath.Join(homeDir, defaultFilePath)
 	}
+	if envFile := os.Getenv("BPASS"); len(envFile) != 0 {
+		defaultFilePath = envFile
+	}
 	flagFile = defaultFilePath
 
 	parser := flaggy.NewParser("bpass")
@@ -77,12 +80,6 @@ func parseCli() {
 	parser.AttachSubcommand(exportCmd, 1)
 	parser.Parse()
 
-	if flagFile == defaultFilePath {
-		envFile := os.Getenv("BPASS")
-		if len(envFile) != 0 {
-			flagFile = envFile
-		}
-	}
 	if len(flagTime) != 0 {
 		var err error
 		historyTime, err = time.Parse(historyLayout, flagTime)
-- 
2.43.0

