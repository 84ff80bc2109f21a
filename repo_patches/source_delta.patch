From 3baa2125070834c393a337ba33819ad1285c510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 01/35] fix: treat a score that is not a number as not given

NaN passed every comparison of the range checks and reached the queues as
a score or pull filter.
---
 internal/queue/score/score.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 18f1242..1fc419c 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -1,6 +1,7 @@
 package score
 
 import (
+	"math"
 	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
@@ -18,7 +19,7 @@ var Undefined float64 = -1
 // If the score is less than Min, it returns Min.
 // Otherwise, it returns the score.
 func GetPullMaxScore(score float64) *float64 {
-	if score == 0 {
+	if score == 0 || math.IsNaN(score) {
 		return nil
 	}
 
@@ -39,7 +40,7 @@ func GetPullMaxScore(score float64) *float64 {
 // If the score is greater than Max, it returns Max.
 // Otherwise, it returns the score.
 func GetPullMinScore(score float64) *float64 {
-	if score == 0 {
+	if score == 0 || math.IsNaN(score) {
 		return nil
 	}
 
@@ -64,7 +65,7 @@ func GetPullMinScore(score float64) *float64 {
 //
 // Negative scores are not allowed and will be converted to 0
 func GetAddScore(addRequestScore float64) float64 {
-	if addRequestScore == 0 {
+	if addRequestScore == 0 || math.IsNaN(addRequestScore) {
 		return GetScoreByDefaultAlgorithm()
 	}
 
-- 
2.43.0


From 8845e01c1df916a208b9d8638e738c9ef5518145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 02/35] fix: time out every expired message of the memory cache
 in one pass

---
 internal/queue/cache/memory_cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f9d0135..ebe45a1 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -307,7 +307,11 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 	count := int64(0)
 
 	result := make([]string, 0)
-	for e := cache.processingQueues[queue].Front(); e != nil; e = e.Next() {
+	var next *list.Element
+	for e := cache.processingQueues[queue].Front(); e != nil; e = next {
+		// removing an element clears its next pointer
+		next = e.Next()
+
 		value := e.Value.(*MemoryMessageEntry)
 
 		if value.score <= float64(timeoutTime) {
-- 
2.43.0


From d4905f453e30721fedf04b5b8eaf2a2ff5dd5344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 03/35] fix: unlock every expired message of the given queue
 only in the memory cache

---
 internal/queue/cache/memory_cache.go | 31 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index ebe45a1..abd5ec3 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -220,27 +220,28 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 	nowMs := dtime.NowMs()
 
 	unlockedMessages := make([]string, 0)
-	for queue := range data {
-		list := data[queue]
+	locked := data[queue]
+	if locked == nil {
+		return unlockedMessages, nil
+	}
 
-		if list == nil {
-			continue
-		}
+	var next *list.Element
+	for e := locked.Front(); e != nil; e = next {
+		// removing an element clears its next pointer
+		next = e.Next()
 
-		for e := list.Front(); e != nil; e = e.Next() {
-			value := e.Value.(*MemoryMessageEntry)
+		value := e.Value.(*MemoryMessageEntry)
 
-			if nowMs >= int64(value.lockUntil) {
-				list.Remove(e)
+		if nowMs >= int64(value.lockUntil) {
+			locked.Remove(e)
 
-				if score.IsUndefined(value.score) {
-					value.score = defaultScore
-				}
+			if score.IsUndefined(value.score) {
+				value.score = defaultScore
+			}
 
-				cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
 
-				unlockedMessages = append(unlockedMessages, value.id)
-			}
+			unlockedMessages = append(unlockedMessages, value.id)
 		}
 	}
 
-- 
2.43.0


From dd1b18df5fe00bdb8ffd75fcbfc091eb8455f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 04/35] fix: keep acknowledgement deadlines of the memory cache
 in milliseconds

---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index abd5ec3..f80bbcb 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -280,7 +280,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.Now().Unix() + ackDeadlineMs),
+			score: float64(dtime.NowMs() + ackDeadlineMs),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
@@ -303,7 +303,7 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 		return nil, nil
 	}
 
-	timeoutTime := dtime.Now().Unix()
+	timeoutTime := dtime.NowMs()
 
 	count := int64(0)
 
-- 
2.43.0


From 5a8c5f3043bc39f2bf186da69cd7f253264adbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 05/35] fix: look past filtered out messages when pulling from
 the memory cache

---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f80bbcb..b6f2cbb 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -262,10 +262,10 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 	total := int64(cache.queues[queue].Len())
 
-	result := make([]string, 0, utils.MinInt64(n, total))
+	result := make([]string, 0)
 
 	filteredOut := make([]*MemoryMessageEntry, 0)
-	for i := int64(0); i < n && i < total && cache.queues[queue].Len() != 0; i++ {
+	for i := int64(0); int64(len(result)) < n && i < total && cache.queues[queue].Len() != 0; i++ {
 		element := cache.queues[queue].Front()
 
 		entry := element.Value.(*MemoryMessageEntry)
-- 
2.43.0


From 3cfa35e74ed14e7beb3ebbeb079cfc0610385e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 06/35] fix: release the memory storage lock when counting
 fails

---
 internal/queue/storage/memory_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d2b021e..7c9de9b 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -142,6 +142,8 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	count := int64(0)
 
 	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	for _, value := range storage.docs {
 		matches, err := messageMatchesFilter(value, findOpts)
 
@@ -153,7 +155,6 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 			count++
 		}
 	}
-	storage.lock.RUnlock()
 
 	return count, nil
 }
-- 
2.43.0


From 348c18e5a00e75d5192f1a401fef5efb66b28a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 07/35] fix: keep memory storage keys of different queues and
 ids apart

---
 internal/queue/storage/memory_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 7c9de9b..71505d2 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -135,7 +135,8 @@ func (storage *MemoryStorage) GetStringInternalId(_ context.Context, message *me
 }
 
 func getKey(message *message.Message) string {
-	return message.Queue + ":" + message.ID
+	// the length of the queue name keeps names containing the separator apart
+	return strconv.Itoa(len(message.Queue)) + ":" + message.Queue + ":" + message.ID
 }
 
 func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _ *CountOptions) (int64, error) {
-- 
2.43.0


From b9a8d27acc46e1f4fc70c2ea3384a756162be8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 08/35] fix: order memory storage reads by every sort key with
 ties by insertion

---
 internal/queue/storage/memory_storage.go | 44 +++++++++++++++---------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 71505d2..bc93d24 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -1,6 +1,7 @@
 package storage
 
 import (
+	"cmp"
 	"context"
 	"errors"
 	"fmt"
@@ -257,27 +258,21 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 			for _, key := range (*opt.Sort).Keys() {
 				value, _ := (*opt.Sort).Get(key)
 
+				order := 0
+
 				switch key {
 				case "expiry_date":
-					if (messages[i].ExpiryDate != time.Time{} || messages[j].ExpiryDate != time.Time{}) {
-						if value == -1 {
-							return messages[i].ExpiryDate.After(messages[j].ExpiryDate)
-						}
-
-						return messages[i].ExpiryDate.Before(messages[j].ExpiryDate)
-					}
+					order = messages[i].ExpiryDate.Compare(messages[j].ExpiryDate)
 				case "score":
-					if value == -1 {
-						return messages[i].Score > messages[j].Score
-					}
-
-					return messages[i].Score < messages[j].Score
+					order = cmp.Compare(messages[i].Score, messages[j].Score)
 				case "_id":
-					if value == -1 {
-						return messages[i].InternalId.(int64) > messages[j].InternalId.(int64)
-					}
+					order = cmp.Compare(messages[i].InternalId.(int64), messages[j].InternalId.(int64))
+				case "last_usage":
+					order = compareTime(messages[i].LastUsage, messages[j].LastUsage)
+				}
 
-					return messages[i].InternalId.(int64) < messages[j].InternalId.(int64)
+				if order != 0 {
+					return (order < 0) == (value != -1)
 				}
 			}
 
@@ -292,6 +287,23 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	return messages, nil
 }
 
+// compareTime orders times with a missing one first.
+func compareTime(a *time.Time, b *time.Time) int {
+	if a == nil || b == nil {
+		if a != nil {
+			return 1
+		}
+
+		if b != nil {
+			return -1
+		}
+
+		return 0
+	}
+
+	return a.Compare(*b)
+}
+
 func isExpired(message *message.Message) bool {
 	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
 }
-- 
2.43.0


From 6d444f0478792ee6bf7dfb2e3ba519561c0a04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 09/35] fix: count a message removed from the memory storage
 once

---
 internal/queue/storage/memory_storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index bc93d24..bf4c0ca 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -322,6 +322,8 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 				delete(storage.docs, key)
 
 				count++
+
+				break
 			}
 		}
 	}
-- 
2.43.0


From c8a4592bcedc44b4c82522c59bfe2dcf4f6ca405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 10/35] fix: look up and write memory storage documents under
 one lock

---
 internal/queue/storage/memory_storage.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index bf4c0ca..8548a12 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -98,11 +98,8 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 
 		key := getKey(messages[i])
 
-		storage.lock.RLock()
-		_, present := storage.docs[key]
-		storage.lock.RUnlock()
-
 		storage.lock.Lock()
+		_, present := storage.docs[key]
 		if present {
 			modified++
 
@@ -333,15 +330,15 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 }
 
 func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.TotalScoreSubtract += msg.LastScoreSubtract
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
@@ -356,21 +353,19 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	*value.Diagnostics.ConsecutiveAcks = *value.Diagnostics.ConsecutiveAcks + 1
 	*value.Diagnostics.ConsecutiveNacks = 0
 
-	storage.lock.Unlock()
-
 	return 1, nil
 }
 
 func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.Score = msg.Score
 	value.LockMs = msg.LockMs
 
@@ -379,7 +374,6 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 	*value.Diagnostics.Nacks = *value.Diagnostics.Nacks + 1
 	*value.Diagnostics.ConsecutiveNacks = *value.Diagnostics.ConsecutiveNacks + 1
 	*value.Diagnostics.ConsecutiveAcks = 0
-	storage.lock.Unlock()
 
 	return 1, nil
 }
-- 
2.43.0


From 853b28c4b8ffcae995b6d2174890a39ae64e94d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 11/35] fix: do not change diagnostics of messages already read
 from the memory storage

---
 internal/queue/storage/memory_storage.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 8548a12..2c92ebe 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -430,19 +430,19 @@ func setDiagnosticsStruct(value *message.Message) {
 		return
 	}
 
-	if value.Diagnostics.ConsecutiveNacks == nil {
-		value.Diagnostics.ConsecutiveNacks = utils.Int64Ptr(0)
-	}
-
-	if value.Diagnostics.ConsecutiveAcks == nil {
-		value.Diagnostics.ConsecutiveAcks = utils.Int64Ptr(0)
+	// messages returned by Find share the previous counters
+	value.Diagnostics = &message.MessageDiagnostics{
+		Acks:             copyCounter(value.Diagnostics.Acks),
+		Nacks:            copyCounter(value.Diagnostics.Nacks),
+		ConsecutiveAcks:  copyCounter(value.Diagnostics.ConsecutiveAcks),
+		ConsecutiveNacks: copyCounter(value.Diagnostics.ConsecutiveNacks),
 	}
+}
 
-	if value.Diagnostics.Acks == nil {
-		value.Diagnostics.Acks = utils.Int64Ptr(0)
+func copyCounter(counter *int64) *int64 {
+	if counter == nil {
+		return utils.Int64Ptr(0)
 	}
 
-	if value.Diagnostics.Nacks == nil {
-		value.Diagnostics.Nacks = utils.Int64Ptr(0)
-	}
+	return utils.Int64Ptr(*counter)
 }
-- 
2.43.0


From 28e40f586f10648a051d493f7bc4b55240ed9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 12/35] fix: update whether a message expires when it is added
 again

---
 internal/queue/storage/memory_storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 2c92ebe..7cb0959 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -105,6 +105,7 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 
 			storage.docs[key].Description = messages[i].Description
 			storage.docs[key].ExpiryDate = messages[i].ExpiryDate
+			storage.docs[key].Timeless = messages[i].Timeless
 			storage.docs[key].Metadata = messages[i].Metadata
 			storage.docs[key].Payload = messages[i].Payload
 			storage.docs[key].StringPayload = messages[i].StringPayload
-- 
2.43.0


From 6957f711dd617a07b779fe869aad4d69352f99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 13/35] fix: guard memory storage queue configurations with the
 storage lock

---
 internal/queue/storage/memory_storage.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 7cb0959..1bcb4f4 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -40,6 +40,9 @@ func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 }
 
 func (storage *MemoryStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	configurations := make([]*configuration.QueueConfiguration, len(storage.configurations))
 
 	configurationIndex := 0
@@ -61,12 +64,18 @@ func (storage *MemoryStorage) EditQueueConfiguration(_ context.Context, configur
 		configuration.MaxElements = 0
 	}
 
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	storage.configurations[configuration.Queue] = configuration
 
 	return nil
 }
 
 func (storage *MemoryStorage) GetQueueConfiguration(_ context.Context, queue string) (*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	return storage.configurations[queue], nil
 }
 
-- 
2.43.0


From 43dffccba05776c58ff66d650c5bba1ee7eb9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 14/35] fix: cap scores given with ack and nack requests into
 the score range

---
 internal/queue/score/score.go       |  5 +++++
 internal/service/deckard_service.go | 12 ++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 1fc419c..093e600 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -97,3 +97,8 @@ func GetScoreFromTime(time *time.Time) float64 {
 func IsUndefined(score float64) bool {
 	return score == Undefined
 }
+
+// IsGiven returns true if a request contains a score: zero means no score, and so does a value that is not a number
+func IsGiven(requestScore float64) bool {
+	return requestScore != 0 && !math.IsNaN(requestScore)
+}
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2b150dd..328c8ec 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -564,10 +564,10 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.Undefined
-	if request.Score != 0 {
-		newScore = request.Score
+	if score.IsGiven(request.Score) {
+		newScore = score.GetAddScore(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if request.LockMs <= 0 {
 		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
 
 		if newScore < score.Min {
@@ -613,10 +613,10 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.Undefined
-	if request.Score != 0 {
-		newScore = request.Score
+	if score.IsGiven(request.Score) {
+		newScore = score.GetAddScore(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if request.LockMs <= 0 {
 		newScore = score.Min
 	}
 
-- 
2.43.0


From d7e6ddc8897e651fb44d33bd1f84f840f56abc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 15/35] fix: keep the score requested by a nack without lock

---
 internal/queue/queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9e54731..46be8cf 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -205,7 +205,9 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return result, nil
 	}
 
-	msg.Score = score.Min
+	if score.IsUndefined(msg.Score) {
+		msg.Score = score.Min
+	}
 
 	result, err := pool.cache.MakeAvailable(ctx, msg)
 
-- 
2.43.0


From 828c6f94c2bab845e28738591b89227224a01b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 16/35] fix: limit TTLs to the range of a duration instead of
 wrapping around

---
 internal/service/deckard_service.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 328c8ec..2bd4bf0 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"strings"
 	"time"
@@ -322,7 +323,7 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 		t := dtime.Now()
 
 		if m.TtlMinutes != 0 {
-			t = t.Add(time.Minute * time.Duration(m.TtlMinutes))
+			t = t.Add(getTtl(m.TtlMinutes))
 		}
 
 		if m.Timeless {
@@ -383,6 +384,13 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 	}, nil
 }
 
+// getTtl returns a TTL in minutes as duration, limited to what a duration can hold
+func getTtl(minutes int64) time.Duration {
+	maxMinutes := int64(math.MaxInt64 / time.Minute)
+
+	return time.Minute * time.Duration(max(-maxMinutes, min(minutes, maxMinutes)))
+}
+
 func (d *Deckard) Pull(ctx context.Context, request *deckard.PullRequest) (*deckard.PullResponse, error) {
 	amount := int64(request.Amount)
 
-- 
2.43.0


From bd9f60d2cb0adc848a30f22f93f48ab7a0cdab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 17/35] fix: clear the recovery running mark before marking
 recovery as finished

When clearing the mark failed (or the process stopped in between) recovery
was finished but marked as running forever: no message was removed for TTL
or size any more.
---
 internal/queue/queue_housekeeper.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index ca83a1c..6806719 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -225,8 +225,7 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	if len(messages) < 4000 {
 		logger.S(ctx).Info("Full recovery finished.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+		finishRecovery(ctx, pool)
 	}
 
 	logger.S(ctx).Debugf("%d messages updated in %s with %s breakpoint.", len(messages), time.Since(t), breakpoint)
@@ -234,6 +233,20 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	return true
 }
 
+// finishRecovery clears the running mark before marking the recovery as finished: a finished
+// recovery never runs again, so it would never clear the mark later.
+func finishRecovery(ctx context.Context, pool *Queue) {
+	err := pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+
+	if err != nil {
+		logger.S(ctx).Error("Error to clear full recovery status: ", err)
+
+		return
+	}
+
+	_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+}
+
 func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	logger.S(ctx).Info("Starting full cache recovery.")
 
@@ -265,8 +278,7 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	if len(messages) == 0 {
 		logger.S(ctx).Info("Storage is empty. Finishing recovery.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+		finishRecovery(ctx, pool)
 
 		return false
 	}
-- 
2.43.0


From 03d087a48c6473cced79f03f5623d02965e0deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 18/35] fix: guard the queue metrics read by the exporter while
 the metrics task replaces them

---
 internal/metrics/metrics.go     | 10 +++++-----
 internal/metrics/metrics_map.go | 27 +++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index ce719df..1bdb49b 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -314,16 +314,16 @@ func createMetrics() {
 }
 
 func metrifyOldestMessages(obs metric.Int64Observer) error {
-	return metrify(obs, &MetricsMap.OldestElement)
+	return metrify(obs, MetricsMap.GetOldestElementMap())
 }
 
 func metrifyTotalElements(obs metric.Int64Observer) error {
-	return metrify(obs, &MetricsMap.TotalElements)
+	return metrify(obs, MetricsMap.GetTotalElementsMap())
 }
 
-func metrify(obs metric.Int64Observer, data *map[string]int64) error {
-	for key := range *data {
-		obs.Observe((*data)[key], metric.WithAttributeSet(attribute.NewSet(attribute.String("queue", key))))
+func metrify(obs metric.Int64Observer, data map[string]int64) error {
+	for key, value := range data {
+		obs.Observe(value, metric.WithAttributeSet(attribute.NewSet(attribute.String("queue", key))))
 	}
 
 	return nil
diff --git a/internal/metrics/metrics_map.go b/internal/metrics/metrics_map.go
index 381bb62..1a01095 100644
--- a/internal/metrics/metrics_map.go
+++ b/internal/metrics/metrics_map.go
@@ -1,9 +1,14 @@
 package metrics
 
+import "sync"
+
 // Type to hold map of oldest queue elements
 type QueueMetricsMap struct {
 	OldestElement map[string]int64
 	TotalElements map[string]int64
+
+	// guards the maps, which are replaced by the metrics task while they are being read
+	mutex sync.RWMutex
 }
 
 func NewQueueMetricsMap() *QueueMetricsMap {
@@ -13,11 +18,33 @@ func NewQueueMetricsMap() *QueueMetricsMap {
 	}
 }
 
+// GetOldestElementMap returns the last computed values. The result must not be changed.
+func (oldestMap *QueueMetricsMap) GetOldestElementMap() map[string]int64 {
+	oldestMap.mutex.RLock()
+	defer oldestMap.mutex.RUnlock()
+
+	return oldestMap.OldestElement
+}
+
+// GetTotalElementsMap returns the last computed values. The result must not be changed.
+func (oldestMap *QueueMetricsMap) GetTotalElementsMap() map[string]int64 {
+	oldestMap.mutex.RLock()
+	defer oldestMap.mutex.RUnlock()
+
+	return oldestMap.TotalElements
+}
+
 func (oldestMap *QueueMetricsMap) UpdateOldestElementMap(data map[string]int64) {
+	oldestMap.mutex.Lock()
+	defer oldestMap.mutex.Unlock()
+
 	oldestMap.OldestElement = mergeData(oldestMap.OldestElement, data)
 }
 
 func (oldestMap *QueueMetricsMap) UpdateTotalElementsMap(data map[string]int64) {
+	oldestMap.mutex.Lock()
+	defer oldestMap.mutex.Unlock()
+
 	oldestMap.TotalElements = mergeData(oldestMap.TotalElements, data)
 }
 
-- 
2.43.0


From 71fb1e976e1a96b341d06e631c3fa7df8c5cd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 19/35] fix: keep the last metrics of queues that could not be
 read or were not reached

---
 internal/queue/queue_housekeeper.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index 6806719..ca925f3 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -466,7 +466,7 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 		if shutdown.Ongoing() {
 			logger.S(ctx).Info("Context canceled. Stopping metrics computation.")
 
-			break
+			return
 		}
 
 		message, err := pool.storage.Find(ctx, &storage.FindOptions{
@@ -481,6 +481,9 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 		if err != nil {
 			logger.S(ctx).Errorf("Error getting queue %s oldest element: %v", queue, err)
 
+			keepLastMetric(queue, metrics.MetricsMap.GetOldestElementMap(), oldestElement)
+			keepLastMetric(queue, metrics.MetricsMap.GetTotalElementsMap(), totalElements)
+
 			continue
 		}
 
@@ -495,6 +498,8 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 		if err != nil {
 			logger.S(ctx).Errorf("Error counting queue %s elements: %v", queue, err)
 
+			keepLastMetric(queue, metrics.MetricsMap.GetTotalElementsMap(), totalElements)
+
 			continue
 		}
 
@@ -504,3 +509,11 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 	metrics.MetricsMap.UpdateOldestElementMap(oldestElement)
 	metrics.MetricsMap.UpdateTotalElementsMap(totalElements)
 }
+
+// keepLastMetric keeps the last value of a queue that could not be read: a missing value would
+// report the queue as empty.
+func keepLastMetric(queue string, last map[string]int64, current map[string]int64) {
+	if value, ok := last[queue]; ok {
+		current[queue] = value
+	}
+}
-- 
2.43.0


From 6b4fdd498c7c4710793f864cef891c8065804639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 20/35] fix: load the configuration before the histograms are
 created, so that the configured buckets are used

---
 internal/metrics/metrics.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 1bdb49b..3faf047 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -73,6 +73,9 @@ func panicInstrumentationError(err error) {
 }
 
 func init() {
+	// The histogram buckets are read when the instruments are created below
+	config.Configure()
+
 	registry = NewWrappedRegistry(prometheusclient.NewRegistry(), createDefaultMetrics()...)
 
 	var err error
-- 
2.43.0


From 96fc0a25917a0c0dec99630d8b19c588d195d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 21/35] fix: no background task starts once the shutdown has
 started

A task due at the moment the shutdown starts registered itself in its wait
group after the shutdown had waited for the group: critical work ran with a
cancelled context and the shutdown was reported finished while it ran.
---
 internal/cmd/deckard/main.go  |  5 ++++-
 internal/shutdown/shutdown.go | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index dde6b5c..7f9e84a 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -203,7 +203,10 @@ func scheduleTask(taskName string, lock *sync.Mutex, taskWaitGroup *sync.WaitGro
 	for {
 		select {
 		case <-time.After(duration):
-			taskWaitGroup.Add(1)
+			if !shutdown.AddTask(taskWaitGroup) {
+				return
+			}
+
 			if lock != nil {
 				lock.Lock()
 			}
diff --git a/internal/shutdown/shutdown.go b/internal/shutdown/shutdown.go
index e968499..5f645f1 100644
--- a/internal/shutdown/shutdown.go
+++ b/internal/shutdown/shutdown.go
@@ -27,6 +27,9 @@ var CriticalWaitGroup *sync.WaitGroup
 // Shutdown will wait for this wait group to be done after canceling the context.
 var WaitGroup *sync.WaitGroup
 
+// Guards the start of the shutdown process against tasks being registered at the same time
+var startMutex sync.Mutex
+
 func init() {
 	CancelChan = make(chan os.Signal, 1)
 	CriticalWaitGroup = &sync.WaitGroup{}
@@ -90,7 +93,25 @@ func Reset() {
 	Finished = make(chan struct{})
 }
 
+// AddTask registers a background task in the wait group unless the shutdown process has already started.
+// It returns false when the task must not run, since nobody would wait for it anymore.
+func AddTask(waitGroup *sync.WaitGroup) bool {
+	startMutex.Lock()
+	defer startMutex.Unlock()
+
+	if Ongoing() {
+		return false
+	}
+
+	waitGroup.Add(1)
+
+	return true
+}
+
 func Start() {
+	startMutex.Lock()
+	defer startMutex.Unlock()
+
 	close(Started)
 }
 
-- 
2.43.0


From 0b33ab35a3c3b9ef88aec56afe7bee102b2d2d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 22/35] fix: flush the traces on shutdown

Init kept the tracer provider in a local variable, so Shutdown never found
one and dropped the spans still in its batch.
---
 internal/trace/trace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/trace/trace.go b/internal/trace/trace.go
index 67487d1..ea67678 100644
--- a/internal/trace/trace.go
+++ b/internal/trace/trace.go
@@ -32,7 +32,7 @@ func Init() error {
 		return err
 	}
 
-	tracerProvider := sdktrace.NewTracerProvider(
+	tracerProvider = sdktrace.NewTracerProvider(
 		sdktrace.WithBatcher(exporter),
 		sdktrace.WithResource(newResource()),
 	)
-- 
2.43.0


From f3397c56fe66c0be9b7316d51a7dccaced6291a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 23/35] fix: a redis pull of no messages does not hand out all
 of them

---
 internal/queue/cache/redis_cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ab6e66a..0cd6634 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -676,6 +676,11 @@ func (cache *RedisCache) PullMessages(ctx context.Context, queue string, n int64
 		return nil, err
 	}
 
+	// an end index of -1 would select the whole sorted set
+	if n <= 0 {
+		return nil, nil
+	}
+
 	var cmd *redis.Cmd
 
 	now := dtime.Now()
-- 
2.43.0


From 88301356594b3f78d1bb3dfe5ef4cb318ae869cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 24/35] fix: the Redis cache lists queues whose names end like
 one of its pools

---
 internal/queue/cache/redis_cache.go | 34 -----------------------------
 1 file changed, 34 deletions(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 0cd6634..66d8e6e 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -435,10 +435,6 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		data[i] = cache.parseQueueKey(queue, regex)
 	}
 
-	if pool.PRIMARY_POOL == poolType {
-		return filterQueueSuffix(uniqStrings(data)), nil
-	}
-
 	return uniqStrings(data), nil
 }
 
@@ -550,36 +546,6 @@ func unwrapClusterHashTag(queue string) string {
 	return queue[1 : len(queue)-1]
 }
 
-func filterQueueSuffix(data []string) []string {
-	result := make([]string, 0, len(data))
-
-	for i := range data {
-		if strings.HasSuffix(data[i], PROCESSING_POOL_SUFFIX) {
-			continue
-		}
-
-		if strings.HasSuffix(data[i], LOCK_ACK_SUFFIX) {
-			continue
-		}
-
-		if strings.HasSuffix(data[i], LOCK_NACK_SUFFIX) {
-			continue
-		}
-
-		if strings.HasSuffix(data[i], LOCK_NACK_SCORE_SUFFIX) {
-			continue
-		}
-
-		if strings.HasSuffix(data[i], LOCK_ACK_SCORE_SUFFIX) {
-			continue
-		}
-
-		result = append(result, data[i])
-	}
-
-	return result
-}
-
 func (cache *RedisCache) MakeAvailable(ctx context.Context, message *message.Message) (bool, error) {
 	if message.Queue == "" {
 		return false, errors.New("invalid message queue")
-- 
2.43.0


From df3c036964e0398ee7adbf5b8ae6109decdae1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 25/35] fix: wildcards in the configured Redis prefix stand for
 themselves

---
 internal/queue/cache/redis_cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 66d8e6e..9d5e8f6 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -281,7 +281,7 @@ func (cache *RedisCache) Flush(ctx context.Context) {
 		metrics.CacheLatency.Record(ctx, dtime.ElapsedTime(now), metric.WithAttributes(attribute.String("op", "flush")))
 	}()
 
-	pattern := cache.fullPrefix() + ":*"
+	pattern := escapePattern(cache.fullPrefix()) + ":*"
 
 	// Delete only this Deckard instance namespace. Never call FLUSHDB, since users may share
 	// the same Redis with other applications (or another Deckard with a different prefix).
@@ -378,6 +378,9 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		searchPattern = cache.lockPool(pattern, LOCK_NACK)
 	}
 
+	// only the queue pattern may contain wildcards, not the configured prefix
+	searchPattern = escapePattern(cache.poolPrefix()) + strings.TrimPrefix(searchPattern, cache.poolPrefix())
+
 	// Use SCAN instead of KEYS to avoid blocking Redis.
 	//
 	// SCAN is a "keyless" command, so in cluster mode go-redis cannot route it by hash slot: it
@@ -505,6 +508,13 @@ func deleteByPattern(ctx context.Context, client redis.Cmdable, pattern string)
 	return nil
 }
 
+var patternEscaper = strings.NewReplacer(`\`, `\\`, "*", `\*`, "?", `\?`, "[", `\[`)
+
+// escapePattern returns the Redis pattern which matches exactly the given text.
+func escapePattern(text string) string {
+	return patternEscaper.Replace(text)
+}
+
 func uniqStrings(values []string) []string {
 	seen := make(map[string]struct{}, len(values))
 	result := make([]string, 0, len(values))
-- 
2.43.0


From 6bded497f34c0c454d4ee248d460ace8e0e35728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 26/35] fix: the MongoDB storage fails a request that adds no
 message

---
 internal/queue/storage/mongo_storage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 6c06a87..29bdc9a 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -450,6 +450,10 @@ func attemptChunkDeletion(ctx context.Context, i int, ids []string, queue string
 }
 
 func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Message) (insertedCount int64, modifiedCount int64, err error) {
+	if len(messages) == 0 {
+		return 0, 0, nil
+	}
+
 	updates := make([]mongo.WriteModel, 0, len(messages))
 
 	now := dtime.Now()
-- 
2.43.0


From b5588a652d4bcd125943bc07e77744baa1955463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 27/35] fix: the audit sender sends the entries still queued at
 shutdown and lets background tasks store more

---
 internal/audit/audit.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 1263d61..806f9bd 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -51,6 +51,7 @@ type Auditor interface {
 type AuditorImpl struct {
 	api           *esapi.API
 	entries       chan Entry
+	finished      chan struct{} // closed when entries are not sent anymore
 	waitGroup     *sync.WaitGroup
 	enabled       bool
 	senderStarted bool
@@ -96,6 +97,7 @@ func NewAuditor(waitGroup *sync.WaitGroup) (*AuditorImpl, error) {
 	return &AuditorImpl{
 		api:       api,
 		entries:   make(chan Entry, 10000),
+		finished:  make(chan struct{}),
 		waitGroup: waitGroup,
 		enabled:   true,
 	}, nil
@@ -132,7 +134,18 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-			close(a.entries)
+			// Background tasks may still be storing entries
+			close(a.finished)
+
+			for len(a.entries) > 0 {
+				entriesToSend = append(entriesToSend, <-a.entries)
+
+				if len(entriesToSend) == maxEntriesSize {
+					a.send(ctx, entriesToSend...)
+
+					entriesToSend = make([]Entry, 0, maxEntriesSize)
+				}
+			}
 
 			a.send(ctx, entriesToSend...)
 
@@ -206,5 +219,8 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 		metrics.AuditorAddToStoreLatency.Record(ctx, dtime.ElapsedTime(entry.Timestamp))
 	}()
 
-	a.entries <- entry
+	select {
+	case a.entries <- entry:
+	case <-a.finished:
+	}
 }
-- 
2.43.0


From 9d9cfd298528f0f269b36e6f720d91d62abda227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 28/35] fix: the in-memory storage keeps its own copy of an
 added message

---
 internal/queue/storage/memory_storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 1bcb4f4..a4df70c 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -125,7 +125,9 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].InternalId = storage.internalCounter
 			now := dtime.Now()
 			messages[i].LastUsage = &now
-			storage.docs[key] = messages[i]
+			// the caller goes on using its message
+			stored := *messages[i]
+			storage.docs[key] = &stored
 		}
 
 		storage.lock.Unlock()
-- 
2.43.0


From a69b64c506879df54131dc1e2d1baece70a5837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 29/35] fix: an edited queue configuration is not hidden by a
 read made at the same time

---
 internal/queue/queue_configuration_service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index fe02e30..b316e59 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -2,6 +2,7 @@ package queue
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -17,6 +18,9 @@ type QueueConfigurationService interface {
 type DefaultQueueConfigurationService struct {
 	storage    storage.Storage
 	localCache *cache.Cache
+
+	// lock keeps a value read from the storage before an edit out of the local cache after it
+	lock sync.Mutex
 }
 
 func NewQueueConfigurationService(_ context.Context, storage storage.Storage) *DefaultQueueConfigurationService {
@@ -39,6 +43,9 @@ func (queueService *DefaultQueueConfigurationService) EditQueueConfiguration(ctx
 		return nil
 	}
 
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
 	config, found := queueService.localCache.Get(cfg.Queue)
 
 	if !found {
@@ -64,6 +71,9 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 		return cacheConfig.(*configuration.QueueConfiguration), nil
 	}
 
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
 	var err error
 	var config *configuration.QueueConfiguration
 
-- 
2.43.0


From 9c4dadb17f23f845cb5dfb2c5c8410f230ca6876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:21 +0000
Subject: [PATCH 30/35] fix: MongoDB clients of failed connection attempts are
 closed

---
 internal/queue/storage/mongo_storage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 29bdc9a..5018bc3 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -76,6 +76,10 @@ func NewMongoStorage(ctx context.Context) (*MongoStorage, error) {
 	mongoPrimaryOptions.SetReadPreference(readpref.PrimaryPreferred())
 	clientPrimaryPreference, err := waitForClient(ctx, mongoPrimaryOptions)
 	if err != nil {
+		if closeErr := clientSecondaryPreference.Disconnect(ctx); closeErr != nil {
+			err = errors.Join(err, closeErr)
+		}
+
 		return nil, err
 	}
 
@@ -178,6 +182,10 @@ func createClient(ctx context.Context, opts *options.ClientOptions) (*mongo.Clie
 
 	err = client.Ping(ctx, readpref.SecondaryPreferred())
 	if err != nil {
+		if closeErr := client.Disconnect(ctx); closeErr != nil {
+			err = errors.Join(err, closeErr)
+		}
+
 		return nil, fmt.Errorf("error pinging client: %w", err)
 	}
 
-- 
2.43.0


From 1a520b255129ba2fa30801e86e61b4e00fbb378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:21 +0000
Subject: [PATCH 31/35] fix: count only the messages that are really missing
 from the storage

deckard_messages_not_found_in_storage also counted the messages that the
retry of a pull did find and deliver.
---
 internal/queue/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 46be8cf..0e6e88c 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -350,7 +350,7 @@ func (pool *Queue) Pull(ctx context.Context, queue string, n int64, minScore *fl
 	}
 
 	if len(retryNotFound) > 0 {
-		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(notFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
+		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(retryNotFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
 
 		for _, id := range retryNotFound {
 			pool.auditor.Store(ctx, audit.Entry{
-- 
2.43.0


From 6d5e0962c7bb5e4b94aefac38b85af6a64120d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 32/35] fix: do not serve plain text when only one of
 certificate and key is configured

A TLS configuration with only the certificate or only the key was taken
as none, and the server started without encryption.
---
 internal/service/deckard_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2bd4bf0..5665a20 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -134,7 +134,7 @@ func loadTLSCredentials() (credentials.TransportCredentials, error) {
 	certPath := config.TlsServerCertFilePaths.Get()
 	keyPath := config.TlsServerKeyFilePaths.Get()
 
-	if certPath == "" || keyPath == "" {
+	if certPath == "" && keyPath == "" {
 		return nil, nil
 	}
 
-- 
2.43.0


From 01749f935c350167146581d2863a63dcc1df3550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 33/35] fix: forget the queue configurations read so far when
 flushing

After a flush of an in-memory instance the local copies of the queue
configurations were kept: GetQueue returned a limit no longer stored, and
an EditQueue with that same limit was skipped as unchanged.
---
 internal/queue/queue.go                       |  4 ++++
 internal/queue/queue_configuration_service.go | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 0e6e88c..cb1ab0b 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -444,6 +444,10 @@ func (pool *Queue) Flush(ctx context.Context) (bool, error) {
 		return false, err
 	}
 
+	if pool.QueueConfigurationService != nil {
+		pool.QueueConfigurationService.Flush(ctx)
+	}
+
 	return true, err
 }
 
diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index b316e59..2a56d97 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -13,6 +13,9 @@ import (
 type QueueConfigurationService interface {
 	EditQueueConfiguration(ctx context.Context, configuration *configuration.QueueConfiguration) error
 	GetQueueConfiguration(ctx context.Context, queue string) (*configuration.QueueConfiguration, error)
+
+	// Flush forgets the configurations read so far, after the storage has been flushed.
+	Flush(ctx context.Context)
 }
 
 type DefaultQueueConfigurationService struct {
@@ -93,3 +96,10 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 
 	return config, nil
 }
+
+func (queueService *DefaultQueueConfigurationService) Flush(_ context.Context) {
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
+	queueService.localCache.Flush()
+}
-- 
2.43.0


From b22cf90de12a438868a02fbeb122c5de8b39d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:17 +0000
Subject: [PATCH 34/35] fix: take a score to subtract that is not a number as
 not given

An ack or nack with score_subtract NaN stored NaN as the message's score
in the cache (and as its accumulated subtraction in the storage): the
order of the queue was broken, and Redis refused the command.
---
 internal/queue/score/score.go       |  9 +++++++++
 internal/service/deckard_service.go | 10 +++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 093e600..9b09453 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -102,3 +102,12 @@ func IsUndefined(score float64) bool {
 func IsGiven(requestScore float64) bool {
 	return requestScore != 0 && !math.IsNaN(requestScore)
 }
+
+// GetScoreSubtract returns the value to subtract from the score, or zero if it is not a number
+func GetScoreSubtract(requestScoreSubtract float64) float64 {
+	if math.IsNaN(requestScoreSubtract) {
+		return 0
+	}
+
+	return requestScoreSubtract
+}
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 5665a20..ab11fe4 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -569,6 +569,8 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 		attribute.Float64(trace.Score, request.Score),
 	)
 
+	scoreSubtract := score.GetScoreSubtract(request.ScoreSubtract)
+
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.Undefined
@@ -576,7 +578,7 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 		newScore = score.GetAddScore(request.Score)
 
 	} else if request.LockMs <= 0 {
-		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
+		newScore = score.GetScoreByDefaultAlgorithm() - scoreSubtract
 
 		if newScore < score.Min {
 			newScore = score.Min
@@ -589,7 +591,7 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	message := message.Message{
 		ID:                request.Id,
 		Queue:             request.Queue,
-		LastScoreSubtract: request.ScoreSubtract,
+		LastScoreSubtract: scoreSubtract,
 		LastUsage:         &now,
 		Score:             newScore,
 		Breakpoint:        request.Breakpoint,
@@ -618,6 +620,8 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 		attribute.StringSlice(trace.Queue, []string{request.Queue}),
 	)
 
+	scoreSubtract := score.GetScoreSubtract(request.ScoreSubtract)
+
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.Undefined
@@ -631,7 +635,7 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	message := message.Message{
 		ID:                request.Id,
 		Queue:             request.Queue,
-		LastScoreSubtract: request.ScoreSubtract,
+		LastScoreSubtract: scoreSubtract,
 		Breakpoint:        request.Breakpoint,
 		LockMs:            request.LockMs,
 		Score:             newScore,
-- 
2.43.0


From ca2c4f03aaf3e2199a05e9b4a5ea8969cf37dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:37 +0000
Subject: [PATCH 35/35] fix: give every metric series valid labels, each of
 them once

---
 internal/metrics/metrics.go  | 66 ++++++++++++++++++++++++------------
 internal/metrics/registry.go |  6 +++-
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 3faf047..181d57f 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -133,46 +133,68 @@ func ListenAndServe() {
 	}
 }
 
+// createDefaultMetrics returns the labels of every series: the resource attributes of the environment and the
+// name and the version of the service. Each label is there once: Prometheus refuses a page with repeated labels.
 func createDefaultMetrics() []*dto.LabelPair {
 	result := make([]*dto.LabelPair, 0)
 
-	strPtr := func(s string) *string { return &s }
+	add := func(attribute string, value string) {
+		name := labelName(attribute)
 
-	otelAttributes := os.Getenv("OTEL_RESOURCE_ATTRIBUTES")
-
-	if !strings.Contains(otelAttributes, "service.version") {
-		if otelAttributes != "" {
-			otelAttributes = otelAttributes + ","
+		if name != "" && !hasLabel(result, name) {
+			result = append(result, &dto.LabelPair{Name: &name, Value: &value})
 		}
+	}
 
-		otelAttributes = otelAttributes + "service.version=" + project.Version
+	// OTEL_SERVICE_NAME takes precedence over the attribute
+	if otelServiceName := os.Getenv("OTEL_SERVICE_NAME"); otelServiceName != "" {
+		add("service.name", otelServiceName)
 	}
 
-	attributes := strings.Split(otelAttributes, ",")
+	attributes := strings.Split(os.Getenv("OTEL_RESOURCE_ATTRIBUTES"), ",")
 	for _, attribute := range attributes {
-		parts := strings.Split(attribute, "=")
+		key, value, found := strings.Cut(attribute, "=")
 
-		if len(parts) != 2 {
+		if !found {
 			continue
 		}
 
-		result = append(result, &dto.LabelPair{
-			Name:  strPtr(strings.Replace(parts[0], ".", "_", -1)),
-			Value: strPtr(parts[1]),
-		})
+		add(strings.TrimSpace(key), strings.TrimSpace(value))
+	}
+
+	add("service.version", project.Version)
+	add("service.name", project.Name)
+
+	return result
+}
+
+// labelName returns an attribute's name with everything replaced which the name of a label can't have.
+func labelName(attribute string) string {
+	name := []byte(attribute)
+
+	for i, c := range name {
+		letter := (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
+
+		if !letter && (c < '0' || c > '9') {
+			name[i] = '_'
+		}
 	}
 
-	otelServiceName := os.Getenv("OTEL_SERVICE_NAME")
-	if otelServiceName == "" {
-		otelServiceName = project.Name
+	if len(name) > 0 && name[0] >= '0' && name[0] <= '9' {
+		return "_" + string(name)
 	}
 
-	result = append(result, &dto.LabelPair{
-		Name:  strPtr("service_name"),
-		Value: strPtr(otelServiceName),
-	})
+	return string(name)
+}
+
+func hasLabel(labels []*dto.LabelPair, name string) bool {
+	for _, label := range labels {
+		if label.GetName() == name {
+			return true
+		}
+	}
 
-	return result
+	return false
 }
 
 func createMetrics() {
diff --git a/internal/metrics/registry.go b/internal/metrics/registry.go
index e976d2b..661d034 100644
--- a/internal/metrics/registry.go
+++ b/internal/metrics/registry.go
@@ -36,7 +36,11 @@ func (wr *WrappedRegistry) Gather() ([]*dto.MetricFamily, error) {
 		}
 
 		for _, m := range f.Metric {
-			m.Label = append(m.Label, wr.labels...)
+			for _, label := range wr.labels {
+				if !hasLabel(m.Label, label.GetName()) {
+					m.Label = append(m.Label, label)
+				}
+			}
 		}
 	}
 
-- 
2.43.0

