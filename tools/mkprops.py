#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of truth for statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or []}})
S="internal/service/deckard_service.go"; MC="internal/queue/cache/memory_cache.go"; MS="internal/queue/storage/memory_storage.go"
RC="internal/queue/cache/redis_cache.go"; RL="internal/queue/cache/redis_cache_scripts.go"; MO="internal/queue/storage/mongo_storage.go"
Q="internal/queue/queue.go"; H="internal/queue/queue_housekeeper.go"; SC="internal/queue/score/score.go"; DT="internal/dtime/deckard_time.go"
p("P01","Client scores are normalised into the documented range",
  "A message added with score 0 gets the current time in milliseconds as its score; any other score is kept if it lies between 0 and 9007199254740992 and is otherwise capped to the nearer of these two bounds, and a score that is not a number never enters a queue. Pull filter bounds follow the same range: 0 means no filter, other values are capped into the range.",
  ["inputs"],"every float64 (including infinities, NaN, -0, subnormals) and every clock value in the supported range",
  "tests sample about a dozen scores; the claim is about every 64-bit float pattern and clock value",
  [SC,DT,S],[("GetAddScore / GetPullMinScore / GetPullMaxScore",SC),("Add, Pull request handling",S)],["score package API","Deckard.Add/Pull"])
p("P02","Pull hands out the lowest-score eligible messages, in order",
  "A pull of n messages from a queue returns, in ascending score order, the min(n, eligible) available messages with the lowest scores among those inside the requested inclusive score bounds, and nothing else. Messages that are not returned stay available with their score unchanged.",
  ["inputs","histories"],"every set of available messages and scores, every n, every pair of optional bounds",
  "tests pull from a few fixed queues; filters combined with n smaller than the queue, ties and reordering are not sampled",
  [MC,RC,RL],[("PullMessages",MC),("pull script",RL)],["Cache.PullMessages"])
p("P03","A message is delivered to at most one consumer at a time",
  "Once a message has been handed to a consumer no later pull returns it until it has been acknowledged, negatively acknowledged or timed out (and, if locked, unlocked), whatever the interleaving of operations. A message is in at most one of the states available, processing, locked, and no operation other than removal or flush makes a stored message leave all of them.",
  ["histories","schedules","inputs"],"every state satisfying the pool invariant and every single operation from it (inductive step), hence histories of any length",
  "tests follow a handful of linear histories; the invariant has to hold from every reachable state for every operation",
  [MC,RC,RL],[("pool lists guarded by one mutex",MC),("Lua scripts moving members atomically",RL)],["Cache interface"])
p("P04","Unanswered messages come back exactly when their deadline passes",
  "A pulled message whose acknowledgement deadline (the requested milliseconds, or 5 minutes when 0) has passed is made available again by the next timeout pass with the highest priority, all such messages of the queue in one pass, and their identifiers are reported. A message whose deadline has not passed is never taken away from its consumer.",
  ["inputs","histories"],"every processing set, every positive deadline and every clock value within the stated range",
  "tests use one clock value and one or two messages, so unit errors and partial passes are invisible",
  [MC,RC,RL,Q],[("PullMessages deadline / TimeoutMessages",MC),("timeout script",RL)],["Cache.PullMessages","Cache.TimeoutMessages"])
p("P05","Locked messages stay hidden for the lock time and are then all released",
  "A message locked for d milliseconds is not available before d milliseconds have passed, and the first unlock pass for its queue and lock kind after that makes it available: with the score given with the lock, otherwise the current time for an acknowledgement lock and the minimum score for a negative one. One pass releases every expired message of that queue and kind, reports exactly those, and touches no other queue and no other lock kind.",
  ["inputs","histories"],"every set of locked messages over several queues and both kinds, every lock time, score and clock value within the stated range",
  "tests unlock one message of one queue; several expired messages or queues in one pass are not sampled",
  [MC,RC,RL,H],[("LockMessage / UnlockMessages",MC),("lock and unlock scripts",RL)],["Cache.LockMessage","Cache.UnlockMessages"])
p("P06","Adding is idempotent: a message already held is not queued twice",
  "Adding a message that is available, processing or locked changes neither its state nor its score and is not reported as an insertion; adding one that is in none of these states makes it available with the given score and reports it. A batch is inserted completely or, if any message belongs to another queue, not at all.",
  ["inputs","histories"],"every pre-state satisfying the pool invariant, every batch up to the stated size including repeated identifiers",
  "tests insert into a few prepared states only",
  [MC,RC,RL,Q],[("Insert",MC),("add script",RL),("AddMessagesToCache",Q)],["Cache.Insert"])
p("P07","Removal removes exactly the requested messages everywhere",
  "Removing identifiers from a queue deletes exactly the messages with those identifiers in that queue from storage and from every state of the cache (available, processing, locked, remembered lock scores), counting each message once; all other messages and queues are untouched. A removed message is not delivered by a later pull, timeout or unlock unless it is added again.",
  ["inputs","histories"],"every content of storage and cache, every identifier list (empty, repeated, absent) up to the stated sizes",
  "tests remove one or two messages from one queue",
  [MC,MS,RC,RL,MO,Q],[("Remove",Q),("Remove",MC),("Remove",MS),("remove script",RL)],["Queue.Remove","Deckard.Remove"])
p("P08","Queues are isolated: a message is identified by queue and identifier",
  "Two messages with different queue or different identifier never share a stored document, cache entry or key, for any characters in the names; an operation on one queue never changes or returns messages of another.",
  ["inputs"],"every pair of (queue, identifier) strings up to the stated lengths over all byte values, and every operation",
  "tests use plain names without separators, so key collisions cannot appear",
  [MS,MC,RC],[("document key",MS),("redis pool keys",RC)],["Storage and Cache interfaces"])
p("P09","Messages expire when their TTL passes, and not before",
  "A message added with a TTL of t minutes (counted up to the longest duration Go can hold, about 292 years) expires t minutes after it was added, a timeless one not for a hundred years; the TTL task removes from storage and cache exactly messages whose expiry is not after the given time. The oldest expired messages go first when there are more than one pass handles.",
  ["inputs","histories"],"every TTL value, clock value and set of expiry dates within the stated bounds",
  "tests use one or two TTL values; overflow and boundary times are not sampled",
  [S,MS,H,MO],[("Add expiry computation",S),("RemoveTTLMessages",H),("Find with expiry filter",MS)],["Deckard.Add","RemoveTTLMessages"])
p("P10","The maximum-elements limit is enforced on the right messages only",
  "After the max-elements task a queue with a positive limit holds at most that many messages, exactly the excess was removed, and what was removed are the messages that expire first; queues without a limit or within it are untouched.",
  ["inputs","histories"],"every queue content, expiry order (ties and already expired messages included) and limit within the stated bounds",
  "tests check one queue with distinct live expiry dates",
  [H,MS,Q],[("RemoveExceedingMessages",H),("Count / Find",MS)],["RemoveExceedingMessages"])
p("P11","Cache recovery restores every stored message and always finishes",
  "After the cache is lost, repeating the recovery task makes every message that was in storage when recovery began present in the cache, without disturbing messages already there, even if any of its steps fails or the process restarts between steps. When it is finished the recovering mark is cleared, and while it runs no message is removed for TTL or size.",
  ["crash_points","fault_sequences","histories"],"every storage content and cache content up to the stated size, a failure or crash at every cache or storage call of the task",
  "tests run the task once without faults or crashes",
  [H,Q,MS],[("RecoveryMessagesPool / tryToStartRecovery",H)],["RecoveryMessagesPool","RemoveTTLMessages","RemoveExceedingMessages"])
p("P12","An acknowledged add is stored and deliverable; a failed add is retryable",
  "When adding messages succeeds every one of them is in storage and available in (or already held by) the cache; nothing enters the cache before it is in storage. When it fails at any step an error is returned, and repeating the same request succeeds and leaves the same result as if the first attempt had not happened.",
  ["fault_sequences","crash_points","inputs"],"a failure at every storage or cache call, every batch of messages over several queues up to the stated size",
  "tests inject one or two mock errors and do not look at the state left behind",
  [S,Q,MS,MC],[("Add",S),("AddMessagesToStorage / AddMessagesToCache",Q)],["Deckard.Add"])
p("P13","Pull returns complete messages and repairs cache/storage disagreement",
  "A pull returns for every message taken from the cache its stored document, once each and by ascending score; messages that storage does not have even on the consistent second read are dropped from the cache, audited as missing and not returned, and no others are. If storage fails the pull fails and every taken message is still redelivered after its deadline.",
  ["fault_sequences","inputs"],"every pattern of found/missing/late documents and failures for pulls up to the stated size",
  "mock tests fix one pattern of missing documents each",
  [Q],[("Pull / getFromStorage",Q)],["Queue.Pull"])
p("P14","Ack and nack put the message in the state the request asks for",
  "Acknowledging (negatively) a processing message without lock makes it available with the requested score, or by default with the current time less the score subtraction for an ack and the minimum score for a nack, capped into the score range; with a lock it is hidden for the lock time; with the remove flag it is gone from storage and cache. Acknowledging a message that is not processing never makes it available or locked, and a request without queue or identifier is rejected without effect.",
  ["inputs","histories"],"every request (score, score subtraction, lock time, flags) and every state of the message",
  "tests check single requests against mocks; score, lock and state combinations are not covered",
  [S,Q,MC,SC],[("Ack / Nack",S),("Ack / Nack",Q),("MakeAvailable / LockMessage",MC)],["Deckard.Ack","Deckard.Nack"])
p("P15","Delivery diagnostics count every ack and nack",
  "Each ack of a stored message adds one to its total and consecutive acks, resets its consecutive nacks and adds the score subtraction to the running total; each nack does the mirror image for nacks; neither touches other messages or payload data. Messages already returned to a client are not changed by later operations.",
  ["inputs","histories"],"every stored document (with or without earlier counters) and every ack/nack",
  "tests follow one short ack/nack sequence on one message",
  [MS,MO,S],[("Ack / Nack",MS),("update documents",MO)],["Storage.Ack","Storage.Nack","Storage.Find"])
p("P16","Queue configuration edits take effect and are read back",
  "After editing a queue with a positive limit reads of its configuration return that limit, a negative limit removes it, a limit of 0 changes nothing, and no edit changes another queue. A failed edit is reported and leaves the stored configuration as it was.",
  ["inputs","histories","fault_sequences"],"every short history of edits and reads with arbitrary limits, storage failing at any call",
  "tests make one edit against mocks",
  ["internal/queue/queue_configuration_service.go",MS,S],[("EditQueueConfiguration / GetQueueConfiguration","internal/queue/queue_configuration_service.go")],["Deckard.EditQueue","Deckard.GetQueue"])
p("P17","Configuration values resolve from name, aliases and default",
  "A setting provided under its main name wins over its aliases, an alias wins over the default, and without either the documented default is used, for strings, numbers, booleans and durations alike; a duration that cannot be parsed gives the default. A value set at run time is what every later read returns.",
  ["configurations","inputs"],"every setting the program defines and every assignment of values to its main name and aliases up to the stated sizes",
  "tests set one alias at a time with one value",
  ["internal/config/viper_config.go","internal/config/config.go","internal/config/cache.go","internal/config/storage.go"],[("getWithFallback","internal/config/viper_config.go"),("Create / Configure","internal/config/config.go")],["config package API"])
p("P18","In-memory backends are safe under concurrent use",
  "Concurrent operations on the in-memory storage and cache have the effect of some one-after-another order of the same operations, without data race, deadlock, panic or lost lock, whatever the interleaving and including operations that fail.",
  ["schedules"],"every interleaving (within the stated preemption bound) of two or three concurrent operations from arbitrary small states",
  "tests run operations one after another",
  [MS,MC],[("RWMutex",MS),("Mutex",MC)],["Storage and Cache interfaces"])
p("P19","Every delivery event is audited once, and queued entries reach the audit store",
  "Each effective add, ack, nack, timeout, unlock, removal and missing document produces exactly one audit entry naming the right message, queue and event, and failed operations produce none. With auditing enabled every entry accepted is sent once, in order, in well-formed batches, including those still queued at shutdown; with auditing disabled storing is a no-op that never blocks.",
  ["histories","schedules","fault_sequences"],"every operation outcome, and every number and timing of entries around shutdown within the stated bounds",
  "tests look at single entries; the shutdown path is not exercised with queued entries",
  ["internal/audit/audit.go",Q,H],[("Store / StartSender / send","internal/audit/audit.go")],["Auditor","audit sink"])
p("P20","The Redis cache obeys the same contract as the in-memory cache",
  "For every state and every cache operation the Redis implementation - its Go code together with the scripts it runs - returns the same result and leaves the same available, processing and locked messages with the same scores and times as the documented cache contract.",
  ["inputs","histories"],"every pool state over a few identifiers and queues, every operation and argument within the stated bounds",
  "the Redis tests need a server and are not run; they sample a few states",
  [RC,RL],[("Go wrapper",RC),("Lua scripts",RL)],["RedisCache API over a modelled server"])
p("P21","The MongoDB storage obeys the same contract as the in-memory storage",
  "For every request the MongoDB storage issues commands that select, update, sort, limit and count exactly the documents the storage contract names: upsert by queue and identifier without resetting score or usage, counters incremented, removal complete for any number of identifiers, reads limited and sorted as asked.",
  ["inputs"],"every filter, sort, projection, message and identifier list within the stated bounds",
  "the MongoDB tests need a server and are not run; unit tests check a few filters",
  [MO],[("getMongoMessage / getMongoSort","internal/queue/storage/mongo_storage.go"),("Insert / Ack / Nack / Remove",MO)],["commands at the driver boundary"])
p("P22","Queue names split into prefix and suffix at the first separator",
  "The prefix of a queue name is everything before the first '::' and the suffix everything after it; a name without '::' is its own prefix with an empty suffix; joining both with '::' gives the name back. Every stored message and audit entry carries the prefix and suffix of its own queue.",
  ["inputs"],"every byte string up to the stated length",
  "tests use four names",
  ["internal/queue/message/message.go",S,"internal/audit/audit.go"],[("GetQueueParts","internal/queue/message/message.go")],["message package API","Deckard.Add","audit entries"])
p("P23","Reported queue metrics are those of the current queues",
  "After each metrics pass every queue (by prefix) reports its current number of messages and the age of its least recently used one, a queue that has vanished reports zero instead of its last value, and values of one queue are never reported for another. Configured histogram buckets are used as given, and any malformed list falls back to the default as a whole.",
  ["histories","inputs"],"every sequence of two metric maps over a few queues, every bucket string up to the stated length",
  "tests check single maps",
  ["internal/metrics/metrics_map.go","internal/metrics/metrics.go",H],[("mergeData","internal/metrics/metrics_map.go"),("ComputeMetrics",H)],["MetricsMap","histogram buckets"])
p("P24","Shutdown stops background work in order and waits for it",
  "Once shutdown has started no new background task run begins, runs in progress finish, critical work finishes before the context is cancelled, and shutdown is reported finished only after all background work has ended. Housekeeping passes stop between queues when shutdown starts, leaving no message half moved.",
  ["schedules"],"every interleaving (within the stated preemption bound) of shutdown with a running or due task",
  "tests trigger shutdown at one moment only",
  ["internal/shutdown/shutdown.go","internal/cmd/deckard/main.go",H],[("PerformShutdown","internal/shutdown/shutdown.go"),("scheduleTask","internal/cmd/deckard/main.go")],["shutdown package API"])
p("P25","Millisecond timestamps convert exactly both ways",
  "Converting milliseconds since the epoch to a time and back gives the same number; converting a time to milliseconds and back gives that time truncated to whole milliseconds, and later times never get smaller millisecond values.",
  ["inputs"],"every millisecond value within the supported range of years, before and after the epoch",
  "tests check a few instants",
  [DT],[("MsToTime / TimeToMs / MsPrecision",DT)],["dtime package API"])
p("P26","A message comes back as it was added",
  "Pulling or getting a message returns the identifier, queue, payload, string payload, metadata, description and score it was added (or last updated) with, whatever the values; adding it again updates its content without resetting its score, counters or position. Counting and lookup agree with what is stored, and pull amounts outside 1..1000 are brought into that range.",
  ["inputs","histories"],"every message content and request within the stated bounds",
  "tests round-trip one message",
  [S,MS,Q],[("Add / Pull / GetById / Count",S),("Insert / Find",MS)],["Deckard API"])
p("P27","Storage reads return exactly the matching messages, ordered and limited",
  "A storage read returns exactly the messages matching every given filter (queue, prefix, identifiers, internal-id range, expiry), in the requested order with ties by insertion order, cut to the limit after ordering; counting with the same filter counts all matching messages. Expired messages are left out of reads unless the filter asks for an expiry date. Results do not depend on internal iteration order.",
  ["inputs"],"every content of up to the stated number of messages, every filter, sort key, direction and limit",
  "tests read from one prepared content; iteration order is random so order-dependent bugs pass by luck",
  [MS],[("Find / Count / matchesInternalFilter",MS)],["Storage.Find","Storage.Count"])
p("P28","One queue's failure does not stop housekeeping of the others",
  "If the cache or storage fails for one queue during a timeout, unlock, size-limit or metrics pass, the pass still handles every other queue, reports only what it really did, and the failed queue is handled by the next pass.",
  ["fault_sequences"],"every combination of failing queues in a pass over up to the stated number of queues",
  "tests use one queue or one error",
  [H,Q],[("ProcessTimeoutMessages / ProcessLockPool / RemoveExceedingMessages / ComputeMetrics",H)],["housekeeper tasks"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
