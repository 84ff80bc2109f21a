# What is claimed per property: the assurance and its bounds (used by mkmanifest.py).
TRUST = ("Trusted: the symbolic interpreter of /verif/engine (sampled paths and every counterexample are re-run natively and compared), the SMT solvers, "
         "and the library models listed in DESIGN.md.")
NA = {}
CLAIMS = {
"P01": {"note": "Every float64 bit pattern and every clock value for the score functions, and for the messages, answers and pull bounds the service handles.",
        "bounds": "scores: all 2^64 patterns; clock 1970-2096 in milliseconds."},
"P02": {"note": "Pull on both caches compared with the contract for every set of scores, bounds and amounts; what a request asks of the queue, for every request; pulls through the queue with late reads and failures.",
        "bounds": "up to 3 (thorough 4) available messages, amounts 0..4 (5), optional bounds anywhere in the score range; plus 2 messages of other states and another queue."},
"P03": {"note": "One (and two) arbitrary cache operations from an arbitrary cache state, then the whole state is compared with the contract, on both caches: an inductive step, so histories of any length over this many messages.",
        "bounds": "up to 2 messages of a queue (thorough 3) in any state, all scores, deadlines and lock times up to a century, clocks 1970-2096."},
"P04": {"note": "Timeout passes at arbitrary times over arbitrary processing sets, on both caches.",
        "bounds": "up to 3 (thorough 4) messages, deadlines 0..a century, clocks 1970-2096, another queue and locked messages present."},
"P05": {"note": "Lock and unlock passes at arbitrary times over arbitrary locked sets, on both caches.",
        "bounds": "up to 3 (thorough 4) locked messages, two queues, both lock kinds, lock times up to a century, clocks 1970-2096."},
"P06": {"note": "Insertion of arbitrary batches into arbitrary cache states, on both caches.",
        "bounds": "up to 2 messages present in any state, batches up to 3 (thorough 4) with repetitions and foreign queues."},
"P07": {"note": "Removal of arbitrary identifier lists from arbitrary cache states, on both caches.",
        "bounds": "up to 3 messages in any state and another queue, lists of up to 2 identifiers with repetitions and absent ones."},
"P08": {"note": "Operations on queues and identifiers with arbitrary distinct names, on both caches and the in-memory storage.",
        "bounds": "names of up to 3 bytes (identifiers 2; Redis 1, thorough 2), every byte value, and names that look like keys or patterns; one arbitrary operation from any state."},
"P22": {"note": "Every byte string up to the bound, against an independent definition of the split.",
        "bounds": "names of up to 7 bytes, every byte value."},
"P25": {"note": "Both conversions and the current time for every instant of the range.",
        "bounds": "instants between the years 1678 and 2262 (the range of UnixNano), nanosecond resolution."},
"P12": {"note": "The service's Add over real queue, cache and storage code with a failure (before or after taking effect) or a crash at any call, any grouping order, and the repeated request.",
        "bounds": "requests of up to 2 (thorough 3) messages over two queues with repetitions, prior states absent/stored/available/processing/locked, one failure or crash, one repetition."},
"P13": {"note": "Queue.Pull over real cache and storage code where storage misses messages always, only on the first read, or fails at any call.",
        "bounds": "up to 3 messages taken from the cache, each present, missing, or visible on the second read only; one failure; all scores."},
"P14": {"note": "Every ack/nack request on every state of the message, with a failure at any call.",
        "bounds": "one message in any state plus bystanders, all requested scores, lock times and subtractions, one failure."},
"P15": {"note": "One ack/nack on arbitrary counters in storage (inductive), sequences through the service.",
        "bounds": "counters up to 2^40, sequences of 2 (thorough 4) answers through pull/ack/nack."},
"P16": {"note": "Histories of edits and reads through the service with the storage failing at any call; edits from an arbitrary stored configuration in the in-memory storage; an edit at the same time as a read or another edit.",
        "bounds": "two queues, every limit value, up to 3 (thorough 4) requests with 1 (2) failures, 2 (3) edits of the storage, 1 (3) preemptions."},
"P26": {"note": "Insertion into arbitrary stored state, field by field; add, repeated add, pull and lookup through the service.",
        "bounds": "up to 3 stored messages, strings up to 2 symbolic bytes, pull amounts over the whole int32 range."},
"P27": {"note": "Find and Count over arbitrary stored messages and filters against an independent definition.",
        "bounds": "up to 3 stored messages, every filter combination, sort by each supported field and direction, limits -1..4."},
"P09": {"note": "TTL of a message from the request to the stored expiry date; the TTL pass over arbitrary stored messages and clocks, in pages and with a failure at any call.",
        "bounds": "up to 2 (thorough 3) messages in two queues, every expiry instant and clock of the range, pages of 1 or 2, one failure."},
"P10": {"note": "The size pass over arbitrary queue contents and limits.",
        "bounds": "up to 3 (thorough 4) messages, every limit value, with and without expired messages (known finding for those), one failure."},
"P11": {"note": "Marking, recovering and finishing through the real service, cache and storage code with the cache lost, failures and crashes at any call.",
        "bounds": "up to 2 (thorough 3) stored messages, 1 (thorough 2) failures or crashes, pages of 1 up to 3 messages; the whole process restarted on a lost Redis with one failing command."},
"P28": {"note": "Each periodic pass with one queue's calls failing, and the metrics reported after a pass.",
        "bounds": "2 (thorough 3) queues, one failure at any call of the pass."},
"P23": {"note": "The real pass over the real in-memory storage, read through the exporter's callbacks; scrapes interleaved with a pass; shutdown at any storage call; histogram buckets of every short list.",
        "bounds": "up to 2 (thorough 3) messages in queues of two prefixes, two passes with one change in between, 1 (thorough 2) preemptions, bucket lists up to 3 (thorough 4) characters of digits, comma, blank, minus and a letter."},
"P24": {"note": "The real main package (copied from the tree on every run) and shutdown package under explored interleavings; the shutdown during a run of each housekeeping job; the passes with the shutdown starting at any of their calls.",
        "bounds": "one or two scheduled tasks, 2 (thorough 3) preemptions, the shutdown at the moment a task is due, during a run or while a task waits for the lock; passes over up to 4 messages of two queues, the shutdown before any call."},
"P17": {"note": "The real configuration code and the real viper library, with the environment as input: every documented setting, every source, and run-time values.",
        "bounds": "texts of up to 2 (thorough 3) bytes, numerals of up to 2 (3) digits, all duration units, all combinations of main name and two aliases."},
"P20": {"note": "The Go code of RedisCache with the real go-redis client library up to the point where commands are written, and its Lua scripts translated at run time, against a model of the Redis server (sorted sets, strings, SCAN with arbitrary pages, scripts, cluster slots), compared with the contract the in-memory cache is compared with.",
        "bounds": "the same state sizes as P02-P07 (up to 3 messages, all scores, deadlines, lock times and clocks), one node or two shards, batches around the request size (1999-2001 insertions, 3999-4001 removals), one failure at any command, prefixes and queue names with wildcards and pool suffixes."},
"P21": {"note": "The Go code of MongoStorage with the real MongoDB driver (its selection, batching, encoding, decoding and retry code) up to the point where a command is sent, against a model of the MongoDB server (find with filter, sort, limit, projection and batches; unordered bulk writes with upserts; delete, count, distinct), compared with the contract the in-memory storage is compared with.",
        "bounds": "up to 3 stored messages in 2 queues, one or two operations on an arbitrary state, all scores, clocks, expiry dates, breakpoints and limits, contents of up to 2 symbolic bytes, removals of 1999-2001 and more identifiers, a failure of one command, secondaries that lag behind."},
"P18": {"note": "Two operations at the same time on the real in-memory cache and storage, with symbolic scores, deadlines, lock times and contents, compared with every order of the same operations; requests of the service about one message at the same time, with the accesses of every interleaving checked for races.",
        "bounds": "two operations, 1 (thorough 2) preemptions at synchronisation points, up to 3 messages of one queue; a counterexample that needs a particular interleaving is confirmed by repeated native runs with pauses around locks (and the race detector for races)."},
"P19": {"note": "Which entries the queue, its passes and the service produce, over the real cache and storage with a failure at any call; and the real auditor with the real Elasticsearch client up to its HTTP transport, where a stand-in server takes the requests apart. encoding/json works by reflection and is modelled (flat structs; values keep their identity).",
        "bounds": "up to 3 (thorough 3) messages, every state and clock, one failure; up to 5 (thorough 7) entries around batches of 2, every pause pattern of 3 (5) entries, 1 (thorough 2) preemptions around the shutdown."},
"P29": {"note": "NewRedisCache (with the real go-redis client, one node and cluster) and NewMongoStorage (with the real driver) against servers that come up at any attempt or never, with the wait interrupted at any attempt; the whole process with every combination of back ends of which any cannot be reached.",
        "bounds": "up to 3 (thorough 5) attempts, every number below one, every answer and interruption, two delays."},
"P30": {"note": "Answers, pulls, passes and removals over the real cache and storage with a failure at any call; what is added to every counter, by exported name and labels, is compared with what the model of the contract says happened.",
        "bounds": "up to 3 messages, all clocks, deadlines, locks and expiry dates, late and missing reads, one failure at any call."},
"P31": {"note": "The service's real start-up code and the real options of grpc.NewServer, with files, certificates and the listener as stand-ins below it; the options of the server are inspected.",
        "bounds": "up to 2 certificates, 2 keys and 1 (thorough 2) client certificate files, or 1, 1 and 2 (3), each right, another, broken or missing; client authentication of the lengths around every known name, every byte; message limits 0..2^31-1."},
"P32": {"note": "Flush through the service over the real cache, storage and configuration service from an arbitrary state, with a failing storage, and interleaved with reads and edits of a configuration.",
        "bounds": "up to 2 (thorough 3) messages in any state, every limit, one failure, 1 (thorough 2) preemptions."},
"P33": {"note": "The real main() (copied from the tree on every run) with the real back ends on model servers and a virtual clock; runs are seen in the commands the servers get.",
        "bounds": "3 (thorough 6) runs of each pass, one failing run, slow runs, every ordered pair of passes, every combination of back ends; two delays."},
"P34": {"note": "Any one request to the whole service over the real caches and storages in any state of a message, and then ordinary use and the passes; names, numbers and scores of every kind.",
        "bounds": "one request; scores every bit pattern, numbers up to 2^50 and the extremes, amounts the whole int32 range, one number at a time at its full range (the others from a list); queues and identifiers from a list of odd names; in memory and on Redis with MongoDB."},
"P35": {"note": "The labels from the environment and the registry that adds them, over a registry holding gauges and counters with and without labels (in the engine the families are given by the harness); listening is recorded below net/http.",
        "bounds": "up to 2 attributes with well-known names or any name of 1-2 bytes (33..126) and values of 1-2 bytes, entries without a value, a service name of 2 bytes; enabled or not, two paths."},
"P36": {"note": "The real Redis cache, MongoDB storage, auditor and main() on model servers that take a symbolic time to answer and may fail; every value recorded in a histogram is compared with the time the clock went on. The histograms themselves are stand-ins (OpenTelemetry is not in this sandbox) that keep name, labels and value.",
        "bounds": "one call (up to 3 commands matter for failures) on one or two servers, each command taking up to 2 s at nanosecond steps; past instants of up to a century in seconds; up to 4 entries around batches of 2; two runs of each pass, instant or not, one failing run."},
}
