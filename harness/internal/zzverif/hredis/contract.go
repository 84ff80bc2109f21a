package hredis

import (
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/zzverif/hcache"
)

// on runs a check of the cache contract against the Redis cache.
func on(shards int, f func()) {
	hcache.New = func() cache.Cache {
		c, _ := Connect(shards)
		return c
	}
	hcache.Small = true
	hcache.Redis = true
	f()
}

func VH_P02_RedisPull()       { on(1, hcache.VH_P02_Pull) }
func VH_P02_RedisPullOthers() { on(1, hcache.VH_P02_PullOthers) }

func VH_P03_RedisStep()     { on(1, hcache.VH_P03_Step) }
func VH_P03_RedisTwoSteps() { on(1, hcache.VH_P03_TwoSteps) }
func VH_P03_RedisNotTwice() { on(1, hcache.VH_P03_NotTwice) }

func VH_P04_RedisTimeout()  { on(1, hcache.VH_P04_Timeout) }
func VH_P04_RedisDeadline() { on(1, hcache.VH_P04_Deadline) }
func VH_P04_RedisOthers()   { on(1, hcache.VH_P04_Others) }
func VH_P04_RedisPriority() { on(1, hcache.VH_P04_Priority) }

func VH_P05_RedisUnlock()    { on(1, hcache.VH_P05_Unlock) }
func VH_P05_RedisOthers()    { on(1, hcache.VH_P05_Others) }
func VH_P05_RedisTwoPasses() { on(1, hcache.VH_P05_TwoPasses) }
func VH_P05_RedisLock()      { on(1, hcache.VH_P05_Lock) }

func VH_P06_RedisInsert() { on(1, hcache.VH_P06_Insert) }
func VH_P06_RedisBatch()  { on(1, hcache.VH_P06_Batch) }
func VH_P06_RedisQueues() { on(1, hcache.VH_P06_Queues) }

func counted(f func()) {
	hcache.Counted = true
	on(1, f)
}

func VH_P07_RedisRemove() { counted(hcache.VH_P07_Remove) }
func VH_P07_RedisGone()   { counted(hcache.VH_P07_Gone) }

func VH_P08_RedisQueues()   { on(1, hcache.VH_P08_CacheQueues) }
func VH_P08_RedisReserved() { on(1, hcache.VH_P08_CacheReserved) }
func VH_P08_RedisIDs()      { on(1, hcache.VH_P08_CacheIDs) }
func VH_P08_RedisKeys()     { on(1, hcache.VH_P08_CacheKeys) }

// the whole contract is also what P20 says
func VH_P20_Pull()            { on(1, hcache.VH_P02_Pull) }
func VH_P20_PullOthers()      { on(1, hcache.VH_P02_PullOthers) }
func VH_P20_Step()            { on(1, hcache.VH_P03_Step) }
func VH_P20_TwoSteps()        { on(1, hcache.VH_P03_TwoSteps) }
func VH_P20_Timeout()         { on(1, hcache.VH_P04_Timeout) }
func VH_P20_TOthers()         { on(1, hcache.VH_P04_Others) }
func VH_P20_TPriority()       { on(1, hcache.VH_P04_Priority) }
func VH_P20_Unlock()          { on(1, hcache.VH_P05_Unlock) }
func VH_P20_UOthers()         { on(1, hcache.VH_P05_Others) }
func VH_P20_Insert()          { on(1, hcache.VH_P06_Insert) }
func VH_P20_IBatch()          { on(1, hcache.VH_P06_Batch) }
func VH_P20_IQueues()         { on(1, hcache.VH_P06_Queues) }
func VH_P20_Remove()          { on(1, hcache.VH_P07_Remove) }
func VH_P20_Gone()            { on(1, hcache.VH_P07_Gone) }
func VH_P20_ClusterStep()     { on(2, hcache.VH_P03_Step) }
func VH_P20_ClusterOthers_T() { on(2, hcache.VH_P05_Others) }
func VH_P20_Keys()            { on(1, hcache.VH_P08_CacheKeys) }

func VH_P20_NotTwice()  { on(1, hcache.VH_P03_NotTwice) }
func VH_P20_Deadline()  { on(1, hcache.VH_P04_Deadline) }
func VH_P20_TwoPasses() { on(1, hcache.VH_P05_TwoPasses) }
func VH_P20_Lock()      { on(1, hcache.VH_P05_Lock) }
