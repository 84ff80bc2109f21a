package hredis

// What the statements of other properties say of the cache holds for Redis as well.

func VH_P11_RedisKeys()    { VH_P20_Keys() }
func VH_P12_RedisBatch()   { VH_P20_IBatch() }
func VH_P12_RedisFailure() { VH_P20_Failure() }
func VH_P13_RedisPull()    { VH_P20_Pull() }
func VH_P14_RedisStep()    { VH_P20_Step() }
func VH_P28_RedisList()    { VH_P20_List() }
