package hredis

import (
	"context"

	"github.com/redis/go-redis/v9"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/zzverif/nd"
)

// Connect creates the cache as production does, against a server (or a cluster of shards
// servers) of this package.
func Connect(shards int) (*cache.RedisCache, *Net) {
	n := NewNet(shards)
	config.CacheUri.Set("redis://localhost:6379/0")
	config.RedisClusterMode.Set(shards > 1)
	c, err := cache.NewRedisCache(context.Background())
	if err != nil {
		panic(err.Error())
	}
	nd.Assert(err == nil && c != nil, "the cache connects to a server that answers")
	return c, n
}

func NewNet(shards int) *Net {
	n := &Net{Closed: map[string]bool{}}
	for i := 0; i < shards; i++ {
		n.Shards = append(n.Shards, NewServer())
	}
	redis.VerifShards = shards
	redis.VerifProcess = n.handle
	redis.VerifClose = func(addr string) error {
		n.Closed[addr] = true
		return nil
	}
	return n
}
