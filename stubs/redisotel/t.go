// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package redisotel

import "github.com/redis/go-redis/v9"

func InstrumentTracing(c redis.UniversalClient, o ...interface{}) error { return nil }
func InstrumentMetrics(c redis.UniversalClient, o ...interface{}) error { return nil }
