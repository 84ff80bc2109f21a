package audit

import "time"

func init() { ZZLimits = func(n int, d time.Duration) { maxEntriesSize, maxSendTime = n, d } }
