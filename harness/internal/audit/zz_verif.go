package audit

import "time"

// ZZLimits sets the batch size and the longest wait of the sender; nil when they are not known.
var ZZLimits func(n int, d time.Duration)
