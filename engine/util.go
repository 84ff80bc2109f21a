package main

import "sync/atomic"

var genAtomic uint32

func nextGenSafe() uint32 { return atomic.AddUint32(&genAtomic, 1) }
