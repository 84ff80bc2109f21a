// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package otelmongo

import "go.mongodb.org/mongo-driver/v2/event"

func NewMonitor(o ...interface{}) *event.CommandMonitor { return &event.CommandMonitor{} }
