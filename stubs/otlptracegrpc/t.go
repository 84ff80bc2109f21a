// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package otlptracegrpc

type Option interface{}

func NewClient(o ...Option) interface{} { return nil }
