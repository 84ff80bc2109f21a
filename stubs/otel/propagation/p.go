// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package propagation

type TextMapPropagator interface{}
type TraceContext struct{}
type Baggage struct{}

func NewCompositeTextMapPropagator(p ...TextMapPropagator) TextMapPropagator { return nil }
