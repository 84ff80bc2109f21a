// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package trace

import (
	"context"

	"go.opentelemetry.io/otel/sdk/resource"
)

type TracerProvider struct{ Stopped int }
type TracerProviderOption interface{}
type SpanExporter interface{}

// Live counts providers created and stopped, for the checks.
var Created, Shut int

func NewTracerProvider(o ...TracerProviderOption) *TracerProvider {
	Created++
	return &TracerProvider{}
}
func WithBatcher(e SpanExporter, o ...interface{}) TracerProviderOption { return nil }
func WithResource(r *resource.Resource) TracerProviderOption            { return nil }
func (p *TracerProvider) Shutdown(ctx context.Context) error {
	p.Stopped++
	Shut++
	return nil
}
func (p *TracerProvider) ForceFlush(ctx context.Context) error { return nil }
