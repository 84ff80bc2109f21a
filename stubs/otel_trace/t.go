// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package trace

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

type TracerProvider interface{}
type TraceID [16]byte
type SpanID [8]byte
type TraceFlags byte

func (t TraceID) String() string    { return "" }
func (t SpanID) String() string     { return "" }
func (t TraceFlags) String() string { return "" }

type SpanContext struct{ id TraceID }

func (s SpanContext) HasTraceID() bool       { return s.id != TraceID{} }
func (s SpanContext) TraceID() TraceID       { return s.id }
func (s SpanContext) SpanID() SpanID         { return SpanID{} }
func (s SpanContext) TraceFlags() TraceFlags { return 0 }
func (s SpanContext) IsValid() bool          { return false }
func (s SpanContext) IsSampled() bool        { return false }

type Span interface {
	SpanContext() SpanContext
	SetAttributes(kv ...attribute.KeyValue)
	RecordError(err error, o ...interface{})
	SetStatus(code codes.Code, description string)
	AddEvent(name string, o ...interface{})
	IsRecording() bool
	End(o ...interface{})
}
type nopSpan struct{}

func (nopSpan) SpanContext() SpanContext                      { return SpanContext{} }
func (nopSpan) SetAttributes(kv ...attribute.KeyValue)        {}
func (nopSpan) RecordError(err error, o ...interface{})       {}
func (nopSpan) SetStatus(code codes.Code, description string) {}
func (nopSpan) AddEvent(name string, o ...interface{})        {}
func (nopSpan) IsRecording() bool                             { return false }
func (nopSpan) End(o ...interface{})                          {}

func SpanFromContext(ctx context.Context) Span               { return nopSpan{} }
func SpanContextFromContext(ctx context.Context) SpanContext { return SpanContext{} }
