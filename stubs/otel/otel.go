// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package otel

import (
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
)

func SetTracerProvider(tp trace.TracerProvider)            {}
func SetTextMapPropagator(p propagation.TextMapPropagator) {}
func SetMeterProvider(mp metric.MeterProvider)             {}
func GetMeterProvider() metric.MeterProvider               { return metric.Provider{} }
func GetTracerProvider() trace.TracerProvider              { return nil }
