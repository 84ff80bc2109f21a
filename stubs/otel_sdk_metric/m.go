// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package metric

import (
	"context"

	api "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

type InstrumentKind uint8

const (
	InstrumentKindCounter InstrumentKind = iota + 1
	InstrumentKindUpDownCounter
	InstrumentKindHistogram
	InstrumentKindGauge
)

type Aggregation interface{}
type AggregationExplicitBucketHistogram struct {
	Boundaries []float64
	NoMinMax   bool
}

func DefaultAggregationSelector(ik InstrumentKind) Aggregation { return nil }

type Reader interface{}
type Option interface{}
type MeterProvider struct{ api.Provider }

func NewMeterProvider(o ...Option) *MeterProvider           { return &MeterProvider{} }
func WithReader(r Reader) Option                            { return nil }
func WithResource(r *resource.Resource) Option              { return nil }
func (p *MeterProvider) Shutdown(ctx context.Context) error { return nil }
