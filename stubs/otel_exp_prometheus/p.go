// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package prometheus

import (
	api "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/metric"
)

type Exporter struct{}
type Option interface{}

func New(o ...Option) (*Exporter, error)  { return &Exporter{}, nil }
func WithRegisterer(r interface{}) Option { return nil }
func WithoutUnits() Option                { return nil }
func WithAggregationSelector(f func(metric.InstrumentKind) metric.Aggregation) Option {
	Selector = f
	api.Select = func(histogram bool) interface{} {
		if histogram {
			return f(metric.InstrumentKindHistogram)
		}
		return f(metric.InstrumentKindCounter)
	}
	return nil
}

// Selector is the aggregation selector last given to an exporter.
var Selector func(metric.InstrumentKind) metric.Aggregation
