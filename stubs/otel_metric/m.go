// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package metric

import (
	"context"
	"os"

	"go.opentelemetry.io/otel/attribute"
)

type MeterProvider interface {
	Meter(name string, opts ...MeterOption) Meter
}
type MeterOption interface{}
type Provider struct{}

func (Provider) Meter(name string, opts ...MeterOption) Meter { return nopMeter{} }

type Meter interface {
	Int64Counter(name string, o ...interface{}) (Int64Counter, error)
	Int64UpDownCounter(name string, o ...interface{}) (Int64Counter, error)
	Int64Histogram(name string, o ...interface{}) (Int64Histogram, error)
	Int64Gauge(name string, o ...interface{}) (Int64Histogram, error)
	Float64Histogram(name string, o ...interface{}) (Float64Histogram, error)
	Int64ObservableGauge(name string, o ...interface{}) (Int64ObservableGauge, error)
}
type Int64Counter interface {
	Add(ctx context.Context, incr int64, options ...AddOption)
}
type Int64Histogram interface {
	Record(ctx context.Context, incr int64, options ...RecordOption)
}
type Float64Histogram interface {
	Record(ctx context.Context, incr float64, options ...RecordOption)
}
type Int64ObservableGauge interface{}
type Int64Observer interface {
	Observe(value int64, options ...ObserveOption)
}
type AddOption interface{}
type RecordOption interface{}
type ObserveOption interface{}
type InstrumentOption interface{}
type MeasurementOption struct{ Set attribute.Set }
type Int64Callback func(context.Context, Int64Observer) error
type Observer interface{}

func WithDescription(s string) InstrumentOption { return nil }
func WithUnit(s string) InstrumentOption        { return nil }
func WithInt64Callback(c Int64Callback) InstrumentOption {
	return c
}
func WithAttributes(a ...attribute.KeyValue) MeasurementOption {
	return MeasurementOption{attribute.NewSet(a...)}
}
func WithAttributeSet(s attribute.Set) MeasurementOption { return MeasurementOption{s} }

type nopMeter struct{}
type nopInst struct{}
type nopFloat struct{}

func (nopInst) Add(ctx context.Context, incr int64, options ...AddOption)          {}
func (nopInst) Record(ctx context.Context, incr int64, options ...RecordOption)    {}
func (nopFloat) Record(ctx context.Context, incr float64, options ...RecordOption) {}

// Recorder is told what is added to the counters.
var Recorder func(counter string, incr int64, options []AddOption)

type counter struct{ name string }

func (c counter) Add(ctx context.Context, incr int64, options ...AddOption) {
	if Recorder != nil {
		Recorder(c.name, incr, options)
	}
}

func (nopMeter) Int64Counter(name string, o ...interface{}) (Int64Counter, error) {
	return counter{name}, nil
}
func (nopMeter) Int64UpDownCounter(name string, o ...interface{}) (Int64Counter, error) {
	return nopInst{}, nil
}

// Durations is told what is recorded in the histograms.
var Durations func(histogram string, value int64, options []RecordOption)

type histogram struct{ name string }

func (h histogram) Record(ctx context.Context, incr int64, options ...RecordOption) {
	if Durations != nil {
		Durations(h.name, incr, options)
	}
}

// Select is the aggregation selector of the exporter. As in the real library it is asked when a
// histogram is created, here once more with Probe in the environment.
var Select func(histogram bool) interface{}

// Histograms are the aggregations of the histograms created so far.
var Histograms []interface{}

// Probe is set in the environment while the selector is asked.
var Probe = [2]string{"DECKARD_METRICS_HISTOGRAM_BUCKETS", "3,4,77"}

func (nopMeter) Int64Histogram(name string, o ...interface{}) (Int64Histogram, error) {
	if Select != nil {
		old, ok := os.LookupEnv(Probe[0])
		os.Setenv(Probe[0], Probe[1])
		Histograms = append(Histograms, Select(true))
		if ok {
			os.Setenv(Probe[0], old)
		} else {
			os.Unsetenv(Probe[0])
		}
	}
	return histogram{name}, nil
}
func (nopMeter) Int64Gauge(name string, o ...interface{}) (Int64Histogram, error) {
	return nopInst{}, nil
}
func (nopMeter) Float64Histogram(name string, o ...interface{}) (Float64Histogram, error) {
	return nopFloat{}, nil
}

// Gauges are the callbacks of the observable gauges created so far, by name.
var Gauges = map[string][]Int64Callback{}

func (nopMeter) Int64ObservableGauge(name string, o ...interface{}) (Int64ObservableGauge, error) {
	for _, x := range o {
		if c, ok := x.(Int64Callback); ok {
			Gauges[name] = append(Gauges[name], c)
		}
	}
	return nopInst{}, nil
}
