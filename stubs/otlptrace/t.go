// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package otlptrace

import "context"

type Client interface{}
type Exporter struct{}

func New(ctx context.Context, c Client) (*Exporter, error) { return &Exporter{}, nil }
