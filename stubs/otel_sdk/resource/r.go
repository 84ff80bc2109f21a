// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package resource

import "go.opentelemetry.io/otel/attribute"

type Resource struct{}

func Environment() *Resource                                             { return &Resource{} }
func NewWithAttributes(schema string, a ...attribute.KeyValue) *Resource { return &Resource{} }
func Default() *Resource                                                 { return &Resource{} }
func Merge(a, b *Resource) (*Resource, error)                            { return a, nil }
