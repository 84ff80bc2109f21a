// Stub of an OpenTelemetry module the sandbox does not have: same names, no effect.
package semconv

import "go.opentelemetry.io/otel/attribute"

const SchemaURL = "https://opentelemetry.io/schemas/v1.4.0"
const ServiceNameKey = attribute.Key("service.name")
const ServiceVersionKey = attribute.Key("service.version")
