module go.opentelemetry.io/otel/sdk/metric

go 1.25
