module go.opentelemetry.io/otel/metric

go 1.25
