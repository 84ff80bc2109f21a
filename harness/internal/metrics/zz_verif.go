package metrics

import dto "github.com/prometheus/client_model/go"

// VerifDefaultLabels are the labels every series gets.
func VerifDefaultLabels() []*dto.LabelPair { return createDefaultMetrics() }
