module contrib.go.opencensus.io/exporter/prometheus

go 1.20
