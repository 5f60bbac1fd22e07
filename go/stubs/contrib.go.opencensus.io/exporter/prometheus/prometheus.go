package prometheus

import (
	"net/http"
)

type Options struct {
	Namespace   string
	Registry    interface{}
	ConstLabels map[string]string
	OnError     func(error)
}

type Exporter struct{ http.Handler }

func NewExporter(Options) (*Exporter, error) { return &Exporter{http.NotFoundHandler()}, nil }
