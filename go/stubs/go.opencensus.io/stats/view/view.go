package view

import (
	"time"

	"go.opencensus.io/stats"
	"go.opencensus.io/tag"
)

type AggType int

const (
	AggTypeNone AggType = iota
	AggTypeCount
	AggTypeSum
	AggTypeDistribution
	AggTypeLastValue
)

func (t AggType) String() string { return "" }

type Aggregation struct{ Type AggType }

func Count() *Aggregation                  { return &Aggregation{AggTypeCount} }
func Sum() *Aggregation                    { return &Aggregation{AggTypeSum} }
func LastValue() *Aggregation              { return &Aggregation{AggTypeLastValue} }
func Distribution(...float64) *Aggregation { return &Aggregation{AggTypeDistribution} }

type View struct {
	Name        string
	Description string
	TagKeys     []tag.Key
	Measure     stats.Measure
	Aggregation *Aggregation
}

type AggregationData interface{}
type CountData struct{ Value int64 }
type SumData struct{ Value float64 }
type LastValueData struct{ Value float64 }
type DistributionData struct {
	Count           int64
	Min, Max, Mean  float64
	SumOfSquaredDev float64
	CountPerBucket  []int64
}

type Row struct {
	Tags []tag.Tag
	Data AggregationData
}

type Exporter interface{}

func Register(...*View) error             { return nil }
func Unregister(...*View)                 {}
func RegisterExporter(Exporter)           {}
func SetReportingPeriod(time.Duration)    {}
func RetrieveData(string) ([]*Row, error) { return nil, nil }
func Find(string) *View                   { return nil }
