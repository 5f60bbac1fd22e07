// Package stats is a stand-in that measures nothing.
package stats

import "context"

const (
	UnitNone          = "1"
	UnitDimensionless = "1"
	UnitBytes         = "By"
	UnitMilliseconds  = "ms"
)

type Measure interface {
	Name() string
	Description() string
	Unit() string
}

type Int64Measure struct{ name string }

type Measurement struct{}

func (m *Int64Measure) Name() string { return m.name }

func (m *Int64Measure) Description() string { return "" }

func (m *Int64Measure) Unit() string { return "" }

func (m *Int64Measure) M(int64) Measurement { return Measurement{} }

func Int64(name, desc, unit string) *Int64Measure { return &Int64Measure{name} }

func Record(ctx context.Context, ms ...Measurement) {}
