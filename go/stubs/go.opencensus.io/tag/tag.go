package tag

import "context"

type Key struct{ name string }

type Map struct{}

type Mutator interface{}

type Tag struct {
	Key   Key
	Value string
}

func (k Key) Name() string { return k.name }

func NewKey(name string) (Key, error) { return Key{name}, nil }

func MustNewKey(name string) Key { return Key{name} }

func FromContext(ctx context.Context) *Map { return &Map{} }

func (m *Map) Value(Key) (string, bool) { return "", false }

func New(ctx context.Context, m ...Mutator) (context.Context, error) { return ctx, nil }

func Upsert(k Key, v string) Mutator { return nil }

func Insert(k Key, v string) Mutator { return nil }
