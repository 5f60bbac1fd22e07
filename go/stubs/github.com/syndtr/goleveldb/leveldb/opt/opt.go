package opt

type Options struct {
	ReadOnly       bool
	ErrorIfMissing bool
	ErrorIfExist   bool
}

type ReadOptions struct{}

type WriteOptions struct{ Sync bool }
