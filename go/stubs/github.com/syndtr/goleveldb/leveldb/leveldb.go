// Package leveldb is a stand-in that keeps everything in memory.
package leveldb

import (
	"errors"
	"sync"

	"github.com/syndtr/goleveldb/leveldb/opt"
)

var (
	ErrNotFound = errors.New("leveldb: not found")
	ErrClosed   = errors.New("leveldb: closed")
)

type DB struct {
	mu sync.RWMutex
	m  map[string][]byte
}

var (
	filesLock sync.Mutex
	files     = map[string]*DB{}
)

func OpenFile(path string, o *opt.Options) (*DB, error) {
	filesLock.Lock()
	defer filesLock.Unlock()
	if d, ok := files[path]; ok {
		return d, nil
	}
	d := &DB{m: map[string][]byte{}}
	files[path] = d
	return d, nil
}

func (d *DB) Get(k []byte, _ *opt.ReadOptions) ([]byte, error) {
	d.mu.RLock()
	defer d.mu.RUnlock()
	v, ok := d.m[string(k)]
	if !ok {
		return nil, ErrNotFound
	}
	return append([]byte{}, v...), nil
}

func (d *DB) Has(k []byte, _ *opt.ReadOptions) (bool, error) {
	d.mu.RLock()
	defer d.mu.RUnlock()
	_, ok := d.m[string(k)]
	return ok, nil
}

func (d *DB) Put(k, v []byte, _ *opt.WriteOptions) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.m[string(k)] = append([]byte{}, v...)
	return nil
}

func (d *DB) Delete(k []byte, _ *opt.WriteOptions) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	delete(d.m, string(k))
	return nil
}

func (d *DB) Close() error { return nil }
