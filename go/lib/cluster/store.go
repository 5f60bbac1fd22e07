// Package cluster runs whole validator nodes of one chain (service manager,
// block manager and consensus) on a virtual clock and a virtual network, with
// delays, losses, partitions and crashes between any two effects.
package cluster

import (
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/consensus"
)

// disk is what survives a crash: the database and the directory of the logs.
type disk struct {
	mu  sync.Mutex
	m   map[string][]byte
	dir string
}

func newDisk(dir string) *disk {
	if err := os.MkdirAll(dir, 0700); err != nil {
		panic(err)
	}
	return &disk{m: map[string][]byte{}, dir: dir}
}

func (d *disk) copy(dir string) *disk {
	n := newDisk(dir)
	d.mu.Lock()
	for k, v := range d.m {
		n.m[k] = v
	}
	d.mu.Unlock()
	es, _ := os.ReadDir(d.dir)
	for _, e := range es {
		in, err := os.Open(filepath.Join(d.dir, e.Name()))
		if err != nil {
			panic(err)
		}
		out, err := os.Create(filepath.Join(dir, e.Name()))
		if err != nil {
			panic(err)
		}
		if _, err := io.Copy(out, in); err != nil {
			panic(err)
		}
		in.Close()
		out.Close()
	}
	return n
}

func (d *disk) sizes() map[string]int64 {
	m := map[string]int64{}
	es, _ := os.ReadDir(d.dir)
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			m[e.Name()] = i.Size()
		}
	}
	return m
}

// life is one run of a node: its effects are counted, and after the crash they
// reach nobody.
type life struct {
	mu    sync.Mutex
	d     *disk
	n     int
	at    int // crash before effect number at, 0 = never
	tear  func(n int64) int64
	dead  bool
	left  *disk
	ops   map[string]int
	after string
	next  func() string // directory of the disk which is left
	down  func()
}

// op is called before an effect; false means the node is dead.
func (l *life) op(kind string) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.dead {
		return false
	}
	l.n++
	l.ops[kind]++
	if l.at != 0 && l.n >= l.at {
		l.die(kind)
		return false
	}
	return true
}

func (l *life) die(kind string) {
	l.dead = true
	l.after = kind
	l.left = l.d.copy(l.next())
	if l.down != nil {
		l.down()
	}
}

func (l *life) crash() {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.dead {
		l.die("nothing")
	}
}

func (l *life) alive() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return !l.dead
}

type database struct{ l *life }

func (d database) GetBucket(id db.BucketID) (db.Bucket, error) { return bucket{d.l, string(id)}, nil }
func (d database) Close() error                                { return nil }

type bucket struct {
	l *life
	p string
}

func (b bucket) key(k []byte) string { return b.p + "\x00" + string(k) }
func (b bucket) Get(k []byte) ([]byte, error) {
	d := b.l.d
	d.mu.Lock()
	defer d.mu.Unlock()
	v, ok := d.m[b.key(k)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}
func (b bucket) Has(k []byte) (bool, error) {
	d := b.l.d
	d.mu.Lock()
	defer d.mu.Unlock()
	_, ok := d.m[b.key(k)]
	return ok, nil
}
func (b bucket) Set(k, v []byte) error {
	b.l.op("db " + b.p)
	d := b.l.d
	d.mu.Lock()
	defer d.mu.Unlock()
	d.m[b.key(k)] = append([]byte{}, v...)
	return nil
}
func (b bucket) Delete(k []byte) error {
	b.l.op("db " + b.p)
	d := b.l.d
	d.mu.Lock()
	defer d.mu.Unlock()
	delete(d.m, b.key(k))
	return nil
}

type wal struct{ l *life }

func (w wal) OpenForRead(id string) (consensus.WALReader, error) { return consensus.OpenWALForRead(id) }
func (w wal) OpenForWrite(id string, cfg *consensus.WALConfig) (consensus.WALWriter, error) {
	ww, err := consensus.OpenWALForWrite(id, cfg)
	if err != nil {
		return nil, err
	}
	return walWriter{ww, w.l, filepath.Base(id)}, nil
}

type walWriter struct {
	consensus.WALWriter
	l  *life
	id string
}

// Sync may be the last thing the node does; then it may have got any part of
// the data to the disk.
func (w walWriter) Sync() error {
	l := w.l
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.dead {
		return w.WALWriter.Sync()
	}
	l.n++
	l.ops["wal "+w.id]++
	before := l.d.sizes()
	err := w.WALWriter.Sync()
	if l.at != 0 && l.n >= l.at {
		l.die("wal " + w.id)
		for n, s := range l.left.sizes() {
			if strings.HasPrefix(n, w.id+"_") && s > before[n] {
				to := before[n] + l.tear(s-before[n])
				if err := os.Truncate(filepath.Join(l.left.dir, n), to); err != nil {
					panic(err)
				}
				if to < s {
					l.after = "part of wal " + w.id
				}
			}
		}
	}
	return err
}
