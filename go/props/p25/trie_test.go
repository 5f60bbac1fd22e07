package p25

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/merkle"
	"github.com/icon-project/goloop/common/trie"
	"github.com/icon-project/goloop/common/trie/cache"
	"github.com/icon-project/goloop/common/trie/trie_manager"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/ref"
)

// obj is an object that keeps a large part outside of the trie, as accounts do.
type obj struct {
	data []byte
	d    db.Database
}

func (o *obj) Bytes() []byte {
	if len(o.data) > 20 {
		return append([]byte{1}, ref.Sum(o.data)...)
	}
	return append([]byte{0}, o.data...)
}

func (o *obj) Reset(d db.Database, k []byte) error {
	o.d = d
	if k[0] == 0 {
		o.data = append([]byte(nil), k[1:]...)
		return nil
	}
	bk, err := d.GetBucket(db.BytesByHash)
	if err != nil {
		return err
	}
	v, err := bk.Get(k[1:])
	if err != nil {
		return err
	}
	if v == nil {
		return fmt.Errorf("no value for %x", k)
	}
	o.data = v
	return nil
}

func (o *obj) Flush() error {
	if len(o.data) > 20 {
		bk, err := o.d.GetBucket(db.BytesByHash)
		if err != nil {
			return err
		}
		return bk.Set(ref.Sum(o.data), o.data)
	}
	return nil
}

func (o *obj) Equal(x trie.Object) bool {
	p, ok := x.(*obj)
	if !ok {
		return false
	}
	return p == o || bytes.Equal(p.data, o.data)
}

func (o *obj) Resolve(merkle.Builder) error { return nil }
func (o *obj) ClearCache()                  {}

var objType = reflect.TypeOf((*obj)(nil))

type contents = map[string][]byte

func keyGen(fixed int) *rapid.Generator[string] {
	one := rapid.SampledFrom([]byte{0, 1, 0x10, 0x11, 0x12, 0x20, 0x80, 0xff})
	return rapid.Custom(func(t *rapid.T) string {
		n := fixed
		if fixed == 0 {
			n = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 31, 32, 33, 40}).Draw(t, "len")
		}
		b := make([]byte, n)
		// a few free bytes, the rest fixed, so that keys share prefixes
		free := rapid.IntRange(1, 4).Draw(t, "free")
		at := rapid.SampledFrom([]int{0, 0, n - free, n / 2}).Draw(t, "at")
		for i := 0; i < free; i++ {
			if j := at + i; j >= 0 && j < n {
				b[j] = one.Draw(t, "b")
			}
		}
		return string(b)
	})
}

func valGen() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := rapid.SampledFrom([]int{1, 1, 2, 5, 20, 21, 27, 28, 29, 30, 31, 32, 33, 55, 56, 100, 300}).Draw(t, "vlen")
		b := rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xc0, 0xff}).Draw(t, "vb")
		v := bytes.Repeat([]byte{b}, n)
		v[n-1] = rapid.SampledFrom([]byte{0, 1, 2, 3, 0x7f, 0x80, 0xff}).Draw(t, "last")
		return v
	})
}

// tr hides whether the trie holds bytes or objects.
type tr interface {
	get(k string) ([]byte, error)
	set(k string, v []byte) ([]byte, error)
	del(k string) ([]byte, error)
	snap() sn
	reset(s sn) error
	clear()
}

type sn interface {
	get(k string) ([]byte, error)
	hash() []byte
	empty() bool
	proof(k string) [][]byte
	prove(k string, p [][]byte) ([]byte, error)
	list(prefix string, filter bool) ([]string, [][]byte, error)
	flush() error
	clear()
	equal(o sn, exact bool) bool
	resolve(b merkle.Builder)
	mutable() tr
}

type bt struct{ m trie.Mutable }
type bs struct{ s trie.Immutable }

func (x bt) get(k string) ([]byte, error)           { return x.m.Get([]byte(k)) }
func (x bt) set(k string, v []byte) ([]byte, error) { return x.m.Set([]byte(k), v) }
func (x bt) del(k string) ([]byte, error)           { return x.m.Delete([]byte(k)) }
func (x bt) snap() sn                               { return bs{x.m.GetSnapshot()} }
func (x bt) reset(s sn) error                       { return x.m.Reset(s.(bs).s) }
func (x bt) clear()                                 { x.m.ClearCache() }

func (x bs) get(k string) ([]byte, error)               { return x.s.Get([]byte(k)) }
func (x bs) hash() []byte                               { return x.s.Hash() }
func (x bs) empty() bool                                { return x.s.Empty() }
func (x bs) proof(k string) [][]byte                    { return x.s.GetProof([]byte(k)) }
func (x bs) prove(k string, p [][]byte) ([]byte, error) { return x.s.Prove([]byte(k), p) }
func (x bs) flush() error                               { return x.s.(trie.Snapshot).Flush() }
func (x bs) clear()                                     { x.s.ClearCache() }
func (x bs) equal(o sn, exact bool) bool                { return x.s.Equal(o.(bs).s, exact) }
func (x bs) resolve(b merkle.Builder)                   { x.s.Resolve(b) }
func (x bs) mutable() tr                                { return bt{trie_manager.NewMutableFromImmutable(x.s)} }
func (x bs) list(prefix string, filter bool) (ks []string, vs [][]byte, err error) {
	var it trie.Iterator
	if filter {
		it = x.s.Filter([]byte(prefix))
	} else {
		it = x.s.Iterator()
	}
	for it.Has() {
		v, k, err := it.Get()
		if err != nil {
			return nil, nil, err
		}
		ks, vs = append(ks, string(k)), append(vs, v)
		if err := it.Next(); err != nil {
			return nil, nil, err
		}
	}
	return ks, vs, nil
}

type ot struct {
	m trie.MutableForObject
}
type os_ struct{ s trie.ImmutableForObject }

func val(o trie.Object, err error) ([]byte, error) {
	if err != nil || o == nil {
		return nil, err
	}
	p, ok := o.(*obj)
	if !ok {
		return nil, fmt.Errorf("value of type %T", o)
	}
	return p.data, nil
}

func old(o trie.Object, err error) ([]byte, error) {
	if err != nil || o == nil {
		return nil, err
	}
	return o.Bytes(), nil // may not be of the final type
}

func (x ot) get(k string) ([]byte, error) { return val(x.m.Get([]byte(k))) }
func (x ot) set(k string, v []byte) ([]byte, error) {
	return old(x.m.Set([]byte(k), &obj{v, x.m.Database()}))
}
func (x ot) del(k string) ([]byte, error) { return old(x.m.Delete([]byte(k))) }
func (x ot) snap() sn                     { return os_{x.m.GetSnapshot()} }
func (x ot) reset(s sn) error             { x.m.Reset(s.(os_).s); return nil }
func (x ot) clear()                       { x.m.ClearCache() }

func (x os_) get(k string) ([]byte, error)               { return val(x.s.Get([]byte(k))) }
func (x os_) hash() []byte                               { return x.s.Hash() }
func (x os_) empty() bool                                { return x.s.Empty() }
func (x os_) proof(k string) [][]byte                    { return x.s.GetProof([]byte(k)) }
func (x os_) prove(k string, p [][]byte) ([]byte, error) { return val(x.s.Prove([]byte(k), p)) }
func (x os_) flush() error                               { return x.s.(trie.SnapshotForObject).Flush() }
func (x os_) clear()                                     { x.s.ClearCache() }
func (x os_) equal(o sn, exact bool) bool                { return x.s.Equal(o.(os_).s, exact) }
func (x os_) resolve(b merkle.Builder)                   { x.s.Resolve(b) }
func (x os_) mutable() tr                                { return ot{trie_manager.NewMutableFromImmutableForObject(x.s)} }
func (x os_) list(prefix string, filter bool) (ks []string, vs [][]byte, err error) {
	var it trie.IteratorForObject
	if filter {
		it = x.s.Filter([]byte(prefix))
	} else {
		it = x.s.Iterator()
	}
	for it.Has() {
		o, k, err := it.Get()
		v, err := val(o, err)
		if err != nil {
			return nil, nil, err
		}
		ks, vs = append(ks, string(k)), append(vs, v)
		if err := it.Next(); err != nil {
			return nil, nil, err
		}
	}
	return ks, vs, nil
}

type world struct {
	r       *kit.Rec
	objects bool
	d       db.Database
	cache   *cache.NodeCache
}

func (w *world) mutable(h []byte) tr {
	if w.objects {
		m := trie_manager.NewMutableForObject(w.d, h, objType)
		if w.cache != nil {
			trie_manager.SetCacheOfMutableForObject(m, w.cache)
		}
		return ot{m}
	}
	m := trie_manager.NewMutable(w.d, h)
	if w.cache != nil {
		trie_manager.SetCacheOfMutable(m, w.cache)
	}
	return bt{m}
}

func (w *world) immutable(d db.Database, h []byte) sn {
	if w.objects {
		return os_{trie_manager.NewImmutableForObject(d, h, objType)}
	}
	return bs{trie_manager.NewImmutable(d, h)}
}

// stored is what the trie stores for a value.
func (w *world) stored(v []byte) []byte {
	if v == nil {
		return nil
	}
	if w.objects {
		return (&obj{v, w.d}).Bytes()
	}
	return v
}

func (w *world) root(m contents) []byte {
	s := contents{}
	for k, v := range m {
		s[k] = w.stored(v)
	}
	return ref.TrieRoot(s)
}

func (w *world) checkAll(s sn, m contents, what string) {
	r := w.r
	ks, vs, err := s.list("", false)
	r.NoErr(err, "%s: iteration", what)
	exp := ref.Keys(m)
	r.Need(reflect.DeepEqual(exp, append([]string{}, ks...)), "%s: keys %x, should be %x", what, ks, exp)
	for i, k := range ks {
		r.Need(bytes.Equal(vs[i], m[k]), "%s: iteration gives %x for %x, should be %x", what, vs[i], k, m[k])
	}
	for _, k := range exp {
		v, err := s.get(k)
		r.NoErr(err, "%s: get %x", what, k)
		r.Need(bytes.Equal(v, m[k]), "%s: %x for key %x, should be %x", what, v, k, m[k])
	}
	r.Need(s.empty() == (len(m) == 0), "%s: Empty() is %v with %d keys", what, s.empty(), len(m))
	h := s.hash()
	r.Need(bytes.Equal(h, w.root(m)), "%s: root hash %x, should be %x for the contents", what, h, w.root(m))
}

func (w *world) checkProof(s sn, m contents, k string, rt *rapid.T) {
	r := w.r
	v, present := m[k]
	p := s.proof(k)
	if !present {
		r.Need(p == nil, "a proof of %d nodes for the absent key %x", len(p), k)
		if ks := ref.Keys(m); len(ks) > 0 {
			q := s.proof(rapid.SampledFrom(ks).Draw(rt, "present"))
			x := w.immutable(db.NewMapDB(), s.hash())
			var v []byte
			var err error
			if msg := kit.Try(func() { v, err = x.prove(k, q) }); msg != "" {
				r.Fail("proof of another key for the absent key %x: %s", k, msg)
			}
			r.Need(err != nil && v == nil, "the absent key %x is proved to have %x", k, v)
		}
		return
	}
	r.Need(len(p) > 0, "no proof for key %x", k)
	// whoever has only the root hash accepts it ...
	d := db.NewMapDB()
	if w.objects {
		// the object itself is not a part of the proof
		bk, err := d.GetBucket(db.BytesByHash)
		r.NoErr(err, "bucket")
		r.NoErr(bk.Set(ref.Sum(v), v), "set")
	}
	x := w.immutable(d, s.hash())
	got, err := x.prove(k, p)
	r.NoErr(err, "proof for key %x is rejected", k)
	r.Need(bytes.Equal(got, v), "proof for key %x gives %x, should be %x", k, got, v)
	// ... and accepts nothing that was changed
	bad := make([][]byte, len(p))
	copy(bad, p)
	i := rapid.IntRange(0, len(p)-1).Draw(rt, "node")
	how := rapid.SampledFrom([]string{"flip", "cut", "drop", "extra", "swap", "short"}).Draw(rt, "how")
	switch how {
	case "flip":
		b := append([]byte(nil), p[i]...)
		j := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
		b[j] ^= rapid.SampledFrom([]byte{1, 0x80, 0xff}).Draw(rt, "x")
		bad[i] = b
	case "cut":
		bad[i] = p[i][:len(p[i])-1]
	case "drop":
		bad = append(bad[:i], bad[i+1:]...)
	case "short":
		bad = bad[:i]
	case "extra":
		bad = append(append(append([][]byte{}, p[:i]...), p[i]), p[i:]...)
	case "swap":
		j := rapid.IntRange(0, len(p)-1).Draw(rt, "other")
		if i == j {
			return
		}
		bad[i], bad[j] = bad[j], bad[i]
	}
	r.Label("tampered proof %s", how)
	y := w.immutable(d, s.hash())
	var gv []byte
	if msg := kit.Try(func() { gv, err = y.prove(k, bad) }); msg != "" {
		r.Fail("changed proof (%s at %d) for key %x: %s", how, i, k, msg)
	}
	if how == "extra" && err == nil {
		// superfluous nodes prove nothing else
		r.Need(bytes.Equal(gv, v), "proof with another node for key %x gives %x, should be %x", k, gv, v)
		return
	}
	r.Need(err != nil, "changed proof (%s at %d) for key %x is accepted and gives %x", how, i, k, gv)
}

type kept struct {
	s       sn
	m       contents
	flushed bool
	name    string
}

func history(r *kit.Rec) {
	w := &world{r: r, objects: rapid.Bool().Draw(r.T, "objects"), d: db.NewMapDB()}
	switch rapid.IntRange(0, 5).Draw(r.T, "cache") {
	case 0:
		w.cache = cache.NewNodeCache(rapid.IntRange(0, 3).Draw(r.T, "depth"), 0, "")
		r.Label("memory cache")
	case 1:
		w.cache = cache.NewNodeCache(rapid.IntRange(0, 2).Draw(r.T, "depth"), rapid.IntRange(1, 2).Draw(r.T, "fdepth"),
			r.TempDir()+"/c/f")
		r.Label("file cache")
	}
	fixed := rapid.SampledFrom([]int{0, 0, 2, 32}).Draw(r.T, "fixed")
	keys := keyGen(fixed)
	vals := valGen()
	known := []string{}
	key := func() string {
		if len(known) > 0 && rapid.IntRange(0, 2).Draw(r.T, "old key") > 0 {
			return rapid.SampledFrom(known).Draw(r.T, "key")
		}
		k := keys.Draw(r.T, "key")
		known = append(known, k)
		return k
	}
	cur := w.mutable(nil)
	m := contents{}
	var snaps []*kept
	keep := func(s sn, m contents) *kept {
		k := &kept{s, ref.Clone(m), false, fmt.Sprintf("snapshot %d", len(snaps))}
		snaps = append(snaps, k)
		return k
	}
	n := rapid.IntRange(1, 60).Draw(r.T, "n")
	kinds := map[string]bool{}
	ops := []string{"set", "set", "set", "set", "set", "set", "del", "del", "del", "get", "snap", "snap", "reset", "flush", "flush",
		"reload", "clear", "clearm", "check", "filter", "proof", "equal", "branch", "attach", "resolve", "changes"}
	for i := 0; i < n; i++ {
		op := rapid.SampledFrom(ops).Draw(r.T, "op")
		var k *kept
		switch op {
		case "reset", "flush", "reload", "clear", "check", "filter", "proof", "equal", "branch", "resolve":
			if len(snaps) == 0 {
				op = "snap"
			} else {
				k = snaps[rapid.IntRange(0, len(snaps)-1).Draw(r.T, "which")]
			}
		}
		kinds[op] = true
		switch op {
		case "changes":
			// several changes in a row
			c := rapid.IntRange(2, 20).Draw(r.T, "c")
			for j := 0; j < c; j++ {
				ky, v := key(), vals.Draw(r.T, "v")
				r.Step("set %x = %x", ky, v)
				_, err := cur.set(ky, v)
				r.NoErr(err, "set %x", ky)
				m[ky] = v
			}
		case "set":
			ky, v := key(), vals.Draw(r.T, "v")
			r.Step("set %x = %x", ky, v)
			o, err := cur.set(ky, v)
			r.NoErr(err, "set %x", ky)
			r.Need(bytes.Equal(o, w.stored(m[ky])), "set %x returns %x as the previous value, should be %x", ky, o, w.stored(m[ky]))
			m[ky] = v
		case "del":
			ky := key()
			r.Step("delete %x", ky)
			o, err := cur.del(ky)
			r.NoErr(err, "delete %x", ky)
			r.Need(bytes.Equal(o, w.stored(m[ky])), "delete %x returns %x as the previous value, should be %x", ky, o, w.stored(m[ky]))
			delete(m, ky)
		case "get":
			ky := key()
			v, err := cur.get(ky)
			r.Step("get %x", ky)
			r.NoErr(err, "get %x", ky)
			r.Need(bytes.Equal(v, m[ky]), "get %x gives %x, should be %x", ky, v, m[ky])
		case "snap":
			keep(cur.snap(), m)
			r.Step("snapshot %d", len(snaps)-1)
		case "reset":
			r.Step("reset to %s", k.name)
			r.NoErr(cur.reset(k.s), "reset")
			m = ref.Clone(k.m)
		case "flush":
			r.Step("flush %s", k.name)
			r.NoErr(k.s.flush(), "flush")
			k.flushed = true
		case "reload":
			if !k.flushed {
				r.Step("flush %s", k.name)
				r.NoErr(k.s.flush(), "flush")
				k.flushed = true
			}
			r.Step("reload %s by its hash", k.name)
			cur = w.mutable(k.s.hash())
			m = ref.Clone(k.m)
			if rapid.Bool().Draw(r.T, "fresh") {
				w.checkAll(w.immutable(w.d, k.s.hash()), k.m, k.name+" reloaded")
			}
		case "clear":
			r.Step("clear the cache of %s", k.name)
			k.s.clear()
		case "clearm":
			r.Step("clear the cache of the trie")
			cur.clear()
		case "check":
			r.Step("check %s", k.name)
			w.checkAll(k.s, k.m, k.name)
		case "filter":
			ky := key()
			pre := ky[:rapid.IntRange(0, len(ky)).Draw(r.T, "plen")]
			r.Step("filter %s by %x", k.name, pre)
			ks, vs, err := k.s.list(pre, true)
			r.NoErr(err, "filter")
			exp := []string{}
			for _, x := range ref.Keys(k.m) {
				if strings.HasPrefix(x, pre) {
					exp = append(exp, x)
				}
			}
			r.Need(reflect.DeepEqual(exp, append([]string{}, ks...)), "filter %x of %s: %x, should be %x", pre, k.name, ks, exp)
			for i, x := range ks {
				r.Need(bytes.Equal(vs[i], k.m[x]), "filter %x of %s: %x for %x", pre, k.name, vs[i], x)
			}
		case "proof":
			ky := key()
			r.Step("proof of %x in %s", ky, k.name)
			w.checkProof(k.s, k.m, ky, r.T)
		case "equal":
			o := snaps[rapid.IntRange(0, len(snaps)-1).Draw(r.T, "other")]
			r.Step("compare %s with %s", k.name, o.name)
			same := bytes.Equal(w.root(k.m), w.root(o.m))
			r.Need(k.s.equal(o.s, true) == same, "Equal of %s and %s is %v", k.name, o.name, !same)
			if k.s.equal(o.s, false) {
				r.Need(same, "inexact Equal of %s and %s, which differ", k.name, o.name)
			}
		case "branch":
			r.Step("continue from %s in a trie of its own", k.name)
			cur = k.s.mutable()
			m = ref.Clone(k.m)
		case "attach":
			if w.cache != nil {
				r.Step("attach the cache")
				w.cache.OnAttach([]byte("x"))
			}
		case "resolve":
			r.Step("copy %s to another database", k.name)
			if !k.flushed {
				r.NoErr(k.s.flush(), "flush")
				k.flushed = true
			}
			copyTrie(w, k)
		}
	}
	r.Step("end")
	keep(cur.snap(), m)
	for i, k := range snaps {
		if rapid.Bool().Draw(r.T, "flush at the end") {
			r.NoErr(k.s.flush(), "flush")
			k.flushed = true
			w.checkAll(w.immutable(w.d, k.s.hash()), k.m, k.name+" reloaded at the end")
		}
		w.checkAll(k.s, k.m, k.name+" at the end")
		_ = i
	}
	for x := range kinds {
		r.Label("%s", x)
	}
	if len(snaps) > 1 && (kinds["del"] || kinds["reload"] || kinds["reset"]) {
		r.NonTrivial("%s", r.TraceKey())
	}
}

// copyTrie fetches a trie by its hash the way a node that syncs does.
func copyTrie(w *world, k *kept) {
	r := w.r
	dst := db.NewMapDB()
	bd := merkle.NewBuilder(dst)
	t := w.immutable(bd.Database(), k.s.hash())
	if w.objects {
		// the parts of objects outside of the trie are here
		bk, err := bd.Database().GetBucket(db.BytesByHash)
		r.NoErr(err, "bucket")
		for _, v := range k.m {
			r.NoErr(bk.Set(ref.Sum(v), v), "set")
		}
	}
	t.resolve(bd)
	src, err := w.d.GetBucket(db.MerkleTrie)
	r.NoErr(err, "bucket")
	for bd.UnresolvedCount() > 0 {
		it := bd.Requests()
		any := false
		for it.Next() {
			v, err := src.Get(it.Key())
			r.NoErr(err, "source")
			r.Need(v != nil, "%s: node %x is requested but it was not written", k.name, it.Key())
			bad := append(append([]byte(nil), v...), 0)
			r.Need(bd.OnData(db.MerkleTrie, bad) != nil, "changed node is accepted")
			r.NoErr(bd.OnData(db.MerkleTrie, v), "node %x", it.Key())
			any = true
			break
		}
		r.Need(any, "%d nodes missing but none requested", bd.UnresolvedCount())
	}
	r.NoErr(bd.Flush(true), "flush")
	w.checkAll(w.immutable(dst, k.s.hash()), k.m, k.name+" copied")
}

func TestHistory(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "generated histories of changes, snapshots, resets, flushes, reloads, proofs and copies; " +
		"non-trivial if two states were kept and something was deleted, reset or reloaded", Quick: 130000, Thorough: 1600000}, history)
}

// The same contents in any order of changes, with any detours, have one hash.
func TestOrder(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "two histories with the same result; non-trivial if there are three keys", Quick: 40000,
		Thorough: 500000}, func(r *kit.Rec) {
		w := &world{r: r, objects: rapid.Bool().Draw(r.T, "objects"), d: db.NewMapDB()}
		ks := rapid.SliceOfNDistinct(keyGen(rapid.SampledFrom([]int{0, 2, 32}).Draw(r.T, "fixed")), 1, 20,
			func(s string) string { return s }).Draw(r.T, "keys")
		m := contents{}
		for _, k := range ks {
			m[k] = valGen().Draw(r.T, "v")
		}
		extra := rapid.SliceOfN(keyGen(0), 0, 8).Draw(r.T, "extra")
		build := func(order []string, detour bool) sn {
			t := w.mutable(nil)
			for i, k := range order {
				if detour && i < len(extra) {
					if _, in := m[extra[i]]; !in {
						_, err := t.set(extra[i], []byte{9})
						r.NoErr(err, "set")
					}
				}
				if detour && i%3 == 0 {
					_, err := t.set(k, []byte{7, 7})
					r.NoErr(err, "set")
					if i%2 == 0 {
						_, err = t.del(k)
						r.NoErr(err, "del")
					}
				}
				if detour && i%4 == 1 {
					s := t.snap()
					r.NoErr(s.flush(), "flush")
					t = w.mutable(s.hash())
				}
				_, err := t.set(k, m[k])
				r.NoErr(err, "set")
			}
			for i, k := range extra {
				if _, in := m[k]; !in && detour && i < len(order) {
					_, err := t.del(k)
					r.NoErr(err, "del")
				}
			}
			return t.snap()
		}
		p := rapid.Permutation(ks).Draw(r.T, "order")
		r.Step("keys %x extra %x order %x", ks, extra, p)
		a, b := build(ks, false), build(p, true)
		r.Need(bytes.Equal(a.hash(), b.hash()), "hashes %x and %x for the same contents", a.hash(), b.hash())
		w.checkAll(b, m, "second")
		w.checkAll(a, m, "first")
		if len(m) >= 3 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}

// Readers of a snapshot are not disturbed by flushes, cache clearing or by
// changes to the trie it was taken from.
func TestConcurrent(t *testing.T) {
	kit.Check(t, kit.Facet{Rule: "readers of a snapshot beside a writer, a flusher and a cache cleaner; non-trivial if there " +
		"are three keys", Quick: 15000, Thorough: 200000}, func(r *kit.Rec) {
		w := &world{r: r, objects: rapid.Bool().Draw(r.T, "objects"), d: db.NewMapDB()}
		ks := rapid.SliceOfNDistinct(keyGen(rapid.SampledFrom([]int{2, 32}).Draw(r.T, "fixed")), 1, 24,
			func(s string) string { return s }).Draw(r.T, "keys")
		m := contents{}
		t := w.mutable(nil)
		for _, k := range ks {
			m[k] = valGen().Draw(r.T, "v")
			_, err := t.set(k, m[k])
			r.NoErr(err, "set")
		}
		other := keyGen(0).Draw(r.T, "other")
		r.Step("keys %x", ks)
		s := t.snap()
		if rapid.Bool().Draw(r.T, "flushed before") {
			r.NoErr(s.flush(), "flush")
			s.clear()
		}
		var mu sync.Mutex
		msg := ""
		fail := func(f string, a ...interface{}) {
			mu.Lock()
			defer mu.Unlock()
			if msg == "" {
				msg = fmt.Sprintf(f, a...)
			}
		}
		root := w.root(m)
		var wg sync.WaitGroup
		run := func(f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						fail("panic: %v", p)
					}
				}()
				f()
			}()
		}
		for g := 0; g < 3; g++ {
			g := g
			run(func() {
				for i := range ks {
					k := ks[(i*7+g*3)%len(ks)]
					v, err := s.get(k)
					if err != nil || !bytes.Equal(v, m[k]) {
						fail("get %x gives %x (%v), should be %x", k, v, err, m[k])
					}
					if g == 1 {
						if p := s.proof(k); len(p) == 0 {
							fail("no proof for %x", k)
						}
					}
				}
				if g == 2 {
					l, _, err := s.list("", false)
					if err != nil || !reflect.DeepEqual(l, ref.Keys(m)) {
						fail("keys %x (%v)", l, err)
					}
				}
			})
		}
		run(func() {
			if err := s.flush(); err != nil {
				fail("flush: %v", err)
			}
			s.clear()
			if h := s.hash(); !bytes.Equal(h, root) {
				fail("hash %x", h)
			}
		})
		run(func() {
			for _, k := range ks {
				if _, err := t.set(k, []byte{1, 2, 3}); err != nil {
					fail("set: %v", err)
				}
			}
			if _, err := t.set(other, []byte{5}); err != nil {
				fail("set: %v", err)
			}
			for _, k := range ks[len(ks)/2:] {
				if _, err := t.del(k); err != nil {
					fail("del: %v", err)
				}
			}
		})
		wg.Wait()
		r.Need(msg == "", "%s", msg)
		w.checkAll(s, m, "snapshot")
		if len(ks) >= 3 {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
