package p36

import (
	"archive/zip"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/icon-project/goloop/common"
	"github.com/icon-project/goloop/common/db"
	"github.com/icon-project/goloop/common/log"
	"github.com/icon-project/goloop/service/contract"
	"github.com/icon-project/goloop/service/state"
	"github.com/icon-project/goloop/zzpbt/kit"
	"github.com/icon-project/goloop/zzpbt/sim"
)

type gen struct{ *rapid.T }

func (g gen) n(lo, hi int) int     { return rapid.IntRange(lo, hi).Draw(g.T, "n") }
func (g gen) chance(n, d int) bool { return g.n(1, d) <= n }
func pick[E any](g gen, l ...E) E  { return l[g.n(0, len(l)-1)] }

// entry is one member of a package.
type entry struct {
	name string
	data []byte
	dir  bool // marked as a directory
	pack bool // compressed
	size int64
}

// pack writes the members one after another, also what zip.Writer refuses.
func pack(l []entry) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, e := range l {
		h := &zip.FileHeader{Name: e.name, Method: zip.Store}
		if e.pack {
			h.Method = zip.Deflate
		}
		if e.dir {
			h.SetMode(fs.ModeDir | 0755)
		}
		if e.size != 0 || strings.HasSuffix(e.name, "/") {
			h.Method = zip.Store
			h.CRC32 = crc32.ChecksumIEEE(e.data)
			h.CompressedSize64 = uint64(len(e.data))
			h.UncompressedSize64 = uint64(len(e.data))
			if e.size != 0 {
				h.UncompressedSize64 = uint64(e.size)
			}
			o, err := w.CreateRaw(h)
			if err != nil {
				panic(err)
			}
			o.Write(e.data)
			continue
		}
		o, err := w.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		o.Write(e.data)
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// tree reads all files below a folder; folders are left out.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			panic(err)
		}
		if !d.IsDir() {
			bs, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(dir, p)
			if len(bs) > 100 {
				bs = []byte(fmt.Sprintf("%d bytes %x", len(bs), sha256.Sum256(bs)))
			}
			m[rel] = string(bs)
		}
		return nil
	})
	return m
}

func show(m map[string]string) string {
	l := []string{}
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%.40q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func same(a, b map[string]string) bool { return show(a) == show(b) }

const each, all = 1 << 20, 2 << 20

// expected follows the format of packages: the folder of the first package.json
// is the root, caches of tools are left out.
func expected(l []entry) (files map[string]string, plain bool, must string) {
	root, found := "", false
	for _, e := range l {
		if strings.HasSuffix(e.name, "/") || e.dir {
			continue
		}
		i := strings.LastIndex(e.name, "/")
		if e.name[i+1:] == "package.json" {
			root, found = e.name[:i+1], true
			break
		}
	}
	if !found {
		return nil, false, "without package.json"
	}
	plain = true
	files = map[string]string{}
	total := int64(0)
	for _, e := range l {
		if strings.HasSuffix(e.name, "/") || e.dir {
			if e.dir && !strings.HasSuffix(e.name, "/") {
				plain = false
			}
			continue
		}
		if !strings.HasPrefix(e.name, root) {
			continue
		}
		name := e.name[len(root):]
		i := strings.LastIndex(name, "/")
		if strings.Contains(name[:i+1], "__pycache__") || strings.Contains(name[:i+1], "__MACOSX") {
			continue
		}
		n := int64(len(e.data))
		if e.size != 0 {
			plain = false
			n = e.size
		}
		if n < 0 || n > each {
			return nil, false, "with too large a file"
		}
		if total += n; total > all {
			return nil, false, "with too much in it"
		}
		if p := filepath.Clean("x/y/z/" + name); !strings.HasPrefix(p, "x/y/z/") {
			return nil, false, "with a name outside its folder"
		}
		if name != filepath.Clean(name) || strings.HasPrefix(name, "/") || strings.ContainsAny(name, "\\\x00") || len(name) > 100 {
			plain = false
		}
		if _, ok := files[name]; ok {
			plain = false
		}
		for p := filepath.Dir(name); p != "." && p != "/"; p = filepath.Dir(p) {
			if _, ok := files[p]; ok {
				plain = false
			}
		}
		for f := range files {
			if strings.HasPrefix(f, name+"/") {
				plain = false
			}
		}
		v := string(e.data)
		if len(v) > 100 {
			v = fmt.Sprintf("%d bytes %x", len(v), sha256.Sum256(e.data))
		}
		files[name] = v
	}
	return files, plain, ""
}

type code struct {
	c  state.ContractState
	ws state.WorldState
}

func newCode(r *kit.Rec, dbase db.Database, bs []byte, ee state.EEType) code {
	ws := state.NewWorldState(dbase, nil, nil, nil, nil)
	as := ws.GetAccountState([]byte("contract"))
	as.InitContractAccount(common.MustNewAddressFromString("hx" + strings.Repeat("1", 40)))
	_, err := as.DeployContract(bs, ee, "application/zip", nil, []byte("deploy"))
	r.NoErr(err, "a contract can't be deployed")
	return code{as.NextContract(), ws}
}

const slow = 15 * time.Second

// prepare gives the folder of the code as a call of the contract gets it.
func prepare(r *kit.Rec, cm contract.ContractManager, c code) (string, error) {
	cs, err := cm.PrepareContractStore(c.ws, c.c)
	if err != nil {
		return "", err
	}
	type res struct {
		p string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		p, e := cs.WaitResult()
		ch <- res{p, e}
	}()
	select {
	case x := <-ch:
		cs.Dispose()
		return x.p, x.e
	case <-time.After(slow):
		r.Need(false, "a call of the contract never gets its code")
	}
	return "", nil
}

func manager(r *kit.Rec, dbase db.Database, dir string) contract.ContractManager {
	cm, err := contract.NewContractManager(dbase, dir, log.GlobalLogger())
	r.NoErr(err, "no contract manager")
	return cm
}

// Packages of all kinds unpack to their files or are refused as a whole.
func TestUnpack(t *testing.T) {
	sim.Silence()
	kit.Check(t, kit.Facet{Rule: "the package has at least three members and something unusual in it", Quick: 15000, Thorough: 300000}, func(r *kit.Rec) {
		g := gen{r.T}
		base := r.TempDir()
		// deep enough for every name below to stay in the scratch folder
		store := filepath.Join(base, "a", "b", "c", "d", "e", "f", "g", "h", "store")
		if err := os.MkdirAll(store, 0755); err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(filepath.Dir(store), "precious"), []byte("precious"), 0644)
		dbase := db.NewMapDB()
		cm := manager(r, dbase, store)
		known := map[string]string{} // folder -> tree
		for k := g.n(1, 4); k > 0; k-- {
			root := pick(g, "", "", "p/", "p/q/", "./", "/")
			odd := 0
			name := func() string {
				parts := []string{}
				for n := g.n(1, 3); n > 0; n-- {
					parts = append(parts, pick(g, "a", "b", "c.py", "__init__.py", "tests", "package.json"))
				}
				s := strings.Join(parts, "/")
				if g.chance(1, 5) {
					odd++
					switch g.n(0, 11) {
					case 0, 1, 2:
						s = strings.Repeat("../", g.n(1, 5)) + pick(g, "zz-out", "zz/out", "precious", "store/zz")
					case 3:
						s = "a/" + strings.Repeat("../", g.n(1, 5)) + pick(g, "zz-out", "precious")
					case 4:
						s = base + "/zz-abs"
					case 5:
						s = pick(g, "a//b", "./a", "a/./b", "a/..", "..", ".", "a\\b", "..\\b", "...", "a/.b", "..a/b", "a../b")
					case 6:
						s = strings.Repeat("n", pick(g, 100, 255, 256)) + pick(g, "", "/f")
					case 7:
						s = pick(g, "__pycache__/a", "a/__pycache__/b", "__MACOSX/a", "a__MACOSX/b", "__pycache__", "__pycache__/../a")
					case 8:
						s = "é/한글"
					case 9:
						s += "/"
					case 10:
						s = "x\x00y"
					case 11:
						s = "precious"
					}
				}
				return s
			}
			var l []entry
			if !g.chance(1, 15) {
				l = append(l, entry{name: root + "package.json", data: []byte("{}")})
			}
			for n := pick(g, 0, 1, 3, 5, 8); n > 0; n-- {
				e := entry{name: name(), pack: g.chance(1, 2)}
				if !g.chance(1, 8) {
					e.name = root + e.name
				}
				e.data = bytes.Repeat([]byte{byte(g.n(0, 255))}, pick(g, 0, 1, 3, 50, 200))
				switch g.n(0, 40) {
				case 0:
					e.data = bytes.Repeat([]byte{byte(g.n(0, 255)), 1}, pick(g, each/2-1, each/2, each/2+1))
					e.pack = true
					odd++
				case 1:
					e.size = int64(pick(g, 1, 5, 1000, each, each+1, 1<<40, 1<<62, -1, -1<<63, -each))
					odd++
				case 2:
					e.dir = true
					odd++
				}
				l = append(l, e)
			}
			if g.chance(1, 3) {
				i := g.n(0, max(0, len(l)-1))
				if len(l) > 0 {
					l[0], l[i] = l[i], l[0]
				}
			}
			bs := pack(l)
			harm := false
			if g.chance(1, 12) && len(bs) > 4 {
				harm = true
				odd++
				switch g.n(0, 2) {
				case 0:
					bs = bs[:g.n(0, len(bs)-1)]
				case 1:
					bs = bytes.Clone(bs)
					bs[g.n(0, len(bs)-1)] ^= byte(g.n(1, 255))
				case 2:
					bs = bytes.Clone(bs)
					binary.LittleEndian.PutUint32(bs[g.n(0, len(bs)-4):], uint32(pick(g, 0, 0xffffffff, 0x7fffffff)))
				}
			}
			if len(bs) == 0 {
				continue
			}
			line := "package"
			for _, e := range l {
				line += fmt.Sprintf(" %.60q(%d", e.name, len(e.data))
				if e.size != 0 {
					line += fmt.Sprintf(" as %d", e.size)
				}
				line += ")"
			}
			if harm {
				line += fmt.Sprintf(" harmed to %d bytes", len(bs))
			}
			r.Step("%s", line)
			if harm {
				// names may have changed; only what stays within is run
				if z, err := zip.NewReader(bytes.NewReader(bs), int64(len(bs))); err == nil {
					for _, f := range z.File {
						if strings.Count(f.Name, "..") > 6 {
							return
						}
					}
				}
			}
			before := tree(base)
			path, err := prepare(r, cm, newCode(r, dbase, bs, state.PythonEE))
			after := tree(base)
			files, plain, must := expected(l)
			if err == nil {
				rel, e := filepath.Rel(store, path)
				r.NoErr(e, "the folder of the code is not in the store")
				r.Need(!strings.Contains(rel, "/") && rel != ".." && rel != ".", "the folder of the code is not in the store: %q", rel)
				got := tree(path)
				pre, _ := filepath.Rel(base, path)
				for p := range after {
					if strings.HasPrefix(p, pre+"/") {
						delete(after, p)
					}
				}
				old := known[path]
				for p := range before {
					if strings.HasPrefix(p, pre+"/") {
						delete(before, p)
					}
				}
				r.Need(same(before, after), "files out of the code's folder were touched: %s, before %s", show(after), show(before))
				r.Need(old == "" || old == show(got), "the same package has other files the second time: %s, before %s", show(got), old)
				known[path] = show(got)
				if !harm {
					r.Need(must == "", "a package %s is accepted: %s", must, show(got))
					if plain {
						r.Need(same(files, got), "the package's files are %s but those unpacked are %s", show(files), show(got))
					}
				}
				r.Label("unpacked")
				again, err := prepare(r, manager(r, dbase, store), newCode(r, dbase, bs, state.PythonEE))
				r.NoErr(err, "the code can't be prepared after a restart")
				r.Need(again == path && same(tree(again), got), "the code's folder changes with a restart: %s", show(tree(again)))
			} else {
				r.Label("refused")
				r.Need(same(before, after), "a refused package leaves or changes files: %s, before %s", show(after), show(before))
				if !harm && must == "" && plain {
					r.NoErr(err, "a plain package is refused")
				}
				_, err2 := prepare(r, cm, newCode(r, dbase, bs, state.PythonEE))
				r.Need(err2 != nil, "a package refused once (%v) is accepted the second time", err)
			}
			ents, _ := os.ReadDir(store)
			for _, e := range ents {
				r.Need(known[filepath.Join(store, e.Name())] != "" || len(tree(filepath.Join(store, e.Name()))) == 0 && strings.HasPrefix(e.Name(), "0x"), "%q is left in the store", e.Name())
			}
			if odd > 0 {
				r.Label("odd")
				if len(l) >= 3 {
					r.NonTrivial("%s", r.TraceKey())
				}
			}
			if must != "" {
				r.Label("must refuse: %s", must)
			}
		}
	})
}

// Every call that waits for a contract's code gets the same answer.
func TestWaiters(t *testing.T) {
	sim.Silence()
	kit.Check(t, kit.Facet{Rule: "several calls wait for the code at the same time", Quick: 1400, Thorough: 60000, Sure: true}, func(r *kit.Rec) {
		g := gen{r.T}
		dir := r.TempDir()
		dbase := db.NewMapDB()
		cm := manager(r, dbase, dir)
		for k := g.n(5, 15); k > 0; k-- {
			good := g.chance(1, 2)
			ee := pick(g, state.PythonEE, state.JavaEE)
			bs := pack([]entry{{name: pick(g, "package.json", "a/package.json"), data: []byte(fmt.Sprint(k, g.n(0, 1<<30)))}})
			if !good {
				ee = state.PythonEE
				bs = []byte(fmt.Sprint("bad", k, g.n(0, 1<<30)))
			}
			n, m := pick(g, 2, 3, 4), pick(g, 1, 3, 300, 1000)
			drop := g.chance(1, 2) // the first one gives up before the code is ready
			r.Step("package of %d bytes (good: %v, %s), %d times %d calls, one gives up: %v", len(bs), good, ee, n, m, drop)
			var wg sync.WaitGroup
			var mixed atomic.Bool
			paths, errs := make([]string, n), make([]error, n)
			codes := make([]code, n)
			for i := range codes {
				codes[i] = newCode(r, dbase, bs, ee)
			}
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					var l []contract.ContractStore
					for len(l) < m {
						cs, err := cm.PrepareContractStore(codes[i].ws, codes[i].c)
						if err != nil {
							errs[i] = err
							break
						}
						if drop && i == 0 && len(l) == 0 {
							cs.Dispose()
							drop = false
							continue
						}
						l = append(l, cs)
					}
					for j, cs := range l {
						path, err := cs.WaitResult()
						cs.Dispose()
						if j == 0 {
							paths[i], errs[i] = path, err
						} else if path != paths[i] || (err == nil) != (errs[i] == nil) {
							mixed.Store(true)
						}
					}
				}()
			}
			done := make(chan bool)
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(slow):
				r.Need(false, "a call of a contract never gets its code")
			}
			r.Need(!mixed.Load(), "calls of the same contract get different answers")
			for i := range paths {
				r.Need((errs[i] == nil) == good, "call %d of %d: err=%v, the package is good: %v", i, n, errs[i], good)
				if !good {
					continue
				}
				m := tree(paths[i])
				if ee == state.PythonEE {
					r.Need(len(m) == 1 && m["package.json"] != "", "call %d of %d gets other files: %s", i, n, show(m))
				} else {
					r.Need(len(m) == 1, "call %d of %d gets other files: %s", i, n, show(m))
					got, _ := os.ReadFile(filepath.Join(paths[i], "code.jar"))
					r.Need(bytes.Equal(got, bs), "call %d of %d gets other code", i, n)
				}
			}
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}

func limit(kind int, cur uint64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(kind, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(kind, &syscall.Rlimit{Cur: min(cur, old.Max), Max: old.Max}); err != nil {
		panic(err)
	}
	return func() { syscall.Setrlimit(kind, &old) }
}

// A full disk or a lack of resources while the code is stored does not change
// what later calls get.
func TestFaults(t *testing.T) {
	sim.Silence()
	signal.Ignore(syscall.SIGXFSZ)
	kit.Check(t, kit.Facet{Rule: "storing fails before the package is stored completely", Quick: 1000, Thorough: 30000}, func(r *kit.Rec) {
		g := gen{r.T}
		dir := r.TempDir()
		dbase := db.NewMapDB()
		cm := manager(r, dbase, dir)
		ee := pick(g, state.PythonEE, state.JavaEE)
		l := []entry{{name: "package.json", data: []byte("{}")}}
		for n := g.n(0, 10); n > 0; n-- {
			l = append(l, entry{name: fmt.Sprintf("d%d/f%d", g.n(0, 3), n), data: bytes.Repeat([]byte{byte(n)}, g.n(0, 3000))})
		}
		bs := pack(l)
		c := newCode(r, dbase, bs, ee)
		most := uint64(g.n(0, 4000))
		if ee == state.JavaEE {
			most = uint64(g.n(0, len(bs)+10))
		}
		r.Step("%s package of %d files, %d bytes; files can not be larger than %d", ee, len(l), len(bs), most)
		reset := limit(syscall.RLIMIT_FSIZE, most)
		_, err := prepare(r, cm, c)
		reset()
		r.Step("first: err=%v", err != nil)
		if g.chance(1, 2) {
			r.Step("restart")
			cm = manager(r, dbase, dir)
		}
		for i := 0; i < 2; i++ {
			path, err2 := prepare(r, cm, c)
			r.NoErr(err2, "the code can't be prepared once the disk has room again")
			got := tree(path)
			if ee == state.JavaEE {
				jar, _ := os.ReadFile(filepath.Join(path, "code.jar"))
				r.Need(bytes.Equal(jar, bs) && len(got) == 1, "the stored code is not the contract's: %s", show(got))
			} else {
				want, _, _ := expected(l)
				r.Need(same(want, got), "the package's files are %s but those unpacked are %s", show(want), show(got))
			}
		}
		ents, _ := os.ReadDir(dir)
		r.Need(len(ents) == 1, "%d folders are in the store of one contract", len(ents))
		if err != nil {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}

// The number of files of a package does not decide whether it's accepted.
func TestMany(t *testing.T) {
	sim.Silence()
	kit.Check(t, kit.Facet{Rule: "the package has more files than can be open at the same time", Quick: 70, Thorough: 2000}, func(r *kit.Rec) {
		g := gen{r.T}
		dir := r.TempDir()
		dbase := db.NewMapDB()
		cm := manager(r, dbase, dir)
		n, most := g.n(10, 400), uint64(g.n(100, 150))
		l := []entry{{name: "package.json", data: []byte("{}")}}
		for i := 1; i < n; i++ {
			l = append(l, entry{name: fmt.Sprintf("d%d/f%d", i%7, i)})
		}
		r.Step("package of %d files, %d can be open", n, most)
		c := newCode(r, dbase, pack(l), state.PythonEE)
		reset := limit(syscall.RLIMIT_NOFILE, most)
		path, err := prepare(r, cm, c)
		reset()
		r.NoErr(err, "a package of %d files is refused", n)
		r.Need(len(tree(path)) == n, "%d files of %d are unpacked", len(tree(path)), n)
		if uint64(n) > most {
			r.NonTrivial("%s", r.TraceKey())
		}
	})
}
