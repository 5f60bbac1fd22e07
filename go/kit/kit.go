// Package kit runs the properties of the Go node: every generated case is
// counted, described and, when it fails, written down with its description.
package kit

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Facet describes one way of generating cases for a property.
type Facet struct {
	Rule     string // what makes a case non-trivial
	Quick    int
	Thorough int
	Hang     time.Duration // longest time for one case (default 120 s)
	Sure     bool          // a failure is one even if it does not happen again
}

// Rec records one case.
type Rec struct {
	*rapid.T
	trace  []string
	keys   []string
	labels []string
	tmp    []string
}

type stats struct {
	Evaluations int            `json:"evaluations"`
	Keys        []string       `json:"keys"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Asked       int            `json:"asked"`
	Rule        string         `json:"rule"`
	Wall        float64        `json:"wall"`
	TimedOut    bool           `json:"timed_out"`
}

type failure struct {
	Message string   `json:"message"`
	Trace   []string `json:"trace"`
	Case    int      `json:"case"`
	Sure    bool     `json:"sure"`
}

// Step adds a line to the description of the case.
func (r *Rec) Step(f string, a ...interface{}) {
	r.trace = append(r.trace, fmt.Sprintf(f, a...))
	if show {
		fmt.Fprintln(os.Stderr, r.trace[len(r.trace)-1])
	}
}

var show = os.Getenv("PBT_SHOW") != "" // for debugging

// Label counts a class of cases (once per case and label).
func (r *Rec) Label(f string, a ...interface{}) { r.labels = append(r.labels, fmt.Sprintf(f, a...)) }

// NonTrivial marks the case as non-trivial; the key tells it from the others.
// A case counts once: the last key of a case is its key.
func (r *Rec) NonTrivial(f string, a ...interface{}) { r.keys = []string{fmt.Sprintf(f, a...)} }

// TraceKey is the description so far, to be used as a key.
func (r *Rec) TraceKey() string { return strings.Join(r.trace, "\n") }

// TempDir makes a folder that is removed after the case.
func (r *Rec) TempDir() string {
	d, err := os.MkdirTemp("", "case-")
	if err != nil {
		panic(Broken("no scratch folder: " + err.Error()))
	}
	r.tmp = append(r.tmp, d)
	return d
}

// Broken is a fault of the harness, never of the code under test.
type Broken string

type stop struct{ msg string }

// Fail reports a violation.
func (r *Rec) Fail(f string, a ...interface{}) {
	panic(&stop{fmt.Sprintf(f, a...)})
}

// Need reports a violation unless ok.
func (r *Rec) Need(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(&stop{fmt.Sprintf(f, a...)})
	}
}

// NoErr reports a violation if err is set.
func (r *Rec) NoErr(err error, f string, a ...interface{}) {
	if err != nil {
		panic(&stop{fmt.Sprintf(f, a...) + ": " + fmt.Sprintf("%+v", err)})
	}
}

// Try runs f and turns a panic into a message.
func Try(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(*stop); ok {
				panic(s)
			}
			msg = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	f()
	return ""
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

// Check runs a facet.
func Check(t *testing.T, fc Facet, prop func(r *Rec)) {
	workers, me := envInt("PBT_WORKERS", 1), envInt("PBT_WORKER", 0)
	total := fc.Quick
	if os.Getenv("PBT_TIER") == "thorough" {
		total = fc.Thorough
	}
	total = envInt("PBT_COUNT", total)
	n := total / workers
	if me < total%workers {
		n++
	}
	replay := os.Getenv("PBT_REPLAY") != ""
	if n == 0 && !replay {
		n = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	if fc.Hang == 0 {
		fc.Hang = 120 * time.Second
	}
	out := os.Getenv("PBT_OUT")
	st := &stats{Labels: map[string]int{}, Asked: n, Rule: fc.Rule}
	keys := map[string]bool{}
	start := time.Now()
	var deadline time.Time
	if s := envInt("PBT_SECONDS", 0); s > 0 {
		deadline = start.Add(time.Duration(s) * time.Second)
	}
	failing := false
	cases := 0
	var began atomic.Int64
	var current atomic.Int64
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			b := began.Load()
			if b != 0 && time.Since(time.Unix(0, b)) > fc.Hang {
				if out != "" {
					dump(out+".fail", failure{Message: fmt.Sprintf("the case did not end within %v", fc.Hang), Case: int(current.Load())})
				}
				fmt.Fprintln(os.Stderr, "PBT-HANG")
				debug.SetTraceback("all")
				panic("PBT-HANG")
			}
		}
	}()
	defer func() {
		for k := range keys {
			st.Keys = append(st.Keys, k)
		}
		sort.Strings(st.Keys)
		st.Wall = time.Since(start).Seconds()
		if out != "" {
			dump(out, st)
		}
	}()
	limit := envInt("PBT_UPTO", 0)
	rapid.Check(t, func(rt *rapid.T) {
		if replay && cases > 0 && !failing {
			return
		}
		if limit > 0 && cases >= limit && !failing {
			return
		}
		if !failing && !deadline.IsZero() && time.Now().After(deadline) {
			st.TimedOut = true
			return
		}
		r := &Rec{T: rt}
		cases++
		current.Store(int64(cases))
		began.Store(time.Now().UnixNano())
		defer func() {
			p := recover()
			began.Store(0)
			for _, d := range r.tmp {
				os.RemoveAll(d)
			}
			if p == nil {
				return
			}
			if s, ok := p.(*stop); ok {
				failing = true
				dump(out+".fail", failure{s.msg, r.trace, cases, fc.Sure})
				rt.Fatalf("violation")
			}
			if b, ok := p.(Broken); ok {
				fmt.Fprintf(os.Stderr, "PBT-BROKEN %s\n", string(b))
				os.Exit(4)
			}
			switch fmt.Sprintf("%T", p) {
			case "rapid.invalidData":
			case "rapid.stopTest":
				failing = true
				dump(out+".fail", failure{fmt.Sprint(p), r.trace, cases, false})
			default:
				failing = true
				dump(out+".fail", failure{fmt.Sprintf("panic: %v\n%s", p, debug.Stack()), r.trace, cases, fc.Sure})
				rt.Fatalf("panic")
			}
			panic(p)
		}()
		prop(r)
		if failing {
			return
		}
		st.Evaluations++
		seen := map[string]bool{}
		for _, l := range r.labels {
			if !seen[l] {
				seen[l] = true
				st.Labels[l]++
			}
		}
		for _, k := range r.keys {
			h := sha256.Sum256([]byte(k))
			keys[hex.EncodeToString(h[:6])] = true
		}
		if len(r.keys) > 0 && len(r.trace) > 0 {
			s := strings.Join(r.trace, "\n")
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			if len(st.Samples) < 12 {
				st.Samples = append(st.Samples, s)
			} else if i := st.Evaluations % 97; i < 12 {
				st.Samples[i] = s
			}
		}
	})
}

func dump(path string, v interface{}) {
	if path == ".fail" || path == "" {
		if f, ok := v.(failure); ok {
			fmt.Fprintf(os.Stderr, "%s\n%s\n", strings.Join(f.Trace, "\n"), f.Message)
		}
		return
	}
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, b, 0o600))
}

func must(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "PBT-BROKEN %v\n", err)
		os.Exit(4)
	}
}
