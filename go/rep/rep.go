// Package rep collects what a monitor observed and writes it as one JSON
// document for check.py.
package rep

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
)

type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Replay string `json:"replay,omitempty"`
}

type Report struct {
	mu       sync.Mutex
	stats    map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	viols    []Violation
	seen     map[string]int
	evals    int64
	nviol    int64
}

func New() *Report {
	return &Report{stats: map[string]int64{}, distinct: map[uint64]struct{}{}, seen: map[string]int{}}
}

func (r *Report) Add(k string, n int64) { r.mu.Lock(); r.stats[k] += n; r.mu.Unlock() }
func (r *Report) Max(k string, n int64) {
	r.mu.Lock()
	r.stats[k] = max(r.stats[k], n)
	r.mu.Unlock()
}
func (r *Report) Eval(n int64) { r.mu.Lock(); r.evals += n; r.mu.Unlock() }
func (r *Report) Evals() int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.evals }
func (r *Report) Distinct(h uint64) {
	r.mu.Lock()
	r.distinct[h] = struct{}{}
	r.mu.Unlock()
}
func (r *Report) Sample(f string, a ...any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Violation records a violation; key is a stable identification of what fails
// (for known findings and deduplication).
func (r *Report) Violation(key, detail, replay string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nviol++
	r.seen[key]++
	if r.seen[key] <= 2 && len(r.viols) < 30 {
		if len(detail) > 4000 {
			detail = detail[:4000] + "..."
		}
		r.viols = append(r.viols, Violation{key, detail, replay})
	}
}
func (r *Report) Violations() int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.nviol }
func (r *Report) Stat(k string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stats[k]
}

// Require reports an observation gap: a monitor that saw nothing is no evidence.
func (r *Report) Write(path string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	keys := make([]string, 0, len(r.stats))
	for k := range r.stats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	b, err := json.Marshal(map[string]any{"evaluations": r.evals, "distinct": len(r.distinct), "stats": r.stats, "samples": r.samples, "violations": r.viols, "violation_count": r.nviol, "violation_keys": r.seen})
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
}

// Fnv hashes a string.
func Fnv(parts ...any) uint64 {
	h := uint64(0xcbf29ce484222325)
	s := fmt.Sprint(parts...)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// Parallel runs f for every index on all processors.
func Parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := min(runtime.NumCPU(), n); w > 0; w-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Guard runs f and reports a panic of the code under test as a violation.
func (r *Report) Guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			r.Violation("panic:"+what+":"+PanicSite(string(buf)), fmt.Sprintf("%s: panic: %v\n%s", what, e, buf), "")
			ok = false
		}
	}()
	f()
	return true
}

// PanicSite extracts the first function of the code under test in a stack.
func PanicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "Fantom-foundation/Tosca/go") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "Tosca/go/"); i >= 0 {
				l = l[i+9:]
			}
			return l
		}
	}
	return "?"
}
