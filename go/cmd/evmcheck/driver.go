package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	"verif/evmgen"
	"verif/ref"
	"verif/rep"
)

// drv runs batches of cases on systems under test.
type drv struct {
	prop, work string
	seed       int64
	thorough   bool
	r          *rep.Report
	fileID     atomic.Int64
	bins       map[string]string
	reported   atomic.Int64
}

// sut is one way of executing cases: binary, mode arguments and environment.
type sut struct {
	name       string
	bin        string
	args       []string
	env        []string
	rust, deep bool
}

func (d *drv) scale(quick, thorough int) int {
	if d.thorough {
		return thorough
	}
	return quick
}

// batch generates n cases; wants are the oracle's results.
type item struct {
	c    *ref.Case
	want ref.Result
	vm   *ref.VM
	hist [256]uint64
}

func (d *drv) gen(shard, n int, setup func(g *evmgen.Gen, i int)) []*item {
	g := evmgen.New(d.seed*1_000_003 + int64(shard)*7907 + int64(len(d.prop)) + int64(d.prop[0])*131 + int64(d.prop[1])*17 + int64(d.prop[2]))
	var res []*item
	for i := 0; len(res) < n; i++ {
		if setup != nil {
			setup(g, i)
		}
		res = append(res, d.oracle(g.Case(shard*1_000_000+len(res))))
	}
	return res
}

func (d *drv) oracle(c *ref.Case) *item {
	it := &item{c: c}
	it.want, it.vm = ref.RunCase(c, &it.hist, 400_000)
	if it.vm.Inconclusive {
		c.Gas = 500
		it.hist = [256]uint64{}
		it.want, it.vm = ref.RunCase(c, &it.hist, 400_000)
	}
	return it
}

// observe records what kind of executions the monitors saw.
func (d *drv) observe(its []*item) {
	stats := map[string]int64{}
	var ops [256]int64
	for _, it := range its {
		stats["runs_"+it.want.Status]++
		stats[fmt.Sprintf("runs_rev%d", it.c.Rev)]++
		stats["instructions"] += int64(it.vm.Steps)
		for _, e := range it.want.Events {
			stats["events_"+e[:1]]++
		}
		for i, n := range it.hist {
			ops[i] += int64(n)
		}
		if it.vm.Steps >= 3 {
			d.r.Distinct(it.vm.Trace ^ uint64(it.c.Rev)<<56 ^ rep.Fnv(it.want.Status, it.want.Gas))
		}
	}
	d.r.Eval(int64(len(its)))
	for k, v := range stats {
		d.r.Add(k, v)
	}
	for op, n := range ops {
		if n > 0 {
			d.r.Add(fmt.Sprintf("op_%02x", op), n)
		}
	}
}

func cases(its []*item) []*ref.Case {
	r := make([]*ref.Case, len(its))
	for i, it := range its {
		r[i] = it.c
	}
	return r
}

var crashLine = regexp.MustCompile(`(?m)^.*(ERROR: (Address|Leak)Sanitizer|runtime error:|WARNING: ThreadSanitizer|WARNING: DATA RACE|^panic:|^fatal error:|panicked at|Assertion failed|terminate called|SUMMARY: ).*$`)
var frame = regexp.MustCompile(`(?m)(/repo/[\w./-]+\.(?:cc|h|go|rs)|[\w./-]+/(?:cpp|go|rust)/[\w./-]+\.(?:cc|h|go|rs)):(\d+)`)
var crashKind = regexp.MustCompile(`AddressSanitizer: ([\w-]+)|ThreadSanitizer: ([\w -]+)|runtime error: ([a-z -]+)|(DATA RACE)|(panic|fatal error): ([\w :]+)|(Assertion failed)`)

// crashKey gives a crash a stable name: what happened and in which file.
func crashKey(stderr string) string {
	k := "abnormal-exit"
	if m := crashKind.FindStringSubmatch(stderr); m != nil {
		for _, x := range m[1:] {
			if x != "" {
				k = strings.TrimSpace(x)
				break
			}
		}
	}
	f := "?"
	for _, m := range frame.FindAllStringSubmatch(stderr, -1) {
		if strings.Contains(m[1], "verif/") || strings.Contains(m[1], "/usr/") || strings.Contains(m[1], "sanitizer") {
			continue
		}
		f = filepath.Base(m[1])
		break
	}
	return strings.ReplaceAll(k, " ", "-") + "@" + f
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type outcome struct {
	res map[int]*ref.Result
	raw string // complete output log
}

// exec runs the cases on the system under test. Crashes and hangs of the system
// are reported as violations, and the remaining cases are still run.
func (d *drv) exec(cs []*ref.Case, s sut) outcome {
	o := outcome{res: map[int]*ref.Result{}}
	rest := cs
	for attempt := 0; attempt < 4 && len(rest) > 0; attempt++ {
		raw, stderr, timeout, err := d.once(rest, s, 400*time.Second)
		rs, _ := ref.DecodeResults(strings.NewReader(raw))
		for k, v := range rs {
			o.res[k] = v
		}
		if s.rust {
			d.panics(s, rest, rs, stderr)
		}
		o.raw += raw
		if err == nil {
			return o
		}
		at := lastBegin(raw)
		idx := -1
		for i, c := range rest {
			if c.ID == at {
				idx = i
			}
		}
		if idx < 0 {
			if crashLine.MatchString(stderr) {
				d.r.Violation(s.name+":"+crashKey(stderr), "before the first case\n"+tail(stderr, 3000), "")
				return o
			}
			fatal("%s did not run: %v\n%s", s.name, err, tail(stderr, 3000))
		}
		c := rest[idx]
		if timeout {
			_, _, again, _ := d.once([]*ref.Case{c}, s, 150*time.Second)
			if again {
				d.r.Violation(s.name+":hang", fmt.Sprintf("case %d (%s) does not end although its gas is bounded", c.ID, c.Tag), c.String())
			} else {
				d.r.Add("timeouts_not_reproduced", 1)
			}
		} else if crashLine.MatchString(stderr) || isSignal(err) {
			d.r.Violation(s.name+":"+crashKey(stderr), fmt.Sprintf("%s: %v in case %d (%s)\n%s", s.name, err, c.ID, c.Tag, tail(stderr, 3000)), c.String())
		} else {
			fatal("%s failed: %v\n%s", s.name, err, tail(stderr, 3000))
		}
		rest = rest[idx+1:]
	}
	return o
}

func isSignal(err error) bool {
	// SIGKILL is what the memory guard of the sandbox uses
	return err != nil && strings.Contains(err.Error(), "signal:") && !strings.Contains(err.Error(), "killed")
}

func lastBegin(raw string) int {
	i := strings.LastIndex(raw, "begin ")
	if i < 0 {
		return -1
	}
	var id int
	if _, err := fmt.Sscanf(raw[i:], "begin %d", &id); err != nil {
		return -1
	}
	return id
}

func (d *drv) once(cs []*ref.Case, s sut, limit time.Duration) (raw, stderr string, timeout bool, err error) {
	id := d.fileID.Add(1)
	in, out := fmt.Sprintf("%s/in%d", d.work, id), fmt.Sprintf("%s/out%d", d.work, id)
	defer os.Remove(in)
	defer os.Remove(out)
	var buf bytes.Buffer
	for _, c := range cs {
		c.Encode(&buf)
	}
	if e := os.WriteFile(in, buf.Bytes(), 0o644); e != nil {
		fatal("%v", e)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, s.bin, append([]string{in, out}, s.args...)...)
	if s.deep { // how much stack tail calls take is up to the compiler
		cmd = exec.CommandContext(ctx, "bash", append([]string{"-c", `ulimit -s unlimited; exec "$0" "$@"`, s.bin, in, out}, s.args...)...)
	}
	capture := fmt.Sprintf("%s/cap%d", d.work, id)
	defer os.Remove(capture)
	for _, e := range s.env {
		cmd.Env = append(cmd.Env, strings.ReplaceAll(e, "@CAPTURE@", capture))
	}
	cmd.Env = append(os.Environ(), cmd.Env...)
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{b: &eb}
	err = cmd.Run()
	b, _ := os.ReadFile(out)
	return string(b), eb.String(), ctx.Err() != nil, err
}

type limitWriter struct{ b *bytes.Buffer }

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.b.Len() < 1<<20 {
		w.b.Write(p)
	}
	return len(p), nil
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "evmcheck: "+f+"\n", a...)
	os.Exit(9)
}

// category turns a comparison result into a stable key.
func category(diff string) string {
	k, _, _ := strings.Cut(diff, ":")
	return strings.ReplaceAll(k, " ", "-")
}

func (d *drv) diff(s sut, it *item, diff string, got *ref.Result) {
	g := ""
	if got != nil {
		g = fmt.Sprintf("\n--- observed\nstatus %s %s gas %d refund %d output %x\n%s", got.Status, got.Detail, got.Gas, got.Refund, got.Output, strings.Join(got.Events, "\n"))
	}
	w := it.want
	d.r.Violation(s.name+":"+category(diff), fmt.Sprintf("%s case %d (%s, rev %d, static %v): %s\n--- required\nstatus %s %s gas %d refund %d output %x\n%s%s",
		s.name, it.c.ID, it.c.Tag, it.c.Rev, it.c.Static, diff, w.Status, w.Detail, w.Gas, w.Refund, w.Output, strings.Join(w.Events, "\n"), g), it.c.String())
}
