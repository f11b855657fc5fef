// drivercheck runs the conformance test driver as a user would, with an
// interpreter that deviates where planned, and judges what the driver reports
// by the log of what it was shown.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"verif/drvhook"
	"verif/rep"
)

var (
	R        = rep.New()
	bins     []string
	work     string
	allNames []string
	counter  int
	thorough = flag.Bool("thorough", false, "more")
	mu       sync.Mutex
)

func bad(key, f string, a ...any) { R.Violation(key, fmt.Sprintf(f, a...), "") }

type outcome struct {
	code           int
	stdout, stderr string
	calls          []drvhook.Call
	infos          []drvhook.StateInfo
	selected       map[string]int
	tmp            string
	hung           bool
}

// drive runs the driver in a directory of its own.
func drive(bin string, plan drvhook.Plan, args ...string) outcome {
	mu.Lock()
	counter++
	dir := filepath.Join(work, fmt.Sprintf("run%d", counter))
	mu.Unlock()
	tmp := filepath.Join(dir, "tmp")
	if err := os.MkdirAll(tmp, 0755); err != nil {
		panic(err)
	}
	plan.Log = filepath.Join(dir, "log")
	text, _ := json.Marshal(plan)
	if err := os.WriteFile(filepath.Join(dir, "plan"), text, 0644); err != nil {
		panic(err)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_DRIVER_PLAN="+filepath.Join(dir, "plan"), "TMPDIR="+tmp, "GORACE=halt_on_error=1 exitcode=66")
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	res := outcome{tmp: tmp}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(200 * time.Second):
		res.hung = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	res.code = cmd.ProcessState.ExitCode()
	res.stdout, res.stderr = so.String(), se.String()
	f, err := os.Open(plan.Log)
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			if plan.Mode == "enum" {
				if res.selected == nil {
					v := struct{ Selected map[string]int }{}
					json.Unmarshal(sc.Bytes(), &v)
					res.selected = v.Selected
					continue
				}
				var i drvhook.StateInfo
				if json.Unmarshal(sc.Bytes(), &i) == nil {
					res.infos = append(res.infos, i)
				}
			} else {
				var c drvhook.Call
				if json.Unmarshal(sc.Bytes(), &c) == nil {
					res.calls = append(res.calls, c)
				}
			}
		}
		f.Close()
		os.Remove(plan.Log)
	}
	what := strings.Join(args, " ")
	if res.hung {
		bad("driver:hang", "driver %s does not end\n%s", what, tail(res.stderr))
	}
	if strings.Contains(res.stderr, "WARNING: DATA RACE") {
		bad("driver:race", "driver %s: %s", what, head(res.stderr[strings.Index(res.stderr, "WARNING: DATA RACE"):]))
	}
	if strings.Contains(res.stderr, "goroutine ") && (strings.Contains(res.stderr, "panic:") || strings.Contains(res.stderr, "fatal error:")) {
		bad("driver:crash", "driver %s: %s", what, head(res.stderr))
	}
	R.Add("driver_runs", 1)
	return res
}

func head(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}
func tail(s string) string {
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

// filter selects a few rules by name.
func filter(rnd *rand.Rand) string {
	switch rnd.Intn(6) {
	case 0:
		// A part of a name.
		n := allNames[rnd.Intn(len(allNames))]
		parts := strings.Split(n, "_")
		if len(parts[0]) > 2 {
			return parts[0] + ".*" + parts[len(parts)-1]
		}
	case 1:
		return "^" + regexp.QuoteMeta(allNames[rnd.Intn(len(allNames))])
	}
	names := []string{}
	for i, n := 0, 1+rnd.Intn(12); i < n; i++ {
		names = append(names, regexp.QuoteMeta(allNames[rnd.Intn(len(allNames))]))
	}
	return "^(" + strings.Join(names, "|") + ")$"
}

var names = []string{"filter", "f"}

type round struct {
	rnd    *rand.Rand
	bin    string
	filter string
	seed   uint64
	jobs   int
	full   bool
	extra  []drvhook.Extra
	infos  []drvhook.StateInfo
	sel    map[string]int
}

func (r *round) args() []string {
	res := []string{}
	if r.rnd.Intn(2) == 0 {
		res = append(res, "--filter", r.filter)
	} else {
		res = append(res, "-f="+r.filter)
	}
	if r.rnd.Intn(2) == 0 {
		res = append(res, "--seed", fmt.Sprint(r.seed), "--jobs", fmt.Sprint(r.jobs))
	} else {
		res = append(res, "-j", fmt.Sprint(r.jobs), "-s", fmt.Sprint(r.seed))
	}
	if r.full {
		res = append(res, "--full-mode")
	}
	return res
}

func (r *round) String() string {
	return fmt.Sprintf("filter %s seed %d jobs %d full %t extra %+v", r.filter, r.seed, r.jobs, r.full, r.extra)
}

func (r *round) plan() drvhook.Plan {
	return drvhook.Plan{Filter: r.filter, Seed: r.seed, Full: r.full, Extra: r.extra}
}

func newRound(rnd *rand.Rand, bin string, extra bool) *round {
	for {
		r := &round{rnd: rnd, bin: bin, seed: rnd.Uint64(), jobs: []int{1, 2, 3, 4, 8, 16}[rnd.Intn(6)], full: rnd.Intn(4) == 0}
		if rnd.Intn(3) == 0 {
			r.seed = uint64(rnd.Intn(5))
		}
		r.filter = filter(rnd)
		if extra {
			ops := []int{-1, 0x01, 0x50, 0x55, 0x5b, 0x60, 0x80, 0x54, 0x0c, 0x31}
			var parts []string
			for i, n := 0, 1+rnd.Intn(4); i < n; i++ {
				e := drvhook.Extra{Name: fmt.Sprintf("verif%d_extra", i), Op: ops[rnd.Intn(len(ops))], Amount: 2 + rnd.Intn(3), Effect: []string{"gas", "same", "fail", "same", "none", "stop", "same"}[rnd.Intn(7)]}
				if i > 0 && rnd.Intn(2) == 0 {
					e.Op = r.extra[0].Op
				}
				if rnd.Intn(3) == 0 {
					e.MinGas = 1 + rnd.Intn(10000)
				}
				if rnd.Intn(3) == 0 {
					e.MaxGas = 20000 + rnd.Intn(1<<30)
				}
				if rnd.Intn(3) == 0 {
					e.Depth = 1 + rnd.Intn(1000)
				}
				r.extra = append(r.extra, e)
				if rnd.Intn(3) > 0 {
					parts = append(parts, "^"+e.Name+"$")
				}
			}
			if rnd.Intn(2) == 0 || len(parts) == 0 {
				parts = append(parts, r.filter)
			}
			r.filter = strings.Join(parts, "|")
		}
		p := r.plan()
		p.Mode, p.Limit = "enum", 5000
		if *thorough {
			p.Limit = 20000
		}
		o := drive(bins[0], p, "run", "geth")
		if o.code == 5 {
			R.Add("selections_too_large", 1)
			os.RemoveAll(filepath.Dir(o.tmp))
			continue
		}
		if o.code != 0 {
			bad("driver:enumeration", "enumerating states for %v: exit %d %s", r, o.code, tail(o.stderr))
			return nil
		}
		r.infos, r.sel = o.infos, o.selected
		if len(r.infos) == 0 && rnd.Intn(5) > 0 {
			continue
		}
		return r
	}
}

func count[T comparable](xs []T) map[T]int {
	res := map[T]int{}
	for _, x := range xs {
		res[x]++
	}
	return res
}

func diffCounts(want, have map[uint64]int) (missing, extra int) {
	for k, n := range want {
		missing += max(0, n-have[k])
	}
	for k, n := range have {
		extra += max(0, n-want[k])
	}
	return
}

var (
	failedRE      = regexp.MustCompile(`failed to pass (\d+) test cases`)
	unsupportedRE = regexp.MustCompile(`Number of tests with unsupported revision: (\d+)`)
	progressRE    = regexp.MustCompile(`total (\d+), (?:skipped \d+, )?found issues (\d+)`)
	ruleRE        = regexp.MustCompile(`expectation defined by rule:  ?(\S+)`)
)

func number(re *regexp.Regexp, s string) int {
	m := re.FindAllStringSubmatch(s, -1)
	if len(m) == 0 {
		return 0
	}
	n, _ := strconv.Atoi(m[len(m)-1][1])
	return n
}

// issueFiles reads back the states the driver has written.
func issueFiles(tmp string) (files []string, cores map[uint64]int) {
	cores = map[uint64]int{}
	dirs, _ := filepath.Glob(filepath.Join(tmp, "ct_issues_*"))
	for _, d := range dirs {
		entries, _ := os.ReadDir(d)
		for _, e := range entries {
			p := filepath.Join(d, e.Name())
			files = append(files, p)
			s, err := st.ImportStateJSON(p)
			if err != nil {
				bad("driver:export", "exported state %s can not be imported: %v", p, err)
				continue
			}
			cores[drvhook.Inspect(s).Core]++
			s.Release()
		}
	}
	sort.Strings(files)
	return
}

var kinds = []string{"status", "gas", "refund", "pc", "stack", "push", "memory", "storage", "log", "returndata", "selfdestruct", "readonly", "code", "error", "unsupported"}

func (r *round) run() {
	rnd := r.rnd
	p := r.plan()
	maxErrors := -1 // the default, 100
	args := append([]string{"run"}, r.args()...)
	panics := false
	if len(r.extra) == 0 && rnd.Intn(5) > 0 {
		p.Mod = []uint64{1, 3, 10, 50, 200, 1000}[rnd.Intn(6)]
		p.Salt = rnd.Uint64()
		if rnd.Intn(2) == 0 {
			p.Kinds = kinds
		} else {
			for i, n := 0, 1+rnd.Intn(3); i < n; i++ {
				p.Kinds = append(p.Kinds, kinds[rnd.Intn(len(kinds))])
			}
		}
		if rnd.Intn(6) == 0 {
			p.Kinds = append(p.Kinds, "panic")
			panics = true
			p.Mod = max(p.Mod, 50)
		}
	}
	if rnd.Intn(2) == 0 {
		p.PauseMod = []uint64{17, 101}[rnd.Intn(2)]
	}
	if rnd.Intn(4) > 0 {
		maxErrors = []int{0, 0, 0, -5, 1, 2, 7, 30, 400}[rnd.Intn(9)]
		args = append(args, fmt.Sprintf("--max-errors=%d", maxErrors))
	}
	limit := maxErrors
	if maxErrors == -1 {
		limit = 100
	}
	if limit <= 0 {
		limit = 1 << 60
	}
	o := drive(r.bin, p, append(args, []string{"geth", "evmzero", "evmrs"}[rnd.Intn(3)])...)
	where := fmt.Sprintf("run %v plan %+v", strings.Join(args, " "), p)
	if o.hung {
		return
	}

	// What should have been shown to the interpreter.
	want := map[uint64]int{}
	total, wantIssues := 0, 0
	for _, i := range r.infos {
		total++
		if !i.IsCode || i.FilterCount == 0 {
			continue
		}
		want[i.Full]++
		if len(r.extra) > 0 && !i.FilterSame {
			wantIssues++
		}
		if p.Mod > 0 {
			if k := drvhook.Decide(&p, i.Core); k != "" && k != "unsupported" {
				wantIssues++
			}
		}
	}
	have := map[uint64]int{}
	deviating, unsupported, panicked := map[uint64]int{}, 0, 0
	n := 0
	different := map[uint64]bool{}
	for _, i := range r.infos {
		if len(r.extra) > 0 && !i.FilterSame && i.FilterCount > 0 {
			different[i.Full] = true
		}
	}
	for _, c := range o.calls {
		have[c.Full]++
		R.Distinct(c.Core)
		if c.Parallel {
			R.Add("overlapping_requests", 1)
		}
		if c.Steps != 1 {
			bad("driver:steps", "%s: the interpreter is asked for %d steps", where, c.Steps)
		}
		switch c.Kind {
		case "":
			if different[c.Full] {
				deviating[c.Core]++
				n++
			}
		case "unsupported":
			unsupported++
		case "panic":
			panicked++
			fallthrough
		default:
			deviating[c.Core]++
			n++
		}
	}
	R.Eval(int64(len(o.calls)))
	R.Add("requests", int64(len(o.calls)))
	R.Add("deviations", int64(n))
	missing, extra := diffCounts(want, have)
	if extra > 0 {
		bad("driver:run:unasked", "%s: %d states shown to the interpreter are not among the %d enumerated for the selected rules (or were shown too often)", where, extra, len(want))
	}
	aborted := panicked > 0 || n >= limit
	if missing > 0 && !aborted {
		bad("driver:run:untested", "%s: %d of %d states were never shown to the interpreter", where, missing, total)
	}
	if !aborted {
		R.Add("complete_runs", 1)
		if n != wantIssues {
			bad("driver:run:untested", "%s: %d deviations provoked, %d planned", where, n, wantIssues)
		}
	} else {
		R.Add("limited_runs", 1)
	}
	if n > limit+r.jobs && panicked == 0 {
		bad("driver:run:limit", "%s: %d deviations provoked with a limit of %d and %d jobs", where, n, limit, r.jobs)
	}
	reported := 0
	if o.code == 0 {
		if !strings.Contains(o.stdout, "All tests passed successfully!") {
			bad("driver:run:verdict", "%s: ends successfully without saying so: %s", where, tail(o.stdout))
		}
	} else {
		reported = number(failedRE, o.stderr)
		if reported == 0 {
			bad("driver:run:verdict", "%s: exit code %d, %s", where, o.code, tail(o.stderr))
		}
		if strings.Contains(o.stdout, "All tests passed") {
			bad("driver:run:verdict", "%s: fails but says that all tests passed", where)
		}
	}
	if reported != n {
		bad("driver:run:issues", "%s: %d deviations, but %d are reported", where, n, reported)
	}
	if u := number(unsupportedRE, o.stdout); u != unsupported {
		bad("driver:run:unsupported", "%s: %d states answered as unsupported, %d reported", where, unsupported, u)
	}
	if ms := progressRE.FindAllStringSubmatch(o.stdout, -1); len(ms) == 0 {
		bad("driver:run:progress", "%s: no progress line", where)
	} else {
		m := ms[len(ms)-1]
		cnt, _ := strconv.Atoi(m[1])
		iss, _ := strconv.Atoi(m[2])
		if iss != n || !aborted && cnt != total {
			bad("driver:run:progress", "%s: last progress line says %s, but there were %d states and %d deviations", where, m[0], total, n)
		}
	}
	re := regexp.MustCompile(r.filter)
	for _, m := range ruleRE.FindAllStringSubmatch(o.stdout, -1) {
		if !re.MatchString(m[1]) {
			bad("driver:run:filter", "%s: judged by rule %s, which is not selected", where, m[1])
			break
		}
	}
	files, cores := issueFiles(o.tmp)
	if miss, more := diffCounts(deviating, cores); miss+more > 0 {
		bad("driver:run:export", "%s: of %d deviating inputs %d are not among the exported states, %d exported states did not deviate", where, n, miss, more)
	}
	R.Add("exported_states", int64(len(files)))
	if len(files) > 0 && len(r.extra) == 0 && !panics {
		r.regressions(p, files)
	}
	os.RemoveAll(filepath.Dir(o.tmp))
}

var (
	okRE   = regexp.MustCompile(`(?m)^OK: \(rules evaluated: (\d+)\)`)
	failRE = regexp.MustCompile(`(?m)^Failed to evaluate rule`)
	impRE  = regexp.MustCompile(`(?m)^Failed to import state from`)
)

// regressions feeds exported states back.
func (r *round) regressions(p drvhook.Plan, files []string) {
	if len(files) > 150 {
		files = files[:150]
	}
	dir := filepath.Join(filepath.Dir(filepath.Dir(files[0])), "again")
	sub := filepath.Join(dir, "a", "b")
	os.MkdirAll(sub, 0755)
	os.MkdirAll(filepath.Join(dir, "empty"), 0755)
	var single []string
	rules, wantFail := 0, 0
	for i, f := range files {
		to := filepath.Join(dir, filepath.Base(f))
		switch r.rnd.Intn(3) {
		case 0:
			to = filepath.Join(sub, filepath.Base(f))
		case 1:
			if i%7 == 0 {
				to = filepath.Join(filepath.Dir(dir), filepath.Base(f))
				single = append(single, to)
			}
		}
		s, err := st.ImportStateJSON(f)
		if err != nil {
			continue
		}
		n := len(spc.Spec.GetRulesFor(s))
		rules += n
		if drvhook.Decide(&p, drvhook.Inspect(s).Core) != "" {
			wantFail += n
		}
		s.Release()
		text, _ := os.ReadFile(f)
		os.WriteFile(to, text, 0644)
	}
	broken := r.rnd.Intn(3)
	for i := 0; i < broken; i++ {
		os.WriteFile(filepath.Join(sub, fmt.Sprintf("broken%d.json", i)), []byte("{\"Status\": 12"), 0644)
	}
	args := []string{"regressions"}
	for _, x := range append(single, dir) {
		args = append(args, "--input", x)
	}
	for _, deviate := range []bool{true, false} {
		q := p
		want := wantFail
		if !deviate {
			q.Mod, want = 0, 0
		}
		o := drive(r.bin, q, append(append([]string{}, args...), "geth")...)
		fails, oks, imps := len(failRE.FindAllString(o.stdout, -1)), len(okRE.FindAllString(o.stdout, -1)), len(impRE.FindAllString(o.stdout, -1))
		if o.code != 0 || fails != want || oks != rules-want || imps != broken || len(o.calls) != rules {
			bad("driver:regressions", "%d files with %d applicable rules, %d of them on deviating inputs, and %d broken files: exit %d, %d failures, %d successes, %d broken files reported, %d evaluations (plan %+v)\n%s", len(files), rules, want, broken, o.code, fails, oks, imps, len(o.calls), q, tail(o.stderr))
		}
		R.Add("states_run_again", int64(len(files)))
		os.RemoveAll(filepath.Dir(o.tmp))
	}
}

func (r *round) test() {
	o := drive(r.bin, r.plan(), append([]string{"test"}, r.args()...)...)
	want := 0
	for _, i := range r.infos {
		if !i.AllAgree {
			want++
		}
		if len(i.Rules) > 1 {
			R.Add("states_with_several_rules", 1)
		}
	}
	n := number(failedRE, o.stderr)
	if n != want || (o.code != 0) != (want > 0) || strings.Contains(o.stdout, "All tests passed") != (want == 0) {
		bad("driver:test:conflicts", "test %v: %d of %d states have rules that contradict each other, reported are %d, exit code %d", r, want, len(r.infos), n, o.code)
	}
	R.Add("conflicting_states", int64(want))
	R.Eval(int64(len(r.infos)))
	os.RemoveAll(filepath.Dir(o.tmp))
}

func (r *round) stats() {
	o := drive(r.bin, r.plan(), append([]string{"stats"}, r.args()...)...)
	want := map[string]int{}
	for n := range r.sel {
		want[n] = 0
	}
	for _, i := range r.infos {
		for _, n := range i.Rules {
			want[n]++
		}
	}
	_, text, ok := strings.Cut(o.stdout, "rule,num_tests\n")
	have := map[string]int{}
	prev := ""
	for _, l := range strings.Split(strings.TrimSpace(text), "\n") {
		name, num, _ := strings.Cut(l, ",")
		if name == "" {
			continue
		}
		n, err := strconv.Atoi(num)
		if _, twice := have[name]; err != nil || twice || name < prev {
			bad("driver:stats", "stats %v: unexpected line %q", r, l)
		}
		prev = name
		have[name] = n
	}
	if !ok || o.code != 0 {
		bad("driver:stats", "stats %v: exit %d %s", r, o.code, tail(o.stdout+o.stderr))
	} else if fmt.Sprint(want) != fmt.Sprint(have) {
		for k, n := range want {
			if m, ok := have[k]; !ok || m != n {
				bad("driver:stats", "stats %v: rule %s applied to %d of the %d states, reported %d (%t)", r, k, n, len(r.infos), m, ok)
				return
			}
		}
		bad("driver:stats", "stats %v: %d rules reported, %d concerned", r, len(have), len(want))
	}
	R.Add("statistics_checked", int64(len(want)))
	os.RemoveAll(filepath.Dir(o.tmp))
}

var (
	sectionRE = regexp.MustCompile(`(?m)^----- Rule: (\S+) -----$`)
	casesRE   = regexp.MustCompile(`(?m)^Total number of cases: (\d+)$`)
	totalRE   = regexp.MustCompile(`(?m)^Total number of tests: (\d+)$`)
)

func lists(rnd *rand.Rand, bin string) {
	f := filter(rnd)
	re := regexp.MustCompile(f)
	want := []string{}
	cases := map[string]map[int]bool{}
	for _, r := range spc.Spec.GetRules() {
		if re.MatchString(r.Name) {
			want = append(want, r.Name)
			info := r.GetTestCaseEnumerationInfo()
			if cases[r.Name] == nil {
				cases[r.Name] = map[int]bool{}
			}
			cases[r.Name][info.TotalNumberOfCases()] = true
		}
	}
	sort.Strings(want)
	o := drive(bin, drvhook.Plan{}, "list", "--filter", f)
	if have := strings.Fields(o.stdout); o.code != 0 || fmt.Sprint(have) != fmt.Sprint(want) {
		bad("driver:list", "list %s: exit %d, %d rules listed, %d match; want %v have %v", f, o.code, len(have), len(want), want, have)
	}
	o = drive(bin, drvhook.Plan{}, "generator-info", "-f", f)
	ns := sectionRE.FindAllStringSubmatch(o.stdout, -1)
	cs := casesRE.FindAllStringSubmatch(o.stdout, -1)
	if o.code != 0 || len(ns) != len(cases) || len(cs) != len(ns) {
		bad("driver:generator-info", "generator-info %s: exit %d, %d rules described, %d match", f, o.code, len(ns), len(cases))
		return
	}
	sum, prev := 0, 0
	for i := range ns {
		n, _ := strconv.Atoi(cs[i][1])
		if !cases[ns[i][1]][n] || n < prev {
			bad("driver:generator-info", "generator-info %s: %s with %d cases after %d, expected %v", f, ns[i][1], n, prev, cases[ns[i][1]])
		}
		sum += n
		prev = n
	}
	if t := number(totalRE, o.stdout); t != sum {
		bad("driver:generator-info", "generator-info %s: total %d, sum %d", f, t, sum)
	}
	R.Add("lists_checked", 2)
}

var (
	executedRE = regexp.MustCompile(`Random tests completed, (\d+) tests executed`)
	foundRE    = regexp.MustCompile(`Issues found: (\d+)`)
)

func probe(rnd *rand.Rand, bin string, seed uint64, p drvhook.Plan) (states map[uint64]int) {
	o := drive(bin, p, "probe", "--timeout", "0", "--seed", fmt.Sprint(seed), "geth")
	where := fmt.Sprintf("probe seed %d plan %+v", seed, p)
	states = map[uint64]int{}
	good, devs := 0, map[uint64]int{}
	n := 0
	for _, c := range o.calls {
		states[c.Full]++
		R.Distinct(c.Core)
		if c.Kind == "" {
			good++
		} else {
			devs[c.Core]++
			n++
		}
		if c.Steps != 1 {
			bad("driver:steps", "%s: the interpreter is asked for %d steps", where, c.Steps)
		}
		if c.Parallel {
			R.Add("overlapping_requests", 1)
		}
	}
	R.Eval(int64(len(o.calls)))
	R.Add("probed_states", int64(len(o.calls)))
	conflicts := strings.Count(o.stdout, "produce different results")
	executed, found := number(executedRE, o.stdout), number(foundRE, o.stdout)
	passed := strings.Contains(o.stdout, "All tests passed successfully!")
	if executed != good || found != n+conflicts || passed != (n+conflicts == 0) || o.code != 0 {
		bad("driver:probe:issues", "%s: %d states answered as specified, %d not and %d conflicts, but %d executed tests and %d issues reported, all passed: %t, exit %d\n%s", where, good, n, conflicts, executed, found, passed, o.code, tail(o.stderr))
	}
	if len(p.Extra) > 0 && conflicts == 0 {
		bad("driver:probe:conflicts", "%s: contradicting rules not noticed in %d states", where, len(o.calls))
	}
	R.Add("probe_conflicts", int64(conflicts))
	files, cores := issueFiles(o.tmp)
	if len(files) != n+conflicts {
		bad("driver:probe:export", "%s: %d issues, %d exported states", where, n+conflicts, len(files))
	}
	if miss, _ := diffCounts(devs, cores); miss > 0 {
		bad("driver:probe:export", "%s: %d deviating inputs are not among the exported states", where, miss)
	}
	R.Add("exported_states", int64(len(files)))
	R.Add("probes", 1)
	os.RemoveAll(filepath.Dir(o.tmp))
	return
}

func overlap(a, b map[uint64]int) float64 {
	n := 0
	for k := range a {
		if b[k] > 0 {
			n++
		}
	}
	return float64(n) / float64(max(1, min(len(a), len(b))))
}

func probes(rnd *rand.Rand, bin string) {
	seed := rnd.Uint64()
	if rnd.Intn(2) == 0 {
		seed = uint64(rnd.Intn(100))
	}
	a := probe(rnd, bin, seed, drvhook.Plan{})
	b := probe(rnd, bin, seed, drvhook.Plan{})
	c := probe(rnd, bin, seed+1000, drvhook.Plan{})
	sum := 0
	for _, n := range a {
		sum += n
	}
	if len(a) < 50 || float64(len(a)) < 0.9*float64(sum) {
		bad("driver:probe:variety", "probe seed %d: %d states, only %d different ones", seed, sum, len(a))
	}
	if o := overlap(a, b); o < 0.4 {
		bad("driver:probe:seed", "probe seed %d: only %.0f%% of the states are the same in a second run", seed, 100*o)
	}
	if o := overlap(a, c); o > 0.4 {
		bad("driver:probe:seed", "probe seeds %d and %d: %.0f%% of the states are the same", seed, seed+1000, 100*o)
	}
	probe(rnd, bin, rnd.Uint64(), drvhook.Plan{Mod: []uint64{1, 20, 200}[rnd.Intn(3)], Salt: rnd.Uint64(), Kinds: kinds[:14]})
	probe(rnd, bin, rnd.Uint64(), drvhook.Plan{Mod: 10, Salt: rnd.Uint64(), Kinds: kinds[14:]})
	// Contradictions with the last, or only with a middle one, of several rules.
	ex := []drvhook.Extra{{Name: "verif0", Op: -1, Effect: "same"}, {Name: "verif1", Op: -1, Effect: "same"}}
	ex[rnd.Intn(2)].Effect = "stop"
	probe(rnd, bin, rnd.Uint64(), drvhook.Plan{Extra: ex})
}

// real runs the Go interpreter against the specification.
func real(r *round) {
	o := drive(r.bin, r.plan(), append(append([]string{"run"}, r.args()...), "lfvm")...)
	if o.code != 0 || !strings.Contains(o.stdout, "All tests passed successfully!") {
		bad("driver:run:lfvm", "run %v lfvm: exit %d %s %s", r, o.code, tail(o.stdout), tail(o.stderr))
	}
	R.Add("states_for_the_go_interpreter", int64(len(r.infos)))
	os.RemoveAll(filepath.Dir(o.tmp))
}

func misuse(bin string) {
	for _, a := range [][]string{{"run", "nosuch"}, {"run"}, {"probe", "LFVM"}, {"regressions", "nosuch"}, {"regressions", "--input", "/nonexistent", "geth"}, {"run", "-f", "a(", "geth"}, {"list", "-f", "["}, {"stats", "-f", "("}, {"test", "-f", "(("}, {"generator-info", "-f", "*"}} {
		o := drive(bin, drvhook.Plan{}, a...)
		if o.code != 1 || o.stderr == "" || len(o.calls) > 0 || strings.Contains(o.stderr, "goroutine") {
			bad("driver:misuse", "%v: exit %d %s", a, o.code, tail(o.stdout+o.stderr))
		}
		R.Add("misuses_rejected", 1)
	}
}

func main() {
	out := flag.String("out", "", "report")
	seed := flag.Int64("seed", 1, "seed")
	flag.String("prop", "", "property")
	flag.StringVar(&work, "work", "", "scratch directory")
	b := flag.String("bins", "", "drivers")
	flag.Parse()
	bins = strings.Split(*b, ",")
	for _, r := range spc.Spec.GetRules() {
		allNames = append(allNames, r.Name)
	}
	sort.Strings(allNames)
	budget := 60 * time.Second
	if *thorough {
		budget = 20 * time.Minute
	}
	end := time.Now().Add(budget)
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(*seed*1000 + int64(w)))
			bin := func() string { return bins[rnd.Intn(len(bins))] }
			for k := 0; k == 0 || time.Now().Before(end); k++ {
				if w == 3 && k%4 == 0 {
					probes(rnd, bin())
				}
				if w == 2 && k == 0 {
					misuse(bin())
				}
				r := newRound(rnd, bin(), (k+w)%2 == 1)
				if r == nil {
					continue
				}
				R.Add("rounds", 1)
				R.Sample("%v: %d states", r, len(r.infos))
				r.run()
				if len(r.extra) == 0 {
					r.run()
					if rnd.Intn(3) == 0 {
						real(r)
					}
				}
				r.test()
				r.stats()
				lists(rnd, bin())
			}
		}()
	}
	wg.Wait()
	R.Write(*out)
}
