package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"verif/ref"
	"verif/rep"
)

// What is executed, according to the reference machine.
type traced struct {
	landing  bool // reached by a jump
	op       byte
	implicit bool
	gas      int64
	top      string
}

const longestTrace = 3000

func (d *drv) traceOf(it *item) (res []traced) {
	jump := false
	ref.RunTraced(it.c, nil, 400_000, func(op byte, implicit bool, gas int64, stack []*big.Int) {
		top := "-empty-"
		if n := len(stack); n > 0 {
			top = stack[n-1].String()
		}
		res = append(res, traced{jump, op, implicit, gas, top})
		jump = op == 0x56 || op == 0x57 && len(stack) > 1 && stack[len(stack)-2].Sign() != 0
	})
	return
}

// traceable tells whether the steps of a case are few and known.
func traceable(it *item) bool { return !it.vm.Inconclusive && it.vm.Steps <= longestTrace }

var instrNames = ref.OpNames()

// named tells whether a log may call an instruction by this name.
func named(name string, op byte, rev int) bool {
	if n, ok := instrNames[int(op)]; ok && name == n {
		return true
	}
	if ref.IsDefined(op, rev) {
		return false
	}
	return name == "INVALID" || strings.Contains(strings.ToLower(name), fmt.Sprintf("%02x", op))
}

// known tells whether a byte is an instruction in any revision.
func known(op byte) bool {
	_, ok := instrNames[int(op)]
	return ok
}

// logLine is one line of a log.
type logLine struct{ name, gas, top string }

// logsOf splits the recorded output into the lines per case.
func logsOf(raw string) (map[int][]logLine, string) {
	res := map[int][]logLine{}
	cur := -1
	for _, l := range strings.Split(raw, "\n") {
		if s, ok := strings.CutPrefix(l, "log "); ok {
			f := strings.Split(s, ", ")
			if len(f) != 3 {
				return nil, l
			}
			res[cur] = append(res[cur], logLine{f[0], f[1], f[2]})
		} else if s, ok := strings.CutPrefix(l, "begin "); ok {
			cur, _ = strconv.Atoi(s)
			res[cur] = nil
		}
	}
	return res, ""
}

// judgeLog compares one log with what was executed. Internal instructions are
// steps of the implementation without counterpart in the program, names of
// several instructions joined by "_" stand for all of them.
func judgeLog(want []traced, got []logLine, rev int, failed bool, internal map[string]bool, rust bool) string {
	at := 0
	for i, l := range got {
		if internal[l.name] {
			// moves on without cost or effect
			if i+1 < len(got) && (got[i+1].gas != l.gas || got[i+1].top != l.top) {
				return fmt.Sprintf("step: line %d: internal instruction %v followed by %v", i+1, l, got[i+1])
			}
			continue
		}
		parts := []string{l.name}
		if internal != nil {
			parts = strings.Split(l.name, "_")
		}
		for j, p := range parts {
			if at >= len(want) {
				if j > 0 && failed && i == len(got)-1 {
					return "" // failed half way
				}
				return fmt.Sprintf("extra: line %d, %v, is beyond the last instruction", i+1, l)
			}
			w := want[at]
			if internal == nil && w.landing && at+1 < len(want) && (l.name != "JUMPDEST" || l.gas != strconv.FormatInt(w.gas, 10)) {
				// evmzero's jumps include the instruction they land on
				at++
				w = want[at]
			}
			if !named(p, w.op, rev) {
				return fmt.Sprintf("name: line %d is %v, executed is %02x %s", i+1, l, w.op, instrNames[int(w.op)])
			}
			if j == 0 && l.gas != strconv.FormatInt(w.gas, 10) {
				return fmt.Sprintf("gas: line %d is %v, gas left is %d", i+1, l, w.gas)
			}
			if j == 0 && l.top != w.top {
				return fmt.Sprintf("top: line %d is %v, top of the stack is %s", i+1, l, w.top)
			}
			at++
		}
	}
	if at < len(want) && internal == nil && want[at].landing {
		at++
	}
	if at == len(want)-1 && rust && !known(want[at].op) {
		return "" // evmrs stops in front of what is no instruction
	}
	if at < len(want) && !want[at].implicit {
		return fmt.Sprintf("missing: %d lines for %d instructions, the next is %02x %s", len(got), len(want), want[at].op, instrNames[int(want[at].op)])
	}
	return ""
}

// judgeLogs compares the logs of all cases whose outcome is the required one.
func (d *drv) judgeLogs(s sut, its []*item, o outcome, internal map[string]bool) map[int][]logLine {
	logs, bad := logsOf(o.raw)
	if s.rust { // names are spelled in camel case
		for _, ls := range logs {
			for i := range ls {
				ls[i].name = strings.ToUpper(ls[i].name)
			}
		}
	}
	if bad != "" {
		d.r.Violation(s.name+":log-format", fmt.Sprintf("%s printed %q, which is not name, gas and top of the stack", s.name, bad), "")
		return nil
	}
	good := map[int][]logLine{}
	for _, it := range its {
		got, ok := o.res[it.c.ID]
		if !ok || !traceable(it) {
			continue
		}
		// Programs with an outcome of their own are the matter of other properties.
		if full(it, got) != "" {
			d.r.Add("outcome_differs", 1)
			continue
		}
		d.r.Add("logs_checked", 1)
		d.r.Add("log_lines_checked", int64(len(logs[it.c.ID])))
		if diff := judgeLog(d.traceOf(it), logs[it.c.ID], it.c.Rev, it.want.Status == "fail", internal, s.rust); diff != "" {
			d.r.Violation(s.name+":log-"+category(diff), fmt.Sprintf("%s case %d (%s, rev %d): %s", s.name, it.c.ID, it.c.Tag, it.c.Rev, diff), it.c.String())
			continue
		}
		good[it.c.ID] = logs[it.c.ID]
	}
	return good
}

func (d *drv) traceCases(sh, n int) (its []*item) {
	foci := []string{"structured", "super", "jumps", "calls", "mutated", "storage", "", "super"}
	for _, it := range d.gen(sh, n, cycle(foci...)) {
		if traceable(it) {
			its = append(its, it)
		}
	}
	return
}

func (d *drv) z12() { d.logs(d.evmz("evmz", "plain"), 0, d.scale(16, 200)) }

func (d *drv) logs(s sut, first, shards int) {
	s.name += "-logging"
	rep.Parallel(shards, func(i int) {
		sh := first + i
		its := d.traceCases(sh, 900)
		its[0].c.Opts = append(its[0].c.Opts, [2]string{"logging", "true"})
		s := s
		s.env = append(append([]string(nil), s.env...), "EVMZ_CAPTURE=@CAPTURE@", "EVMZ_TRACE=1")
		o := d.exec(cases(its), s)
		d.judgeLogs(s, its, o, nil)
		d.observe(its)
		if sh == 0 {
			d.r.Sample("%s", sampleOf(its[len(its)/2]))
		}
	})
}

// ---------------------------------------------------------------- statistics

// grams counts the sequences of one to four instructions within runs.
type grams struct {
	steps  int64
	counts [4]map[string]int64
}

func newGrams() *grams {
	g := &grams{}
	for i := range g.counts {
		g.counts[i] = map[string]int64{}
	}
	return g
}

func (g *grams) add(names []string) {
	g.steps += int64(len(names))
	for i := range names {
		for n := 1; n <= 4 && i+n <= len(names); n++ {
			g.counts[n-1][strings.Join(names[i:i+n], " ")]++
		}
	}
}

var sections = []string{"Singles:", "Pairs:", "Triples:", "Quads:"}

// judge compares a printed summary with the counts.
func (g *grams) judge(text []string) (string, int) {
	section, steps, checked := -1, int64(-1), 0
	var listed [4][]int64
	var seen [4]map[string]bool
	for _, l := range text {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		if len(f) == 2 && f[0] == "Steps:" {
			steps, _ = strconv.ParseInt(f[1], 10, 64)
			continue
		}
		if i := index(sections, f[0]); i >= 0 && len(f) == 1 {
			section = i
			seen[i] = map[string]bool{}
			continue
		}
		if strings.HasPrefix(l, "-----") || section < 0 {
			continue
		}
		// names, ":", count, (percentage)
		if len(f) != section+4 || !strings.HasSuffix(f[section], ":") && f[section+1] != ":" {
			return fmt.Sprintf("format: %q", l), checked
		}
		names := strings.Join(f[:section+1], " ")
		count, err := strconv.ParseInt(f[section+2], 10, 64)
		pct, err2 := strconv.ParseFloat(strings.Trim(f[section+3], "(%)"), 64)
		if err != nil || err2 != nil {
			return fmt.Sprintf("format: %q", l), checked
		}
		checked++
		if seen[section][names] {
			return fmt.Sprintf("repeated: %s is listed twice among %s", names, sections[section]), checked
		}
		seen[section][names] = true
		if want := g.counts[section][names]; count != want {
			return fmt.Sprintf("count: %s %d, executed %d times", names, count, want), checked
		}
		if want := float64(count) * 100 / float64(g.steps); pct > want+0.02 || pct < want-0.02 {
			return fmt.Sprintf("share: %s %v%%, is %v%%", names, pct, want), checked
		}
		if n := len(listed[section]); n > 0 && listed[section][n-1] < count {
			return fmt.Sprintf("order: %s with %d after an entry with %d", names, count, listed[section][n-1]), checked
		}
		listed[section] = append(listed[section], count)
	}
	if steps != g.steps {
		return fmt.Sprintf("steps: %d, executed %d", steps, g.steps), checked
	}
	for i, l := range listed {
		if len(l) < min(5, len(g.counts[i])) {
			return fmt.Sprintf("top: %d entries for %s, executed %d different", len(l), sections[i], len(g.counts[i])), checked
		}
		for n, c := range g.counts[i] {
			if len(l) > 0 && !seen[i][n] && c > l[len(l)-1] {
				return fmt.Sprintf("top: %s, executed %d times, is not listed among %s, where the last has %d", n, c, sections[i], l[len(l)-1]), checked
			}
		}
	}
	return "", checked
}

func index(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func (d *drv) l09() {
	var logging []string
	for _, c := range strings.Fields(d.bins["configs"]) {
		if strings.HasSuffix(c, "-logging") {
			logging = append(logging, c)
		}
	}
	sort.Strings(logging)
	// steps of the interpreter between instructions of the program
	internal := map[string]bool{"JUMP_TO": true, "NOOP": true, "DATA": true}
	rep.Parallel(d.scale(16, 160), func(sh int) {
		rng := rand.New(rand.NewSource(d.seed*37 + int64(sh)))
		its := d.traceCases(sh, 500)
		d.observe(its)
		cfg := logging[sh%len(logging)]
		s := sut{name: cfg, bin: d.bins["lfvm"], args: []string{"trace", cfg}, env: []string{"LFVM_CAPTURE=@CAPTURE@"}}
		good := d.judgeLogs(s, its, d.exec(cases(its), s), internal)
		if good == nil {
			return
		}
		d.r.Add("configurations_traced", 1)
		for _, it := range its {
			for _, l := range good[it.c.ID] {
				if strings.Contains(l.name, "_") && !internal[l.name] {
					d.r.Add("joined_instructions", 1)
				} else if internal[l.name] {
					d.r.Add("internal_instructions", 1)
				}
			}
		}

		// the same programs counted
		var some []*ref.Case
		for _, it := range its {
			if _, ok := good[it.c.ID]; ok {
				some = append(some, it.c)
			}
		}
		stats := strings.TrimSuffix(cfg, "-logging") + "-stats"
		for _, run := range []struct {
			bin     string
			threads int
		}{{"lfvm", 1}, {"lfvm", 4}, {"lfvm-race", 3}} {
			// enough for a few groups only, the race detector is slow
			part := some
			if run.threads > 1 {
				part = some[:min(len(some), 150)]
			}
			s := sut{name: stats, bin: d.bins[run.bin], args: []string{"stats", stats, strconv.Itoa(rng.Intn(1 << 30)), strconv.Itoa(run.threads)}, env: []string{"LFVM_CAPTURE=@CAPTURE@", "GORACE=halt_on_error=1"}}
			d.judgeStats(s, d.exec(part, s).raw, good, internal, run.threads)
		}
	})
}

func (d *drv) judgeStats(s sut, raw string, good map[int][]logLine, internal map[string]bool, threads int) {
	all, plain := newGrams(), newGrams()
	var text []string
	group := 0
	for _, l := range strings.Split(raw, "\n") {
		f := strings.Fields(l)
		switch {
		case l == "noprofile":
			d.r.Violation(s.name+":no-profile", s.name+" does not collect profiles", "")
		case l == "reset":
			all, plain = newGrams(), newGrams()
		case len(f) == 2 && f[0] == "begin":
			id, _ := strconv.Atoi(f[1])
			var names, program []string
			for _, x := range good[id] {
				names = append(names, x.name)
				if !internal[x.name] {
					program = append(program, x.name)
				}
			}
			all.add(names)
			plain.add(program)
			group++
		case strings.HasPrefix(l, "sum "):
			text = append(text, l[4:])
		case l == "dump":
			d.r.Add("summaries_checked", 1)
			if threads > 1 && group > 1 {
				d.r.Add("summaries_of_concurrent_runs", 1)
			}
			diff, n := all.judge(text)
			if diff != "" {
				// leaving out steps without counterpart in the program is fine, too
				if d2, _ := plain.judge(text); d2 != "" {
					d.r.Violation(s.name+":statistics-"+category(diff), fmt.Sprintf("%s, %d goroutines: %s\n%s", s.name, threads, diff, strings.Join(text, "\n")), "")
				}
			}
			d.r.Add("counts_checked", int64(n))
			text, group = nil, 0
		}
	}
}
