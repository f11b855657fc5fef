// lfvmrunner executes recorded cases on a configuration of the Go interpreter, or
// with the build tag evmc of evmzero through its Go adapter,
// and writes every observable outcome to a log for offline checking. It speaks
// the same protocol as the evmzero runner.
//
//	lfvmrunner CASES OUT plain CONFIG[,CONFIG...]   one instance each, all cases in order
//	lfvmrunner CASES OUT mixed SEED                 random instance of any configuration per case
//	lfvmrunner CASES OUT threads CONFIG N ROUNDS SEED
//	lfvmrunner CASES OUT evict CONFIG
//	lfvmrunner CASES OUT profile SEED DIR CONFIG
package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/lfvmrun"
	"verif/ref"
)

func report(id int, r *ref.Result) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "result %d\nstatus %s %s\ngas %d\nrefund %d\noutput %s\n", id, r.Status, strings.ReplaceAll(r.Detail, "\n", " | "), r.Gas, r.Refund, ref.HexBytes(r.Output))
	for _, e := range r.Events {
		fmt.Fprintf(&sb, "ev %s\n", e)
	}
	for _, a := range r.WarmAddrs {
		fmt.Fprintf(&sb, "wa %s\n", a)
	}
	for _, a := range r.WarmSlots {
		fmt.Fprintf(&sb, "ws %s\n", a)
	}
	sb.WriteString("endresult\n")
	return sb.String()
}

func must[T any](x T, err error) T {
	if err != nil {
		fmt.Fprintln(os.Stderr, "lfvmrunner:", err)
		os.Exit(9)
	}
	return x
}

// configs lists the registered variants of the interpreter.
func configs() []string {
	var r []string
	for n := range tosca.GetAllRegisteredInterpreters() {
		if strings.HasPrefix(n, prefix) {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

// capture is the file standing in for the standard output, if any.
var capture *os.File

// printed returns what was written to the standard output since the last call,
// one prefixed line each.
func printed(prefix string) string {
	if capture == nil {
		return ""
	}
	b := must(os.ReadFile(capture.Name()))
	must(0, capture.Truncate(0))
	var sb strings.Builder
	for _, l := range strings.SplitAfter(string(b), "\n") {
		if l != "" {
			sb.WriteString(prefix + " " + strings.TrimSuffix(l, "\n") + "\n")
		}
	}
	return sb.String()
}

func main() {
	if p := os.Getenv("LFVM_CAPTURE"); p != "" {
		capture = must(os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_APPEND|os.O_TRUNC, 0o600))
		os.Stdout = capture
	}
	must(0, setup())
	if len(os.Args) == 2 && os.Args[1] == "configs" {
		fmt.Println(strings.Join(configs(), " "))
		return
	}
	cases := must(ref.DecodeCases(must(os.Open(os.Args[1]))))
	f := must(os.Create(os.Args[2]))
	out := bufio.NewWriter(f)
	put := func(s string) { io.WriteString(out, s); out.Flush() }
	// what runs produced has to stay as it was during the next runs
	type produced struct {
		id      int
		changed func() []string
	}
	var before []produced
	run := func(ip tosca.Interpreter, c *ref.Case) {
		r, changed := lfvmrun.RunKept(ip, c)
		if before = append(before, produced{c.ID, changed}); len(before) > 12 {
			for _, s := range before[0].changed() {
				r.Events = append(r.Events, fmt.Sprintf("%s (by a run since case %d)", s, before[0].id))
			}
			before = before[1:]
		}
		put(report(c.ID, &r))
	}
	switch os.Args[3] {
	case "plain":
		for _, cfg := range strings.Split(os.Args[4], ",") {
			ip := must(tosca.NewInterpreter(cfg))
			for _, c := range cases {
				put(fmt.Sprintf("begin %d\n", c.ID))
				run(ip, c)
			}
		}
	case "trace":
		ip := must(tosca.NewInterpreter(os.Args[4]))
		for _, c := range cases {
			put(fmt.Sprintf("begin %d\n", c.ID))
			r := lfvmrun.Run(ip, c)
			put(printed("log") + report(c.ID, &r))
		}
	case "stats": // groups of runs, by several goroutines, with a summary after each group
		rng := rand.New(rand.NewSource(must(strconv.ParseInt(os.Args[5], 10, 64))))
		n := must(strconv.Atoi(os.Args[6]))
		ip := must(tosca.NewInterpreter(os.Args[4]))
		prof, ok := ip.(tosca.ProfilingInterpreter)
		if !ok {
			put("noprofile\n")
			break
		}
		put("reset\n")
		prof.ResetProfile()
		runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
		for from := 0; from < len(cases); {
			to := min(len(cases), from+rng.Intn([]int{2, 6, 30}[rng.Intn(3)]))
			var wg sync.WaitGroup
			group := cases[from:to]
			for t := 0; t < n; t++ {
				wg.Add(1)
				work := func() {
					defer wg.Done()
					for i := t; i < len(group); i += n {
						lfvmrun.Run(ip, group[i])
					}
				}
				if n == 1 {
					work()
				} else {
					go work()
				}
			}
			wg.Wait()
			for _, c := range group {
				put(fmt.Sprintf("begin %d\n", c.ID))
			}
			from = to
			prof.DumpProfile()
			put(printed("sum") + "dump\n")
			if rng.Intn(4) == 0 {
				prof.ResetProfile()
				put("reset\n")
			}
		}
	case "profile": // SEED DIR CONFIG, dumps at random points
		rng := rand.New(rand.NewSource(must(strconv.ParseInt(os.Args[4], 10, 64))))
		ip := must(tosca.NewInterpreter(os.Args[6]))
		prof, ok := ip.(tosca.ProfilingInterpreter)
		if !ok {
			put("noprofile\n")
			break
		}
		put("reset\n")
		prof.ResetProfile()
		for i, c := range cases {
			put(fmt.Sprintf("begin %d\n", c.ID))
			r := lfvmrun.Run(ip, c)
			put(report(c.ID, &r))
			if k := rng.Intn(20); k < 2 || i+1 == len(cases) {
				f := fmt.Sprintf("%s/dump%d", os.Args[5], i)
				must(0, os.Setenv("EVMZERO_PROFILE_FILE", f))
				prof.DumpProfile()
				put("dump " + f + "\n")
				if k == 1 {
					prof.ResetProfile()
					put("reset\n")
				}
			}
		}
	case "alone": // a new instance for every case
		for _, c := range cases {
			put(fmt.Sprintf("begin %d\n", c.ID))
			r := lfvmrun.Run(must(tosca.NewInterpreter(os.Args[4])), c)
			put(report(c.ID, &r))
		}
	case "revisions":
		ip := must(tosca.NewInterpreter(os.Args[4]))
		for i, c := range cases {
			put(fmt.Sprintf("begin %d\n", c.ID))
			w := ref.NewWorld(c)
			p := lfvmrun.Params(c, &lfvmrun.Context{W: w, C: c})
			p.Revision = tosca.R13_Cancun + tosca.Revision(1+i*i)
			res, err := ip.Run(p)
			var unsupported *tosca.ErrUnsupportedRevision
			if err == nil || !errors.As(err, &unsupported) || unsupported.Revision != p.Revision || len(w.Events) != 0 || res.GasLeft != 0 || res.Success {
				put(fmt.Sprintf("unsupported-bad revision %d: error %v, result %v, events %v\n", p.Revision, err, res, w.Events))
			} else {
				put("unsupported-ok\n")
			}
			put(fmt.Sprintf("result %d\nstatus fail\nendresult\n", c.ID))
		}
	case "mixed":
		rng := rand.New(rand.NewSource(must(strconv.ParseInt(os.Args[4], 10, 64))))
		names := configs()
		ips := make([]tosca.Interpreter, len(names))
		for i, n := range names {
			ips[i] = must(tosca.NewInterpreter(n))
		}
		for _, c := range cases {
			put(fmt.Sprintf("begin %d\n", c.ID))
			i := rng.Intn(len(ips))
			put("config " + names[i] + "\n")
			run(ips[i], c)
		}
	case "threads":
		cfg := os.Args[4]
		n, rounds, seed := must(strconv.Atoi(os.Args[5])), must(strconv.Atoi(os.Args[6])), must(strconv.ParseInt(os.Args[7], 10, 64))
		want := make([]string, len(cases))
		for i, c := range cases {
			put(fmt.Sprintf("begin %d\n", c.ID))
			r := lfvmrun.Run(must(tosca.NewInterpreter(cfg)), c)
			want[i] = report(c.ID, &r)
		}
		runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
		// Nothing is shared between the threads but the instance: any counter
		// here would order accesses the race detector has to see as unordered.
		type span struct{ from, to time.Duration }
		var bad, runs, overlap int64
		base := time.Now()
		bads := make([]int64, n)
		msgs := make([]strings.Builder, n)
		for rd := 0; rd < rounds; rd++ {
			ip := must(tosca.NewInterpreter(cfg))
			start := make(chan bool)
			var wg sync.WaitGroup
			spans := make([][]span, n)
			for t := 0; t < n; t++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					s := seed*7919 + int64(rd)*101
					if t%2 == 0 {
						s += int64(t) + 1 // the other half shares one order and meets on the same code and hashes
					}
					order := rand.New(rand.NewSource(s)).Perm(len(cases))
					<-start
					for _, i := range order {
						from := time.Since(base)
						r := lfvmrun.Run(ip, cases[i])
						spans[t] = append(spans[t], span{from, time.Since(base)})
						if got := report(cases[i].ID, &r); got != want[i] {
							bads[t]++
							if msgs[t].Len() < 20000 {
								fmt.Fprintf(&msgs[t], "mismatch %d\n--- alone\n%s--- concurrent\n%s", cases[i].ID, want[i], got)
							}
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			for t := range spans {
				runs += int64(len(spans[t]))
				for _, x := range spans[t] {
					for u := range spans {
						k := sort.Search(len(spans[u]), func(k int) bool { return spans[u][k].to > x.from })
						if u != t && k < len(spans[u]) && spans[u][k].from < x.to {
							overlap++
							break
						}
					}
				}
			}
		}
		for i := range msgs {
			put(msgs[i].String())
			bad += bads[i]
		}
		put(fmt.Sprintf("threads runs %d overlapping %d bad %d\n", runs, overlap, bad))
	case "evict":
		// The first case hashes many values, enough to push out everything a
		// bounded cache knew before; the others run after it started and end
		// long before it does. No synchronization other than that of the
		// interpreter orders them.
		ip := must(tosca.NewInterpreter(os.Args[4]))
		put(fmt.Sprintf("begin %d\n", cases[0].ID))
		runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
		res := make([]string, len(cases))
		ended := make([]time.Duration, len(cases))
		base := time.Now()
		done := make(chan bool)
		var wg sync.WaitGroup
		for i, c := range cases {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i > 0 {
					time.Sleep(time.Duration(30+i) * time.Millisecond)
				}
				r := lfvmrun.Run(ip, c)
				res[i] = report(c.ID, &r)
				ended[i] = time.Since(base)
				// stay around: the race detector forgets what ended threads did
				if i == 0 {
					close(done)
				}
				<-done
			}()
		}
		wg.Wait()
		early := 0
		for i := range res {
			put(res[i])
			if i > 0 && ended[i] < ended[0] {
				early++
			}
		}
		put(fmt.Sprintf("evict inside %d\n", early))
	default:
		os.Exit(9)
	}
	out.Flush()
	f.Close()
}
