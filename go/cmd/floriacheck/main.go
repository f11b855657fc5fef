// floriacheck decides the properties of the transaction processor: it runs the
// real processor on random transactions over a world state with real snapshots,
// with monitors at every call boundary, and compares the trace of what running
// contracts observe, the receipt and the final state with a reference processor.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"math/big"
	"os"
	"slices"
	"strings"

	_ "github.com/Fantom-foundation/Tosca/go/processor/floria"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/rep"
)

var (
	R        = rep.New()
	prop     string
	seed     int64
	thorough bool
)

func main() {
	out := flag.String("out", "", "report")
	flag.StringVar(&prop, "prop", "", "property")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.BoolVar(&thorough, "thorough", false, "explore deeper")
	flag.Parse()
	if *out == "" {
		os.Exit(9)
	}
	gethMode, operaMode = prop[0] == 'R', prop == "R03"
	n, deep := 300000, 24
	if thorough {
		n, deep = 3000000, 1000
	}
	rep.Parallel(n/100, func(i int) {
		pr := newProcessor()
		for j := 0; j < 100; j++ {
			x := seed*1_000_000_007 + int64(i)*100 + int64(j)
			judge(pr, newGen(x, prop).scenario(), fmt.Sprintf("seed=%d", x))
		}
	})
	if gethMode || prop == "P06" || prop == "P03" || prop == "P04" {
		rep.Parallel(deep, func(i int) {
			x := seed*1_000_003 + int64(i)
			judge(newProcessor(), newGen(x, prop).deepScenario(), fmt.Sprintf("deep seed=%d", x))
		})
	}
	R.Write(*out)
}

// which properties a divergence at a given point speaks about
func report(key, detail, where string, s *scenario, props ...string) {
	if operaMode {
		R.Violation("opera:"+key, detail+"\n"+describe(s), where)
	} else if gethMode {
		R.Violation("bridge:"+key, detail+"\n"+describe(s), where)
	} else if slices.Contains(props, prop) {
		R.Violation("floria:"+key, detail+"\n"+describe(s), where)
	}
}

func describe(s *scenario) string {
	r := "nil"
	if s.tx.Recipient != nil {
		r = fmt.Sprintf("%x", *s.tx.Recipient)
	}
	d := fmt.Sprintf("revision %v, sender %x nonce %d to %s value %v gas %d price %v input %s access list %x", s.block.Revision, s.tx.Sender, s.tx.Nonce, r, s.tx.Value, s.tx.GasLimit, s.tx.GasPrice, short(fmt.Sprintf("%x", []byte(s.tx.Input))), s.tx.AccessList)
	for i, p := range s.scripts {
		if i < 30 {
			d += fmt.Sprintf("\nscript %d:", i)
			for _, o := range p.ops {
				if o.do == 'c' {
					d += fmt.Sprintf(" %v(%x val %x gas %d/256 in %s)", o.kind, o.to[:], bytes.TrimLeft(o.val[:], "\x00"), o.frac, short(fmt.Sprintf("%x", o.in)))
				} else {
					d += fmt.Sprintf(" %c(%x %d %d)", o.do, o.to[:], o.k, o.v)
				}
			}
			d += fmt.Sprintf(" end %c out %d bytes", p.end, len(p.out))
		}
	}
	return d
}

// holder lets one long-lived processor run many scenarios.
type holder struct{ tosca.Interpreter }

type processor struct {
	h *holder
	tosca.Processor
}

func newProcessor() *processor {
	h := &holder{}
	name := "floria"
	if operaMode {
		name = "opera"
	}
	return &processor{h, tosca.GetProcessorFactory(name)(h)}
}

func judge(pr *processor, s *scenario, where string) {
	if judgeAs(pr, s, where, false) {
		return
	}
	if !judgeAs(newProcessor(), s, where, true) {
		return
	}
	if !judgeAs(pr, s, where, true) { // only after what this instance ran before
		return
	}
	R.Violation("floria:not-reproducible", "a scenario that failed once succeeded when repeated\n"+describe(s), where)
}

// judgeAs runs a scenario. The quick way only finds that something differs, the
// verbose way tells what.
func judgeAs(pr *processor, s *scenario, where string, verbose bool) bool {
	if prop == "R01" {
		return judgeBridge(s, where, verbose)
	}
	sw, mw := newWorld(s.pre), newWorld(s.pre)
	sw.monitor, sw.verbose, mw.verbose = true, verbose, verbose
	pr.h.Interpreter = &runner{w: sw, scripts: s.scripts}
	input := bytes.Clone(s.tx.Input)
	var got tosca.Receipt
	var gotErr error
	if !R.Guard("floria", func() { got, gotErr = pr.Run(s.block, s.tx, sw) }) {
		return true
	}
	m := &model{w: mw, interp: &runner{w: mw, scripts: s.scripts}, block: s.block}
	want := m.run(s.tx)
	if !verbose {
		if want.rejected {
			R.Add("rejected", 1)
		}
		account(sw, s, want.receipt.Success, got.GasUsed)
	}
	clean := true
	rpt := func(key, detail string, props ...string) {
		clean = false
		if verbose {
			report(key, detail, where, s, props...)
		}
	}

	// monitors that need no reference
	if sw.misuse != "" {
		rpt("snapshot-misuse", sw.misuse, "P04")
	}
	if !bytes.Equal(input, s.tx.Input) {
		rpt("input-modified", "the transaction's input was modified", "P06")
	}
	for _, f := range sw.failure {
		rpt(f.key, f.detail, f.props...)
	}
	if got.GasUsed < 0 || got.GasUsed > s.tx.GasLimit {
		rpt("gas-used-bounds", fmt.Sprintf("gas used %d of %d", got.GasUsed, s.tx.GasLimit), "P01")
	}
	wrote := false // explicit balance writes are outside of conservation
	for _, e := range sw.events {
		wrote = wrote || e.name == "result" && e.to == stateCon && !e.fail
	}
	if !(s.tx.Recipient != nil && *s.tx.Recipient == stateCon && s.tx.Sender == driver) && !wrote {
		fee := new(big.Int).Mul(val(s.tx.GasPrice), big.NewInt(int64(got.GasUsed)))
		left := new(big.Int).Sub(s.pre.total(), fee)
		left.Sub(left, sw.burnt)
		R.Add("conservation_checked", flagInt(!verbose))
		if left.Cmp(sw.total()) != 0 {
			rpt("conservation", fmt.Sprintf("balances sum up to %v, expected %v (gas used %d, burnt %v)", sw.total(), left, got.GasUsed, sw.burnt), "P03", "P01")
		}
	}
	if want.rejected {
		var d []string
		if sw.state.hash(true) != s.pre.hash(true) {
			d = sw.state.diff(s.pre, true)
		}
		if got.Success || got.GasUsed != 0 || len(got.Output) > 0 || len(got.Logs) > 0 || got.ContractAddress != nil {
			rpt("rejected-receipt", fmt.Sprintf("a transaction to be rejected got the receipt %+v", got), "P02", "P01")
		}
		if len(d) > 0 || sw.runs > 0 {
			rpt("rejected-effects", fmt.Sprintf("a transaction to be rejected caused %d runs and the changes %v", sw.runs, d), "P02", "P01", "P03")
		}
		return clean
	}

	// the trace
	if !sameTrace(sw, mw, func(key, detail string, first, a, b event, field string) {
		props := []string{"P06", "P04"}
		if first.kind == tosca.Create || first.kind == tosca.Create2 || a.kind == tosca.Create || a.kind == tosca.Create2 {
			props = append(props, "P05")
		}
		if a.to == stateCon || b.to == stateCon {
			props = append(props, "P07")
		}
		switch field {
		case "gas":
			if first.top {
				props = append(props, "P01")
			}
		case "warmset":
			props = []string{"P08"}
		case "balance", "conservation":
			props = append(props, "P03")
			if first.top {
				props = append(props, "P01")
			}
		case "shape":
			if first.top {
				props = append(props, "P01", "P02")
			}
		}
		rpt(key, detail, props...)
	}) {
		return clean
	}

	// the receipt
	if want.anyErr {
		gotErr = nil
	}
	if (gotErr == nil) != (want.err == nil) {
		rpt("error", fmt.Sprintf("error %v, want %v", gotErr, want.err), "P06")
		return clean
	}
	if gotErr != nil {
		return clean // an error inside of the interpreter, nothing is promised
	}
	all := []string{"P01", "P04", "P06"}
	creation := s.tx.Recipient == nil
	if creation {
		all = append(all, "P05")
	}
	if s.tx.Recipient != nil && *s.tx.Recipient == stateCon {
		all = append(all, "P07")
	}
	if got.GasUsed != want.receipt.GasUsed {
		rpt("gas-used", fmt.Sprintf("gas used %d, want %d", got.GasUsed, want.receipt.GasUsed), all...)
		return clean
	}
	if got.Success != want.receipt.Success {
		rpt("success", fmt.Sprintf("success %v, want %v", got.Success, want.receipt.Success), all...)
		return clean
	}
	if !want.anyOutput && !bytes.Equal(got.Output, want.receipt.Output) {
		rpt("output", fmt.Sprintf("output %x, want %x", []byte(got.Output), []byte(want.receipt.Output)), "P06", "P05")
	}
	if want.receipt.Success && creation && (got.ContractAddress == nil || *got.ContractAddress != *want.receipt.ContractAddress) {
		rpt("contract-address", fmt.Sprintf("contract address %v, want %v", got.ContractAddress, want.receipt.ContractAddress), "P05")
	}
	if !creation && got.ContractAddress != nil {
		rpt("contract-address", "a call got a contract address", "P05")
	}
	if a, b := logText(got.Logs), logText(want.receipt.Logs); a != b {
		rpt("logs", fmt.Sprintf("logs %s, want %s", a, b), "P04", "P06")
	}

	// the final state
	if sw.state.hash(true) == mw.state.hash(true) {
		return clean
	}
	for _, d := range sw.state.diff(mw.state, true) {
		kind := d[:strings.IndexByte(d, ':')]
		props := []string{"P04"}
		switch kind {
		case "balance":
			props = []string{"P03", "P04"}
			if strings.Contains(d, fmt.Sprintf("%x is", s.tx.Sender[:])) {
				props = append(props, "P01")
			}
		case "nonce":
			if want.anyNonce && strings.Contains(d, fmt.Sprintf("%x is", s.tx.Sender[:])) {
				continue
			}
			props = []string{"P04", "P05", "P02"}
		case "code":
			props = []string{"P04", "P05"}
		case "warm":
			props = []string{"P08"}
		}
		if slices.Contains(all, "P07") {
			props = append(props, "P07")
		}
		rpt("state:"+kind, "after the transaction "+d, props...)
		return clean
	}
	return clean
}

func firstDiff(a, b string) (field, detail string) {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			f := strings.FieldsFunc(y[i]+" ", func(r rune) bool { return r == ' ' || r == ':' })
			if len(f) == 0 {
				f = []string{"end"}
			}
			return f[0], short("observed "+x[i]) + short(", expected "+y[i])
		}
	}
	return "end", "observed " + short(a) + ", expected " + short(b)
}

func flagInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// account keeps count of what was observed.
func account(sw *World, s *scenario, success bool, gas tosca.Gas) {
	R.Eval(1)
	R.Add("interpreter_runs", int64(sw.runs))
	for k, v := range sw.stats {
		R.Add(k, v)
	}
	if success {
		R.Add("succeeded", 1)
	} else {
		R.Add("failed", 1)
	}
	if len(sw.events) > 1 {
		h := ""
		for _, e := range sw.events {
			h += e.name + " " + fmt.Sprint(e.kind, e.fail) + "; "
		}
		if len(sw.events) > 4 && len(sw.events) < 9 && R.Stat("succeeded")%97 == 1 {
			R.Sample("%s, gas %d, success %v, world changed in %d entries", h, gas, success, len(sw.state.diff(s.pre, true)))
		}
		R.Distinct(rep.Fnv(h, s.block.Revision, s.tx.GasLimit, gas))
	}
}

// sameTrace finds the first event in which an observed trace differs from the
// expected one.
func sameTrace(sw, mw *World, differs func(key, detail string, first, a, b event, field string)) bool {
	for i := 0; i < len(sw.events) || i < len(mw.events); i++ {
		var a, b event
		if i < len(sw.events) {
			a = sw.events[i]
		}
		if i < len(mw.events) {
			b = mw.events[i]
		}
		if a.name == b.name && a.hash == b.hash {
			continue
		}
		first := b
		if b.name == "" {
			first = a
		}
		field, detail := "shape", fmt.Sprintf("observed %s %v %x, expected %s %v %x", a.name, a.kind, a.to, b.name, b.kind, b.to)
		if a.name == b.name {
			field, detail = firstDiff(a.text, b.text)
		}
		differs("trace:"+first.name+":"+fmt.Sprint(first.kind)+":"+field, fmt.Sprintf("event %d, %s of %v at %x: %s", i, first.name, first.kind, first.to, detail), first, a, b, field)
		return false
	}
	return true
}
