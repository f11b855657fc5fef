package lfvmrun

import (
	"bytes"
	"fmt"
	"strings"

	"verif/ref"
)

// Compare checks the recorded outcome of a system under test against the
// oracle. It returns "" or a short description of the first difference, led by
// a stable category.
func Compare(want, got *ref.Result) string {
	if got.Status == "panic" || got.Status == "error" {
		return got.Status + ": " + got.Detail
	}
	ws, gs := want.Status, got.Status
	// the tosca interface cannot express the difference between a failure and
	// a revert without gas and data
	same := ws == gs || (ws == "revert" && gs == "fail" || ws == "fail" && gs == "revert") && want.Gas == 0 && got.Gas == 0 && len(want.Output) == 0 && len(got.Output) == 0
	if !same {
		return fmt.Sprintf("status: want %s (%s) got %s (%s)", ws, want.Detail, gs, got.Detail)
	}
	if d := CompareEvents(want.Events, got.Events, ws == "fail"); d != "" {
		return d
	}
	if ws == "fail" {
		if got.Gas != 0 {
			return fmt.Sprintf("gas: failure leaves %d", got.Gas)
		}
		if len(got.Output) != 0 {
			return fmt.Sprintf("output: failure returns %x", got.Output)
		}
		if got.Detail == Unsuccessful && got.Refund != 0 {
			return fmt.Sprintf("refund: failure leaves %d", got.Refund)
		}
		return ""
	}
	if want.Gas != got.Gas {
		return fmt.Sprintf("gas: want %d got %d", want.Gas, got.Gas)
	}
	if !bytes.Equal(want.Output, got.Output) {
		return fmt.Sprintf("output: want %x got %x", want.Output, got.Output)
	}
	if ws == "success" {
		if want.Refund != got.Refund {
			return fmt.Sprintf("refund: want %d got %d", want.Refund, got.Refund)
		}
		if a, b := strings.Join(want.WarmAddrs, " "), strings.Join(got.WarmAddrs, " "); a != b {
			return fmt.Sprintf("warm accounts: want %s got %s", a, b)
		}
		if a, b := strings.Join(want.WarmSlots, " "), strings.Join(got.WarmSlots, " "); a != b {
			return fmt.Sprintf("warm slots: want %s got %s", a, b)
		}
	}
	return ""
}

// Unsuccessful marks results reported through the tosca interface, where a
// failure carries no refund either.
const Unsuccessful = "unsuccessful"

// CompareEvents compares effect logs. In a failed execution the host discards
// all effects, and some hosts' interfaces report the cost of a storage write
// only with the write itself; so there one more trailing storage write is fine.
func CompareEvents(want, got []string, failed bool) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return "effects: missing " + want[i]
		case i >= len(want):
			if failed && i == len(got)-1 && strings.HasPrefix(got[i], "S ") {
				return ""
			}
			return "effects: additional " + got[i]
		case want[i] != got[i]:
			return "effects: want " + want[i] + " got " + got[i]
		}
	}
	return ""
}
