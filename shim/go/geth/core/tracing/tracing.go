// Package tracing is an offline stand-in for go-ethereum/core/tracing.
package tracing

type BalanceChangeReason byte

const (
	BalanceChangeUnspecified    BalanceChangeReason = 0
	BalanceIncreaseSelfdestruct BalanceChangeReason = 12
	BalanceDecreaseSelfdestruct BalanceChangeReason = 13
	BalanceChangeTransfer       BalanceChangeReason = 10
	BalanceChangeTouchAccount   BalanceChangeReason = 11
)
