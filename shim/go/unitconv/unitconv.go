// Package unitconv is a stand-in for the formatter of the same name.
package unitconv

import "fmt"

type Mode int

const (
	SI Mode = iota
	Base1024
	IEC
)

func FormatPrefix(val float64, mode Mode, prec int) string {
	return fmt.Sprintf("%.*f", max(prec, 0), val)
}
