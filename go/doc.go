// Package verif holds the Go part of the verification machinery.
package verif
