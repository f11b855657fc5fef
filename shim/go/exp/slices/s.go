// Package slices is an offline stand-in for golang.org/x/exp/slices.
package slices

import (
	"cmp"
	"slices"
)

func Equal[S ~[]E, E comparable](a, b S) bool { return slices.Equal(a, b) }
func EqualFunc[S1 ~[]A, S2 ~[]B, A, B any](a S1, b S2, f func(A, B) bool) bool {
	return slices.EqualFunc(a, b, f)
}
func Contains[S ~[]E, E comparable](s S, v E) bool             { return slices.Contains(s, v) }
func ContainsFunc[S ~[]E, E any](s S, f func(E) bool) bool     { return slices.ContainsFunc(s, f) }
func Index[S ~[]E, E comparable](s S, v E) int                 { return slices.Index(s, v) }
func IndexFunc[S ~[]E, E any](s S, f func(E) bool) int         { return slices.IndexFunc(s, f) }
func Clone[S ~[]E, E any](s S) S                               { return slices.Clone(s) }
func Sort[S ~[]E, E cmp.Ordered](s S)                          { slices.Sort(s) }
func SortFunc[S ~[]E, E any](s S, f func(a, b E) int)          { slices.SortFunc(s, f) }
func SortStableFunc[S ~[]E, E any](s S, f func(a, b E) int)    { slices.SortStableFunc(s, f) }
func IsSorted[S ~[]E, E cmp.Ordered](s S) bool                 { return slices.IsSorted(s) }
func Reverse[S ~[]E, E any](s S)                               { slices.Reverse(s) }
func Insert[S ~[]E, E any](s S, i int, v ...E) S               { return slices.Insert(s, i, v...) }
func Delete[S ~[]E, E any](s S, i, j int) S                    { return slices.Delete(s, i, j) }
func DeleteFunc[S ~[]E, E any](s S, f func(E) bool) S          { return slices.DeleteFunc(s, f) }
func Compact[S ~[]E, E comparable](s S) S                      { return slices.Compact(s) }
func Grow[S ~[]E, E any](s S, n int) S                         { return slices.Grow(s, n) }
func Clip[S ~[]E, E any](s S) S                                { return slices.Clip(s) }
func BinarySearch[S ~[]E, E cmp.Ordered](s S, v E) (int, bool) { return slices.BinarySearch(s, v) }
func Max[S ~[]E, E cmp.Ordered](s S) E                         { return slices.Max(s) }
func Min[S ~[]E, E cmp.Ordered](s S) E                         { return slices.Min(s) }
