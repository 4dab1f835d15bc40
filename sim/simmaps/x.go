// Package simmaps replaces maps in the code under test: iteration order is the run's.
package simmaps

import (
	"iter"
	"maps"

	"vsim/rt"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range rt.KV(m) {
			if e.Live() && !yield(e.K) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range rt.KV(m) {
			if e.Live() && !yield(e.V()) {
				return
			}
		}
	}
}
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range rt.KV(m) {
			if e.Live() && !yield(e.K, e.V()) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M                       { return maps.Clone(m) }
func Copy[M1, M2 ~map[K]V, K comparable, V any](d M1, s M2)              { maps.Copy(d, s) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool            { return maps.Equal(a, b) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, f func(K, V) bool) { maps.DeleteFunc(m, f) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(a, b, eq)
}
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V         { return maps.Collect(s) }
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V]) { maps.Insert(m, s) }

// VrtShim marks the simulated package.
const VrtShim = 0
