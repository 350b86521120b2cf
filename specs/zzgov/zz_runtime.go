//go:build go1.21

// Package zzgov is the specification language of the contracts laid over /repo by the verifier.
// The verifier gives these functions their logical meaning; the bodies here are their executable
// meaning, used when a contract is replayed on the real code.
package zzgov

import (
	"reflect"
)

// Iter is the number of completed iterations in a loop template.
type Iter int

// Run records what one execution of a contract found.
type Run struct {
	Name    string
	Skipped bool
	Failed  []string
	Checked int
	Panic   string
	noPanic bool
	post    bool
}

// Cur is the execution under way.
var Cur = &Run{}

type skip struct{}

// Requires states a precondition.
func Requires(cond bool) {
	if !cond {
		Cur.Skipped = true
		panic(skip{})
	}
}

// Assume states an assumption about code outside the repository.
func Assume(cond bool) { Requires(cond) }

// Ensures states a postcondition.
func Ensures(name string, cond bool) {
	Cur.Checked++
	if !cond {
		Cur.Failed = append(Cur.Failed, name)
	}
}

// Assert states a fact that must hold here.
func Assert(name string, cond bool) { Ensures(name, cond) }

// Cut states a fact that must hold here and is used afterwards.
func Cut(name string, cond bool) { Ensures(name, cond) }

// NoPanic demands that the code called from here on does not panic.
func NoPanic() { Cur.noPanic = true }

// ForAll holds when f holds of every index in [lo,hi).
func ForAll(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists holds when f holds of some index in [lo,hi).
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Concat is f(0) followed by f(1) ... up to f(n-1).
func Concat(n int, f func(i int) []byte) []byte {
	out := []byte{}
	for i := 0; i < n; i++ {
		out = append(out, f(i)...)
	}
	return out
}

// ConcatS is f(0) followed by f(1) ... up to f(n-1).
func ConcatS(n int, f func(i int) string) string {
	out := ""
	for i := 0; i < n; i++ {
		out += f(i)
	}
	return out
}

// PowerOfTwo tells whether n is 1, 2, 4, 8, ...
func PowerOfTwo(n int) bool { return n > 0 && n&(n-1) == 0 }

// Fresh tells that a function made the object itself (nothing to evaluate at run time).
func Fresh[T any](x T) bool { return true }

// Same tells whether two values are the same value (for objects: the same object; for byte slices
// the same text, for lists the same length and the same members).
func Same[T any](a, b T) bool {
	va, vb := reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem()
	return same(va, vb)
}

func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		return a.Pointer() == b.Pointer()
	case reflect.Func:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Interface() == b.Interface()
	}
	return a.Interface() == b.Interface()
}


// Keys are the keys a loop over a map has gone through, in a loop template.
type Keys[K comparable] map[K]bool

// EachKey holds when f holds of every key and its value.
func EachKey[K comparable, V any](m map[K]V, f func(k K, v V) bool) bool {
	for k, v := range m {
		if !f(k, v) {
			return false
		}
	}
	return true
}

// SomeKey holds when f holds of some key and its value.
func SomeKey[K comparable, V any](m map[K]V, f func(k K, v V) bool) bool {
	for k, v := range m {
		if f(k, v) {
			return true
		}
	}
	return false
}
