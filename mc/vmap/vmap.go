// Package vmap decides the order in which the code under test iterates over maps.
package vmap

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
)

// Mode of iteration.
type Mode int

const (
	Native Mode = iota // as the runtime does
	Sorted             // by key
	Chosen             // by Choose
)

var (
	mode Mode
	// the choices of the execution going on
	choices []int
	sizes   []int
	next    int
	over    bool
)

// SetMode is called before the code under test runs.
func SetMode(m Mode) { mode = m }

// Range iterates over m.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if mode == Native {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		for _, k := range keys(m) {
			v, ok := m[k]
			if !ok {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	slices.SortFunc(ks, func(a, b K) int {
		x, y := reflect.ValueOf(a), reflect.ValueOf(b)
		switch {
		case x.Kind() != y.Kind():
		case x.Kind() == reflect.String:
			return cmp.Compare(x.String(), y.String())
		case x.CanInt():
			return cmp.Compare(x.Int(), y.Int())
		case x.CanUint():
			return cmp.Compare(x.Uint(), y.Uint())
		}
		return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
	})
	if mode == Chosen {
		permute(ks)
	}
	return ks
}

// maxFact limits the orders of one large map: all orders up to 5 keys; of more keys all rotations, in both
// directions.
func orders(n int) int {
	switch {
	case n < 2:
		return 1
	case n <= 5:
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		return f
	}
	return 2 * n
}

func permute[K any](ks []K) {
	n := len(ks)
	o := orders(n)
	if o == 1 {
		return
	}
	c := choose(o)
	if n > 5 {
		if c >= n {
			slices.Reverse(ks)
			c -= n
		}
		r := append(append([]K(nil), ks[c:]...), ks[:c]...)
		copy(ks, r)
		return
	}
	rest := append([]K(nil), ks...)
	for i := range ks {
		f := 1
		for j := 2; j <= n-1-i; j++ {
			f *= j
		}
		k := c / f
		c %= f
		ks[i] = rest[k]
		rest = append(rest[:k], rest[k+1:]...)
	}
}

func choose(n int) int {
	if next < len(choices) {
		sizes[next] = n
		c := choices[next]
		next++
		return c % n
	}
	if len(choices) >= 4096 {
		over = true
		return 0
	}
	choices = append(choices, 0)
	sizes = append(sizes, n)
	next++
	return 0
}

// Each runs f once for every combination of iteration orders f meets, at most max times. It returns the
// number of runs and whether those were all. f returns false to stop.
func Each(max int64, f func() bool) (runs int64, all bool) {
	old := mode
	defer func() { mode = old }()
	mode = Chosen
	choices, sizes, over = choices[:0], sizes[:0], false
	for {
		next = 0
		if !f() {
			return runs + 1, false
		}
		runs++
		choices, sizes = choices[:next], sizes[:next]
		for len(choices) > 0 && choices[len(choices)-1]+1 >= sizes[len(choices)-1] {
			choices, sizes = choices[:len(choices)-1], sizes[:len(sizes)-1]
		}
		if len(choices) == 0 {
			return runs, !over
		}
		if runs >= max {
			return runs, false
		}
		choices[len(choices)-1]++
	}
}

// Limited: like Each, but only one of the orders met is varied at a time (each of the choice points takes
// all its values while the others stay sorted), and all pairs with pairs set.
func Limited(max int64, f func() bool) (runs int64, all bool) {
	old := mode
	defer func() { mode = old }()
	mode = Chosen
	choices, sizes, over, next = choices[:0], sizes[:0], false, 0
	if !f() {
		return 1, false
	}
	runs = 1
	base := append([]int(nil), sizes...)
	for p, n := range base {
		for c := 1; c < n; c++ {
			choices = choices[:0]
			sizes = sizes[:0]
			for i := 0; i <= p; i++ {
				choices = append(choices, 0)
				sizes = append(sizes, 0)
			}
			choices[p] = c
			next = 0
			if !f() {
				return runs + 1, false
			}
			runs++
			if runs >= max {
				return runs, false
			}
		}
	}
	return runs, !over
}

// Instrumented is set by packages whose map iterations go through Range.
var Instrumented bool
