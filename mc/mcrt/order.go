// Package mcrt is what the instrumented build of the library calls: it decides
// the iteration order of maps and, at scheduling points, which goroutine runs.
package mcrt

import (
	"fmt"
	"iter"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
)

// getg identifies the running goroutine.
func getg() uintptr

// Entry is one entry of a map being iterated.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Get returns the entry's value, and whether it is still in the map.
func (e Entry[K, V]) Get() (V, bool) {
	v, ok := e.m[e.K]
	return v, ok
}

// session decides the orders of the map iterations of one goroutine.
type session struct {
	want []int // choice at each of the first iterations
	took []int // number of alternatives at each iteration
}

var (
	sessions sync.Map // goroutine -> *session
	active   atomic.Int64
)

// fixed is the choice made outside of sessions (it decides what happens while
// the package is initialised): 0 the ascending order, 1 the descending one,
// k the alternative k-1 modulo their number.
var fixed, _ = strconv.Atoi(os.Getenv("MC_ORDER"))

// With runs f with the given choices (default: 0) for its map iterations and
// returns the number of alternatives that each of them had.
func With(want []int, f func()) []int {
	g := getg()
	s := &session{want: want}
	sessions.Store(g, s)
	active.Add(1)
	defer func() {
		active.Add(-1)
		sessions.Delete(g)
	}()
	f()
	return s.took
}

// alternatives returns the number of orders that are tried for n entries.
func alternatives(n int) int {
	switch {
	case n < 2:
		return 1
	case n <= 4:
		return [...]int{2, 6, 24}[n-2]
	}
	// every entry first, the others ascending or descending
	return 2 * n
}

func permute[T any](l []T, c int) {
	n := len(l)
	if n >= 2 && n <= 4 {
		// the c-th permutation, 0 the identity
		for i := 0; i < n-1; i++ {
			f := 1
			for k := 2; k < n-i; k++ {
				f *= k
			}
			d := c / f
			c %= f
			x := l[i+d]
			copy(l[i+1:i+d+1], l[i:i+d])
			l[i] = x
		}
		return
	}
	if c >= n {
		c -= n
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	x := l[c]
	copy(l[1:c+1], l[:c])
	l[0] = x
}

// Order returns the entries of a map in the order in which they are visited.
func Order[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	order(keys)
	out := make([]Entry[K, V], len(keys))
	for i, k := range keys {
		out[i] = Entry[K, V]{k, m}
	}
	return out
}

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	case rune:
		return x < b.(rune)
	}
	return fmt.Sprintf("%v", a) < fmt.Sprintf("%v", b)
}

func order[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	names := make([]any, len(keys))
	for i, k := range keys {
		names[i] = k
	}
	if _, ok := names[0].(string); !ok {
		for i, k := range keys {
			names[i] = fmt.Sprintf("%06v", k)
		}
	}
	sort.Sort(&byName[K]{keys, names})
	choice := 0
	switch n := alternatives(len(keys)); {
	case fixed == 1 && len(keys) <= 4:
		choice = n - 1
	case fixed == 1:
		choice = len(keys) // descending, but for the first
	case fixed > 1:
		choice = (fixed - 1) % n
	}
	if active.Load() > 0 {
		if v, ok := sessions.Load(getg()); ok {
			s := v.(*session)
			if i := len(s.took); i < len(s.want) {
				choice = s.want[i]
			}
			a := alternatives(len(keys))
			s.took = append(s.took, a)
			if choice >= a {
				choice = a - 1
			}
		}
	}
	permute(keys, choice)
}

type byName[K any] struct {
	keys  []K
	names []any
}

func (b *byName[K]) Len() int           { return len(b.keys) }
func (b *byName[K]) Less(i, j int) bool { return less(b.names[i], b.names[j]) }
func (b *byName[K]) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.names[i], b.names[j] = b.names[j], b.names[i]
}

// Keys, Values and All stand in for the functions of package maps.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range Order(m) {
			if _, ok := e.Get(); ok && !yield(e.K) {
				return
			}
		}
	}
}

// Values is like maps.Values.
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range Order(m) {
			if v, ok := e.Get(); ok && !yield(v) {
				return
			}
		}
	}
}

// All is like maps.All.
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range Order(m) {
			if v, ok := e.Get(); ok && !yield(e.K, v) {
				return
			}
		}
	}
}
