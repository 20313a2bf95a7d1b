package vsched

import (
	"cmp"
	"fmt"
	"iter"
	"slices"
)

// keys returns the keys of the map in the order of the explorer: the sorted keys, permuted.
func keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if native && !Active() {
		return ks
	}
	names := make(map[K]string, len(ks))
	for _, k := range ks {
		names[k] = fmt.Sprintf("%T %v", k, k)
	}
	slices.SortFunc(ks, func(a, b K) int {
		if x, ok := any(a).(int); ok {
			if y, ok := any(b).(int); ok {
				return cmp.Compare(x, y)
			}
		}
		return cmp.Compare(names[a], names[b])
	})
	n := len(ks)
	if n < 2 {
		return ks
	}
	switch {
	case Active() && ChooseMaps:
		// All orders of up to four keys, all rotations beyond.
		if n <= 4 {
			rest := slices.Clone(ks)
			out := make([]K, 0, n)
			for len(rest) > 1 {
				c := Choose(len(rest))
				out = append(out, rest[c])
				rest = slices.Delete(rest, c, c+1)
			}
			return append(out, rest...)
		}
		c := Choose(n)
		return append(slices.Clone(ks[c:]), ks[:c]...)
	case order > 0:
		// Small maps: the order-th permutation; larger ones: rotations, then reversed rotations.
		f := 1
		if n <= 5 {
			for i := 2; i <= n; i++ {
				f *= i
			}
			p := order % f
			rest := slices.Clone(ks)
			out := make([]K, 0, n)
			for i := n; i > 0; i-- {
				f /= i
				c := p / f
				p %= f
				out = append(out, rest[c])
				rest = slices.Delete(rest, c, c+1)
			}
			return out
		}
		c := order % (2 * n)
		if c >= n {
			slices.Reverse(ks)
			c -= n
		}
		return append(slices.Clone(ks[c:]), ks[:c]...)
	}
	return ks
}

// All iterates over the map in the order of the explorer.
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range keys(m) {
			v, ok := m[k]
			if !ok && k == k {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Keys iterates over the keys of the map in the order of the explorer.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range All(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// Values iterates over the values of the map in the order of the explorer.
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range All(m) {
			if !yield(v) {
				return
			}
		}
	}
}
