package vsim

import (
	"fmt"
	"sort"
)

// MapKeys gives the keys of a map in an order that the tape decides.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	type e struct {
		k K
		s string
	}
	es := make([]e, 0, len(m))
	for k := range m {
		es = append(es, e{k, fmt.Sprint(k)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].s < es[j].s })
	r := make([]K, len(es))
	for i, x := range es {
		r[i] = x.k
	}
	if W != nil && len(r) > 1 {
		if W.mapRng == nil {
			W.mapRng = NewPRNG(W.T.Seed32())
		}
		for i := len(r) - 1; i > 0; i-- {
			j := W.mapRng.Intn(i + 1)
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}
