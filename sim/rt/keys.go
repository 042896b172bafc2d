package rt

import (
	"fmt"
	"sort"
)

func sortKeys[K comparable](ks []K) {
	ss := make([]string, len(ks))
	ix := make([]int, len(ks))
	for i, k := range ks {
		ss[i] = fmt.Sprintf("%v", k)
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return ss[ix[a]] < ss[ix[b]] })
	out := make([]K, len(ks))
	for i, j := range ix {
		out[i] = ks[j]
	}
	copy(ks, out)
}
