//go:build ignore

// Searches names whose VRF indices, under the fixed key used by the checks,
// share long prefixes; prints a Go table.  Run once through an overlay, see DESIGN.md.
package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"sort"
	"sync"

	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
)

func main() {
	k, err := vrf.GenerateKey(vh.NewDRBG(42))
	if err != nil {
		panic(err)
	}
	const N = 1 << 21
	type e struct {
		v uint64
		n int
	}
	all := make([]e, N)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < N; i += 8 {
				all[i] = e{binary.BigEndian.Uint64(k.Compute([]byte(fmt.Sprintf("u%d", i)))), i}
			}
		}(w)
	}
	wg.Wait()
	sort.Slice(all, func(i, j int) bool { return all[i].v < all[j].v })
	// deepest pairs, and for a few deep pairs their whole neighbourhood
	type p struct{ i, l int }
	var ps []p
	for i := 0; i+1 < N; i++ {
		ps = append(ps, p{i, bits.LeadingZeros64(all[i].v ^ all[i+1].v)})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].l > ps[j].l })
	fmt.Println("var DeepNames = [][]string{")
	for _, q := range ps[:12] {
		fmt.Printf("\t{ // pair shares %d bits\n\t\t", q.l)
		lo, hi := q.i-3, q.i+5
		if lo < 0 {
			lo = 0
		}
		if hi > N {
			hi = N
		}
		for _, x := range all[lo:hi] {
			fmt.Printf("\"u%d\", ", x.n)
		}
		// cousins at every shallower level
		for l := 17; l > 0; l-- {
			want := all[q.i].v ^ 1<<(63-l)
			j := sort.Search(N, func(j int) bool { return all[j].v >= want>>(63-l)<<(63-l) })
			if j < N {
				fmt.Printf("\"u%d\", ", all[j].n)
			}
		}
		fmt.Println("\n\t},")
	}
	fmt.Println("}")
	_ = os.Stdout
}
