//go:build go1.23 && vhshim

package merkletree_test

import (
	"bytes"
	"fmt"
	"sort"
	"testing"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

type tbind struct {
	key   string
	value []byte
}

// model of a tree: index -> binding
type tmodel map[string]tbind

func (m tmodel) clone() tmodel {
	out := tmodel{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (m tmodel) sorted() []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// drawIndex draws an index of n bytes: near one already used, or anywhere.
func drawIndex(rt *rapid.T, used []string, n int) []byte {
	b := vh.NewDRBG(rapid.Uint64().Draw(rt, "index")).Bytes(n)
	if len(used) == 0 {
		return b
	}
	base := []byte(used[rapid.IntRange(0, len(used)-1).Draw(rt, "near")])
	switch rapid.IntRange(0, 3).Draw(rt, "how") {
	case 0:
		return b
	case 1: // differs from base in one bit only
		return vh.FlipBit(base, rapid.IntRange(0, 8*n-1).Draw(rt, "bit"))
	case 2: // shares a prefix, then random
		k := rapid.IntRange(0, 8*n-1).Draw(rt, "bit")
		out := vh.FlipBit(base, k)
		for i := k + 1; i < 8*n; i++ {
			if ref.Bit(b, i) != ref.Bit(out, i) {
				out[i/8] ^= 0x80 >> (uint(i) % 8)
			}
		}
		return out
	default:
		return append([]byte{}, base...)
	}
}

func fresh(ap *merkletree.AuthenticationPath) *merkletree.AuthenticationPath {
	return copyAP(ap)
}

// checkTree looks up every name and many absent ones and compares with the model.
func checkTree(c *vh.Case, m *merkletree.MerkleTree, model tmodel, root []byte, absent [][]byte) {
	var entries []ref.Entry
	var nonce []byte
	for _, ix := range model.sorted() {
		want := model[ix]
		ap := m.Get([]byte(ix))
		checkInclusion(c, ap, ix, want.key, want.value, root)
		entries = append(entries, ref.Entry{Index: []byte(ix), Commit: ap.Leaf.Commitment.Value})
		nonce = ap.TreeNonce
	}
	for _, ix := range absent {
		if _, ok := model[string(ix)]; ok {
			continue
		}
		ap := m.Get(append([]byte{}, ix...))
		checkAbsence(c, ap, ix, root)
		nonce = ap.TreeNonce
	}
	if nonce != nil {
		if want := ref.TreeRoot(nonce, entries); !bytes.Equal(want, root) {
			c.Fatalf("root %x of %d entries, by definition %x", root, len(entries), want)
		}
	}
}

func TestC07_Tree(t *testing.T) {
	vh.Check(t, vh.N{Quick: 20000}, func(rt *rapid.T, c *vh.Case) {
		n := rapid.SampledFrom([]int{1, 2, 4, 32, 32, 32}).Draw(rt, "indexBytes")
		m, err := merkletree.NewMerkleTree()
		if err != nil {
			c.Fatalf("NewMerkleTree: %v", err)
		}
		model := tmodel{}
		var used []string
		ops := rapid.IntRange(0, 24).Draw(rt, "ops")
		checks := 0
		check := func() {
			root := merkletree.VhRoot(m)
			var absent [][]byte
			for i := 0; i < 6; i++ {
				absent = append(absent, drawIndex(rt, used, n))
			}
			checkTree(c, m, model, root, absent)
			checks++
		}
		for i := 0; i < ops; i++ {
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 7:
				ix := drawIndex(rt, used, n)
				key := rapid.SampledFrom([]string{"", "a", "alice", "bob@twitter", string(ix)}).Draw(rt, "key")
				val := vh.Bytes(rt, "value", 70)
				v, changed := vh.Guarded(val)
				if err := m.Set(append([]byte{}, ix...), key, v); err != nil {
					c.Fatalf("Set: %v", err)
				}
				if changed() {
					c.Fatalf("Set modified its value")
				}
				for j := range v {
					v[j] ^= 0x5a
				}
				if _, ok := model[string(ix)]; ok {
					c.Class("update of an existing index")
				} else {
					used = append(used, string(ix))
				}
				model[string(ix)] = tbind{key, val}
				c.Tracef("set %x %q %s", ix, key, vh.Hex(val))
			case k == 7:
				check()
				c.Tracef("check")
			case k == 8:
				m = m.Clone()
				c.Class("continue on a clone")
				c.Tracef("clone")
			default:
				merkletree.VhRoot(m)
				c.Tracef("hash")
			}
		}
		check()
		if len(model) > 1 {
			c.NT()
		}
		c.Class(fmt.Sprintf("%d-byte indices", n))
		c.ClassN("lookups of present names", checks*len(model))
	})
}

// Trees of thousands of entries, and entries of thousands of bytes.
func TestC07_LargeTree(t *testing.T) {
	vh.Check(t, vh.N{Quick: 80}, func(rt *rapid.T, c *vh.Case) {
		m, err := merkletree.NewMerkleTree()
		if err != nil {
			c.Fatalf("NewMerkleTree: %v", err)
		}
		model := tmodel{}
		var used []string
		n := vh.LogInt(rt, "entries", 1, 3000)
		long := rapid.IntRange(0, 30).Draw(rt, "long")
		for i := 0; i < n; i++ {
			ix := c.Rand.Bytes(32)
			if len(used) > 0 && i%5 == 0 { // next to another
				ix = vh.FlipBit([]byte(used[c.Rand.Uint64()%uint64(len(used))]), int(c.Rand.Uint64()%256))
			}
			key, val := fmt.Sprintf("name %d", i), c.Rand.Bytes(i%50)
			if i < long {
				key = string(vh.Big(rt, "key", 20000))
				val = vh.Big(rt, "value", 200000)
			}
			if err := m.Set(append([]byte{}, ix...), key, append([]byte{}, val...)); err != nil {
				c.Fatalf("Set: %v", err)
			}
			if _, ok := model[string(ix)]; !ok {
				used = append(used, string(ix))
			}
			model[string(ix)] = tbind{key, val}
		}
		c.Tracef("%d entries, %d long ones", len(model), long)
		if rapid.Bool().Draw(rt, "clone") {
			merkletree.VhRoot(m)
			m = m.Clone()
		}
		root := merkletree.VhRoot(m)
		var absent [][]byte
		for i := 0; i < 30; i++ {
			absent = append(absent, drawIndex(rt, used, 32))
		}
		checkTree(c, m, model, root, absent)
		if len(model) > 100 || long > 0 {
			c.NT()
		}
	})
}
