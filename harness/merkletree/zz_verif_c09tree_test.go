//go:build go1.23 && vhshim

package merkletree_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// Clones and originals evolve independently, whether or not they were hashed
// before cloning.
func TestC09_Clones(t *testing.T) {
	vh.Check(t, vh.N{Quick: 8000}, func(rt *rapid.T, c *vh.Case) {
		type tr struct {
			m      *merkletree.MerkleTree
			model  tmodel
			hashed bool // nothing was set since the last hashing
			root   []byte
		}
		n := rapid.SampledFrom([]int{1, 2, 32}).Draw(rt, "indexBytes")
		m, err := merkletree.NewMerkleTree()
		if err != nil {
			c.Fatalf("NewMerkleTree: %v", err)
		}
		all := []*tr{{m: m, model: tmodel{}}}
		var used []string
		var frz []*frozen
		clones := 0
		hash := func(x *tr) {
			r := merkletree.VhRoot(x.m)
			if x.hashed && !bytes.Equal(r, x.root) {
				c.Fatalf("the root of a tree changed without a change to it")
			}
			x.hashed, x.root = true, r
		}
		ops := rapid.IntRange(2, 30).Draw(rt, "ops")
		for i := 0; i < ops; i++ {
			x := all[rapid.IntRange(0, len(all)-1).Draw(rt, "tree")]
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 5:
				ix := drawIndex(rt, used, n)
				val := vh.Bytes(rt, "value", 20)
				v := cp(val)
				if err := x.m.Set(cp(ix), "k", v); err != nil {
					c.Fatalf("Set: %v", err)
				}
				for j := range v {
					v[j]++
				}
				x.model[string(ix)] = tbind{"k", val}
				x.hashed = false
				used = append(used, string(ix))
				c.Tracef("tree %d: set %x %s", i, ix, vh.Hex(val))
			case k < 7 && len(all) < 5:
				y := &tr{m: x.m.Clone(), model: x.model.clone(), hashed: x.hashed, root: x.root}
				all = append(all, y)
				clones++
				c.Class(fmt.Sprintf("clone of a tree, hashed=%v", x.hashed))
				c.Tracef("clone, hashed=%v", x.hashed)
			case k < 9:
				hash(x)
				c.Tracef("hash")
			default:
				hash(x)
				ix := []byte(drawIndex(rt, used, n))
				ap := x.m.Get(cp(ix))
				frz = append(frz, freeze(fmt.Sprintf("proof for %x", ix), ap, nil))
			}
		}
		for i := 0; i < 2; i++ {
			for _, x := range all {
				hash(x)
				var absent [][]byte
				for j := 0; j < 3; j++ {
					absent = append(absent, drawIndex(rt, used, n))
				}
				checkTree(c, x.m, x.model, x.root, absent)
			}
		}
		for _, f := range frz {
			f.check(c)
		}
		if clones > 0 && len(used) > 1 {
			c.NT()
		}
	})
}
