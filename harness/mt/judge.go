//go:build go1.23

package mt

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
)

func siblings(ap *merkletree.AuthenticationPath) [][]byte {
	var out [][]byte
	for i := range ap.PrunedTree {
		out = append(out, ap.PrunedTree[i][:])
	}
	return out
}

func shaped(ap *merkletree.AuthenticationPath, root []byte) bool {
	return ap != nil && ap.Leaf != nil && len(root) == 32 && len(ap.TreeNonce) == 32 &&
		len(ap.LookupIndex) == 32 && uint64(ap.Leaf.Level) == uint64(len(ap.PrunedTree)) && ap.Leaf.Level <= 256
}

// Included decides, from the definition of the tree alone, whether ap proves
// that name (whose index is index) has value under root.
func Included(ap *merkletree.AuthenticationPath, index []byte, name string, value, root []byte) bool {
	if !shaped(ap, root) || ap.Leaf.IsEmpty || ap.Leaf.Commitment == nil || !bytes.Equal(ap.LookupIndex, index) ||
		!bytes.Equal(ap.Leaf.Index, index) || !bytes.Equal(ap.Leaf.Value, value) {
		return false
	}
	cm := ap.Leaf.Commitment
	if len(cm.Salt) != 32 || !bytes.Equal(cm.Value, ref.CommitValue(cm.Salt, name, value)) {
		return false
	}
	leaf := ref.LeafHash(ap.TreeNonce, index, int(ap.Leaf.Level), cm.Value)
	return bytes.Equal(ref.Climb(leaf, index, siblings(ap)), root)
}

// Absent decides whether ap proves that index has no entry under root.
func Absent(ap *merkletree.AuthenticationPath, index, root []byte) bool {
	if !shaped(ap, root) || !bytes.Equal(ap.LookupIndex, index) {
		return false
	}
	n := int(ap.Leaf.Level)
	var leaf []byte
	if ap.Leaf.IsEmpty {
		p := ref.Prefix(index, n)
		if !bytes.Equal(ref.Prefix(ap.Leaf.Index, min(n, 8*len(ap.Leaf.Index))), p) {
			return false
		}
		leaf = ref.EmptyHash(ap.TreeNonce, ap.Leaf.Index, n)
	} else {
		if len(ap.Leaf.Index) != 32 || bytes.Equal(ap.Leaf.Index, index) || ap.Leaf.Commitment == nil ||
			len(ap.Leaf.Commitment.Value) != 32 || !bytes.Equal(ref.Prefix(ap.Leaf.Index, n), ref.Prefix(index, n)) {
			return false
		}
		leaf = ref.LeafHash(ap.TreeNonce, ap.Leaf.Index, n, ap.Leaf.Commitment.Value)
	}
	return bytes.Equal(ref.Climb(leaf, index, siblings(ap)), root)
}

// Root computes the root ap leads to; ok: ap has the shape of a path.
func Root(ap *merkletree.AuthenticationPath) (root []byte, ok bool) {
	if !shaped(ap, make([]byte, 32)) {
		return nil, false
	}
	n := int(ap.Leaf.Level)
	if ap.Leaf.IsEmpty {
		if len(ap.Leaf.Index) != (n+7)/8 {
			return nil, false
		}
		return ref.Climb(ref.EmptyHash(ap.TreeNonce, ap.Leaf.Index, n), ap.Leaf.Index, siblings(ap)), true
	}
	if len(ap.Leaf.Index) != 32 || ap.Leaf.Commitment == nil || len(ap.Leaf.Commitment.Value) != 32 {
		return nil, false
	}
	return ref.Climb(ref.LeafHash(ap.TreeNonce, ap.Leaf.Index, n, ap.Leaf.Commitment.Value), ap.Leaf.Index, siblings(ap)), true
}
