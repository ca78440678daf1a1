//go:build go1.23 && vhshim

package merkletree

// VhRoot computes the tree's root hash and returns a copy of it.
func VhRoot(m *MerkleTree) []byte {
	m.recomputeHash()
	return append([]byte(nil), m.hash...)
}
