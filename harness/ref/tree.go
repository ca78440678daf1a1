//go:build go1.23

package ref

// Reference definition of the Merkle prefix tree: the root hash of a set of
// entries, by recursion on the set.

// Entry is one leaf: its index and the commitment's value.
type Entry struct{ Index, Commit []byte }

// Bit returns bit n of b, most significant bit first.
func Bit(b []byte, n int) bool { return b[n/8]>>(7-uint(n)%8)&1 == 1 }

// Prefix returns the first n bits of b, zero-padded to bytes.
func Prefix(b []byte, n int) []byte {
	out := make([]byte, (n+7)/8)
	copy(out, b)
	if n%8 != 0 {
		out[n/8] &= byte(0xff) << (8 - uint(n)%8)
	}
	return out
}

// LE32 is n as four little-endian bytes.
func LE32(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

// LE64 is n as eight little-endian bytes.
func LE64(n uint64) []byte {
	out := make([]byte, 8)
	for i := range out {
		out[i] = byte(n >> (8 * uint(i)))
	}
	return out
}

// Hash is the project's hash function.
func Hash(parts ...[]byte) []byte { return Shake128(parts...) }

// LeafHash is the hash of a user leaf.
func LeafHash(nonce, index []byte, level int, commit []byte) []byte {
	return Hash([]byte{'L'}, nonce, index, LE32(level), commit)
}

// EmptyHash is the hash of an empty branch.
func EmptyHash(nonce, prefix []byte, level int) []byte {
	return Hash([]byte{'E'}, nonce, prefix, LE32(level))
}

// TreeRoot is the root hash of the tree with exactly these entries.
func TreeRoot(nonce []byte, es []Entry) []byte { return subtree(nonce, es, nil, 0) }

func split(es []Entry, level int) (l, r []Entry) {
	for _, e := range es {
		if Bit(e.Index, level) {
			r = append(r, e)
		} else {
			l = append(l, e)
		}
	}
	return
}

// setBit returns the prefix of level+1 bits that extends path by bit.
func extend(path []byte, level int, bit bool) []byte {
	out := make([]byte, (level+8)/8)
	copy(out, path)
	if bit {
		out[level/8] |= 0x80 >> (uint(level) % 8)
	}
	return out
}

func subtree(nonce []byte, es []Entry, path []byte, level int) []byte {
	if level > 0 {
		switch len(es) {
		case 0:
			return EmptyHash(nonce, path, level)
		case 1:
			return LeafHash(nonce, es[0].Index, level, es[0].Commit)
		}
	}
	l, r := split(es, level)
	return Hash(subtree(nonce, l, extend(path, level, false), level+1), subtree(nonce, r, extend(path, level, true), level+1))
}

// Path is the answer for one index: the siblings from the root down, and the
// leaf or empty branch reached.
type Path struct {
	Siblings [][]byte
	Level    int
	Leaf     *Entry // nil: empty branch
	Prefix   []byte // of the empty branch
}

// Lookup returns the path to index in the tree with these entries.
func Lookup(nonce []byte, es []Entry, index []byte) Path {
	var p Path
	var path []byte
	for {
		if p.Level > 0 && len(es) <= 1 {
			if len(es) == 1 {
				e := es[0]
				p.Leaf = &e
			}
			p.Prefix = path
			return p
		}
		l, r := split(es, p.Level)
		b := Bit(index, p.Level)
		other, mine := r, l
		if b {
			other, mine = l, r
		}
		p.Siblings = append(p.Siblings, subtree(nonce, other, extend(path, p.Level, !b), p.Level+1))
		path = extend(path, p.Level, b)
		es = mine
		p.Level++
	}
}

// Climb hashes from a leaf hash up to the root along the bits of index.
func Climb(leaf []byte, index []byte, siblings [][]byte) []byte {
	h := leaf
	for d := len(siblings) - 1; d >= 0; d-- {
		if Bit(index, d) {
			h = Hash(siblings[d], h)
		} else {
			h = Hash(h, siblings[d])
		}
	}
	return h
}

// CommitValue is the value of a commitment to (key, value) with salt.
func CommitValue(salt []byte, key string, value []byte) []byte {
	return Hash(salt, []byte(key), value)
}
