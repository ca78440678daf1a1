//go:build go1.23

// Package mt checks authentication paths against the definition of the tree.
package mt

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
)

// Cp copies b, keeping nil.
func Cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// CopyAP copies every exported part, as sending the path over the wire does.
func CopyAP(ap *merkletree.AuthenticationPath) *merkletree.AuthenticationPath {
	out := &merkletree.AuthenticationPath{
		TreeNonce:   Cp(ap.TreeNonce),
		LookupIndex: Cp(ap.LookupIndex),
		VrfProof:    Cp(ap.VrfProof),
		PrunedTree:  append([][crypto.HashSizeByte]byte(nil), ap.PrunedTree...),
	}
	if l := ap.Leaf; l != nil {
		out.Leaf = &merkletree.ProofNode{Level: l.Level, Index: Cp(l.Index), Value: Cp(l.Value), IsEmpty: l.IsEmpty}
		if l.Commitment != nil {
			out.Leaf.Commitment = &crypto.Commit{Salt: Cp(l.Commitment.Salt), Value: Cp(l.Commitment.Value)}
		}
	}
	return out
}

// CheckInclusion checks that ap proves (ix, key, value) under root, and nothing else.
func CheckInclusion(c *vh.Case, ap *merkletree.AuthenticationPath, ix, key string, value, root []byte) {
	if !bytes.Equal(ap.LookupIndex, []byte(ix)) {
		c.Fatalf("lookup of %x answers for index %x", ix, ap.LookupIndex)
	}
	if ap.Leaf == nil || ap.Leaf.IsEmpty || !bytes.Equal(ap.Leaf.Index, []byte(ix)) {
		c.Fatalf("lookup of the present name %q (%x) does not give its leaf", key, ix)
	}
	if !bytes.Equal(ap.Leaf.Value, value) {
		c.Fatalf("lookup of %q gives value %x, last set to %x", key, ap.Leaf.Value, value)
	}
	if cm := ap.Leaf.Commitment; cm == nil || len(cm.Salt) != 32 || !bytes.Equal(cm.Value, ref.CommitValue(cm.Salt, key, value)) {
		c.Fatalf("lookup of %q: the commitment is not one to its key and value", key)
	}
	for i := 0; i < 2; i++ {
		a := CopyAP(ap)
		if i == 0 && a.ProofType() != merkletree.ProofOfInclusion {
			c.Fatalf("present name %q: proof type %d", key, a.ProofType())
		}
		if err := a.Verify([]byte(key), value, root); err != nil {
			c.Fatalf("proof of inclusion of %q (%x): %v", key, ix, err)
		}
	}
	if err := CopyAP(ap).Verify([]byte(key), append(Cp(value), 0), root); err == nil {
		c.Fatalf("proof of inclusion of %q verifies for another value", key)
	}
	if len(value) > 0 {
		if err := CopyAP(ap).Verify([]byte(key), vh.FlipBit(value, 0), root); err == nil {
			c.Fatalf("proof of inclusion of %q verifies for another value", key)
		}
		if err := CopyAP(ap).Verify([]byte(key), nil, root); err == nil {
			c.Fatalf("proof of inclusion of %q verifies for no value", key)
		}
	}
	if err := CopyAP(ap).Verify([]byte(key+"x"), value, root); err == nil {
		c.Fatalf("proof of inclusion of %q verifies for another name", key)
	}
	if err := CopyAP(ap).Verify([]byte(key), value, vh.FlipBit(root, int(c.Rand.Uint64()%256))); err == nil {
		c.Fatalf("proof of inclusion of %q verifies under another root", key)
	}
}

// CheckAbsence checks that ap proves the absence of ix under root and reveals nothing.
func CheckAbsence(c *vh.Case, ap *merkletree.AuthenticationPath, ix, root []byte) {
	if !bytes.Equal(ap.LookupIndex, ix) {
		c.Fatalf("lookup of %x answers for index %x", ix, ap.LookupIndex)
	}
	if ap.Leaf == nil {
		c.Fatalf("lookup of %x: no leaf", ix)
	}
	if ap.Leaf.Value != nil || (ap.Leaf.Commitment != nil && ap.Leaf.Commitment.Salt != nil) {
		c.Fatalf("proof of absence of %x reveals a value or a salt", ix)
	}
	if t := CopyAP(ap).ProofType(); t != merkletree.ProofOfAbsence {
		c.Fatalf("absent name %x: proof type %d", ix, t)
	}
	if err := CopyAP(ap).Verify([]byte("any name"), nil, root); err != nil {
		c.Fatalf("proof of absence of %x: %v", ix, err)
	}
	if err := CopyAP(ap).Verify([]byte("any name"), []byte("a key"), root); err != nil {
		c.Fatalf("proof of absence of %x, expecting a key: %v", ix, err)
	}
	if err := CopyAP(ap).Verify([]byte("any name"), nil, vh.FlipBit(root, int(c.Rand.Uint64()%256))); err == nil {
		c.Fatalf("proof of absence of %x verifies under another root", ix)
	}
}
