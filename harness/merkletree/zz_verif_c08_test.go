//go:build go1.23

package merkletree_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

type bind8 struct {
	index []byte
	key   string
	value []byte
	salt  []byte
}

func (b bind8) entry() ref.Entry {
	return ref.Entry{Index: b.index, Commit: ref.CommitValue(b.salt, b.key, b.value)}
}

// apFor builds the honest answer for index from the reference tree.
func apFor(nonce []byte, binds []bind8, index []byte) *merkletree.AuthenticationPath {
	var es []ref.Entry
	for _, b := range binds {
		es = append(es, b.entry())
	}
	p := ref.Lookup(nonce, es, index)
	ap := &merkletree.AuthenticationPath{TreeNonce: cp(nonce), LookupIndex: cp(index), VrfProof: []byte{1}}
	for _, s := range p.Siblings {
		var a [crypto.HashSizeByte]byte
		copy(a[:], s)
		ap.PrunedTree = append(ap.PrunedTree, a)
	}
	if p.Leaf == nil {
		ap.Leaf = &merkletree.ProofNode{Level: uint32(p.Level), Index: cp(p.Prefix), IsEmpty: true}
		return ap
	}
	ap.Leaf = &merkletree.ProofNode{Level: uint32(p.Level), Index: cp(p.Leaf.Index), Commitment: &crypto.Commit{Value: cp(p.Leaf.Commit)}}
	if bytes.Equal(p.Leaf.Index, index) {
		for _, b := range binds {
			if bytes.Equal(b.index, index) {
				ap.Leaf.Value = cp(b.value)
				ap.Leaf.Commitment.Salt = cp(b.salt)
			}
		}
	}
	return ap
}

// verify8 runs Verify and turns a crash into a failure.
func verify8(c *vh.Case, ap *merkletree.AuthenticationPath, key, value, root []byte) (err error, typ merkletree.ProofType) {
	defer func() {
		if r := recover(); r != nil {
			c.Fatalf("crash on a malformed path: %v\n%s", r, js(ap))
		}
	}()
	a := copyAP(ap)
	err = a.Verify(key, value, root)
	return err, copyAP(ap).ProofType()
}

// answers records what one root was made to prove for one name.
type answers struct {
	what map[string]string
}

func (a *answers) try(c *vh.Case, how string, ap *merkletree.AuthenticationPath, name string, values [][]byte, root []byte) bool {
	acc := false
	vals := append([][]byte{nil}, values...)
	if ap.Leaf != nil {
		vals = append(vals, ap.Leaf.Value)
	}
	for _, v := range vals {
		err, typ := verify8(c, ap, []byte(name), v, root)
		if err != nil {
			continue
		}
		acc = true
		ans := "absent"
		if typ == merkletree.ProofOfInclusion {
			ans = fmt.Sprintf("bound to %x", v)
		}
		a.what[ans] = how + " " + js(ap)
		if len(a.what) > 1 {
			c.Fatalf("root %x proves two answers for %q: %v", root, name, a.what)
		}
	}
	return acc
}

// reparse cuts the bytes that are hashed for a leaf into other fields.
func reparse(rt *rapid.T, ap *merkletree.AuthenticationPath) *merkletree.AuthenticationPath {
	out := copyAP(ap)
	l := out.Leaf
	all := append(append([]byte{}, out.TreeNonce...), l.Index...)
	lvl := ref.LE32(int(l.Level))
	if !l.IsEmpty && rapid.Bool().Draw(rt, "everything") {
		all = append(append(all, lvl...), l.Commitment.Value...)
		// look for another place where the level could stand
		var pos []int
		for i := 0; i+4 <= len(all); i++ {
			if bytes.Equal(all[i:i+4], lvl) {
				pos = append(pos, i)
			}
		}
		if len(pos) == 0 {
			return out
		}
		at := pos[rapid.IntRange(0, len(pos)-1).Draw(rt, "levelAt")]
		l.Commitment.Value = all[at+4:]
		all = all[:at]
	}
	cut := rapid.IntRange(0, len(all)).Draw(rt, "cut")
	if rapid.Bool().Draw(rt, "keepIndexLength") && len(all) >= len(out.LookupIndex) {
		cut = len(all) - len(out.LookupIndex)
	}
	out.TreeNonce, l.Index = all[:cut], all[cut:]
	return out
}

func TestC08_Search(t *testing.T) {
	vh.Check(t, vh.N{Quick: 16000}, func(rt *rapid.T, c *vh.Case) {
		// a dishonest directory chooses the nonce as it likes
		nlen := 32
		if rapid.Bool().Draw(rt, "oddNonce") {
			nlen = rapid.IntRange(0, 120).Draw(rt, "nonceBytes")
		}
		nonce := c.Rand.Bytes(nlen)
		var binds []bind8
		var used []string
		n := rapid.IntRange(1, 6).Draw(rt, "names")
		for i := 0; i < n; i++ {
			ix := drawIndex(rt, used, 32)
			dup := false
			for _, u := range used {
				dup = dup || u == string(ix)
			}
			if dup {
				continue
			}
			used = append(used, string(ix))
			binds = append(binds, bind8{ix, "name", vh.Bytes(rt, "value", 40), c.Rand.Bytes(32)})
		}
		var target []byte
		if rapid.Bool().Draw(rt, "present") {
			target = binds[rapid.IntRange(0, len(binds)-1).Draw(rt, "which")].index
		} else {
			target = drawIndex(rt, used, 32)
		}
		// sometimes the nonce hides a second leaf for the name asked for
		if nlen != 32 && rapid.Bool().Draw(rt, "hide") {
			lv := apFor(nonce, binds, target).Leaf.Level
			idx := cp(target)
			if lv < 256 && rapid.Bool().Draw(rt, "hideOther") {
				idx = vh.FlipBit(target, int(lv)+rapid.IntRange(0, 255-int(lv)).Draw(rt, "bit"))
			}
			nonce = append(append(c.Rand.Bytes(rapid.SampledFrom([]int{0, 16, 32}).Draw(rt, "junk")), idx...), ref.LE32(int(lv))...)
			nonce = append(nonce, c.Rand.Bytes(rapid.IntRange(0, 40).Draw(rt, "junk2"))...)
		}
		honest := apFor(nonce, binds, target)
		leafHash := func(ap *merkletree.AuthenticationPath) []byte {
			if ap.Leaf.IsEmpty {
				return ref.EmptyHash(ap.TreeNonce, ap.Leaf.Index, int(ap.Leaf.Level))
			}
			return ref.LeafHash(ap.TreeNonce, ap.Leaf.Index, int(ap.Leaf.Level), ap.Leaf.Commitment.Value)
		}
		// the tree need not be honest either: an empty branch with a full-length index
		if honest.Leaf.IsEmpty && rapid.Bool().Draw(rt, "fullEmpty") {
			honest.Leaf.Index = cp(target)
		}
		var sib [][]byte
		for i := range honest.PrunedTree {
			sib = append(sib, honest.PrunedTree[i][:])
		}
		root := ref.Climb(leafHash(honest), target, sib)
		c.Tracef("nonce of %d bytes, %d names, target present=%v, level %d", len(nonce), len(binds), honest.Leaf.Value != nil, honest.Leaf.Level)

		var values [][]byte
		for _, b := range binds {
			values = append(values, b.value)
		}
		values = append(values, []byte("forged"))
		ans := &answers{map[string]string{}}
		base := ans.try(c, "honest", honest, "name", values, root)
		wellFormed := len(nonce) == 32 && (!honest.Leaf.IsEmpty || len(honest.Leaf.Index) == (int(honest.Leaf.Level)+7)/8)
		if wellFormed && !base {
			c.Fatalf("the honest answer does not verify: %s", js(honest))
		}
		tries := rapid.IntRange(5, 30).Draw(rt, "tries")
		for i := 0; i < tries; i++ {
			ap := copyAP(honest)
			how := ""
			k := rapid.IntRange(0, 7).Draw(rt, "attack")
			switch k {
			case 0: // the answer for another name
				other := binds[rapid.IntRange(0, len(binds)-1).Draw(rt, "other")].index
				if rapid.Bool().Draw(rt, "absent") {
					other = drawIndex(rt, used, 32)
				}
				ap = apFor(nonce, binds, other)
				if rapid.Bool().Draw(rt, "suppress") && ap.Leaf.Commitment != nil {
					ap.Leaf.Value, ap.Leaf.Commitment.Salt = nil, nil
				}
				ap.LookupIndex = cp(target)
				how = "answer for another index"
			case 1, 2:
				ap = reparse(rt, ap)
				how = "fields cut elsewhere"
			case 3: // open the commitment differently
				if ap.Leaf.Commitment == nil || len(ap.Leaf.Commitment.Salt) == 0 {
					continue
				}
				s := ap.Leaf.Commitment
				all := append(append(append([]byte{}, s.Salt...), "name"...), ap.Leaf.Value...)
				at := bytes.Index(all[0:], []byte("name"))
				if j := bytes.LastIndex(all, []byte("name")); rapid.Bool().Draw(rt, "last") {
					at = j
				}
				s.Salt, ap.Leaf.Value = cp(all[:at]), cp(all[at+4:])
				values = append(values, ap.Leaf.Value)
				how = "commitment opened elsewhere"
			case 4: // an empty leaf as inclusion of anything
				ap.Leaf.IsEmpty = true
				if rapid.Bool().Draw(rt, "full") {
					ap.Leaf.Index = cp(target)
				}
				v := []byte("forged")
				salt := c.Rand.Bytes(32)
				ap.Leaf.Value = v
				ap.Leaf.Commitment = &crypto.Commit{Salt: salt, Value: ref.CommitValue(salt, "name", v)}
				how = "empty leaf with a commitment"
			case 5: // an interior node as a leaf, or more or fewer levels
				d := rapid.IntRange(-3, 3).Draw(rt, "levels")
				ap.Leaf.Level = uint32(int64(ap.Leaf.Level) + int64(d))
				if rapid.Bool().Draw(rt, "siblings") && int(ap.Leaf.Level) <= len(ap.PrunedTree) {
					ap.PrunedTree = ap.PrunedTree[:ap.Leaf.Level]
				}
				how = "other level"
			case 6: // present it as the other kind, with everything else kept
				if rapid.Bool().Draw(rt, "asAbsence") {
					ap.Leaf.Index = vh.FlipBit(append(cp(ap.Leaf.Index), 0), rapid.IntRange(0, 8*len(ap.Leaf.Index)+7).Draw(rt, "bit"))
					if rapid.Bool().Draw(rt, "sameLength") && len(ap.Leaf.Index) > 0 {
						ap.Leaf.Index = ap.Leaf.Index[:len(ap.Leaf.Index)-1]
					}
				}
				ap.Leaf.Value = nil
				if ap.Leaf.Commitment != nil && rapid.Bool().Draw(rt, "salt") {
					ap.Leaf.Commitment.Salt = nil
				}
				how = "presented as absence"
			case 7: // two alterations at once
				ap = alter(rt, alter(rt, ap))
				ap.LookupIndex = cp(target)
				how = "two altered fields"
			}
			if ans.try(c, how, ap, "name", values, root) {
				c.Class("accepted: " + how)
			}
			c.Class(how)
		}
		if len(binds) > 1 || nlen != 32 {
			c.NT()
		}
	})
}

// alter changes one field.
func alter(rt *rapid.T, in *merkletree.AuthenticationPath) *merkletree.AuthenticationPath {
	ap := copyAP(in)
	l := ap.Leaf
	switch rapid.IntRange(0, 9).Draw(rt, "field") {
	case 0:
		ap.TreeNonce = vh.Mutate(rt, "nonce", ap.TreeNonce)
	case 1:
		if len(ap.PrunedTree) > 0 {
			i := rapid.IntRange(0, len(ap.PrunedTree)-1).Draw(rt, "sibling")
			ap.PrunedTree[i][rapid.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		}
	case 2:
		if len(ap.PrunedTree) > 0 && rapid.Bool().Draw(rt, "drop") {
			ap.PrunedTree = ap.PrunedTree[:rapid.IntRange(0, len(ap.PrunedTree)-1).Draw(rt, "siblings")]
		} else {
			ap.PrunedTree = append(ap.PrunedTree, [32]byte{byte(len(ap.PrunedTree))})
		}
	case 3:
		ap.LookupIndex = vh.Mutate(rt, "lookup", ap.LookupIndex)
	case 4:
		if l != nil {
			l.Level = rapid.SampledFrom([]uint32{0, 1, l.Level + 1, l.Level - 1, 31, 255, 256, 257, 1 << 31, ^uint32(0)}).Draw(rt, "level")
		}
	case 5:
		if l != nil {
			l.Index = vh.Mutate(rt, "index", l.Index)
		}
	case 6:
		if l != nil {
			l.Value = vh.Mutate(rt, "leafValue", l.Value)
		}
	case 7:
		if l != nil {
			l.IsEmpty = !l.IsEmpty
		}
	case 8:
		if l != nil {
			switch {
			case l.Commitment == nil:
				l.Commitment = &crypto.Commit{Salt: make([]byte, 32), Value: make([]byte, 32)}
			case rapid.IntRange(0, 3).Draw(rt, "none") == 0:
				l.Commitment = nil
			case rapid.Bool().Draw(rt, "salt"):
				l.Commitment.Salt = vh.Mutate(rt, "saltv", l.Commitment.Salt)
			default:
				l.Commitment.Value = vh.Mutate(rt, "commit", l.Commitment.Value)
			}
		}
	case 9:
		if rapid.IntRange(0, 3).Draw(rt, "none") == 0 {
			ap.Leaf = nil
		} else {
			ap.LookupIndex = nil
		}
	}
	return ap
}

// Proofs of a real dictionary with one field altered: never a crash, never the
// root again unless the altered field is not part of the statement.
func TestC08_Altered(t *testing.T) {
	vh.Check(t, vh.N{Quick: 4800}, func(rt *rapid.T, c *vh.Case) {
		m, err := merkletree.NewPAD(testAd{nil}, static8, deepKey, 4)
		if err != nil {
			c.Fatalf("NewPAD: %v", err)
		}
		names := vh.Names(rt, true, 7)
		for _, n := range names[:rapid.IntRange(1, len(names)).Draw(rt, "set")] {
			if err := m.Set(n, []byte("key of "+n)); err != nil {
				c.Fatalf("Set: %v", err)
			}
		}
		m.Update(nil)
		root := m.LatestSTR().TreeHash
		c.NT()
		for i := 0; i < 25; i++ {
			name := drawName(rt, names)
			ap, err := m.Lookup(name)
			if err != nil {
				c.Fatalf("Lookup: %v", err)
			}
			incl := copyAP(ap).ProofType() == merkletree.ProofOfInclusion
			b := alter(rt, ap)
			if js(b) == js(ap) {
				continue
			}
			c.Tracef("%q %v: %s", name, incl, diffFields(ap, b))
			err, typ := verify8(c, b, []byte(name), []byte("key of "+name), root)
			if err != nil {
				continue
			}
			// what may be altered without altering the statement
			d := diffFields(ap, b)
			if !incl && (d == "salt" || d == "lookup index" || (d == "commitment" && b.Leaf.IsEmpty)) && typ == merkletree.ProofOfAbsence {
				c.Class("harmless: " + d)
				continue
			}
			c.Fatalf("a proof for %q with altered %s still verifies: %s", name, d, js(b))
		}
	})
}

func diffFields(a, b *merkletree.AuthenticationPath) string {
	var d string
	add := func(eq bool, s string) {
		if !eq {
			if d != "" {
				d += "+"
			}
			d += s
		}
	}
	add(bytes.Equal(a.TreeNonce, b.TreeNonce), "nonce")
	add(bytes.Equal(a.LookupIndex, b.LookupIndex), "lookup index")
	add(js(a.PrunedTree) == js(b.PrunedTree), "siblings")
	if a.Leaf == nil || b.Leaf == nil {
		return d + "+leaf"
	}
	add(a.Leaf.Level == b.Leaf.Level, "level")
	add(bytes.Equal(a.Leaf.Index, b.Leaf.Index), "index")
	add(bytes.Equal(a.Leaf.Value, b.Leaf.Value), "value")
	add(a.Leaf.IsEmpty == b.Leaf.IsEmpty, "emptiness")
	ca, cb := a.Leaf.Commitment, b.Leaf.Commitment
	if ca == nil || cb == nil {
		add(ca == cb, "commitment")
		return d
	}
	add(bytes.Equal(ca.Salt, cb.Salt), "salt")
	add(bytes.Equal(ca.Value, cb.Value), "commitment")
	return d
}
