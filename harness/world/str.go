//go:build go1.23

package world

import (
	"bytes"
	"crypto/ed25519"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// SignSTR signs s as it is.
func SignSTR(k *Keys, s *protocol.DirSTR) *protocol.DirSTR {
	s.Signature = k.Sign.Sign(STRMessage(s))
	return s
}

// MakeSTR is a signed root made by hand, by someone with the keys.
func MakeSTR(k *Keys, prev *protocol.DirSTR, root []byte, deadline protocol.Timestamp) *protocol.DirSTR {
	pol := &protocol.Policies{Version: protocol.Version, HashID: crypto.HashID, VrfPublicKey: append([]byte{}, k.VRFPub...), EpochDeadline: deadline}
	s := &protocol.DirSTR{SignedTreeRoot: &merkletree.SignedTreeRoot{TreeHash: root}, Policies: pol}
	if prev == nil {
		s.PreviousSTRHash = vh.NewDRBG(uint64(deadline)).Bytes(32)
	} else {
		s.Epoch, s.PreviousEpoch, s.PreviousSTRHash = prev.Epoch+1, prev.Epoch, ref.Hash(prev.Signature)
	}
	return SignSTR(k, s)
}

// MakeFirst is a signed root made by hand that starts a history at any epoch.
func MakeFirst(k *Keys, epoch uint64, root []byte, deadline protocol.Timestamp) *protocol.DirSTR {
	s := MakeSTR(k, nil, root, deadline)
	if epoch > 0 {
		s.Epoch, s.PreviousEpoch = epoch, epoch-1
		SignSTR(k, s)
	}
	return s
}

// StartEpoch draws where a history starts to be looked at.
func StartEpoch(rt *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(rt, "startKind") {
	case 0:
		return 1<<rapid.IntRange(3, 63).Draw(rt, "startBit") - rapid.Uint64Range(0, 6).Draw(rt, "before")
	case 1:
		return rapid.Uint64Range(0, 1<<64-1000).Draw(rt, "start")
	}
	return 0
}

// CloneSTR copies s in memory, keeping what does not travel.
func CloneSTR(s *protocol.DirSTR) *protocol.DirSTR {
	str, pol := *s.SignedTreeRoot, *s.Policies
	str.TreeHash, str.PreviousSTRHash, str.Signature = mt.Cp(str.TreeHash), mt.Cp(str.PreviousSTRHash), mt.Cp(str.Signature)
	pol.VrfPublicKey = append([]byte{}, pol.VrfPublicKey...)
	if str.Ad != nil {
		str.Ad = &pol
	}
	return &protocol.DirSTR{SignedTreeRoot: &str, Policies: &pol}
}

// SameSTR decides whether a and b are the same signed root.
func SameSTR(a, b *protocol.DirSTR) bool { return JS(a) == JS(b) }

// Complete: no part is missing.
func Complete(s *protocol.DirSTR) bool {
	return s != nil && s.SignedTreeRoot != nil && s.Policies != nil
}

// Signed decides whether s is signed by k.
func Signed(k *Keys, s *protocol.DirSTR) bool {
	return len(s.Signature) == 64 && edVerify(k.Pub, STRMessage(s), s.Signature)
}

// Follows decides whether s names prev as its predecessor.
func Follows(prev, s *protocol.DirSTR) bool {
	return s.Epoch == prev.Epoch+1 && s.PreviousEpoch == prev.Epoch && bytes.Equal(s.PreviousSTRHash, ref.Hash(prev.Signature))
}

// AlterSTR changes one field of a complete signed root; it returns the field.
func AlterSTR(rt *rapid.T, s *protocol.DirSTR) string {
	f := rapid.SampledFrom([]string{"version", "hash id", "vrf key", "deadline", "epoch", "previous epoch", "root", "previous hash", "signature"}).Draw(rt, "field")
	switch f {
	case "version":
		s.Policies.Version = string(vh.Mutate(rt, "m", []byte(s.Policies.Version)))
	case "hash id":
		s.Policies.HashID = string(vh.Mutate(rt, "m", []byte(s.Policies.HashID)))
	case "vrf key":
		s.Policies.VrfPublicKey = vh.Mutate(rt, "m", s.Policies.VrfPublicKey)
	case "deadline":
		s.Policies.EpochDeadline ^= 1 << rapid.IntRange(0, 63).Draw(rt, "bit")
	case "epoch":
		if rapid.Bool().Draw(rt, "near") {
			s.Epoch += rapid.SampledFrom([]uint64{1, 2, ^uint64(0)}).Draw(rt, "by")
		} else {
			s.Epoch ^= 1 << rapid.IntRange(0, 63).Draw(rt, "bit")
		}
	case "previous epoch":
		s.PreviousEpoch ^= 1 << rapid.IntRange(0, 63).Draw(rt, "bit")
	case "root":
		s.TreeHash = vh.Mutate(rt, "m", s.TreeHash)
	case "previous hash":
		s.PreviousSTRHash = vh.Mutate(rt, "m", s.PreviousSTRHash)
	case "signature":
		s.Signature = vh.Mutate(rt, "m", s.Signature)
	}
	return f
}

// Cripple removes a part of a signed root.
func Cripple(rt *rapid.T, s *protocol.DirSTR) *protocol.DirSTR {
	switch rapid.IntRange(0, 4).Draw(rt, "missing") {
	case 0, 1:
		return nil
	case 2:
		return &protocol.DirSTR{}
	case 3:
		return &protocol.DirSTR{Policies: s.Policies}
	}
	return &protocol.DirSTR{SignedTreeRoot: s.SignedTreeRoot}
}

// Chains is a pool of signed roots: the honest chain of a directory and
// others that leave it, or have nothing to do with it.
type Chains struct {
	K, Other *Keys
	Chains   [][]*protocol.DirSTR // [0] is the honest one; each starts at epoch 0
	Wire     bool
	count    int // most that are drawn
}

// Cp is the representation in which s is passed on.
func (p *Chains) Cp(s *protocol.DirSTR) *protocol.DirSTR {
	if p.Wire {
		return CopySTR(s)
	}
	return CloneSTR(s)
}

// NewChains draws a pool.
func NewChains(rt *rapid.T, c *vh.Case) *Chains {
	return newChains(rt, c, rapid.IntRange(1, 8).Draw(rt, "epochs"), 4, 6)
}

// NewLongChains draws a pool of chains of up to n epochs, of which long parts
// are drawn.
func NewLongChains(rt *rapid.T, c *vh.Case, n int) *Chains {
	n = vh.LogInt(rt, "epochs", 32, n)
	return newChains(rt, c, n, 20, n+1)
}

func newChains(rt *rapid.T, c *vh.Case, n, own, count int) *Chains {
	p := &Chains{Wire: rapid.Bool().Draw(rt, "wire"), count: count}
	d := NewDir(rt, c, 20, 3)
	p.K, p.Other = d.Keys, NewKeys(c, false)
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(rt, "reg") {
			d.Register(d.Name(rt), Key(rt))
		}
		if rapid.IntRange(0, 3).Draw(rt, "set") == 0 {
			d.SetPolicies(Deadline(rt))
		}
		d.Update()
	}
	p.Chains = append(p.Chains, d.STRs)
	for i := rapid.IntRange(1, 3).Draw(rt, "forks"); i > 0; i-- {
		base := p.Chains[rapid.IntRange(0, len(p.Chains)-1).Draw(rt, "base")]
		at := rapid.IntRange(0, len(base)).Draw(rt, "forkAt") // first own epoch
		k := p.K
		copied := false // each root carries the signature of the one before
		switch rapid.IntRange(0, 8).Draw(rt, "foreign") {
		case 0, 1:
			k = p.Other
		case 2:
			copied = true
		}
		ch := append([]*protocol.DirSTR{}, base[:at]...)
		for j := rapid.IntRange(1, own).Draw(rt, "length"); j > 0; j-- {
			var prev *protocol.DirSTR
			if len(ch) > 0 {
				prev = ch[len(ch)-1]
			}
			root := c.Rand.Bytes(32)
			if len(base) > len(ch) && rapid.Bool().Draw(rt, "sameRoot") {
				root = mt.Cp(base[len(ch)].TreeHash) // differs in the deadline only
			}
			s := MakeSTR(k, prev, root, protocol.Timestamp(c.Rand.Uint64()))
			if copied && prev != nil {
				s.Signature = mt.Cp(prev.Signature)
			}
			if !p.Wire {
				s.Ad = s.Policies
			}
			ch = append(ch, s)
		}
		c.Tracef("fork of a chain of %d at %d, length %d, foreign %v, copied signatures %v", len(base), at, len(ch), k == p.Other, copied)
		p.Chains = append(p.Chains, ch)
	}
	return p
}

// Draw draws a list of signed roots for someone whose latest one has epoch
// at: part of a chain, changed in up to two places.
func (p *Chains) Draw(rt *rapid.T, c *vh.Case, at uint64) []*protocol.DirSTR {
	ci := 0
	if rapid.IntRange(0, 3).Draw(rt, "other") == 0 {
		ci = rapid.IntRange(0, len(p.Chains)-1).Draw(rt, "chain")
	}
	ch := p.Chains[ci]
	from := int(at)
	switch rapid.IntRange(0, 5).Draw(rt, "from") {
	case 0:
		from = rapid.IntRange(0, len(ch)-1).Draw(rt, "start")
	case 1, 2:
	default:
		from++
	}
	n := rapid.IntRange(1, p.count).Draw(rt, "count")
	var out []*protocol.DirSTR
	for i := from; i < len(ch) && i < from+n; i++ {
		out = append(out, p.Cp(ch[i]))
	}
	c.Tracef("list: chain %d, %d from %d", ci, len(out), from)
	return p.edit(rt, c, out, rapid.IntRange(-4, 2).Draw(rt, "edits"))
}

// DrawTo draws the part of chain ci that ends with epoch to, with up to one change.
func (p *Chains) DrawTo(rt *rapid.T, c *vh.Case, ci, to int) []*protocol.DirSTR {
	ch := p.Chains[ci]
	from := rapid.IntRange(0, to).Draw(rt, "start")
	var out []*protocol.DirSTR
	for i := from; i < len(ch) && i <= to; i++ {
		out = append(out, p.Cp(ch[i]))
	}
	c.Tracef("list: chain %d, %d to %d", ci, from, to)
	return p.edit(rt, c, out, rapid.IntRange(0, 1).Draw(rt, "edits"))
}

// DrawFrom draws a long part of the honest chain that starts with epoch from,
// with up to one change.
func (p *Chains) DrawFrom(rt *rapid.T, c *vh.Case, from int) []*protocol.DirSTR {
	ch := p.Chains[0]
	to := len(ch) - 1 - rapid.IntRange(0, 20).Draw(rt, "end")
	var out []*protocol.DirSTR
	for i := from; i <= to; i++ {
		out = append(out, p.Cp(ch[i]))
	}
	c.Tracef("list: %d to %d", from, to)
	return p.edit(rt, c, out, rapid.IntRange(0, 1).Draw(rt, "edits"))
}

func (p *Chains) edit(rt *rapid.T, c *vh.Case, out []*protocol.DirSTR, k int) []*protocol.DirSTR {
	for ; k > 0 && len(out) > 0; k-- {
		i, j := rapid.IntRange(0, len(out)-1).Draw(rt, "i"), rapid.IntRange(0, len(out)-1).Draw(rt, "j")
		switch e := rapid.IntRange(0, 9).Draw(rt, "edit"); e {
		case 0:
			out = append(out[:i:i], out[i+1:]...)
			c.Tracef("drop %d", i)
		case 1:
			out[i], out[j] = out[j], out[i]
			c.Tracef("swap %d %d", i, j)
		case 2:
			out = append(out[:i:i], append([]*protocol.DirSTR{out[j]}, out[i:]...)...)
			c.Tracef("insert %d before %d", j, i)
		case 3, 4:
			if out[i] == nil || out[i].SignedTreeRoot == nil || out[i].Policies == nil {
				break
			}
			x := rapid.IntRange(0, len(p.Chains)-1).Draw(rt, "x")
			if e := out[i].Epoch; e < uint64(len(p.Chains[x])) {
				out[i] = p.Cp(p.Chains[x][e])
				c.Tracef("replace %d by that of chain %d", i, x)
			}
		case 5:
			if Complete(out[i]) {
				out[i] = Cripple(rt, out[i])
				c.Tracef("cripple %d", i)
			}
		default:
			if Complete(out[i]) {
				out[i] = p.Cp(out[i])
				f := AlterSTR(rt, out[i])
				if resign := rapid.Bool().Draw(rt, "resign"); f != "signature" && resign {
					SignSTR(p.K, out[i])
					f += " (signed)"
				}
				c.Tracef("alter %s of %d", f, i)
			}
		}
	}
	return out
}

// Extends decides, from the definitions alone, whether strs continue verified;
// if not, faults has the codes that may be reported.
func Extends(k *Keys, verified *protocol.DirSTR, strs []*protocol.DirSTR) (ok bool, faults map[error]bool) {
	faults = map[error]bool{}
	if len(strs) == 0 {
		faults[protocol.ErrMalformedMessage] = true
	}
	prev := verified
	for i, s := range strs {
		if !Complete(s) {
			faults[protocol.ErrMalformedMessage] = true
			prev = nil
			continue
		}
		if i == 0 && s.Epoch == verified.Epoch {
			if !SameSTR(s, verified) {
				faults[protocol.CheckBadSTR] = true
			}
			if !Signed(k, s) {
				faults[protocol.CheckBadSignature] = true
				if SameSTR(s, verified) { // whatever was verified stays so
					delete(faults, protocol.CheckBadSignature)
				}
			}
		} else {
			if !Signed(k, s) {
				faults[protocol.CheckBadSignature] = true
			}
			if prev != nil && !Follows(prev, s) {
				faults[protocol.CheckBadSTR] = true
			}
		}
		prev = s
	}
	return len(faults) == 0, faults
}

func edVerify(pub sign.PublicKey, msg, sig []byte) bool {
	return ed25519.Verify(ed25519.PublicKey(pub), msg, sig)
}
