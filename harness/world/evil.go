//go:build go1.23

package world

import (
	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// CloneResponse copies an answer in memory.
func CloneResponse(r *protocol.Response) *protocol.Response {
	out := &protocol.Response{Error: r.Error}
	p, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || p == nil {
		out.DirectoryResponse = r.DirectoryResponse
		return out
	}
	q := &protocol.DirectoryProof{TB: copyTB(p.TB)}
	for _, ap := range p.AP {
		if ap == nil {
			q.AP = append(q.AP, nil)
		} else {
			q.AP = append(q.AP, mt.CopyAP(ap))
		}
	}
	for _, s := range p.STR {
		if Complete(s) {
			q.STR = append(q.STR, CloneSTR(s))
		} else {
			q.STR = append(q.STR, s)
		}
	}
	out.DirectoryResponse = q
	return out
}

// Parts is what a dishonest directory can put answers together from.
type Parts struct {
	AP  []*merkletree.AuthenticationPath
	STR []*protocol.DirSTR
	TB  []*protocol.TemporaryBinding
}

// Add adds the parts of an answer.
func (p *Parts) Add(r *protocol.Response) {
	r = CloneResponse(r)
	q, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || q == nil {
		return
	}
	p.AP = append(p.AP, q.AP...)
	p.STR = append(p.STR, q.STR...)
	if q.TB != nil {
		p.TB = append(p.TB, q.TB)
	}
}

// AlterAP changes one field of a path, keeping its parts complete or not.
func AlterAP(rt *rapid.T, ap *merkletree.AuthenticationPath) string {
	f := rapid.SampledFrom([]string{"nonce", "sibling", "siblings", "lookup index", "vrf proof", "level", "leaf index", "value",
		"no value", "empty", "salt", "commitment", "no commitment", "no leaf"}).Draw(rt, "apField")
	switch f {
	case "nonce":
		ap.TreeNonce = vh.Mutate(rt, "m", ap.TreeNonce)
	case "sibling":
		if len(ap.PrunedTree) == 0 {
			ap.PrunedTree = append(ap.PrunedTree, [32]byte{})
			break
		}
		i := rapid.IntRange(0, len(ap.PrunedTree)-1).Draw(rt, "i")
		ap.PrunedTree[i][rapid.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
	case "siblings":
		n := len(ap.PrunedTree)
		if n == 0 || rapid.Bool().Draw(rt, "more") {
			ap.PrunedTree = append(ap.PrunedTree, [crypto.HashSizeByte]byte{1})
		} else {
			ap.PrunedTree = ap.PrunedTree[:rapid.IntRange(0, n-1).Draw(rt, "n")]
		}
	case "lookup index":
		ap.LookupIndex = vh.Mutate(rt, "m", ap.LookupIndex)
	case "vrf proof":
		ap.VrfProof = vh.Mutate(rt, "m", ap.VrfProof)
	case "level":
		switch rapid.IntRange(0, 2).Draw(rt, "levelKind") {
		case 0:
			ap.Leaf.Level ^= 1 << rapid.IntRange(0, 31).Draw(rt, "bit")
		case 1:
			ap.Leaf.Level++
		case 2:
			ap.Leaf.Level--
		}
	case "leaf index":
		if rapid.Bool().Draw(rt, "asLookup") && string(ap.Leaf.Index) != string(ap.LookupIndex) {
			ap.Leaf.Index = mt.Cp(ap.LookupIndex)
		} else {
			ap.Leaf.Index = vh.Mutate(rt, "m", ap.Leaf.Index)
		}
	case "value":
		ap.Leaf.Value = vh.Mutate(rt, "m", ap.Leaf.Value)
	case "no value":
		if ap.Leaf.Value == nil {
			ap.Leaf.Value = []byte{}
		} else {
			ap.Leaf.Value = nil
		}
	case "empty":
		ap.Leaf.IsEmpty = !ap.Leaf.IsEmpty
	case "salt", "commitment":
		if ap.Leaf.Commitment == nil {
			ap.Leaf.Commitment = &crypto.Commit{Salt: make([]byte, 32), Value: make([]byte, 32)}
		}
		if f == "salt" {
			ap.Leaf.Commitment.Salt = vh.Mutate(rt, "m", ap.Leaf.Commitment.Salt)
		} else {
			ap.Leaf.Commitment.Value = vh.Mutate(rt, "m", ap.Leaf.Commitment.Value)
		}
	case "no commitment":
		ap.Leaf.Commitment = nil
	case "no leaf":
		ap.Leaf = nil
	}
	return f
}

// AlterTB changes one field of a promise.
func AlterTB(rt *rapid.T, tb *protocol.TemporaryBinding) string {
	f := rapid.SampledFrom([]string{"index", "value", "signature"}).Draw(rt, "tbField")
	switch f {
	case "index":
		tb.Index = vh.Mutate(rt, "m", tb.Index)
	case "value":
		tb.Value = vh.Mutate(rt, "m", tb.Value)
	case "signature":
		tb.Signature = vh.Mutate(rt, "m", tb.Signature)
	}
	return f
}

// Code draws a result code.
func Code(rt *rapid.T) protocol.ErrorCode {
	switch rapid.IntRange(0, 5).Draw(rt, "codeKind") {
	case 0:
		return protocol.ErrorCode(rapid.IntRange(199, 209).Draw(rt, "code"))
	case 1:
		return protocol.ErrorCode(rapid.SampledFrom([]int{0, 1, -1, 99, 107, 1 << 40}).Draw(rt, "code"))
	}
	return protocol.ErrorCode(rapid.IntRange(100, 106).Draw(rt, "code"))
}

// AlterAnswer changes r (a copy) in one place; parts: what else is at hand;
// k: keys to sign with, if any.
func AlterAnswer(rt *rapid.T, r *protocol.Response, parts *Parts, k *Keys) string {
	p, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || p == nil {
		r.Error = Code(rt)
		return "code"
	}
	switch op := rapid.IntRange(0, 13).Draw(rt, "alter"); op {
	case 0, 1:
		r.Error = Code(rt)
		return "code"
	case 2, 3, 4, 5:
		if len(p.AP) > 0 && p.AP[0] != nil && p.AP[0].Leaf != nil {
			return "path " + AlterAP(rt, p.AP[0])
		}
	case 6, 7:
		if len(p.STR) > 0 && Complete(p.STR[0]) {
			f := AlterSTR(rt, p.STR[0])
			if k != nil && f != "signature" && rapid.Bool().Draw(rt, "resign") {
				SignSTR(k, p.STR[0])
				f += " (signed)"
			}
			return "root " + f
		}
	case 8:
		if p.TB != nil {
			f := AlterTB(rt, p.TB)
			if k != nil && f != "signature" && len(p.STR) > 0 && Complete(p.STR[0]) && rapid.Bool().Draw(rt, "resign") {
				p.TB.Signature = k.Sign.Sign(TBMessage(p.STR[0].Signature, p.TB.Index, p.TB.Value))
				f += " (signed)"
			}
			return "promise " + f
		}
		fallthrough
	case 9:
		if p.TB != nil && rapid.Bool().Draw(rt, "dropTB") {
			p.TB = nil
			return "no promise"
		}
		if len(parts.TB) > 0 {
			p.TB = copyTB(parts.TB[rapid.IntRange(0, len(parts.TB)-1).Draw(rt, "tb")])
			return "another promise"
		}
	case 10:
		if len(parts.AP) > 0 {
			ap := parts.AP[rapid.IntRange(0, len(parts.AP)-1).Draw(rt, "ap")]
			if ap == nil {
				break
			}
			switch rapid.IntRange(0, 3).Draw(rt, "extra") {
			case 0:
				p.AP = append(p.AP, mt.CopyAP(ap))
				return "second path"
			default:
				p.AP = []*merkletree.AuthenticationPath{mt.CopyAP(ap)}
				return "another path"
			}
		}
	case 11:
		if len(parts.STR) > 0 {
			s := parts.STR[rapid.IntRange(0, len(parts.STR)-1).Draw(rt, "str")]
			if !Complete(s) {
				break
			}
			switch rapid.IntRange(0, 3).Draw(rt, "extra") {
			case 0:
				p.STR = append(p.STR, CloneSTR(s))
				return "second root"
			default:
				p.STR = []*protocol.DirSTR{CloneSTR(s)}
				return "another root"
			}
		}
	case 12:
		switch rapid.IntRange(0, 5).Draw(rt, "missing") {
		case 0:
			p.AP = nil
			return "no path"
		case 1:
			p.AP = []*merkletree.AuthenticationPath{nil}
			return "null path"
		case 2:
			p.STR = nil
			return "no root"
		case 3:
			r.DirectoryResponse = (*protocol.DirectoryProof)(nil)
			return "null proof"
		case 4:
			r.DirectoryResponse = nil
			return "no proof"
		case 5:
			if len(p.STR) > 0 && Complete(p.STR[0]) {
				p.STR[0] = Cripple(rt, p.STR[0])
				return "root without a part"
			}
		}
	case 13:
		if len(p.AP) > 0 && len(parts.AP) > 0 && p.AP[0] != nil && p.AP[0].Leaf != nil {
			o := parts.AP[rapid.IntRange(0, len(parts.AP)-1).Draw(rt, "ap")]
			if o == nil || o.Leaf == nil {
				break
			}
			o = mt.CopyAP(o)
			a := p.AP[0]
			switch rapid.IntRange(0, 6).Draw(rt, "graft") {
			case 0:
				a.Leaf = o.Leaf
				return "leaf of another path"
			case 1:
				a.LookupIndex, a.VrfProof = o.LookupIndex, o.VrfProof
				return "index of another path"
			case 2:
				a.LookupIndex = o.LookupIndex
				return "index without proof of another path"
			case 3:
				a.PrunedTree, a.Leaf.Level = o.PrunedTree, o.Leaf.Level
				return "siblings of another path"
			case 4:
				a.Leaf.Commitment, a.Leaf.Value = o.Leaf.Commitment, o.Leaf.Value
				return "binding of another path"
			case 5:
				a.Leaf.Value = o.Leaf.Value
				return "value of another path"
			case 6:
				a.VrfProof = o.VrfProof
				return "index proof of another path"
			}
		}
	}
	r.Error = Code(rt)
	return "code"
}

// Tree is a dictionary of a dishonest directory in one epoch.
type Tree struct {
	K     *Keys
	pad   *merkletree.PAD
	Root  []byte
	Binds map[string][]byte
}

// NewTree makes a dictionary with the given bindings.
func NewTree(c *vh.Case, k *Keys, names []string, binds map[string][]byte) *Tree {
	pol := &protocol.Policies{Version: protocol.Version, HashID: crypto.HashID, VrfPublicKey: k.VRFPub}
	pad, err := merkletree.NewPAD(pol, k.Sign, k.VRF, 3)
	if err != nil {
		c.Fatalf("dictionary: %v", err)
	}
	for _, n := range names {
		if v, ok := binds[n]; ok {
			if err := pad.Set(n, v); err != nil {
				c.Fatalf("set: %v", err)
			}
		}
	}
	pad.Update(pol)
	return &Tree{K: k, pad: pad, Root: pad.LatestSTR().TreeHash, Binds: binds}
}

// Path is the path for a name.
func (t *Tree) Path(c *vh.Case, name string) *merkletree.AuthenticationPath {
	ap, err := t.pad.Lookup(name)
	if err != nil {
		c.Fatalf("lookup: %v", err)
	}
	return mt.CopyAP(ap)
}
