//go:build go1.23

package proto_test

import (
	"strings"
	"testing"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// Alterations of honest answers: each must be refused unless it still proves
// its outcome.
func TestC20_Altered(t *testing.T) {
	vh.Check(t, vh.N{Quick: 4800}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, 4, rapid.IntRange(2, 5).Draw(rt, "names"))
		f := world.NewDirWith(c, world.NewKeys(c, false), 5, 4, d.Names) // another directory
		vrfs := world.VRFs{}
		vrfs.Add(d.Keys)
		vrfs.Add(f.Keys)
		v := world.NewView(c, d.Keys, vrfs, d.STRs[0], rapid.Bool().Draw(rt, "wire"))
		parts := &world.Parts{}
		altered := 0
		contact := true
		for i := rapid.IntRange(2, 14).Draw(rt, "ops"); i > 0; i-- {
			if contact && rapid.IntRange(0, 3).Draw(rt, "update") == 0 {
				d.Update()
				if rapid.Bool().Draw(rt, "other") {
					f.Update()
				}
				contact = false
			}
			name := d.Name(rt)
			var r *protocol.Response
			var key []byte
			reqType := protocol.KeyLookupType
			if rapid.Bool().Draw(rt, "register") {
				key = world.Key(rt)
				if k, ok := v.Bindings[name]; ok && rapid.Bool().Draw(rt, "sameKey") {
					key = k
				}
				reqType = protocol.RegistrationType
				r = d.Register(name, key)
				if rapid.Bool().Draw(rt, "there") {
					parts.Add(f.Register(name, key))
				}
			} else {
				if rapid.Bool().Draw(rt, "known") {
					key = v.Bindings[name]
				}
				r = d.Lookup(name)
				if rapid.Bool().Draw(rt, "there") {
					parts.Add(f.Lookup(name))
				}
			}
			parts.Add(r)
			for j := rapid.IntRange(0, 4).Draw(rt, "alterations"); j > 0; j-- {
				x := v.Fork()
				a := world.CloneResponse(r)
				what := []string{world.AlterAnswer(rt, a, parts, nil)}
				for rapid.IntRange(0, 3).Draw(rt, "more") == 0 && len(what) < 4 {
					what = append(what, world.AlterAnswer(rt, a, parts, nil))
				}
				useName, useKey := name, key
				if rapid.IntRange(0, 9).Draw(rt, "otherName") == 0 {
					useName = d.Name(rt)
				}
				if rapid.IntRange(0, 9).Draw(rt, "otherKey") == 0 {
					useKey = world.Key(rt)
				}
				c.Tracef("altered: %s", strings.Join(what, ", "))
				if v.Wire && a.DirectoryResponse == nil && !world.RefusedCodes[a.Error] {
					// has no other meaning than a malformed message once sent
					a.Error = protocol.ErrMalformedMessage
				}
				a = x.Send(reqType, a)
				if err := x.Handle(reqType, a, useName, useKey); err != nil {
					altered++
					c.Class("refused: " + what[0])
				} else {
					c.Class("harmless: " + what[0])
				}
			}
			honest(c, d, v, reqType, r, name, key)
			contact = true
		}
		if altered > 0 && d.Latest() > 0 {
			c.NT()
		}
	})
}

// A directory that has its signing key signs whatever it likes.
func TestC20_Evil(t *testing.T) {
	vh.Check(t, vh.N{Quick: 4800}, func(rt *rapid.T, c *vh.Case) {
		names := world.Names(rt, false, rapid.IntRange(1, 3).Draw(rt, "names"))
		k, other := world.NewKeys(c, false), world.NewKeys(c, false)
		vrfs := world.VRFs{}
		vrfs.Add(k)
		vrfs.Add(other)
		wire := rapid.Bool().Draw(rt, "wire")
		first := world.StartEpoch(rt)
		keys := [][]byte{[]byte("key 1"), []byte("key 2"), {3}}
		pick := func(l string) []byte { return keys[rapid.IntRange(0, len(keys)-1).Draw(rt, l)] }
		newTree := func() *world.Tree {
			binds := map[string][]byte{}
			for _, n := range names {
				if rapid.Bool().Draw(rt, "bound") {
					binds[n] = pick("bind")
				}
			}
			tk := k
			if rapid.IntRange(0, 9).Draw(rt, "otherVRF") == 0 {
				tk = other
			}
			c.Tracef("tree %v, other keys %v", binds, tk == other)
			return world.NewTree(c, tk, names, binds)
		}
		mem := func(s *protocol.DirSTR) *protocol.DirSTR {
			if !wire {
				s.Ad = s.Policies
			}
			return s
		}
		sign := func(prev *protocol.DirSTR, t *world.Tree) *protocol.DirSTR {
			s := world.MakeFirst(k, first, mt.Cp(t.Root), protocol.Timestamp(c.Rand.Uint64()))
			if prev != nil {
				s = world.MakeSTR(k, prev, mt.Cp(t.Root), protocol.Timestamp(c.Rand.Uint64()))
			}
			if t.K != k {
				s.Policies.VrfPublicKey = append([]byte{}, t.K.VRFPub...)
				world.SignSTR(k, s)
			}
			return mem(s)
		}
		trees := []*world.Tree{newTree()}
		cur, at := trees[0], sign(nil, trees[0])
		v := world.NewView(c, k, vrfs, at, wire)
		parts := &world.Parts{STR: []*protocol.DirSTR{at}}
		accepted, refused := 0, 0
		for i := rapid.IntRange(1, 10).Draw(rt, "answers"); i > 0; i-- {
			if rapid.IntRange(0, 2).Draw(rt, "epoch") == 0 { // the pinned root is followed by another
				t := trees[rapid.IntRange(0, len(trees)-1).Draw(rt, "tree")]
				if rapid.Bool().Draw(rt, "new") {
					t = newTree()
					trees = append(trees, t)
				}
				prev := v.Pinned
				switch rapid.IntRange(0, 9).Draw(rt, "after") {
				case 0:
					prev = parts.STR[rapid.IntRange(0, len(parts.STR)-1).Draw(rt, "prev")]
				case 1:
					prev = at
				}
				cur, at = t, sign(prev, t)
				switch rapid.IntRange(0, 15).Draw(rt, "forged") {
				case 0: // signed by somebody else
					world.SignSTR(other, at)
				case 1: // with the signature of another root
					at.Signature = mt.Cp(parts.STR[rapid.IntRange(0, len(parts.STR)-1).Draw(rt, "signature")].Signature)
				case 2:
					at.Signature = mt.Cp(v.Pinned.Signature)
				}
				parts.STR = append(parts.STR, at)
			} else if rapid.IntRange(0, 3).Draw(rt, "pinned") > 0 {
				at = v.Pinned
				for _, t := range trees {
					if string(t.Root) == string(at.TreeHash) {
						cur = t
					}
				}
			}
			name := names[rapid.IntRange(0, len(names)-1).Draw(rt, "name")]
			from, shown := cur, name
			if rapid.IntRange(0, 14).Draw(rt, "elsewhere") == 0 {
				from = trees[rapid.IntRange(0, len(trees)-1).Draw(rt, "from")]
			}
			if rapid.IntRange(0, 14).Draw(rt, "another") == 0 {
				shown = names[rapid.IntRange(0, len(names)-1).Draw(rt, "shown")]
			}
			ap := from.Path(c, shown)
			bound, ok := from.Binds[shown]
			key := pick("expected")
			reqType := protocol.RegistrationType
			if rapid.Bool().Draw(rt, "lookup") {
				reqType = protocol.KeyLookupType
				key = v.Bindings[name]
				switch rapid.IntRange(0, 3).Draw(rt, "expect") {
				case 0:
					key = nil
				case 1:
					key = pick("expected")
				}
			} else if ok && rapid.Bool().Draw(rt, "same") {
				key = bound
			}
			r := &protocol.Response{Error: protocol.ReqSuccess}
			p := &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{ap}, STR: []*protocol.DirSTR{world.CloneSTR(at)}}
			r.DirectoryResponse = p
			switch {
			case ok && reqType == protocol.RegistrationType:
				r.Error = protocol.ReqNameExisted
			case !ok && reqType == protocol.KeyLookupType && rapid.Bool().Draw(rt, "unknown"):
				r.Error = protocol.ReqNameNotFound
			case !ok:
				val := key
				if val == nil || rapid.IntRange(0, 4).Draw(rt, "otherPromise") == 0 {
					val = pick("promised")
				}
				if held := v.TBs[name]; held != nil && rapid.IntRange(0, 3).Draw(rt, "keep") > 0 {
					val = held.Value
				}
				p.TB = &protocol.TemporaryBinding{Index: mt.Cp(from.K.Index(shown)), Value: mt.Cp(val)}
				p.TB.Signature = k.Sign.Sign(world.TBMessage(at.Signature, p.TB.Index, p.TB.Value))
				if reqType == protocol.RegistrationType && rapid.Bool().Draw(rt, "existed") {
					r.Error = protocol.ReqNameExisted
				}
			}
			parts.Add(r)
			what := ""
			for rapid.IntRange(0, 3).Draw(rt, "twist") == 0 && len(what) < 40 {
				what += world.AlterAnswer(rt, r, parts, k) + "; "
			}
			if wire && r.DirectoryResponse == nil && !world.RefusedCodes[r.Error] {
				r.Error = protocol.ErrMalformedMessage
			}
			c.Tracef("answer: %s, altered: %s", map[bool]string{true: "included", false: "absent"}[ok], what)
			if err := v.Handle(reqType, v.Send(reqType, r), name, key); err != nil {
				refused++
				c.Class("refused: " + err.Error())
			} else {
				accepted++
				c.Class("accepted")
			}
		}
		if accepted > 0 && refused > 0 {
			c.NT()
		}
	})
}
