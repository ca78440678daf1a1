//go:build go1.23

package proto_test

import (
	"bytes"
	"testing"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// A directory that signs correctly but keeps its promises only as it likes.
func TestC22_Broken(t *testing.T) {
	vh.Check(t, vh.N{Quick: 4800}, func(rt *rapid.T, c *vh.Case) {
		names := world.Names(rt, false, rapid.IntRange(1, 3).Draw(rt, "names"))
		k, k2 := world.NewKeys(c, false), world.NewKeys(c, false)
		vrfs := world.VRFs{}
		vrfs.Add(k)
		vrfs.Add(k2) // the directory may change its VRF key
		wire := rapid.Bool().Draw(rt, "wire")
		first := world.StartEpoch(rt)
		keys := [][]byte{[]byte("key 1"), []byte("key 2")}
		binds := map[string][]byte{}
		for _, n := range names[1:] {
			binds[n] = keys[0]
		}
		cp := func() map[string][]byte {
			m := map[string][]byte{}
			for n, b := range binds {
				m[n] = b
			}
			return m
		}
		tree := world.NewTree(c, k, names, cp())
		sign := func(prev *protocol.DirSTR) *protocol.DirSTR {
			s := world.MakeFirst(k, first, mt.Cp(tree.Root), 3)
			if prev != nil {
				s = world.MakeSTR(k, prev, mt.Cp(tree.Root), 3)
			}
			s.Policies.VrfPublicKey = append([]byte{}, tree.K.VRFPub...)
			world.SignSTR(k, s)
			if !wire {
				s.Ad = s.Policies
			}
			return s
		}
		at := sign(nil)
		v := world.NewView(c, k, vrfs, at, wire)
		pending := map[string][]byte{} // as the directory is willing to say
		broken, kept := 0, 0
		for i := rapid.IntRange(2, 16).Draw(rt, "steps"); i > 0; i-- {
			if rapid.IntRange(0, 3).Draw(rt, "epoch") == 0 {
				if v.CC.VerifiedSTR().Epoch != at.Epoch {
					continue // the client has to be in touch once per epoch
				}
				for _, n := range names {
					b, ok := pending[n]
					if !ok {
						continue
					}
					switch rapid.IntRange(0, 5).Draw(rt, "fate") {
					case 0: // dropped
					case 1: // replaced
						binds[n] = keys[rapid.IntRange(0, 1).Draw(rt, "instead")]
					case 2: // postponed
						continue
					default:
						binds[n] = b
					}
					delete(pending, n)
				}
				vk := k
				if rapid.IntRange(0, 9).Draw(rt, "newVRF") == 0 {
					vk = k2
				}
				tree = world.NewTree(c, vk, names, cp())
				at = sign(at)
				c.Tracef("epoch %d: %v, pending %v, VRF changed %v", at.Epoch, binds, pending, vk == k2)
				continue
			}
			name := names[rapid.IntRange(0, len(names)-1).Draw(rt, "name")]
			key := keys[rapid.IntRange(0, 1).Draw(rt, "key")]
			reqType := protocol.KeyLookupType
			if rapid.Bool().Draw(rt, "register") {
				reqType = protocol.RegistrationType
			} else {
				switch rapid.IntRange(0, 2).Draw(rt, "expect") {
				case 0:
					key = nil
				case 1:
					key = v.Bindings[name]
				}
			}
			ap := tree.Path(c, name)
			bound, incl := tree.Binds[name]
			p := &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{ap}, STR: []*protocol.DirSTR{world.CloneSTR(at)}}
			r := &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: p}
			said := pending[name]
			if rapid.IntRange(0, 5).Draw(rt, "forget") == 0 {
				said = nil // denies its promise within the epoch
			}
			switch {
			case incl && reqType == protocol.RegistrationType:
				r.Error = protocol.ReqNameExisted
			case incl:
			case said == nil && reqType == protocol.KeyLookupType:
				r.Error = protocol.ReqNameNotFound
			default:
				if said == nil {
					said = key
					pending[name] = key
				} else if reqType == protocol.RegistrationType {
					r.Error = protocol.ReqNameExisted
				}
				p.TB = &protocol.TemporaryBinding{Index: mt.Cp(tree.K.Index(name)), Value: mt.Cp(said)}
				p.TB.Signature = k.Sign.Sign(world.TBMessage(at.Signature, p.TB.Index, p.TB.Value))
			}
			held := v.TBs[name]
			isBroken := false
			if held != nil {
				switch {
				case incl:
					isBroken = !bytes.Equal(held.Value, bound) || !bytes.Equal(held.Index, tree.K.Index(name))
				case p.TB == nil:
					isBroken = true
				default:
					isBroken = !bytes.Equal(held.Value, p.TB.Value) || !bytes.Equal(held.Index, p.TB.Index) ||
						!k.Pub.Verify(world.TBMessage(at.Signature, held.Index, held.Value), held.Signature)
				}
			}
			f, _ := v.Faults(reqType, r, name, key)
			if f[protocol.CheckBrokenPromise] != isBroken {
				vh.Infra("the two oracles disagree")
			}
			err := v.Handle(reqType, v.Send(reqType, r), name, key)
			differs := incl && key != nil && !bytes.Equal(key, bound) || p.TB != nil && key != nil && !bytes.Equal(key, p.TB.Value)
			switch {
			case isBroken && !differs && err != protocol.CheckBrokenPromise:
				c.Fatalf("a broken promise for %q gives %v", name, err)
			case isBroken && err == nil:
				c.Fatalf("a broken promise for %q is accepted", name)
			case !isBroken && !differs && err != nil:
				c.Fatalf("no promise for %q is broken, but: %v", name, err)
			}
			if isBroken {
				broken++
				c.Class("broken promises")
			} else if held != nil {
				kept++
				c.Class("promises kept so far")
			}
		}
		if broken > 0 || kept > 0 {
			c.NT()
		}
	})
}

// An honest directory is never accused, whoever was promised what.
func TestC22_Honest(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, 3, rapid.IntRange(1, 4).Draw(rt, "names"))
		vrfs := world.VRFs{}
		vrfs.Add(d.Keys)
		vs := []*world.View{world.NewView(c, d.Keys, vrfs, d.STRs[0], false), world.NewView(c, d.Keys, vrfs, d.STRs[0], true)}
		promises := 0
		for e := rapid.IntRange(1, 5).Draw(rt, "epochs"); e > 0; e-- {
			for i := rapid.IntRange(1, 6).Draw(rt, "ops"); i > 0; i-- {
				v := vs[rapid.IntRange(0, 1).Draw(rt, "client")]
				name := d.Name(rt)
				if rapid.Bool().Draw(rt, "register") {
					key := []byte{byte(rapid.IntRange(1, 2).Draw(rt, "key"))}
					honest(c, d, v, protocol.RegistrationType, d.Register(name, key), name, key)
				} else {
					honest(c, d, v, protocol.KeyLookupType, d.Lookup(name), name, nil)
				}
			}
			for _, v := range vs {
				name := d.Name(rt)
				honest(c, d, v, protocol.KeyLookupType, d.Lookup(name), name, v.Bindings[name])
				promises += len(v.TBs)
			}
			d.Update()
		}
		if promises > 0 {
			c.NT()
		}
	})
}
