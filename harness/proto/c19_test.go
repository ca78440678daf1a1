//go:build go1.23

package proto_test

import (
	"bytes"
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// honest has v handle an honest answer of d; it must be accepted, or refused
// for the documented reason.
func honest(c *vh.Case, d *world.Dir, v *world.View, reqType int, r *protocol.Response, name string, key []byte) {
	c.T.Helper()
	var want error
	truth := d.Included[d.Latest()][name]
	if p := d.Pending[name]; truth == nil && p != nil {
		truth = p.Key
	}
	switch {
	case name == "" || reqType == protocol.RegistrationType && len(key) == 0:
		want = protocol.ErrMalformedMessage
	case key != nil && truth != nil && !bytes.Equal(key, truth):
		want = protocol.CheckBindingsDiffer
	}
	if err := v.Handle(reqType, v.Send(reqType, r), name, key); err != want {
		c.Fatalf("an honest answer about %q gives %v, should give %v\n%s", name, err, want, world.JS(r))
	}
	if want != protocol.ErrMalformedMessage && !world.SameSTR(v.CC.VerifiedSTR(), d.STRs[d.Latest()]) {
		c.Fatalf("after an honest answer the pinned signed root is not the current one")
	}
	if want == nil && !bytes.Equal(v.CC.Bindings[name], truth) {
		c.Fatalf("after an honest answer the client has key %s for %q, it is %s", vh.Hex(v.CC.Bindings[name]), name, vh.Hex(truth))
	}
	switch {
	case want != nil:
		c.Class("answers about another key or malformed requests")
	case truth == nil:
		c.Class("unknown names")
	case d.Pending[name] != nil:
		c.Class("pending names")
	default:
		c.Class("included names")
	}
}

func TestC19_Honest(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, rapid.IntRange(2, 5).Draw(rt, "capacity"), rapid.IntRange(1, 5).Draw(rt, "names"))
		vrfs := world.VRFs{}
		vrfs.Add(d.Keys)
		var vs []*world.View
		seen := map[*world.View]uint64{}
		join := func() {
			e := d.Latest()
			if e > 0 && rapid.Bool().Draw(rt, "joinEarlier") {
				e--
			}
			v := world.NewView(c, d.Keys, vrfs, d.STRs[e], rapid.Bool().Draw(rt, "wire"))
			c.Tracef("client %d joins with epoch %d, wire %v", len(vs), e, v.Wire)
			vs = append(vs, v)
			seen[v] = e
		}
		join()
		act := func(v *world.View) {
			if rapid.IntRange(0, 2).Draw(rt, "register") == 0 {
				name, key := opName(rt, d), opKey(rt)
				honest(c, d, v, protocol.RegistrationType, d.Register(name, key), name, key)
			} else {
				name := opName(rt, d)
				key := v.Bindings[name] // nil if unknown
				if rapid.IntRange(0, 3).Draw(rt, "tofu") == 0 {
					key = nil
				}
				honest(c, d, v, protocol.KeyLookupType, d.Lookup(name), name, key)
			}
			seen[v] = v.CC.VerifiedSTR().Epoch
		}
		for i := rapid.IntRange(2, 25).Draw(rt, "ops"); i > 0; i-- {
			switch k := rapid.IntRange(0, 11).Draw(rt, "op"); {
			case k == 0 && len(vs) < 4:
				join()
			case k == 1:
				d.SetPolicies(world.Deadline(rt))
			case k < 4:
				for _, v := range vs { // everyone is in touch once per epoch
					if seen[v] != d.Latest() {
						name := d.Name(rt)
						honest(c, d, v, protocol.KeyLookupType, d.Lookup(name), name, v.Bindings[name])
						seen[v] = d.Latest()
					}
				}
				d.Update()
			default:
				act(vs[rapid.IntRange(0, len(vs)-1).Draw(rt, "client")])
			}
		}
		if d.Latest() > 1 && len(vs[0].Bindings) > 0 {
			c.NT()
		}
	})
}
