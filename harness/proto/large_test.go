//go:build go1.23

package proto_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// The same properties over histories, names, keys and crowds of a size that
// the other tests do not reach.

func largeDir(rt *rapid.T, c *vh.Case, capacity int) *world.Dir {
	return world.NewDirWith(c, world.NewKeys(c, false), world.Deadline(rt), capacity,
		world.LongNames(rt, rapid.IntRange(2, 6).Draw(rt, "names"), 30000))
}

func TestC13_Large(t *testing.T) {
	vh.Check(t, vh.N{Quick: 200}, func(rt *rapid.T, c *vh.Case) {
		d := largeDir(rt, c, 4)
		var keys [][]byte
		for i := rapid.IntRange(2, 15).Draw(rt, "ops"); i > 0; i-- {
			switch rapid.IntRange(0, 3).Draw(rt, "op") {
			case 0, 1:
				keys = append(keys, world.LongKey(rt, keys, 150000))
				d.Register(d.Name(rt), keys[len(keys)-1])
			case 2:
				d.Lookup(d.Name(rt))
			case 3:
				d.Update()
			}
		}
		for i := 0; i < 2; i++ {
			for _, name := range d.Names {
				d.Lookup(name)
			}
			d.Update()
		}
		if len(keys) > 0 {
			c.NT()
		}
	})
}

// Many promises in one epoch, of large keys among others; all are kept.
func TestC14_Crowd(t *testing.T) {
	vh.Check(t, vh.N{Quick: 48}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDirWith(c, world.NewKeys(c, false), world.Deadline(rt), 4, world.LongNames(rt, 3, 20000))
		for i := vh.LogInt(rt, "crowd", 10, 600); i > 0; i-- {
			d.Names = append(d.Names, fmt.Sprintf("user%d", i))
		}
		var keys [][]byte
		for round := 0; round < 2; round++ {
			for i, name := range d.Names {
				if i%2 != round && i%3 != 0 {
					continue
				}
				key := []byte(name + "'s key")
				if rapid.IntRange(0, 19).Draw(rt, "long") == 0 {
					key = world.LongKey(rt, keys, 100000)
					keys = append(keys, key)
				}
				d.Register(name, key)
			}
			for i := 0; i < 30; i++ {
				name := d.Name(rt)
				if rapid.Bool().Draw(rt, "again") {
					d.Register(name, []byte("another key"))
				} else {
					d.Lookup(name)
				}
			}
			promised := d.Pending
			d.Update()
			for i, name := range d.Names {
				if promised[name] != nil && (len(d.Names) < 100 || i%7 == round || len(promised[name].Key) > 1000) {
					r := d.Lookup(name)
					if pf := r.DirectoryResponse.(*protocol.DirectoryProof); pf.TB != nil || !mt.Included(pf.AP[0], d.Index(name), name, promised[name].Key, pf.STR[0].TreeHash) {
						c.Fatalf("the promise for %.40q, one of %d, is not kept in the next snapshot", name, len(promised))
					}
				}
			}
			c.ClassN("promises in one epoch", len(promised))
		}
		c.NT()
	})
}

func TestC15_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 48}, func(rt *rapid.T, c *vh.Case) {
		capacity := vh.LogInt(rt, "capacity", 10, 500)
		d := world.NewDir(rt, c, capacity, 3)
		n := rapid.IntRange(capacity/2, 2*capacity).Draw(rt, "epochs")
		asked := 0
		ask := func() {
			switch rapid.IntRange(0, 3).Draw(rt, "ask") {
			case 0:
				d.LookupInEpoch(d.Name(rt), d.Epoch(rt, "epoch"))
			case 1:
				d.History(d.Epoch(rt, "from"), d.Epoch(rt, "to"))
			case 2:
				d.Monitor(d.Name(rt), d.Epoch(rt, "from"), d.Epoch(rt, "to"))
			case 3: // all there is
				if rapid.Bool().Draw(rt, "monitor") {
					d.Monitor(d.Name(rt), d.MustHave(), d.Latest()+1)
				} else {
					d.History(d.MustHave(), d.Latest())
				}
			}
			asked++
		}
		every := max(1, n/4)
		for i := 1; i <= n; i++ {
			if c.Rand.Uint64()%8 == 0 {
				name := d.Names[i%len(d.Names)]
				d.Register(name, []byte(name))
			}
			d.Update()
			if i%every == 0 {
				ask()
			}
		}
		for i := 0; i < 4; i++ {
			ask()
		}
		if d.Latest() > 16 {
			c.NT()
		}
		c.ClassN("requests", asked)
	})
}

// Thousands of epochs, asked for in one go.
func TestC15_Huge(t *testing.T) {
	vh.Check(t, vh.N{Quick: 16, Thorough: 160}, func(rt *rapid.T, c *vh.Case) {
		n := vh.LogInt(rt, "epochs", 600, 2500)
		d := world.NewDir(rt, c, n+1, 3)
		for i := 1; i <= n; i++ {
			if i < 50 && c.Rand.Uint64()%8 == 0 {
				name := d.Names[i%len(d.Names)]
				d.Register(name, []byte(name))
			}
			d.Update()
		}
		from := uint64(rapid.IntRange(0, n/4).Draw(rt, "from"))
		to := uint64(rapid.IntRange(n-n/4, n+n/4).Draw(rt, "to"))
		d.History(from, to)
		d.Monitor(d.Name(rt), from, to)
		d.LookupInEpoch(d.Name(rt), from)
		c.NT()
	})
}

func TestC16_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 64}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, rapid.IntRange(2, 6).Draw(rt, "capacity"), 3)
		changes := 0
		for i := vh.LogInt(rt, "epochs", 20, 700); i > 0; i-- {
			if c.Rand.Uint64()%40 == 0 {
				d.SetPolicies(world.Deadline(rt))
				changes++
			}
			d.Update()
		}
		for e, s := range d.STRs {
			d.CheckSTR(s, uint64(e))
		}
		if changes > 0 {
			c.NT()
		}
	})
}

// One client, many names and keys, a long history.
func TestC19_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 48}, func(rt *rapid.T, c *vh.Case) {
		d := largeDir(rt, c, 3)
		for i := vh.LogInt(rt, "crowd", 1, 200); i > 0; i-- {
			d.Names = append(d.Names, fmt.Sprintf("user%d", i))
		}
		vrfs := world.VRFs{}
		vrfs.Add(d.Keys)
		v := world.NewView(c, d.Keys, vrfs, d.STRs[0], rapid.Bool().Draw(rt, "wire"))
		var keys [][]byte
		epochs := vh.LogInt(rt, "epochs", 1, 100)
		for e := 0; e < epochs; e++ {
			n := 1 + 300/epochs
			for i := 0; i < n; i++ {
				name := d.Name(rt)
				if rapid.Bool().Draw(rt, "register") {
					key := []byte(name + "'s")
					if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
						key = world.LongKey(rt, keys, 60000)
						keys = append(keys, key)
					}
					honest(c, d, v, protocol.RegistrationType, d.Register(name, key), name, key)
				} else {
					honest(c, d, v, protocol.KeyLookupType, d.Lookup(name), name, v.Bindings[name])
				}
			}
			d.Update()
		}
		if len(v.Bindings) > 1 {
			c.NT()
		}
		c.ClassN("bindings", len(v.Bindings))
	})
}

// A client with many promises at once, of which some are broken.
func TestC22_Crowd(t *testing.T) {
	vh.Check(t, vh.N{Quick: 48}, func(rt *rapid.T, c *vh.Case) {
		k := world.NewKeys(c, false)
		vrfs := world.VRFs{}
		vrfs.Add(k)
		wire := rapid.Bool().Draw(rt, "wire")
		names := world.LongNames(rt, 2, 5000)
		for i := vh.LogInt(rt, "crowd", 5, 200); i > 0; i-- {
			names = append(names, fmt.Sprintf("user%d", i))
		}
		key := func(n string) []byte { return bytes.Repeat([]byte(n), 1+len(n)%3) }
		sign := func(prev *protocol.DirSTR, t *world.Tree) *protocol.DirSTR {
			s := world.MakeSTR(k, prev, mt.Cp(t.Root), 3)
			if !wire {
				s.Ad = s.Policies
			}
			return s
		}
		tree := world.NewTree(c, k, names, map[string][]byte{})
		at := sign(nil, tree)
		v := world.NewView(c, k, vrfs, at, wire)
		for _, n := range names {
			tb := &protocol.TemporaryBinding{Index: mt.Cp(k.Index(n)), Value: key(n)}
			tb.Signature = k.Sign.Sign(world.TBMessage(at.Signature, tb.Index, tb.Value))
			r := &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.DirectoryProof{
				AP: []*merkletree.AuthenticationPath{tree.Path(c, n)}, STR: []*protocol.DirSTR{world.CloneSTR(at)}, TB: tb}}
			if err := v.Handle(protocol.RegistrationType, v.Send(protocol.RegistrationType, r), n, key(n)); err != nil {
				c.Fatalf("a promise for %.40q: %v", n, err)
			}
		}
		binds, broken := map[string][]byte{}, map[string]bool{}
		for _, n := range names {
			binds[n] = key(n)
			switch rapid.IntRange(0, 15).Draw(rt, "fate") {
			case 0:
				delete(binds, n)
				broken[n] = true
			case 1:
				binds[n] = append(key(n), 0)
				broken[n] = true
			}
		}
		tree = world.NewTree(c, k, names, binds)
		at = sign(at, tree)
		c.Tracef("%d of %d promises are broken", len(broken), len(names))
		for i := 0; i < len(names)+5; i++ {
			n := names[c.Rand.Uint64()%uint64(len(names))]
			if _, held := v.TBs[n]; !held {
				continue
			}
			p := &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{tree.Path(c, n)}, STR: []*protocol.DirSTR{world.CloneSTR(at)}}
			r := &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: p}
			if binds[n] == nil {
				r.Error = protocol.ReqNameNotFound
			}
			err := v.Handle(protocol.KeyLookupType, v.Send(protocol.KeyLookupType, r), n, nil)
			if broken[n] && err != protocol.CheckBrokenPromise || !broken[n] && err != nil {
				c.Fatalf("promise for %.40q, broken: %v, gives %v", n, broken[n], err)
			}
		}
		c.ClassN("broken promises", len(broken))
		if len(broken) > 0 {
			c.NT()
		}
	})
}
