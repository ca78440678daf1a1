//go:build go1.23

package proto_test

import (
	"crypto/rand"
	"errors"
	"io"
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// opName: mostly a name of the pool, now and then an empty one.
func opName(rt *rapid.T, d *world.Dir) string {
	if rapid.IntRange(0, 15).Draw(rt, "noName") == 0 {
		return ""
	}
	return d.Name(rt)
}

func opKey(rt *rapid.T) []byte {
	switch rapid.IntRange(0, 15).Draw(rt, "noKey") {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return world.Key(rt)
}

func TestC13_Answers(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, rapid.IntRange(2, 8).Draw(rt, "capacity"), rapid.IntRange(2, 9).Draw(rt, "names"))
		n := rapid.IntRange(1, 25).Draw(rt, "ops")
		var frozen []func()
		regs, looks := 0, 0
		for i := 0; i < n; i++ {
			var r *protocol.Response
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 4:
				r = d.Register(opName(rt, d), opKey(rt))
				regs++
			case k < 8:
				name := opName(rt, d)
				r = d.Lookup(name)
				looks++
				if rapid.IntRange(0, 3).Draw(rt, "again") == 0 {
					if r2 := d.Lookup(name); world.JS(r2) != world.JS(r) {
						c.Fatalf("the same lookup answered differently:\n%s\n%s", world.JS(r), world.JS(r2))
					}
				}
			case k == 8:
				d.Update()
			case k == 9:
				// requests about past epochs change nothing either
				name, e := opName(rt, d), d.Epoch(rt, "epoch")
				switch rapid.IntRange(0, 2).Draw(rt, "past") {
				case 0:
					r = d.LookupInEpoch(name, e)
				case 1:
					r = d.Monitor(name, e, d.Epoch(rt, "to"))
				case 2:
					r = d.History(e, d.Epoch(rt, "to"))
				}
			}
			if r != nil {
				frozen = append(frozen, d.Freeze(r, "an answer"))
			}
		}
		for _, name := range d.Names {
			d.Lookup(name)
		}
		for _, f := range frozen {
			f()
		}
		if regs > 0 && looks > 0 && d.Latest() > 0 {
			c.NT()
		}
	})
}

// Many names in one directory: trees of realistic size.
func TestC13_Crowd(t *testing.T) {
	vh.Check(t, vh.N{Quick: 48, Thorough: 800}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, 4, vh.LogInt(rt, "names", 40, 400))
		for round := 0; round < 2; round++ {
			for _, name := range d.Names {
				if rapid.IntRange(0, 2).Draw(rt, "skip") > 0 {
					r := d.D.Register(&protocol.RegistrationRequest{Username: name, Key: []byte(name + "'s key")})
					d.CheckRegister(r, name, []byte(name+"'s key"))
				}
			}
			for i := 0; i < 10; i++ {
				d.Lookup(d.Name(rt))
			}
			d.Update()
			for i := 0; i < 25; i++ {
				d.Lookup(d.Name(rt))
			}
		}
		c.NT()
	})
}

func TestC14_Promises(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, rapid.IntRange(4, 12).Draw(rt, "capacity"), rapid.IntRange(1, 6).Draw(rt, "names"))
		type promised struct {
			name  string
			key   []byte
			epoch uint64
		}
		var ps []promised
		first := map[string][]byte{}
		again := 0
		n := rapid.IntRange(2, 25).Draw(rt, "ops")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 6:
				name, key := d.Name(rt), world.Key(rt)
				r := d.Register(name, key)
				_, taken := first[name]
				if taken != (r.Error == protocol.ReqNameExisted) {
					c.Fatalf("%q registered before: %v, but the code is %d", name, taken, r.Error)
				}
				if taken {
					again++
				} else {
					first[name] = key
					ps = append(ps, promised{name, key, d.Latest()})
				}
				if k == 0 { // at once again, with another key
					d.Register(name, append(mt.Cp(key), 1))
				}
			case k < 7:
				d.Lookup(d.Name(rt))
			default:
				d.Update()
				for _, p := range ps {
					if p.epoch+1 == d.Latest() {
						r := d.Lookup(p.name) // the next snapshot has it
						if pf := r.DirectoryResponse.(*protocol.DirectoryProof); pf.TB != nil || !mt.Included(pf.AP[0], d.Index(p.name), p.name, p.key, pf.STR[0].TreeHash) {
							c.Fatalf("the promise of epoch %d for %q is not kept in the next snapshot", p.epoch, p.name)
						}
					}
				}
			}
		}
		d.Update()
		for _, p := range ps {
			from := max(p.epoch+1, d.MustHave())
			r := d.Monitor(p.name, from, d.Latest())
			pf, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
			if !ok {
				c.Fatalf("monitoring of a registered name: %s", world.JS(r))
			}
			for i, ap := range pf.AP {
				if !mt.Included(ap, d.Index(p.name), p.name, p.key, pf.STR[i].TreeHash) {
					c.Fatalf("the promise of epoch %d for %q does not hold in epoch %d", p.epoch, p.name, from+uint64(i))
				}
			}
			if p.epoch >= d.MustHave() { // not yet bound when promised
				d.LookupInEpoch(p.name, p.epoch)
			}
		}
		if again > 0 && len(ps) > 0 && d.Latest() > 1 {
			c.NT()
		}
		c.ClassN("promises", len(ps))
		c.ClassN("registrations of taken names", again)
	})
}

func TestC15_Ranges(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, rapid.IntRange(2, 9).Draw(rt, "capacity"), rapid.IntRange(1, 5).Draw(rt, "names"))
		n := rapid.IntRange(3, 30).Draw(rt, "ops")
		asked := 0
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 2:
				d.Register(d.Name(rt), world.Key(rt))
			case k < 5:
				for j := rapid.IntRange(1, 3).Draw(rt, "updates"); j > 0; j-- {
					d.Update()
				}
			case k == 5:
				d.SetPolicies(world.Deadline(rt))
			case k == 6:
				d.LookupInEpoch(opName(rt, d), d.Epoch(rt, "epoch"))
				asked++
			case k == 7:
				d.History(d.Epoch(rt, "from"), d.Epoch(rt, "to"))
				asked++
			default:
				d.Monitor(opName(rt, d), d.Epoch(rt, "from"), d.Epoch(rt, "to"))
				asked++
			}
		}
		if asked > 0 && d.Latest() > 1 {
			c.NT()
		}
	})
}

func TestC16_Policies(t *testing.T) {
	vh.Check(t, vh.N{Quick: 4000}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, rapid.IntRange(2, 6).Draw(rt, "capacity"), 3)
		n := rapid.IntRange(2, 20).Draw(rt, "ops")
		changes := 0
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 3:
				for j := rapid.IntRange(1, 2).Draw(rt, "times"); j > 0; j-- {
					d.SetPolicies(world.Deadline(rt))
				}
				changes++
			case k < 8:
				d.Update()
			case k == 8:
				d.Register(d.Name(rt), world.Key(rt))
			case k == 9:
				d.Lookup(d.Name(rt))
			}
			if got := d.D.(interface{ EpochDeadline() protocol.Timestamp }).EpochDeadline(); got != d.Deadlines[d.Latest()] {
				c.Fatalf("EpochDeadline() says %d, the current signed root must announce %d", got, d.Deadlines[d.Latest()])
			}
			for e, s := range d.STRs { // those issued do not change
				d.CheckSTR(s, uint64(e))
			}
		}
		if changes > 0 && d.Latest() > 1 {
			c.NT()
		}
	})
}

// ---- parts of C10 and C12 at the level of the directory

func TestC10_Policies(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, 8, 2)
		for n := rapid.IntRange(0, 5).Draw(rt, "updates"); n > 0; n-- {
			if rapid.Bool().Draw(rt, "set") {
				d.SetPolicies(world.Deadline(rt))
			}
			d.Update()
		}
		for i, s := range d.STRs {
			for j, o := range d.STRs {
				if got := s.VerifyHashChain(o); got != (i == j+1) {
					c.Fatalf("signed root %d after %d: chain check says %v", i, j, got)
				}
			}
		}
		e := rapid.IntRange(0, len(d.STRs)-1).Draw(rt, "epoch")
		for k := 0; k < 8; k++ {
			s := world.CopySTR(d.STRs[e])
			if !d.Pub.Verify(s.Serialize(), s.Signature) {
				c.Fatalf("signed root %d does not verify after it was copied", e)
			}
			what := rapid.SampledFrom([]string{"version", "hash", "vrf", "deadline", "epoch", "previous epoch", "root", "previous hash", "signature"}).Draw(rt, "field")
			switch what {
			case "version":
				s.Policies.Version = string(vh.Mutate(rt, "m", []byte(s.Policies.Version)))
			case "hash":
				s.Policies.HashID = string(vh.Mutate(rt, "m", []byte(s.Policies.HashID)))
			case "vrf":
				s.Policies.VrfPublicKey = vh.Mutate(rt, "m", s.Policies.VrfPublicKey)
			case "deadline":
				s.Policies.EpochDeadline ^= 1 << rapid.IntRange(0, 63).Draw(rt, "bit")
			case "epoch":
				s.Epoch ^= 1 << rapid.IntRange(0, 63).Draw(rt, "bit")
			case "previous epoch":
				if e == 0 {
					continue
				}
				s.PreviousEpoch ^= 1 << rapid.IntRange(0, 63).Draw(rt, "bit")
			case "root":
				s.TreeHash = vh.Mutate(rt, "m", s.TreeHash)
			case "previous hash":
				s.PreviousSTRHash = vh.Mutate(rt, "m", s.PreviousSTRHash)
			case "signature":
				s.Signature = vh.Mutate(rt, "m", s.Signature)
			}
			if d.Pub.Verify(s.Serialize(), s.Signature) {
				c.Fatalf("signed root %d verifies with another %s: %s", e, what, world.JS(s))
			}
			c.Class("altered " + what)
		}
		if e > 0 {
			c.NT()
		}
		c.Tracef("altered %d", e)
	})
}

type failingReader struct {
	r     io.Reader
	short int // bytes delivered by the failing call; -1: no failure
	hit   bool
}

func (f *failingReader) Read(p []byte) (int, error) {
	if f.short >= 0 {
		f.hit = true
		n := min(f.short, len(p)-1)
		if n > 0 {
			f.r.Read(p[:n])
		}
		return n, errors.New("out of randomness")
	}
	return f.r.Read(p)
}

func TestC12_Directory(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, rapid.IntRange(2, 6).Draw(rt, "capacity"), rapid.IntRange(1, 6).Draw(rt, "names"))
		failed := 0
		n := rapid.IntRange(3, 25).Draw(rt, "ops")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 4:
				name, key := d.Name(rt), world.Key(rt)
				fr := &failingReader{c.Rand, rapid.IntRange(0, 31).Draw(rt, "short"), false}
				rand.Reader = fr
				r := d.D.Register(&protocol.RegistrationRequest{Username: name, Key: mt.Cp(key)})
				rand.Reader = c.Rand
				_, included := d.Included[d.Latest()][name]
				c.Tracef("register %q %s with failing randomness -> %d", name, vh.Hex(key), r.Error)
				if included || d.Pending[name] != nil {
					d.CheckRegister(r, name, key) // needs no randomness
					break
				}
				if !fr.hit {
					c.Fatalf("a registration took no randomness")
				}
				if r.Error != protocol.ErrDirectory || r.DirectoryResponse != nil {
					c.Fatalf("registration of %q with failing randomness: %s", name, world.JS(r))
				}
				failed++
				d.Lookup(name) // neither bound nor promised
			case k < 6:
				d.Register(d.Name(rt), world.Key(rt))
			case k < 8:
				d.Lookup(d.Name(rt))
			case k == 8:
				d.Update()
			case k == 9: // an update without randomness
				rand.Reader = &failingReader{c.Rand, rapid.IntRange(0, 31).Draw(rt, "short"), false}
				d.Update()
				rand.Reader = c.Rand
			}
		}
		d.Update()
		for _, name := range d.Names {
			d.Lookup(name)
		}
		if failed > 0 {
			c.NT()
		}
		c.ClassN("failed registrations", failed)
	})
}

func TestC12_DirectoryCreation(t *testing.T) {
	vh.Check(t, vh.N{Quick: 400}, func(rt *rapid.T, c *vh.Case) {
		k := world.NewKeys(c, false)
		fr := &failingReader{c.Rand, rapid.IntRange(0, 31).Draw(rt, "short"), false}
		c.Tracef("create with %d bytes of randomness", fr.short)
		var d *directory.ConiksDirectory
		func() {
			defer func() { recover() }()
			rand.Reader = fr
			d = directory.New(world.Deadline(rt), k.VRF, k.Sign, 4, true)
		}()
		rand.Reader = c.Rand
		if d != nil {
			c.Fatalf("a directory was created from failed randomness")
		}
		c.NT()
	})
}
