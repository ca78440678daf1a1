//go:build go1.23

package proto_test

import (
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// judged checks an auditor's verdict on a list against the definition.
func judged(c *vh.Case, what string, err error, ok bool, faults map[error]bool) {
	c.T.Helper()
	switch {
	case ok && err != nil:
		c.Fatalf("%s: a consistent extension is refused: %v", what, err)
	case !ok && err == nil:
		c.Fatalf("%s: accepted, although: %v", what, faults)
	case !ok && !faults[err]:
		c.Fatalf("%s: refused with %v, the faults are %v", what, err, faults)
	}
	if ok {
		c.Class(what + " accepted")
	} else {
		c.Class(what + " refused: " + err.Error())
	}
}

func TestC17_Lists(t *testing.T) {
	vh.Check(t, vh.N{Quick: 6400}, func(rt *rapid.T, c *vh.Case) {
		auditLists(rt, c, world.NewChains(rt, c), rapid.IntRange(1, 12).Draw(rt, "steps"), false)
	})
}

// Long lists: what is wrong may be far behind the start.
func TestC17_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 160}, func(rt *rapid.T, c *vh.Case) {
		auditLists(rt, c, world.NewLongChains(rt, c, 400), 8, true)
	})
}

func auditLists(rt *rapid.T, c *vh.Case, p *world.Chains, steps int, long bool) {
	chain := p.Chains[0]
	at := rapid.IntRange(0, len(chain)-1).Draw(rt, "verified")
	if long && rapid.Bool().Draw(rt, "early") {
		at /= 16
	}
	verified := p.Cp(chain[at])
	a := auditor.New(p.K.Pub, verified)
	c.Tracef("wire %v, verified epoch %d of %d", p.Wire, at, len(chain)-1)
	was := world.JS(verified)
	accepted, refused := 0, 0
	for i := steps; i > 0; i-- {
		var strs []*protocol.DirSTR
		if long && rapid.Bool().Draw(rt, "toEnd") {
			strs = p.DrawFrom(rt, c, int(verified.Epoch)+rapid.IntRange(0, 1).Draw(rt, "next"))
		} else {
			strs = p.Draw(rt, c, verified.Epoch)
		}
		ok, faults := world.Extends(p.K, verified, strs)
		before := world.JS(strs)
		err := a.AuditDirectory(strs)
		c.Tracef("audit -> %v", err)
		judged(c, "audit", err, ok, faults)
		if len(strs) > 0 {
			ok1, f1 := world.Extends(p.K, verified, strs[:1])
			judged(c, "single root", a.CheckSTRAgainstVerified(strs[0]), ok1, f1)
		}
		if len(strs) > 1 && world.Complete(strs[0]) {
			f2 := map[error]bool{}
			for j := 1; j < len(strs); j++ {
				switch {
				case !world.Complete(strs[j]):
					f2[protocol.ErrMalformedMessage] = true
				default:
					if !world.Signed(p.K, strs[j]) {
						f2[protocol.CheckBadSignature] = true
					}
					if world.Complete(strs[j-1]) && !world.Follows(strs[j-1], strs[j]) {
						f2[protocol.CheckBadSTR] = true
					}
				}
			}
			judged(c, "range", a.VerifySTRRange(strs[0], strs[1:]), len(f2) == 0, f2)
		}
		if a.VerifiedSTR() != verified || world.JS(verified) != was {
			c.Fatalf("checking changed the verified signed root")
		}
		if world.JS(strs) != before {
			c.Fatalf("checking changed the list")
		}
		if ok {
			accepted++
			if rapid.Bool().Draw(rt, "advance") {
				verified = strs[len(strs)-1]
				a.Update(verified)
				was = world.JS(verified)
			}
		} else {
			refused++
		}
	}
	if refused > 0 && accepted > 0 {
		c.NT()
	}
}

// Histories that are looked at from any epoch on.
func TestC17_Epochs(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) {
		k := world.NewKeys(c, false)
		wire := rapid.Bool().Draw(rt, "wire")
		cp := func(s *protocol.DirSTR) *protocol.DirSTR {
			if wire {
				return world.CopySTR(s)
			}
			return world.CloneSTR(s)
		}
		chain := []*protocol.DirSTR{world.MakeFirst(k, world.StartEpoch(rt), c.Rand.Bytes(32), 1)}
		for i := rapid.IntRange(1, 9).Draw(rt, "length"); i > 0; i-- {
			chain = append(chain, world.MakeSTR(k, chain[len(chain)-1], c.Rand.Bytes(32), 1))
		}
		if !wire {
			for _, s := range chain {
				s.Ad = s.Policies
			}
		}
		at := rapid.IntRange(0, len(chain)-1).Draw(rt, "verified")
		verified := cp(chain[at])
		a := auditor.New(k.Pub, verified)
		accepted := 0
		for i := rapid.IntRange(1, 8).Draw(rt, "lists"); i > 0; i-- {
			from := rapid.IntRange(0, len(chain)-1).Draw(rt, "from")
			if rapid.Bool().Draw(rt, "next") {
				from = min(at+rapid.IntRange(0, 1).Draw(rt, "by"), len(chain)-1)
			}
			var strs []*protocol.DirSTR
			for j := from; j <= rapid.IntRange(from, len(chain)-1).Draw(rt, "to"); j++ {
				strs = append(strs, cp(chain[j]))
			}
			if len(strs) > 0 && rapid.IntRange(0, 2).Draw(rt, "alter") == 0 {
				s := strs[rapid.IntRange(0, len(strs)-1).Draw(rt, "which")]
				f := world.AlterSTR(rt, s)
				if rapid.Bool().Draw(rt, "resign") && f != "signature" {
					world.SignSTR(k, s)
				}
				c.Tracef("altered: %s", f)
			}
			ok, faults := world.Extends(k, verified, strs)
			err := a.AuditDirectory(strs)
			c.Tracef("verified %d of %d, list of %d from %d -> %v", at, chain[0].Epoch, len(strs), from, err)
			judged(c, "audit", err, ok, faults)
			if ok {
				accepted++
				verified = strs[len(strs)-1]
				a.Update(verified)
				at = int(verified.Epoch - chain[0].Epoch)
			}
		}
		if accepted > 0 && chain[0].Epoch > 0 {
			c.NT()
		}
	})
}
