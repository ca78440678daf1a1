//go:build go1.23

package proto_test

import (
	"crypto/rand"
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// equivocates decides from the definitions whether the roots an auditor
// returned are at odds with what the client has pinned.
func equivocates(k *world.Keys, pinned *protocol.DirSTR, strs []*protocol.DirSTR) map[error]bool {
	f := map[error]bool{}
	if len(strs) == 0 {
		f[protocol.ErrMalformedMessage] = true
		return f
	}
	for i, s := range strs {
		if !world.Complete(s) {
			f[protocol.ErrMalformedMessage] = true
			continue
		}
		if i > 0 {
			if !world.Signed(k, s) {
				f[protocol.CheckBadSignature] = true
			}
			if world.Complete(strs[i-1]) && !world.Follows(strs[i-1], s) {
				f[protocol.CheckBadSTR] = true
			}
		}
	}
	last := strs[len(strs)-1]
	if !world.Complete(last) {
		return f
	}
	_, f1 := world.Extends(k, pinned, []*protocol.DirSTR{last})
	for e := range f1 {
		f[e] = true
	}
	return f
}

func checkEquivocation(c *vh.Case, v *world.View, r *protocol.Response, f map[error]bool) error {
	c.T.Helper()
	was, msg := world.JS(v.Pinned), world.JS(r)
	err := v.CC.CheckEquivocation(r)
	judged(c, "equivocation check", err, len(f) == 0, f)
	if v.CC.VerifiedSTR() != v.Pinned || world.JS(v.Pinned) != was {
		c.Fatalf("the equivocation check changed the pinned signed root")
	}
	if world.JS(r) != msg {
		c.Fatalf("the equivocation check changed the message")
	}
	return err
}

func TestC21_Lists(t *testing.T) {
	vh.Check(t, vh.N{Quick: 6400}, func(rt *rapid.T, c *vh.Case) {
		auditedRange(rt, c, world.NewChains(rt, c), 8, 4)
	})
}

// Long ranges.
func TestC21_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 160}, func(rt *rapid.T, c *vh.Case) {
		auditedRange(rt, c, world.NewLongChains(rt, c, 400), 12, 400)
	})
}

func auditedRange(rt *rapid.T, c *vh.Case, p *world.Chains, answers, back int) {
	x := 0
	if rapid.Bool().Draw(rt, "clientForked") {
		x = rapid.IntRange(0, len(p.Chains)-1).Draw(rt, "clientChain")
	}
	ch := p.Chains[x]
	e := rapid.IntRange(0, len(ch)-1).Draw(rt, "clientEpoch")
	v := world.NewView(c, p.K, nil, p.Cp(ch[e]), false)
	c.Tracef("client on chain %d in epoch %d", x, e)
	passed, refused := 0, 0
	for i := rapid.IntRange(1, answers).Draw(rt, "answers"); i > 0; i-- {
		at := max(0, e-rapid.IntRange(0, min(back, e)).Draw(rt, "back"))
		var strs []*protocol.DirSTR
		if back > 4 && rapid.Bool().Draw(rt, "toPinned") {
			strs = p.DrawTo(rt, c, x, e)
		} else {
			strs = p.Draw(rt, c, uint64(at))
		}
		if rapid.IntRange(0, 3).Draw(rt, "forge") == 0 { // what the client saw, and a root nobody else has
			strs = nil
			for _, s := range ch[at : e+1] {
				strs = append(strs, p.Cp(s))
			}
			s := world.MakeSTR(p.K, ch[e], c.Rand.Bytes(32), protocol.Timestamp(c.Rand.Uint64()))
			how := rapid.SampledFrom([]string{"signed", "with the pinned root's signature", "with another root's signature", "signed by another", "unsigned"}).Draw(rt, "signature")
			switch how {
			case "with the pinned root's signature":
				s.Signature = mt.Cp(ch[e].Signature)
			case "with another root's signature":
				s.Signature = mt.Cp(ch[rapid.IntRange(0, len(ch)-1).Draw(rt, "of")].Signature)
			case "signed by another":
				world.SignSTR(p.Other, s)
			case "unsigned":
				s.Signature = nil
			}
			if !p.Wire {
				s.Ad = s.Policies
			}
			strs = append(strs, p.Cp(s))[rapid.IntRange(0, e+1-at).Draw(rt, "skip"):]
			c.Tracef("list: own chain from %d of %d, then a root %s", at, e, how)
			c.Class("forged: " + how)
		}
		if n := len(strs); n > 1 && rapid.Bool().Draw(rt, "fit") { // end where the client can compare
			for n > 1 && strs[n-1] != nil && strs[n-1].SignedTreeRoot != nil && strs[n-1].Epoch > uint64(e)+1 {
				n--
			}
			strs = strs[:n]
		}
		r := protocol.NewSTRHistoryRange(strs)
		f := equivocates(p.K, v.Pinned, strs)
		if rapid.IntRange(0, 19).Draw(rt, "code") == 0 {
			r.Error = world.Code(rt)
			if world.RefusedCodes[r.Error] {
				f = map[error]bool{r.Error: true}
			}
		}
		if err := checkEquivocation(c, v, r, f); err == nil {
			passed++
		} else {
			refused++
		}
	}
	if refused > 0 && passed > 0 {
		c.NT()
	}
}

// A directory shows one history to a client and another to an auditor.
func TestC21_Twins(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) {
		twins(rt, c, rapid.IntRange(0, 7).Draw(rt, "epochs"))
	})
}

func TestC21_LongTwins(t *testing.T) {
	vh.Check(t, vh.N{Quick: 80}, func(rt *rapid.T, c *vh.Case) {
		twins(rt, c, vh.LogInt(rt, "epochs", 8, 300))
	})
}

func twins(rt *rapid.T, c *vh.Case, epochs int) {
	names := world.Names(rt, false, 3)
	k := world.NewKeys(c, false)
	seed := c.Rand.Uint64()
	var d [2]*world.Dir // 0: shown to the client; 1: shown to the auditor
	var rnd [2]*vh.DRBG
	both := func(from int, f func(d *world.Dir)) {
		for i := from; i < 2; i++ {
			rand.Reader = rnd[i]
			f(d[i])
			rand.Reader = c.Rand
		}
	}
	for i := range d {
		rnd[i] = vh.NewDRBG(seed)
		rand.Reader = rnd[i]
		d[i] = world.NewDirWith(c, k, 7, 2*epochs+30, names)
		rand.Reader = c.Rand
	}
	vrfs := world.VRFs{}
	vrfs.Add(k)
	wire := rapid.Bool().Draw(rt, "wire")
	v := world.NewView(c, k, vrfs, d[0].STRs[0], wire)
	forkAt := rapid.IntRange(0, epochs+3).Draw(rt, "fork") // beyond the end: none
	for e := 0; e < epochs; e++ {
		if rapid.Bool().Draw(rt, "reg") {
			name, key := names[rapid.IntRange(0, 2).Draw(rt, "name")], world.Key(rt)
			both(0, func(d *world.Dir) { d.Register(name, key) })
		}
		if e == forkAt {
			c.Tracef("--- fork")
			switch rapid.IntRange(0, 2).Draw(rt, "how") {
			case 0:
				both(1, func(d *world.Dir) { d.Register("only the auditor sees me", []byte("k")) })
			case 1:
				both(1, func(d *world.Dir) { d.SetPolicies(8) })
			case 2: // the same name, with another key
				rand.Reader = rnd[0]
				d[0].Register("mallory", []byte("k"))
				rand.Reader = rnd[1]
				d[1].Register("mallory", []byte("k'"))
				rand.Reader = c.Rand
			}
		}
		both(0, func(d *world.Dir) { d.Update() })
	}
	last := d[0].Latest()
	fork := last + 1 // first differing epoch
	for e := uint64(0); e <= last; e++ {
		if !world.SameSTR(d[0].STRs[e], d[1].STRs[e]) {
			fork = e
			break
		}
	}
	// the client follows to some epoch
	ce := rapid.Uint64Range(0, last).Draw(rt, "clientEpoch")
	for e := uint64(1); e <= ce; e++ {
		s := d[0].STRs[e]
		if wire {
			s = world.CopySTR(s)
		}
		if err := v.CC.AuditDirectory([]*protocol.DirSTR{s}); err != nil {
			c.Fatalf("client: %v", err)
		}
		v.CC.Update(s)
		v.Pinned = s
	}
	c.Tracef("client in epoch %d, fork %d, last %d, wire %v", ce, fork, last, wire)
	send := func(r *protocol.Response) *protocol.Response {
		if wire {
			return world.Wire(c, protocol.AuditType, r)
		}
		return r
	}
	// the auditor follows the other one
	log := auditlog.New()
	init := d[1].STRs[0]
	if wire {
		init = world.CopySTR(init)
	}
	if err := log.InitHistory("addr", k.Pub, []*protocol.DirSTR{init}); err != nil {
		c.Fatalf("auditor: %v", err)
	}
	id := identity(init)
	for ae := uint64(0); ae < last; {
		to := rapid.Uint64Range(ae+1, last).Draw(rt, "to")
		r := send(d[1].History(ae+rapid.Uint64Range(0, 1).Draw(rt, "from"), to))
		if err := log[id].Audit(r); err != nil {
			c.Fatalf("an honest extension to %d is refused: %v", to, err)
		}
		ae = to
	}
	for i := rapid.IntRange(1, 6).Draw(rt, "requests"); i > 0; i-- {
		from := rapid.Uint64Range(0, last).Draw(rt, "from")
		to := rapid.Uint64Range(from, last).Draw(rt, "to")
		if rapid.Bool().Draw(rt, "current") && from <= ce {
			to = ce
		}
		r := send(log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: from, EndEpoch: to}))
		err := v.CC.CheckEquivocation(r)
		c.Tracef("audited %d to %d -> %v", from, to, err)
		switch {
		case fork <= ce && err == nil:
			c.Fatalf("the histories differ from epoch %d on, the client is in epoch %d, but the audited range %d to %d passes", fork, ce, from, to)
		case fork > ce && (to == ce || to == ce+1) && err != nil:
			c.Fatalf("the histories agree up to epoch %d, the client is in epoch %d, but the audited range %d to %d gives %v", fork-1, ce, from, to, err)
		case err != nil && err != protocol.CheckBadSTR:
			c.Fatalf("audited range %d to %d, client in epoch %d: %v", from, to, ce, err)
		}
		if v.CC.VerifiedSTR() != v.Pinned {
			c.Fatalf("the equivocation check replaced the pinned signed root")
		}
		if fork <= ce {
			c.Class("forked")
		} else {
			c.Class("same history")
		}
	}
	// an answer from the other history
	r := d[1].Lookup(names[0])
	v.Handle(protocol.KeyLookupType, v.Send(protocol.KeyLookupType, r), names[0], nil)
	if last > 0 && ce > 0 {
		c.NT()
	}
}
