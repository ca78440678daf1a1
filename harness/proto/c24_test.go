//go:build go1.23

package proto_test

import (
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// decode decodes what a client received.
func decode(c *vh.Case, typ int, b []byte) *protocol.Response {
	c.T.Helper()
	r := application.UnmarshalResponse(typ, b)
	if r == nil {
		c.Fatalf("decoding gives nothing")
	}
	return r
}

// audits is the range in a message.
func audits(m *protocol.Response) []*protocol.DirSTR {
	if h, ok := m.DirectoryResponse.(*protocol.STRHistoryRange); ok && h != nil {
		return h.STR
	}
	return nil
}

// audited has a client compare a message with its own view.
func audited(c *vh.Case, k *world.Keys, v *world.View, m *protocol.Response) error {
	c.T.Helper()
	f := equivocates(k, v.Pinned, audits(m))
	if world.RefusedCodes[m.Error] {
		f = map[error]bool{m.Error: true}
	}
	return checkEquivocation(c, v, m, f)
}

func TestC24_Answers(t *testing.T) {
	vh.Check(t, vh.N{Quick: 3200}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, 4, rapid.IntRange(1, 4).Draw(rt, "names"))
		vrfs := world.VRFs{}
		vrfs.Add(d.Keys)
		v := world.NewView(c, d.Keys, vrfs, d.STRs[0], true)
		refused := 0
		for i := rapid.IntRange(1, 8).Draw(rt, "ops"); i > 0; i-- {
			name := d.Name(rt)
			var r *protocol.Response
			var key []byte
			typ := protocol.KeyLookupType
			if rapid.Bool().Draw(rt, "register") {
				key, typ = world.Key(rt), protocol.RegistrationType
				r = d.Register(name, key)
			} else {
				if rapid.Bool().Draw(rt, "known") {
					key = v.Bindings[name]
				}
				r = d.Lookup(name)
			}
			tree := vh.ParseJSON(world.JS(r))
			for j := rapid.IntRange(1, 6).Draw(rt, "mutants"); j > 0; j-- {
				b, what := vh.MutateText(rt, tree)
				c.Tracef("mutant: %s", what)
				x := v.Fork()
				m := decode(c, typ, b)
				m.GetKey()
				if err := x.Handle(typ, m, name, key); err != nil {
					refused++
					c.Class("refused")
				} else {
					c.Class("accepted")
				}
				// nothing that was received as another kind of answer may crash either
				y := v.Fork()
				audited(c, d.Keys, y, decode(c, protocol.AuditType, b))
				if m2 := decode(c, 1-typ, b); m2 != nil {
					v.Fork().Handle(1-typ, m2, name, key)
				}
				decode(c, protocol.MonitoringType, b).GetKey()
				if v.Fork().CC.CheckEquivocation(m) == nil {
					c.Fatalf("the answer to a lookup passes as an audited range: %s", b)
				}
			}
			honest(c, d, v, typ, r, name, key)
			if rapid.IntRange(0, 2).Draw(rt, "update") == 0 {
				d.Update()
			}
		}
		if refused > 0 {
			c.NT()
		}
	})
}

func TestC24_Audits(t *testing.T) {
	vh.Check(t, vh.N{Quick: 3200}, func(rt *rapid.T, c *vh.Case) {
		p := world.NewChains(rt, c)
		p.Wire = true
		ch := p.Chains[0]
		e := rapid.IntRange(0, len(ch)-1).Draw(rt, "epoch")
		v := world.NewView(c, p.K, nil, ch[e], true)
		log := auditlog.New()
		if err := log.InitHistory("addr", p.K.Pub, world.CopySTRs(ch[:e+1])); err != nil {
			c.Fatalf("audit log: %v", err)
		}
		id := identity(ch[0])
		refused := 0
		for i := rapid.IntRange(1, 8).Draw(rt, "answers"); i > 0; i-- {
			from := rapid.IntRange(0, min(e+1, len(ch)-1)).Draw(rt, "from")
			to := rapid.IntRange(from, min(e+2, len(ch))).Draw(rt, "to")
			var strs []*protocol.DirSTR
			strs = append(strs, ch[from:to]...)
			r := protocol.NewSTRHistoryRange(strs)
			b, what := vh.MutateText(rt, vh.ParseJSON(world.JS(r)))
			c.Tracef("range %d to %d, mutant: %s", from, to, what)
			m := decode(c, protocol.AuditType, b)
			if err := audited(c, p.K, v, m); err != nil {
				refused++
			}
			list := audits(m)
			ok, f := world.Extends(p.K, log[id].VerifiedSTR(), list)
			if world.RefusedCodes[m.Error] {
				ok, f = false, map[error]bool{m.Error: true}
			}
			judged(c, "audit", log[id].Audit(m), ok, f)
			if err := v.CC.HandleResponse(protocol.KeyLookupType, decode(c, protocol.KeyLookupType, b), "a", nil); err == nil {
				c.Fatalf("an audited range passes as the answer to a lookup")
			}
			for typ := protocol.RegistrationType; typ <= protocol.MonitoringType; typ++ {
				if err := v.CC.HandleResponse(typ, m, "a", []byte("k")); err == nil {
					c.Fatalf("an audited range passes as the answer to a request of type %d", typ)
				}
			}
			if len(v.CC.Bindings) != 0 {
				c.Fatalf("an audited range binds names: %v", v.CC.Bindings)
			}
			if v.CC.VerifiedSTR() != v.Pinned {
				c.Fatalf("the pinned signed root was replaced")
			}
		}
		if refused > 0 {
			c.NT()
		}
	})
}
