//go:build go1.23

package proto_test

import (
	"testing"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/protocol/auditor"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// observed is what the log must have for a directory.
type observed struct {
	k        *world.Keys
	pool     *world.Chains
	verified *protocol.DirSTR
	strs     []string // per epoch
}

func identity(s *protocol.DirSTR) (id [32]byte) {
	copy(id[:], ref.Hash(s.Signature))
	return
}

func TestC18_Log(t *testing.T) {
	vh.Check(t, vh.N{Quick: 3200}, func(rt *rapid.T, c *vh.Case) {
		logged(rt, c, 3, 20, 2, func() *world.Chains { return world.NewChains(rt, c) })
	})
}

// Long histories.
func TestC18_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 80}, func(rt *rapid.T, c *vh.Case) {
		logged(rt, c, 2, 14, 2, func() *world.Chains { return world.NewLongChains(rt, c, 300) })
	})
}

// Many directories.
func TestC18_Many(t *testing.T) {
	vh.Check(t, vh.N{Quick: 64}, func(rt *rapid.T, c *vh.Case) {
		logged(rt, c, 60, 120, 5, func() *world.Chains { return world.NewChains(rt, c) })
	})
}

// Thousands of epochs, of a directory that is audited in a few big steps.
func TestC18_Huge(t *testing.T) {
	vh.Check(t, vh.N{Quick: 24, Thorough: 240}, func(rt *rapid.T, c *vh.Case) {
		k := world.NewKeys(c, false)
		n := vh.LogInt(rt, "epochs", 500, 3000)
		var ch []*protocol.DirSTR
		for i := 0; i < n; i++ {
			if i == 0 {
				ch = append(ch, world.MakeFirst(k, 0, c.Rand.Bytes(32), 60))
			} else {
				ch = append(ch, world.MakeSTR(k, ch[i-1], c.Rand.Bytes(32), 60))
			}
		}
		log := auditlog.New()
		upto := vh.LogInt(rt, "initial", 1, n)
		if err := log.InitHistory("addr", k.Pub, world.CopySTRs(ch[:upto])); err != nil {
			c.Fatalf("initialisation with %d roots: %v", upto, err)
		}
		id := identity(ch[0])
		audits := 0
		for ; upto < n; audits++ {
			to := min(n, upto+vh.LogInt(rt, "step", 30, n))
			if err := log[id].Audit(protocol.NewSTRHistoryRange(world.CopySTRs(ch[upto:to]))); err != nil {
				c.Fatalf("audit of the epochs %d to %d: %v", upto, to-1, err)
			}
			upto = to
		}
		c.Tracef("%d epochs, %d audits", n, audits)
		ask := func(from, to int) {
			r := log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: uint64(from), EndEpoch: uint64(to)})
			h, ok := r.DirectoryResponse.(*protocol.STRHistoryRange)
			if r.Error != protocol.ReqSuccess || !ok || len(h.STR) != to-from+1 {
				c.Fatalf("range %d to %d: code %d, %T", from, to, r.Error, r.DirectoryResponse)
			}
			for j, s := range h.STR {
				if !world.SameSTR(s, ch[from+j]) {
					c.Fatalf("epoch %d: got %s, accepted was %s", from+j, world.JS(s), world.JS(ch[from+j]))
				}
			}
		}
		ask(0, n-1)
		for i := 0; i < 3; i++ {
			from := rapid.IntRange(0, n-1).Draw(rt, "from")
			ask(from, rapid.IntRange(from, n-1).Draw(rt, "to"))
		}
		if audits > 0 {
			c.NT()
		}
	})
}

func logged(rt *rapid.T, c *vh.Case, dirs, ops, inits int, pool func() *world.Chains) {
	log := auditlog.New()
	model := map[[32]byte]*observed{}
	var ids [][32]byte
	var pools []*world.Chains
	for i := rapid.IntRange(1, dirs).Draw(rt, "directories"); i > 0; i-- {
		pools = append(pools, pool())
	}
	verify := func() {
		for _, id := range ids {
			o := model[id]
			r := log.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: 0, EndEpoch: o.verified.Epoch})
			h, ok := r.DirectoryResponse.(*protocol.STRHistoryRange)
			if r.Error != protocol.ReqSuccess || !ok || len(h.STR) != len(o.strs) {
				c.Fatalf("the log has not the history that was accepted: %s", world.JS(r))
			}
			for e, s := range h.STR {
				if world.JS(s) != o.strs[e] {
					c.Fatalf("epoch %d: the log has %s, accepted was %s", e, world.JS(s), o.strs[e])
				}
			}
		}
	}
	audits, refused := 0, 0
	for i := rapid.IntRange(2, ops).Draw(rt, "ops"); i > 0; i-- {
		p := pools[rapid.IntRange(0, len(pools)-1).Draw(rt, "directory")]
		switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
		case op < inits || len(ids) == 0: // initialise
			ch := p.Chains[0]
			if rapid.IntRange(0, 4).Draw(rt, "fork") == 0 {
				ch = p.Chains[rapid.IntRange(0, len(p.Chains)-1).Draw(rt, "chain")]
			}
			k := p.K
			from, n := 0, rapid.IntRange(0, len(ch)).Draw(rt, "snaps")
			if rapid.IntRange(0, 4).Draw(rt, "late") == 0 && len(ch) > 1 {
				from = rapid.IntRange(1, len(ch)-1).Draw(rt, "from")
			}
			var snaps []*protocol.DirSTR
			for j := from; j < len(ch) && j < from+n; j++ {
				snaps = append(snaps, p.Cp(ch[j]))
			}
			err := log.InitHistory("addr", k.Pub, snaps)
			c.Tracef("init with %d from %d -> %v", len(snaps), from, err)
			switch {
			case len(snaps) == 0 || snaps[0].Epoch != 0:
				if err != protocol.ErrMalformedMessage {
					c.Fatalf("initialisation without an initial signed root: %v", err)
				}
				c.Class("init without initial root")
			case model[identity(snaps[0])] != nil:
				if err != protocol.ErrAuditLog {
					c.Fatalf("a known directory was initialised again: %v", err)
				}
				c.Class("init of a known directory")
			default:
				if err != nil {
					c.Fatalf("initialisation refused: %v", err)
				}
				o := &observed{k: k, pool: p, verified: snaps[len(snaps)-1]}
				for _, s := range snaps {
					o.strs = append(o.strs, world.JS(s))
				}
				id := identity(snaps[0])
				if auditor.ComputeDirectoryIdentity(snaps[0]) != id {
					c.Fatalf("the identity is not the hash of the initial signature")
				}
				model[id] = o
				ids = append(ids, id)
			}
		case op < 6: // audit
			id := ids[rapid.IntRange(0, len(ids)-1).Draw(rt, "known")]
			o := model[id]
			if rapid.IntRange(0, 6).Draw(rt, "own") > 0 {
				p = o.pool
			}
			strs := p.Draw(rt, c, o.verified.Epoch)
			for len(strs) > 1 && rapid.IntRange(0, 3).Draw(rt, "shorter") == 0 {
				strs = strs[:len(strs)-1]
			}
			msg := protocol.NewSTRHistoryRange(strs)
			ok, faults := world.Extends(o.k, o.verified, strs)
			switch rapid.IntRange(0, 19).Draw(rt, "msg") {
			case 0:
				code := rapid.SampledFrom([]protocol.ErrorCode{protocol.ReqUnknownDirectory, protocol.ErrDirectory, protocol.ErrAuditLog, protocol.ErrMalformedMessage}).Draw(rt, "code")
				msg.Error = code
				ok, faults = false, map[error]bool{code: true}
			case 1:
				msg = &protocol.Response{Error: protocol.ReqSuccess}
				ok, faults = false, map[error]bool{protocol.ErrMalformedMessage: true}
			case 2:
				msg = &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: (*protocol.STRHistoryRange)(nil)}
				ok, faults = false, map[error]bool{protocol.ErrMalformedMessage: true}
			case 3:
				msg = &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.DirectoryProof{STR: strs, AP: []*merkletree.AuthenticationPath{{Leaf: &merkletree.ProofNode{}}}}}
				ok, faults = false, map[error]bool{protocol.ErrMalformedMessage: true}
			}
			for _, s := range strs { // a missing part is reported before anything else may be
				if !world.Complete(s) && len(faults) > 0 && msg.Error == protocol.ReqSuccess {
					faults[protocol.ErrMalformedMessage] = true
				}
			}
			err := log[id].Audit(msg)
			c.Tracef("audit of %x -> %v", id[:4], err)
			judged(c, "audit", err, ok, faults)
			audits++
			if ok {
				for _, s := range strs {
					if s.Epoch == uint64(len(o.strs)) {
						o.strs = append(o.strs, world.JS(s))
					}
				}
				o.verified = strs[len(strs)-1]
			} else {
				refused++
			}
		default: // request
			id := ids[rapid.IntRange(0, len(ids)-1).Draw(rt, "known")]
			o := model[id]
			last := o.verified.Epoch
			ep := func(l string) uint64 {
				switch rapid.IntRange(0, 7).Draw(rt, l+"_kind") {
				case 0:
					return rapid.Uint64().Draw(rt, l)
				case 1:
					return last + 1
				case 2:
					return ^uint64(0)
				}
				return rapid.Uint64Range(0, last).Draw(rt, l)
			}
			req := &protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: ep("from"), EndEpoch: ep("to")}
			known := true
			if rapid.IntRange(0, 6).Draw(rt, "unknown") == 0 {
				bit := rapid.IntRange(0, 255).Draw(rt, "bit")
				req.DirInitSTRHash[bit/8] ^= 1 << (bit % 8)
				_, known = model[req.DirInitSTRHash]
			}
			r := log.GetObservedSTRs(req)
			c.Tracef("request %d to %d -> %d", req.StartEpoch, req.EndEpoch, r.Error)
			switch {
			case !known:
				if r.Error != protocol.ReqUnknownDirectory || r.DirectoryResponse != nil {
					c.Fatalf("unknown directory: %s", world.JS(r))
				}
				c.Class("requests about unknown directories")
			case req.StartEpoch > req.EndEpoch || req.EndEpoch > last:
				if r.Error != protocol.ErrMalformedMessage || r.DirectoryResponse != nil {
					c.Fatalf("range %d to %d of %d: %s", req.StartEpoch, req.EndEpoch, last, world.JS(r))
				}
				c.Class("bad ranges")
			default:
				h, ok := r.DirectoryResponse.(*protocol.STRHistoryRange)
				if r.Error != protocol.ReqSuccess || !ok || uint64(len(h.STR)) != req.EndEpoch-req.StartEpoch+1 {
					c.Fatalf("range %d to %d: %s", req.StartEpoch, req.EndEpoch, world.JS(r))
				}
				for j, s := range h.STR {
					if world.JS(s) != o.strs[int(req.StartEpoch)+j] {
						c.Fatalf("epoch %d: got %s, accepted was %s", int(req.StartEpoch)+j, world.JS(s), o.strs[int(req.StartEpoch)+j])
					}
				}
				c.Class("ranges served")
			}
		}
		verify()
	}
	if audits > refused && refused > 0 {
		c.NT()
	}
	// identities of later roots are refused
	ch := pools[0].Chains[0]
	s := ch[rapid.IntRange(1, len(ch)-1).Draw(rt, "later")]
	func() {
		defer func() {
			if recover() == nil {
				c.Fatalf("the identity of a directory was computed from epoch %d", s.Epoch)
			}
		}()
		auditor.ComputeDirectoryIdentity(s)
	}()
}
