//go:build go1.23

package proto_test

import (
	"bytes"
	"os"
	"path/filepath"
	"reflect"
	"testing"
	"unicode/utf8"

	"github.com/coniks-sys/coniks-go/application"
	clientapp "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/auditlog"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

func text(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s)) // JSON texts carry text only
}

func anyText(rt *rapid.T, label string) string {
	switch rapid.IntRange(0, 3).Draw(rt, label+"_kind") {
	case 0:
		return rapid.String().Draw(rt, label)
	case 1:
		return rapid.SampledFrom([]string{"", "\x00", "\u2028", "<b>&amp;\"\\/", "alice@twitter", "\ufffd", "\U0010ffff", "é", "null", "{}", "\x7f\t\n"}).Draw(rt, label)
	}
	return text(string(vh.Bytes(rt, label, 400)))
}

func TestC23_Requests(t *testing.T) {
	vh.Check(t, vh.N{Quick: 16000}, func(rt *rapid.T, c *vh.Case) {
		name, key := anyText(rt, "name"), vh.Bytes(rt, "key", 600)
		var b []byte
		var err error
		var want interface{}
		reqType := rapid.IntRange(0, 3).Draw(rt, "type")
		viaClient := rapid.Bool().Draw(rt, "client")
		switch {
		case reqType == protocol.RegistrationType && viaClient:
			want = &protocol.RegistrationRequest{Username: name, Key: key}
			b, err = clientapp.CreateRegistrationMsg(name, key)
		case reqType == protocol.KeyLookupType && viaClient:
			want = &protocol.KeyLookupRequest{Username: name}
			b, err = clientapp.CreateKeyLookupMsg(name)
		default:
			switch reqType {
			case protocol.RegistrationType:
				want = &protocol.RegistrationRequest{Username: name, Key: key, AllowUnsignedKeychange: rapid.Bool().Draw(rt, "a"), AllowPublicLookup: rapid.Bool().Draw(rt, "b")}
			case protocol.KeyLookupType:
				want = &protocol.KeyLookupRequest{Username: name}
			case protocol.KeyLookupInEpochType:
				want = &protocol.KeyLookupInEpochRequest{Username: name, Epoch: rapid.Uint64().Draw(rt, "epoch")}
			case protocol.MonitoringType:
				want = &protocol.MonitoringRequest{Username: name, StartEpoch: rapid.Uint64().Draw(rt, "from"), EndEpoch: rapid.Uint64().Draw(rt, "to")}
			}
			b, err = application.MarshalRequest(reqType, want)
		}
		c.Tracef("request %d %+v", reqType, want)
		if err != nil {
			c.Fatalf("encoding a request: %v", err)
		}
		got, err := application.UnmarshalRequest(b)
		if err != nil {
			c.Fatalf("decoding %s: %v", b, err)
		}
		if r, ok := want.(*protocol.RegistrationRequest); ok && len(r.Key) == 0 { // no key is no key
			if g, ok := got.Request.(*protocol.RegistrationRequest); ok && len(g.Key) == 0 {
				g.Key, r.Key = nil, nil
			}
		}
		if got.Type != reqType || !reflect.DeepEqual(got.Request, want) {
			c.Fatalf("request %d %+v arrives as %d %+v (%s)", reqType, want, got.Type, got.Request, b)
		}
		c.NT()
	})
}

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) && (a == nil) == (b == nil) }

func sameSTR(c *vh.Case, a, b *protocol.DirSTR) {
	c.T.Helper()
	if !world.Complete(b) || !bytes.Equal(a.TreeHash, b.TreeHash) || a.Epoch != b.Epoch || a.PreviousEpoch != b.PreviousEpoch ||
		!bytes.Equal(a.PreviousSTRHash, b.PreviousSTRHash) || !bytes.Equal(a.Signature, b.Signature) || !reflect.DeepEqual(a.Policies, b.Policies) {
		c.Fatalf("the signed root\n%s\narrives as\n%s", world.JS(a), world.JS(b))
	}
}

func sameResponse(c *vh.Case, a, b *protocol.Response) {
	c.T.Helper()
	bad := func(what string) {
		c.T.Helper()
		c.Fatalf("%s differ after transport\n%s\n%s", what, world.JS(a), world.JS(b))
	}
	if b == nil || a.Error != b.Error {
		bad("codes")
	}
	if a.DirectoryResponse == nil {
		if b.DirectoryResponse != nil {
			bad("contents")
		}
		return
	}
	strs := func(x, y []*protocol.DirSTR) {
		if len(x) != len(y) {
			bad("signed roots")
		}
		for i := range x {
			sameSTR(c, x[i], y[i])
		}
	}
	switch p := a.DirectoryResponse.(type) {
	case *protocol.STRHistoryRange:
		q, ok := b.DirectoryResponse.(*protocol.STRHistoryRange)
		if !ok || q == nil {
			bad("types")
		}
		strs(p.STR, q.STR)
	case *protocol.DirectoryProof:
		q, ok := b.DirectoryResponse.(*protocol.DirectoryProof)
		if !ok || q == nil {
			bad("types")
		}
		strs(p.STR, q.STR)
		if len(p.AP) != len(q.AP) {
			bad("paths")
		}
		for i, x := range p.AP {
			y := q.AP[i]
			if y == nil || y.Leaf == nil {
				bad("paths")
			}
			if !bytes.Equal(x.TreeNonce, y.TreeNonce) || !bytes.Equal(x.LookupIndex, y.LookupIndex) || !bytes.Equal(x.VrfProof, y.VrfProof) ||
				len(x.PrunedTree) != len(y.PrunedTree) || x.Leaf.Level != y.Leaf.Level || !bytes.Equal(x.Leaf.Index, y.Leaf.Index) ||
				!sameBytes(x.Leaf.Value, y.Leaf.Value) || x.Leaf.IsEmpty != y.Leaf.IsEmpty {
				bad("paths")
			}
			for j := range x.PrunedTree {
				if x.PrunedTree[j] != y.PrunedTree[j] {
					bad("paths")
				}
			}
			if cx, cy := x.Leaf.Commitment, y.Leaf.Commitment; (cx == nil) != (cy == nil) || cx != nil && (!bytes.Equal(cx.Salt, cy.Salt) || !bytes.Equal(cx.Value, cy.Value)) {
				bad("commitments")
			}
			if mt.CopyAP(x).ProofType() != y.ProofType() {
				bad("proof types")
			}
		}
		if (p.TB == nil) != (q.TB == nil) || p.TB != nil && (!bytes.Equal(p.TB.Index, q.TB.Index) || !bytes.Equal(p.TB.Value, q.TB.Value) || !bytes.Equal(p.TB.Signature, q.TB.Signature)) {
			bad("promises")
		}
	default:
		bad("types")
	}
}

func TestC23_Responses(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) {
		d := world.NewDir(rt, c, rapid.IntRange(2, 6).Draw(rt, "capacity"), rapid.IntRange(1, 6).Draw(rt, "names"))
		log := auditlog.New()
		if err := log.InitHistory("addr", d.Pub, []*protocol.DirSTR{d.STRs[0]}); err != nil {
			c.Fatalf("audit log: %v", err)
		}
		id := identity(d.STRs[0])
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		n := 0
		send := func(reqType int, r *protocol.Response, name string, e uint64) {
			got := world.Wire(c, reqType, r)
			sameResponse(c, r, got)
			n++
			c.Class(map[bool]string{true: "errors", false: "answers"}[r.DirectoryResponse == nil])
			if again := world.Wire(c, reqType, got); world.JS(again) != world.JS(got) {
				c.Fatalf("a decoded answer changes when sent on")
			}
			// the same checks pass and fail
			var strs []*protocol.DirSTR
			if p, ok := got.DirectoryResponse.(*protocol.DirectoryProof); ok {
				strs = p.STR
				orig := r.DirectoryResponse.(*protocol.DirectoryProof)
				for i, ap := range p.AP {
					key := d.Included[e+uint64(i)][name]
					for _, k := range [][]byte{key, nil, []byte("other")} {
						for _, root := range [][]byte{p.STR[i].TreeHash, vh.FlipBit(p.STR[i].TreeHash, 3)} {
							if a, b := mt.CopyAP(orig.AP[i]).Verify([]byte(name), k, root), mt.CopyAP(ap).Verify([]byte(name), k, root); a != b {
								c.Fatalf("the same check gives %v before and %v after transport", a, b)
							}
						}
					}
					if !p.STR[i].Policies.VrfPublicKey.Verify([]byte(name), ap.LookupIndex, ap.VrfProof) {
						c.Fatalf("the index of %q is not proved after transport", name)
					}
				}
				if tb := p.TB; tb != nil && !d.Pub.Verify(tb.Serialize(strs[0].Signature), tb.Signature) {
					c.Fatalf("the promise for %q is not valid after transport", name)
				}
			} else if h, ok := got.DirectoryResponse.(*protocol.STRHistoryRange); ok {
				strs = h.STR
			}
			for i, s := range strs {
				if !d.Pub.Verify(s.Serialize(), s.Signature) || i > 0 && !s.VerifyHashChain(strs[i-1]) {
					c.Fatalf("signed root %d is not valid after transport", s.Epoch)
				}
			}
		}
		for i := rapid.IntRange(3, 20).Draw(rt, "ops"); i > 0; i-- {
			name := opName(rt, d)
			switch rapid.IntRange(0, 9).Draw(rt, "op") {
			case 0, 1:
				d.Update()
				if err := log[id].Audit(world.Wire(c, protocol.STRType, protocol.NewSTRHistoryRange([]*protocol.DirSTR{d.STRs[d.Latest()]}))); err != nil {
					c.Fatalf("audit over the wire: %v", err)
				}
			case 2, 3:
				send(protocol.RegistrationType, d.Register(name, opKey(rt)), name, d.Latest())
			case 4, 5:
				send(protocol.KeyLookupType, d.Lookup(name), name, d.Latest())
			case 6:
				e := d.Epoch(rt, "epoch")
				send(protocol.KeyLookupInEpochType, d.LookupInEpoch(name, e), name, e)
			case 7:
				e := d.Epoch(rt, "from")
				send(protocol.MonitoringType, d.Monitor(name, e, d.Epoch(rt, "to")), name, e)
			case 8:
				e := d.Epoch(rt, "from")
				send(protocol.STRType, d.History(e, d.Epoch(rt, "to")), name, e)
			case 9:
				req := &protocol.AuditingRequest{DirInitSTRHash: id, StartEpoch: d.Epoch(rt, "from"), EndEpoch: d.Epoch(rt, "to")}
				if rapid.IntRange(0, 3).Draw(rt, "unknown") == 0 {
					req.DirInitSTRHash[0] ^= 1
				}
				send(protocol.AuditType, log.GetObservedSTRs(req), name, 0)
			}
		}
		for _, code := range []protocol.ErrorCode{protocol.ReqUnknownDirectory, protocol.ErrDirectory, protocol.ErrAuditLog, protocol.ErrMalformedMessage} {
			for typ := protocol.RegistrationType; typ <= protocol.STRType; typ++ {
				sameResponse(c, protocol.NewErrorResponse(code), world.Wire(c, typ, protocol.NewErrorResponse(code)))
			}
		}
		// files
		e := rapid.IntRange(0, int(d.Latest())).Draw(rt, "saved")
		file := filepath.Join(dir, "init.str")
		if err := application.SaveSTR(file, d.STRs[e]); err != nil {
			c.Fatalf("saving signed root %d: %v", e, err)
		}
		got, err := application.LoadInitSTR("init.str", filepath.Join(dir, "config.toml"))
		switch {
		case e == 0 && err != nil:
			c.Fatalf("loading an initial signed root: %v", err)
		case e == 0:
			sameSTR(c, d.STRs[0], got)
			if !d.Pub.Verify(got.Serialize(), got.Signature) {
				c.Fatalf("a loaded signed root does not verify")
			}
		case err == nil || got != nil:
			c.Fatalf("signed root %d is loaded as an initial one", e)
		}
		if n > 2 {
			c.NT()
		}
	})
}

var _ = merkletree.ProofOfAbsence
