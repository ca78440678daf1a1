//go:build go1.23

package world

import (
	"encoding/json"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
)

// CopySTR copies a signed root, as decoding it does.
func CopySTR(s *protocol.DirSTR) *protocol.DirSTR {
	out := new(protocol.DirSTR)
	if err := json.Unmarshal([]byte(JS(s)), out); err != nil {
		vh.Infra("copy of a signed root: %v", err)
	}
	return out
}

// CopySTRs copies signed roots.
func CopySTRs(ss []*protocol.DirSTR) []*protocol.DirSTR {
	var out []*protocol.DirSTR
	for _, s := range ss {
		if s == nil {
			out = append(out, nil)
			continue
		}
		out = append(out, CopySTR(s))
	}
	return out
}

// Wire sends r over the wire.
func Wire(c *vh.Case, reqType int, r *protocol.Response) *protocol.Response {
	c.T.Helper()
	b, err := application.MarshalResponse(r)
	if err != nil {
		c.Fatalf("encoding an answer: %v", err)
	}
	return application.UnmarshalResponse(reqType, b)
}

// CopyProof copies a directory proof (deeply, keeping nil parts).
func CopyProof(p *protocol.DirectoryProof) *protocol.DirectoryProof {
	out := &protocol.DirectoryProof{STR: CopySTRs(p.STR), TB: copyTB(p.TB)}
	for _, ap := range p.AP {
		var a *merkletree.AuthenticationPath
		if ap != nil {
			a = new(merkletree.AuthenticationPath)
			if err := json.Unmarshal([]byte(JS(ap)), a); err != nil {
				vh.Infra("copy of a proof: %v", err)
			}
		}
		out.AP = append(out.AP, a)
	}
	return out
}
