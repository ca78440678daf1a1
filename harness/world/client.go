//go:build go1.23

package world

import (
	"bytes"

	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/client"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
)

// VRFs are all the VRF keys there are, by public key.
type VRFs map[string]*Keys

// Add adds the VRF key of k.
func (m VRFs) Add(k *Keys) { m[string(k.VRFPub)] = k }

// View is a client together with what it must know.
type View struct {
	C        *vh.Case
	K        *Keys // of the directory; only the public halves are used
	VRFs     VRFs
	CC       *client.ConsistencyChecks
	Wire     bool
	Pinned   *protocol.DirSTR
	TBs      map[string]*protocol.TemporaryBinding
	Bindings map[string][]byte
}

// NewView makes a client that has pinned s.
func NewView(c *vh.Case, k *Keys, vrfs VRFs, s *protocol.DirSTR, wire bool) *View {
	if wire {
		s = CopySTR(s)
	}
	return &View{C: c, K: k, VRFs: vrfs, Wire: wire, Pinned: s, CC: client.New(s, true, k.Pub),
		TBs: map[string]*protocol.TemporaryBinding{}, Bindings: map[string][]byte{}}
}

// Fork is another client that knows the same.
func (v *View) Fork() *View {
	o := NewView(v.C, v.K, v.VRFs, v.Pinned, false)
	o.Wire = v.Wire
	for n, b := range v.Bindings {
		o.Bindings[n], o.CC.Bindings[n] = mt.Cp(b), mt.Cp(b)
	}
	for n, tb := range v.TBs {
		o.TBs[n], o.CC.TBs[n] = copyTB(tb), copyTB(tb)
	}
	return o
}

// Send passes an answer to the client's side.
func (v *View) Send(reqType int, r *protocol.Response) *protocol.Response {
	if v.Wire {
		return Wire(v.C, reqType, r)
	}
	return r
}

// RefusedCodes are the codes of answers that have nothing to check.
var RefusedCodes = map[protocol.ErrorCode]bool{protocol.ReqUnknownDirectory: true, protocol.ErrMalformedMessage: true,
	protocol.ErrDirectory: true, protocol.ErrAuditLog: true}

// Included tells which kind of proof ap claims to be.
func claimsInclusion(ap *merkletree.AuthenticationPath) bool {
	return !ap.Leaf.IsEmpty && bytes.Equal(ap.LookupIndex, ap.Leaf.Index)
}

// Faults decides from the definitions whether the answer r proves its outcome
// to the client: the codes of all checks it fails.  strOK: its signed root
// continues the pinned one.
func (v *View) Faults(reqType int, r *protocol.Response, name string, key []byte) (f map[error]bool, strOK bool) {
	f = map[error]bool{}
	if RefusedCodes[r.Error] {
		f[r.Error] = true
		return f, false
	}
	p, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || p == nil {
		f[protocol.ErrMalformedMessage] = true
		return f, false
	}
	for _, s := range p.STR {
		if !Complete(s) {
			f[protocol.ErrMalformedMessage] = true
		}
	}
	for _, ap := range p.AP {
		if ap == nil || ap.Leaf == nil {
			f[protocol.ErrMalformedMessage] = true
		}
	}
	if len(p.STR) != 1 || len(p.AP) != 1 {
		f[protocol.ErrMalformedMessage] = true
	}
	if len(p.STR) == 0 || !Complete(p.STR[0]) {
		return f, false
	}
	str := p.STR[0]
	strOK, f1 := Extends(v.K, v.Pinned, p.STR[:1])
	for e := range f1 {
		f[e] = true
	}
	if len(p.AP) == 0 || p.AP[0] == nil || p.AP[0].Leaf == nil {
		return f, strOK
	}
	ap, tb := p.AP[0], p.TB
	incl := claimsInclusion(ap)
	switch {
	case reqType == protocol.RegistrationType && (r.Error == protocol.ReqNameExisted || r.Error == protocol.ReqSuccess && !incl):
	case reqType == protocol.KeyLookupType && (r.Error == protocol.ReqSuccess || r.Error == protocol.ReqNameNotFound && !incl && tb == nil):
	default:
		f[protocol.ErrMalformedMessage] = true
	}
	vk := v.VRFs[string(str.Policies.VrfPublicKey)]
	if vk == nil || !bytes.Equal(vk.Index(name), ap.LookupIndex) || !str.Policies.VrfPublicKey.Verify([]byte(name), ap.LookupIndex, ap.VrfProof) {
		f[protocol.CheckBadVRFProof] = true
	}
	root, shaped := mt.Root(ap)
	if !shaped || !bytes.Equal(root, str.TreeHash) {
		f[protocol.CheckBadAuthPath] = true
	}
	if incl {
		want := key
		if want == nil {
			want = ap.Leaf.Value
		}
		if !bytes.Equal(want, ap.Leaf.Value) {
			f[protocol.CheckBindingsDiffer] = true
		}
		if cm := ap.Leaf.Commitment; cm == nil || len(cm.Salt) != 32 || !bytes.Equal(cm.Value, ref.CommitValue(cm.Salt, name, want)) {
			f[protocol.CheckBadCommitment] = true
		}
	} else {
		n := int(min(uint64(ap.Leaf.Level), 8*uint64(len(ap.Leaf.Index)), 8*uint64(len(ap.LookupIndex))))
		if !bytes.Equal(ref.Prefix(ap.Leaf.Index, n), ref.Prefix(ap.LookupIndex, n)) {
			f[protocol.CheckBadLookupIndex] = true
		}
		if ap.Leaf.Value != nil {
			f[protocol.CheckBindingsDiffer] = true
		}
	}
	held := v.TBs[name]
	if incl {
		if held != nil && (!bytes.Equal(held.Index, ap.LookupIndex) || !bytes.Equal(held.Value, ap.Leaf.Value)) {
			f[protocol.CheckBrokenPromise] = true
		}
		return f, strOK
	}
	if held != nil && (tb == nil || !bytes.Equal(held.Index, tb.Index) || !bytes.Equal(held.Value, tb.Value) || !v.promises(held, str)) {
		f[protocol.CheckBrokenPromise] = true
	}
	if reqType == protocol.RegistrationType || r.Error != protocol.ReqNameNotFound {
		if tb == nil {
			f[protocol.CheckBadPromise] = true
			return f, strOK
		}
		if !bytes.Equal(tb.Index, ap.LookupIndex) {
			f[protocol.CheckBadPromise] = true
		}
		if !v.promises(tb, str) {
			f[protocol.CheckBadSignature] = true
		}
		if key != nil && !bytes.Equal(tb.Value, key) {
			f[protocol.CheckBindingsDiffer] = true
		}
	}
	return f, strOK
}

// promises: tb is a promise of the epoch of str.
func (v *View) promises(tb *protocol.TemporaryBinding, str *protocol.DirSTR) bool {
	return len(tb.Signature) == 64 && edVerify(v.K.Pub, TBMessage(str.Signature, tb.Index, tb.Value), tb.Signature)
}

// Handle has the client handle an answer (already on its side of the wire),
// and checks the verdict and what the client knows afterwards.
func (v *View) Handle(reqType int, r *protocol.Response, name string, key []byte) error {
	c := v.C
	c.T.Helper()
	f, strOK := v.Faults(reqType, r, name, key)
	was, passed := JS(r), mt.Cp(key)
	err := v.CC.HandleResponse(reqType, r, name, passed)
	c.Tracef("client: request %d for %q, key %s: code %d -> %v (faults %v)", reqType, name, vh.Hex(key), r.Error, err, f)
	if JS(r) != was || !bytes.Equal(passed, key) {
		c.Fatalf("handling changed the answer or the key")
	}
	pinned := v.CC.VerifiedSTR()
	if err != nil {
		if len(f) > 0 && !f[err] {
			c.Fatalf("the answer is refused with %v, but what is wrong with it is %v\n%s", err, f, was)
		}
		if pinned != v.Pinned && !(strOK && SameSTR(pinned, r.DirectoryResponse.(*protocol.DirectoryProof).STR[0])) {
			c.Fatalf("the answer is refused with %v, but the pinned signed root is replaced (signed root good: %v)\n%s", err, strOK, was)
		}
		v.Pinned = pinned
		v.check("after a refused answer")
		return err
	}
	if len(f) > 0 {
		c.Fatalf("the answer is accepted, although %v\n%s", f, was)
	}
	p := r.DirectoryResponse.(*protocol.DirectoryProof)
	if !SameSTR(pinned, p.STR[0]) {
		c.Fatalf("after an accepted answer the pinned signed root is\n%s\nnot\n%s", JS(pinned), JS(p.STR[0]))
	}
	v.Pinned = pinned
	var shown []byte
	switch {
	case claimsInclusion(p.AP[0]):
		shown = p.AP[0].Leaf.Value
		delete(v.TBs, name)
	case p.TB != nil:
		shown = p.TB.Value
		v.TBs[name] = copyTB(p.TB)
	}
	if shown != nil {
		v.Bindings[name] = mt.Cp(shown)
	}
	if got, gerr := r.GetKey(); gerr != nil || !bytes.Equal(got, shown) || (got == nil) != (shown == nil) {
		c.Fatalf("the key of the answer is %s (%v), should be %s", vh.Hex(got), gerr, vh.Hex(shown))
	}
	v.check("after an accepted answer")
	return nil
}

// check compares what the client knows with what it must know.
func (v *View) check(when string) {
	c := v.C
	c.T.Helper()
	if len(v.CC.Bindings) != len(v.Bindings) {
		c.Fatalf("%s the client knows %d bindings, should be %d", when, len(v.CC.Bindings), len(v.Bindings))
	}
	for n, k := range v.Bindings {
		if !bytes.Equal(v.CC.Bindings[n], k) {
			c.Fatalf("%s the client has key %s for %q, should be %s", when, vh.Hex(v.CC.Bindings[n]), n, vh.Hex(k))
		}
	}
	if len(v.CC.TBs) != len(v.TBs) {
		c.Fatalf("%s the client holds %d promises, should be %d", when, len(v.CC.TBs), len(v.TBs))
	}
	for n, tb := range v.TBs {
		if JS(v.CC.TBs[n]) != JS(tb) {
			c.Fatalf("%s the client holds the promise %s for %q, should be %s", when, JS(v.CC.TBs[n]), n, JS(tb))
		}
	}
}
