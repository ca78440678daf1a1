//go:build go1.23

// Package world has the models the protocol checks share: a directory with its
// reference state, the acceptance rules for answers, and dishonest directories.
package world

import (
	"bytes"
	"encoding/json"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// Keys of a directory.
type Keys struct {
	VRF    vrf.PrivateKey
	VRFPub vrf.PublicKey
	Sign   sign.PrivateKey
	Pub    sign.PublicKey
	index  map[string][]byte
}

// DeepVRF is the key under which vh.DeepNames are close.
var DeepVRF = func() vrf.PrivateKey {
	k, err := vrf.GenerateKey(vh.NewDRBG(42))
	if err != nil {
		panic(err)
	}
	return k
}()

// NewKeys makes a key set; deep: with the VRF key of vh.DeepNames.
func NewKeys(c *vh.Case, deep bool) *Keys {
	k := &Keys{VRF: DeepVRF, index: map[string][]byte{}}
	var err error
	if !deep {
		if k.VRF, err = vrf.GenerateKey(c.Rand); err != nil {
			c.Fatalf("vrf key: %v", err)
		}
	}
	if k.Sign, err = sign.GenerateKey(c.Rand); err != nil {
		c.Fatalf("sign key: %v", err)
	}
	k.VRFPub, _ = k.VRF.Public()
	k.Pub, _ = k.Sign.Public()
	return k
}

// Index of a name.
func (k *Keys) Index(name string) []byte {
	if ix := k.index[name]; ix != nil {
		return ix
	}
	ix := k.VRF.Compute([]byte(name))
	k.index[name] = ix
	return ix
}

// Pend is a registration of the running epoch.
type Pend struct {
	Key []byte
	TB  *protocol.TemporaryBinding // a copy of the promise as first given
}

// Dir is a directory together with its reference state.
type Dir struct {
	*Keys
	C         *vh.Case
	D         Backend
	Cap       int
	Names     []string
	Included  []map[string][]byte // per epoch
	Pending   map[string]*Pend
	STRs      []*protocol.DirSTR // per epoch, as first seen
	strJSON   []string
	Deadlines []protocol.Timestamp // per epoch
	set       protocol.Timestamp   // last set
	next      protocol.Timestamp   // of the next signed root
	gone      uint64               // epochs below are known to be evicted
	anyGone   bool
}

// NewDir makes a directory with drawn keys and names.
func NewDir(rt *rapid.T, c *vh.Case, capacity, names int) *Dir {
	deep := rapid.Bool().Draw(rt, "deep")
	k := NewKeys(c, deep)
	dl := Deadline(rt)
	c.Tracef("directory capacity=%d deep=%v deadline=%d", capacity, deep, dl)
	return NewDirWith(c, k, dl, capacity, Names(rt, deep, names))
}

// Names draws names that can be registered.
func Names(rt *rapid.T, deep bool, n int) []string {
	names := vh.Names(rt, deep, n)
	for i, s := range names {
		if s == "" {
			names[i] = "no empty name"
		}
	}
	return names
}

// Deadline draws an epoch deadline.
func Deadline(rt *rapid.T) protocol.Timestamp {
	if rapid.Bool().Draw(rt, "smallDeadline") {
		return protocol.Timestamp(rapid.Uint64Range(0, 100).Draw(rt, "deadline"))
	}
	return protocol.Timestamp(rapid.Uint64().Draw(rt, "deadline"))
}

// Backend is what answers: a directory in memory, or one behind a server.
type Backend interface {
	Register(*protocol.RegistrationRequest) *protocol.Response
	KeyLookup(*protocol.KeyLookupRequest) *protocol.Response
	KeyLookupInEpoch(*protocol.KeyLookupInEpochRequest) *protocol.Response
	Monitor(*protocol.MonitoringRequest) *protocol.Response
	GetSTRHistory(*protocol.STRHistoryRequest) *protocol.Response
	Update()
	SetPolicies(protocol.Timestamp)
	LatestSTR() *protocol.DirSTR
}

// NewDirWith makes a directory from its parts.
func NewDirWith(c *vh.Case, k *Keys, deadline protocol.Timestamp, capacity int, names []string) *Dir {
	return NewDirOver(c, k, directory.New(deadline, k.VRF, k.Sign, uint64(capacity), true), deadline, capacity, names)
}

// NewDirOver makes the reference state of a fresh directory.
func NewDirOver(c *vh.Case, k *Keys, b Backend, deadline protocol.Timestamp, capacity int, names []string) *Dir {
	d := &Dir{Keys: k, C: c, Cap: capacity, Names: names, Pending: map[string]*Pend{}, set: deadline, next: deadline}
	d.D = b
	d.Included = []map[string][]byte{{}}
	d.seen()
	return d
}

// JS is the wire image of v.
func JS(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		vh.Infra("json: %v", err)
	}
	return string(b)
}

func (d *Dir) seen() {
	s := d.D.LatestSTR()
	d.STRs = append(d.STRs, s)
	d.strJSON = append(d.strJSON, JS(s))
	d.Deadlines = append(d.Deadlines, d.next)
	d.next = d.set
}

// Latest is the current epoch.
func (d *Dir) Latest() uint64 { return uint64(len(d.STRs) - 1) }

// Update ends the epoch.
func (d *Dir) Update() {
	d.D.Update()
	m := map[string][]byte{}
	for n, k := range d.Included[len(d.Included)-1] {
		m[n] = k
	}
	for n, p := range d.Pending {
		m[n] = p.Key
	}
	d.Included = append(d.Included, m)
	d.Pending = map[string]*Pend{}
	d.seen()
	d.C.Tracef("update -> epoch %d", d.Latest())
	d.CheckSTR(d.STRs[d.Latest()], d.Latest())
}

// SetPolicies changes the deadline.
func (d *Dir) SetPolicies(dl protocol.Timestamp) {
	d.D.SetPolicies(dl)
	d.set = dl
	d.C.Tracef("set deadline %d", dl)
}

// CheckSTR checks that s is the signed root of epoch e: contents, link, signature.
func (d *Dir) CheckSTR(s *protocol.DirSTR, e uint64) {
	c := d.C
	c.T.Helper()
	if s == nil || s.SignedTreeRoot == nil || s.Policies == nil {
		c.Fatalf("signed root %d is missing or incomplete", e)
	}
	if JS(s) != d.strJSON[e] {
		c.Fatalf("given as the signed root of epoch %d:\n%s\nwhich was\n%s", e, JS(s), d.strJSON[e])
	}
	prev := make([]byte, 0)
	if e > 0 {
		prev = d.STRs[e-1].Signature
		if !bytes.Equal(s.PreviousSTRHash, ref.Hash(prev)) || s.PreviousEpoch != e-1 {
			c.Fatalf("signed root %d does not follow signed root %d", e, e-1)
		}
	}
	if s.Epoch != e {
		c.Fatalf("signed root %d says epoch %d", e, s.Epoch)
	}
	p := s.Policies
	if p.Version != protocol.Version || p.HashID != "SHAKE128" || !bytes.Equal(p.VrfPublicKey, d.VRFPub) || p.EpochDeadline != d.Deadlines[e] {
		c.Fatalf("signed root %d announces %+v, should be deadline %d", e, p, d.Deadlines[e])
	}
	if !d.Keys.Pub.Verify(STRMessage(s), s.Signature) {
		c.Fatalf("signed root %d: the signature does not cover its contents", e)
	}
}

// STRMessage is what the signature of a signed root is over, by definition.
func STRMessage(s *protocol.DirSTR) []byte {
	m := ref.LE64(s.Epoch)
	if s.Epoch > 0 {
		m = append(m, ref.LE64(s.PreviousEpoch)...)
	}
	m = append(append(m, s.TreeHash...), s.PreviousSTRHash...)
	p := s.Policies
	m = append(append(append(m, p.Version...), p.HashID...), p.VrfPublicKey...)
	return append(m, ref.LE64(uint64(p.EpochDeadline))...)
}

// TBMessage is what the signature of a promise is over, by definition.
func TBMessage(strSig, index, value []byte) []byte {
	return append(append(append([]byte{}, strSig...), index...), value...)
}

func (d *Dir) proof(r *protocol.Response) *protocol.DirectoryProof {
	d.C.T.Helper()
	p, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || p == nil {
		d.C.Fatalf("answer without a proof: %s", JS(r))
	}
	return p
}

// one checks the common part of registration and lookup answers.
func (d *Dir) one(r *protocol.Response) (*protocol.DirectoryProof, *merkletree.AuthenticationPath) {
	d.C.T.Helper()
	p := d.proof(r)
	if len(p.AP) != 1 || len(p.STR) != 1 {
		d.C.Fatalf("answer with %d proofs and %d signed roots", len(p.AP), len(p.STR))
	}
	d.CheckSTR(p.STR[0], d.Latest())
	return p, p.AP[0]
}

// CheckAP checks that ap answers for name as of epoch e.
func (d *Dir) CheckAP(ap *merkletree.AuthenticationPath, name string, e uint64) (included bool) {
	c := d.C
	c.T.Helper()
	if ap == nil {
		c.Fatalf("no proof for %q in epoch %d", name, e)
	}
	ix := d.Index(name)
	root := d.STRs[e].TreeHash
	if !d.VRFPub.Verify([]byte(name), ap.LookupIndex, ap.VrfProof) {
		c.Fatalf("the index in the answer for %q is not proved to be its own", name)
	}
	key, ok := d.Included[e][name]
	if ok {
		mt.CheckInclusion(c, ap, string(ix), name, key, root)
		if !mt.Included(ap, ix, name, key, root) {
			c.Fatalf("the proof of inclusion of %q does not follow the definition", name)
		}
	} else {
		mt.CheckAbsence(c, ap, ix, root)
		if !mt.Absent(ap, ix, root) {
			c.Fatalf("the proof of absence of %q does not follow the definition", name)
		}
	}
	return ok
}

// checkTB checks that tb is a valid promise of (name, key) in this epoch.
func (d *Dir) checkTB(tb *protocol.TemporaryBinding, name string, key []byte) {
	c := d.C
	c.T.Helper()
	if tb == nil {
		c.Fatalf("no promise for the pending name %q", name)
	}
	if !bytes.Equal(tb.Index, d.Index(name)) || !bytes.Equal(tb.Value, key) {
		c.Fatalf("promise for %q: index %x key %s, should be %x %s", name, tb.Index, vh.Hex(tb.Value), d.Index(name), vh.Hex(key))
	}
	if !d.Keys.Pub.Verify(TBMessage(d.STRs[d.Latest()].Signature, tb.Index, tb.Value), tb.Signature) {
		c.Fatalf("promise for %q is not signed over the current signed root", name)
	}
}

func copyTB(tb *protocol.TemporaryBinding) *protocol.TemporaryBinding {
	if tb == nil {
		return nil
	}
	return &protocol.TemporaryBinding{Index: mt.Cp(tb.Index), Value: mt.Cp(tb.Value), Signature: mt.Cp(tb.Signature)}
}

// CopyTB copies a promise.
func CopyTB(tb *protocol.TemporaryBinding) *protocol.TemporaryBinding { return copyTB(tb) }

func (d *Dir) malformed(r *protocol.Response, what string) {
	d.C.T.Helper()
	if r == nil || r.Error != protocol.ErrMalformedMessage || r.DirectoryResponse != nil {
		d.C.Fatalf("%s answered with %s", what, JS(r))
	}
}

// Register registers and checks the answer; it returns it.
func (d *Dir) Register(name string, key []byte) *protocol.Response {
	r := d.D.Register(&protocol.RegistrationRequest{Username: name, Key: mt.Cp(key)})
	d.C.Tracef("register %q %s -> %d", name, vh.Hex(key), r.Error)
	d.CheckRegister(r, name, key)
	return r
}

// CheckRegister checks a registration's answer and updates the reference state.
func (d *Dir) CheckRegister(r *protocol.Response, name string, key []byte) {
	c := d.C
	c.T.Helper()
	if name == "" || len(key) == 0 {
		d.malformed(r, "registration without name or key")
		return
	}
	p, ap := d.one(r)
	switch included, pend := d.CheckAP(ap, name, d.Latest()), d.Pending[name]; {
	case included:
		if r.Error != protocol.ReqNameExisted || p.TB != nil {
			c.Fatalf("registration of the included name %q: code %d, promise %v", name, r.Error, p.TB != nil)
		}
	case pend != nil:
		if r.Error != protocol.ReqNameExisted {
			c.Fatalf("registration of the pending name %q: code %d", name, r.Error)
		}
		d.checkTB(p.TB, name, pend.Key)
		if JS(p.TB) != JS(pend.TB) {
			c.Fatalf("the promise for %q changed within the epoch", name)
		}
	default:
		if r.Error != protocol.ReqSuccess {
			c.Fatalf("registration of the free name %q: code %d", name, r.Error)
		}
		d.checkTB(p.TB, name, key)
		d.Pending[name] = &Pend{mt.Cp(key), copyTB(p.TB)}
	}
}

// Lookup looks a name up and checks the answer.
func (d *Dir) Lookup(name string) *protocol.Response {
	r := d.D.KeyLookup(&protocol.KeyLookupRequest{Username: name})
	d.C.Tracef("lookup %q -> %d", name, r.Error)
	d.CheckLookup(r, name)
	return r
}

// CheckLookup checks a lookup's answer.
func (d *Dir) CheckLookup(r *protocol.Response, name string) {
	c := d.C
	c.T.Helper()
	if name == "" {
		d.malformed(r, "lookup without name")
		return
	}
	p, ap := d.one(r)
	switch included, pend := d.CheckAP(ap, name, d.Latest()), d.Pending[name]; {
	case included:
		if r.Error != protocol.ReqSuccess || p.TB != nil {
			c.Fatalf("lookup of the included name %q: code %d, promise %v", name, r.Error, p.TB != nil)
		}
		c.Class("lookups of included names")
	case pend != nil:
		if r.Error != protocol.ReqSuccess {
			c.Fatalf("lookup of the pending name %q: code %d", name, r.Error)
		}
		d.checkTB(p.TB, name, pend.Key)
		if JS(p.TB) != JS(pend.TB) {
			c.Fatalf("the promise for %q changed within the epoch", name)
		}
		c.Class("lookups of pending names")
	default:
		if r.Error != protocol.ReqNameNotFound || p.TB != nil {
			c.Fatalf("lookup of the unknown name %q: code %d, promise %v", name, r.Error, p.TB != nil)
		}
		c.Class("lookups of unknown names")
	}
}

// MustHave is the oldest epoch the directory must still have.
func (d *Dir) MustHave() uint64 {
	keep := uint64(d.Cap+1) / 2
	if d.Latest()+1 <= keep {
		return 0
	}
	return d.Latest() + 1 - keep
}

// MustNotHave: epochs below cannot be in memory any more.
func (d *Dir) MustNotHave() uint64 {
	if d.Latest()+1 <= uint64(d.Cap) {
		return 0
	}
	return d.Latest() + 1 - uint64(d.Cap)
}

// evicted decides whether an answer for a range starting at e may or must be
// the error for evicted epochs; it returns whether it is.
func (d *Dir) evicted(r *protocol.Response, what string, e uint64) bool {
	d.C.T.Helper()
	if r == nil {
		d.C.Fatalf("%s: no answer", what)
	}
	if r.Error == protocol.ErrDirectory {
		if r.DirectoryResponse != nil {
			d.C.Fatalf("%s: error with contents", what)
		}
		if e >= d.MustHave() {
			d.C.Fatalf("%s: directory error although epoch %d of %d must be in memory (capacity %d)", what, e, d.Latest(), d.Cap)
		}
		if !d.anyGone || e >= d.gone {
			d.gone, d.anyGone = e+1, true
		}
		d.C.Class("ranges with evicted epochs")
		return true
	}
	if e < d.MustNotHave() {
		d.C.Fatalf("%s: answered although epoch %d of %d cannot be in memory (capacity %d): %s", what, e, d.Latest(), d.Cap, JS(r))
	}
	if d.anyGone && e < d.gone {
		d.C.Fatalf("%s: answered although epoch %d was evicted", what, e)
	}
	return false
}

// LookupInEpoch looks a name up in a past epoch and checks the answer.
func (d *Dir) LookupInEpoch(name string, e uint64) *protocol.Response {
	r := d.D.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: name, Epoch: e})
	d.C.Tracef("lookup %q in epoch %d -> %d", name, e, r.Error)
	d.CheckLookupInEpoch(r, name, e)
	return r
}

// CheckLookupInEpoch checks the answer of a lookup in a past epoch.
func (d *Dir) CheckLookupInEpoch(r *protocol.Response, name string, e uint64) {
	c := d.C
	c.T.Helper()
	if name == "" || e > d.Latest() {
		d.malformed(r, "lookup in an epoch")
		return
	}
	if d.evicted(r, "lookup in an epoch", e) {
		return
	}
	p := d.proof(r)
	if len(p.AP) != 1 || p.TB != nil {
		c.Fatalf("lookup in an epoch: %d proofs, promise %v", len(p.AP), p.TB != nil)
	}
	d.CheckSTRs(p.STR, e, d.Latest())
	included := d.CheckAP(p.AP[0], name, e)
	if want := map[bool]protocol.ErrorCode{true: protocol.ReqSuccess, false: protocol.ReqNameNotFound}[included]; r.Error != want {
		c.Fatalf("lookup of %q in epoch %d: code %d, should be %d", name, e, r.Error, want)
	}
}

// CheckSTRs checks that strs are exactly the signed roots of epochs from..to.
func (d *Dir) CheckSTRs(strs []*protocol.DirSTR, from, to uint64) {
	d.C.T.Helper()
	if uint64(len(strs)) != to-from+1 {
		d.C.Fatalf("%d signed roots for epochs %d to %d", len(strs), from, to)
	}
	for i, s := range strs {
		d.CheckSTR(s, from+uint64(i))
	}
}

// Monitor monitors a name and checks the answer.
func (d *Dir) Monitor(name string, from, to uint64) *protocol.Response {
	r := d.D.Monitor(&protocol.MonitoringRequest{Username: name, StartEpoch: from, EndEpoch: to})
	d.C.Tracef("monitor %q %d to %d -> %d", name, from, to, r.Error)
	d.CheckMonitor(r, name, from, to)
	return r
}

// CheckMonitor checks a monitoring answer.
func (d *Dir) CheckMonitor(r *protocol.Response, name string, from, to uint64) {
	c := d.C
	c.T.Helper()
	if name == "" || from > d.Latest() || from > to {
		d.malformed(r, "monitoring request")
		return
	}
	if d.evicted(r, "monitoring", from) {
		return
	}
	to = min(to, d.Latest())
	p := d.proof(r)
	if r.Error != protocol.ReqSuccess || p.TB != nil {
		c.Fatalf("monitoring: code %d, promise %v", r.Error, p.TB != nil)
	}
	d.CheckSTRs(p.STR, from, to)
	if len(p.AP) != len(p.STR) {
		c.Fatalf("monitoring: %d proofs for %d epochs", len(p.AP), len(p.STR))
	}
	for i, ap := range p.AP {
		d.CheckAP(ap, name, from+uint64(i))
	}
}

// History asks for signed roots and checks the answer.
func (d *Dir) History(from, to uint64) *protocol.Response {
	r := d.D.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: from, EndEpoch: to})
	d.C.Tracef("history %d to %d -> %d", from, to, r.Error)
	c := d.C
	c.T.Helper()
	if from > d.Latest() || from > to {
		d.malformed(r, "history request")
		return r
	}
	if d.evicted(r, "history", from) {
		return r
	}
	to = min(to, d.Latest())
	h, ok := r.DirectoryResponse.(*protocol.STRHistoryRange)
	if !ok || h == nil || r.Error != protocol.ReqSuccess {
		c.Fatalf("history: %s", JS(r))
	}
	d.CheckSTRs(h.STR, from, to)
	return r
}

// Name draws one of the names.
func (d *Dir) Name(rt *rapid.T) string {
	return d.Names[rapid.IntRange(0, len(d.Names)-1).Draw(rt, "name")]
}

// Key draws a non-empty key.
func Key(rt *rapid.T) []byte {
	if rapid.IntRange(0, 3).Draw(rt, "shortKey") > 0 {
		return []byte{byte(rapid.IntRange(1, 6).Draw(rt, "key"))}
	}
	b := vh.Bytes(rt, "key", 300)
	return append(b, rapid.SampledFrom([]byte{7, 0, ' ', '\n', 0xff}).Draw(rt, "last"))
}

// Epoch draws an epoch: around those that exist, or an extreme one.
func (d *Dir) Epoch(rt *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 9).Draw(rt, label+"_kind") {
	case 0:
		return rapid.Uint64().Draw(rt, label)
	case 1:
		return ^uint64(0) - rapid.Uint64Range(0, 2).Draw(rt, label)
	case 2:
		return d.Latest() + 1
	case 3:
		return d.Latest()
	case 4, 5, 6:
		return rapid.Uint64Range(d.MustHave(), d.Latest()).Draw(rt, label)
	}
	return rapid.Uint64Range(0, d.Latest()+2).Draw(rt, label)
}

// Freeze returns a function that checks that r did not change since.
func (d *Dir) Freeze(r *protocol.Response, what string) func() {
	was := JS(r)
	return func() {
		if now := JS(r); now != was {
			d.C.Fatalf("%s changed after it was given\nthen %s\nnow  %s", what, was, now)
		}
	}
}

// LongNames draws n names of up to maxLen bytes, many of which differ late.
func LongNames(rt *rapid.T, n, maxLen int) []string {
	var out []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		b := vh.Big(rt, "name", maxLen)
		if i > 0 && rapid.Bool().Draw(rt, "alike") {
			b = []byte(out[rapid.IntRange(0, i-1).Draw(rt, "like")])
			if rapid.Bool().Draw(rt, "longer") {
				b = append(b, byte(i))
			} else {
				b[len(b)-1-rapid.IntRange(0, min(8, len(b)-1)).Draw(rt, "place")] ^= byte(i)
			}
		}
		for j := range b { // survives JSON
			b[j] = 'a' + b[j]%26
		}
		for seen[string(b)] {
			b = append(b, 'x')
		}
		seen[string(b)] = true
		out = append(out, string(b))
	}
	return out
}

// LongKey draws a key of up to maxLen bytes, maybe like one of others.
func LongKey(rt *rapid.T, others [][]byte, maxLen int) []byte {
	if len(others) > 0 && rapid.Bool().Draw(rt, "alike") {
		k := append([]byte{}, others[rapid.IntRange(0, len(others)-1).Draw(rt, "like")]...)
		switch rapid.IntRange(0, 2).Draw(rt, "how") {
		case 0:
			return append(k, 1)
		case 1:
			if len(k) > 1 {
				return k[:len(k)-1]
			}
		}
		k[len(k)-1-rapid.IntRange(0, min(40, len(k)-1)).Draw(rt, "place")]++
		return k
	}
	return vh.Big(rt, "key", maxLen)
}
