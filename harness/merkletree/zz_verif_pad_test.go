//go:build go1.23

package merkletree_test

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

type testAd struct{ b []byte }

func (a testAd) Serialize() []byte { return a.b }

var static8 = func() sign.PrivateKey {
	k, err := sign.GenerateKey(vh.NewDRBG(43))
	if err != nil {
		panic(err)
	}
	return k
}()

var deepKey = func() vrf.PrivateKey {
	k, err := vrf.GenerateKey(vh.NewDRBG(42))
	if err != nil {
		panic(err)
	}
	return k
}()

// padRun is a dictionary together with its model.
type padRun struct {
	c       *vh.Case
	pad     *merkletree.PAD
	signKey sign.PrivateKey
	pub     sign.PublicKey
	vrfKey  vrf.PrivateKey
	vrfPub  vrf.PublicKey
	cap     int
	pending map[string][]byte
	epochs  []map[string][]byte
	strs    []*merkletree.SignedTreeRoot // as first seen
	ads     [][]byte                     // by definition
	nextAd  []byte
	names   []string
}

func newPadRun(rt *rapid.T, c *vh.Case, capacity, names int) *padRun {
	p := &padRun{c: c, cap: capacity, pending: map[string][]byte{}}
	var err error
	deep := rapid.Bool().Draw(rt, "deep")
	p.vrfKey = deepKey
	if !deep {
		if p.vrfKey, err = vrf.GenerateKey(rand.Reader); err != nil {
			c.Fatalf("vrf key: %v", err)
		}
	}
	p.vrfPub, _ = p.vrfKey.Public()
	if p.signKey, err = sign.GenerateKey(rand.Reader); err != nil {
		c.Fatalf("sign key: %v", err)
	}
	p.pub, _ = p.signKey.Public()
	p.names = vh.Names(rt, deep, names)
	p.nextAd = vh.Bytes(rt, "ad", 40)
	p.pad, err = merkletree.NewPAD(testAd{p.nextAd}, p.signKey, p.vrfKey, uint64(capacity))
	if err != nil {
		c.Fatalf("NewPAD: %v", err)
	}
	c.Tracef("pad capacity=%d deep=%v ad=%s", capacity, deep, vh.Hex(p.nextAd))
	p.snap()
	return p
}

func (p *padRun) snap() {
	m := map[string][]byte{}
	for k, v := range p.pending {
		m[k] = v
	}
	p.epochs = append(p.epochs, m)
	p.strs = append(p.strs, p.pad.LatestSTR())
	p.ads = append(p.ads, p.nextAd)
}

func (p *padRun) set(name string, value []byte) {
	v := cp(value)
	if v == nil {
		v = []byte{}
	}
	if err := p.pad.Set(name, v); err != nil {
		p.c.Fatalf("Set(%q): %v", name, err)
	}
	for i := range v {
		v[i] ^= 0xff
	}
	p.pending[name] = value
	p.c.Tracef("set %q %s", name, vh.Hex(value))
}

func (p *padRun) update(ad []byte) {
	if ad == nil {
		p.pad.Update(nil)
	} else {
		p.pad.Update(testAd{ad})
	}
	p.snap()
	if ad != nil {
		p.nextAd = ad
	}
	p.c.Tracef("update ad=%v", ad)
}

func (p *padRun) latest() uint64 { return uint64(len(p.epochs) - 1) }

// lookup checks the answer for name in epoch e (which the dictionary must still have).
func (p *padRun) lookup(name string, e uint64, ap *merkletree.AuthenticationPath, err error) {
	c := p.c
	if e > p.latest() {
		e = p.latest()
	}
	if err != nil {
		c.Fatalf("lookup of %q in epoch %d of %d: %v", name, e, p.latest(), err)
	}
	ix, _ := p.vrfKey.Prove([]byte(name))
	if !p.vrfPub.Verify([]byte(name), ap.LookupIndex, ap.VrfProof) {
		c.Fatalf("lookup of %q: the index proof does not verify", name)
	}
	root := p.strs[e].TreeHash
	if v, ok := p.epochs[e][name]; ok {
		checkInclusion(c, ap, string(ix), name, v, root)
		c.Class("lookups of included names")
	} else {
		checkAbsence(c, ap, ix, root)
		c.Class("lookups of absent names")
	}
}

// mustHave: epochs a dictionary of this capacity must have.
func (p *padRun) mustHave() uint64 {
	keep := uint64(p.cap+1) / 2
	if p.latest()+1 <= keep {
		return 0
	}
	return p.latest() + 1 - keep
}

func drawName(rt *rapid.T, names []string) string {
	return names[rapid.IntRange(0, len(names)-1).Draw(rt, "name")]
}

func TestC07_PAD(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		p := newPadRun(rt, c, rapid.IntRange(2, 10).Draw(rt, "capacity"), 10)
		n := rapid.IntRange(1, 25).Draw(rt, "ops")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case k < 4:
				p.set(drawName(rt, p.names), vh.Bytes(rt, "value", 60))
			case k < 6:
				p.update(nil)
			case k < 8:
				name := drawName(rt, p.names)
				ap, err := p.pad.Lookup(name)
				p.lookup(name, p.latest(), ap, err)
				c.Tracef("lookup %q", name)
			default:
				name := drawName(rt, p.names)
				e := uint64(rapid.Uint64Range(p.mustHave(), p.latest()+2).Draw(rt, "epoch"))
				ap, err := p.pad.LookupInEpoch(name, e)
				p.lookup(name, e, ap, err)
				c.Tracef("lookup %q in %d", name, e)
			}
		}
		p.update(nil)
		var es []ref.Entry
		var nonce []byte
		for _, name := range p.names {
			ap, err := p.pad.Lookup(name)
			p.lookup(name, p.latest(), ap, err)
			if !bytes.Equal(p.pad.Index(name), ap.LookupIndex) {
				c.Fatalf("Index(%q) is not the index looked up", name)
			}
			nonce = ap.TreeNonce
			if _, ok := p.epochs[p.latest()][name]; ok {
				es = append(es, ref.Entry{Index: ap.LookupIndex, Commit: ap.Leaf.Commitment.Value})
			}
		}
		if got, want := p.pad.LatestSTR().TreeHash, ref.TreeRoot(nonce, es); !bytes.Equal(got, want) {
			c.Fatalf("root %x of %d names, by definition %x", got, len(es), want)
		}
		if len(p.pending) > 1 && len(p.epochs) > 2 {
			c.NT()
		}
	})
}

// ---- C09

type frozen struct {
	what string
	obj  interface{}
	get  func() interface{} // asks again; nil: only the object itself
	json string
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		vh.Infra("json: %v", err)
	}
	return string(b)
}

func freeze(what string, obj interface{}, get func() interface{}) *frozen {
	return &frozen{what, obj, get, js(obj)}
}

func (f *frozen) check(c *vh.Case) {
	if got := js(f.obj); got != f.json {
		c.Fatalf("%s changed after it was taken:\nthen %s\nnow  %s", f.what, f.json, got)
	}
	if f.get == nil {
		return
	}
	if got := js(f.get()); got != f.json {
		c.Fatalf("%s is answered differently now:\nthen %s\nnow  %s", f.what, f.json, got)
	}
}

// strView is everything a signed root shows.
func strView(s *merkletree.SignedTreeRoot) interface{} {
	return []interface{}{s, s.Ad.Serialize(), s.Serialize()}
}

func TestC09_PAD(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		p := newPadRun(rt, c, rapid.IntRange(4, 12).Draw(rt, "capacity"), 8)
		var all []*frozen
		take := func() {
			e := p.latest()
			str := p.strs[e]
			all = append(all, freeze(fmt.Sprintf("signed root %d", e), str, nil),
				freeze(fmt.Sprintf("signed root %d", e), strView(str), func() interface{} {
					if e < p.mustHave() {
						if p.pad.GetSTR(e) == nil {
							return strView(str)
						}
					}
					return strView(p.pad.GetSTR(e))
				}))
			for _, name := range p.names {
				name := name
				ap, err := p.pad.LookupInEpoch(name, e)
				p.lookup(name, e, ap, err)
				all = append(all, freeze(fmt.Sprintf("proof for %q in epoch %d", name, e), ap, func() interface{} {
					ap2, err := p.pad.LookupInEpoch(name, e)
					if err != nil {
						if e < p.mustHave() && err == merkletree.ErrSTRNotFound {
							return ap
						}
						c.Fatalf("lookup of %q in epoch %d: %v", name, e, err)
					}
					return ap2
				}))
			}
		}
		take()
		n := rapid.IntRange(2, 20).Draw(rt, "ops")
		sets := 0
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 3).Draw(rt, "op") > 0 {
				p.set(drawName(rt, p.names), vh.Bytes(rt, "value", 40))
				sets++
				// a pending insertion must not show in the current snapshot
				name := drawName(rt, p.names)
				ap, err := p.pad.Lookup(name)
				p.lookup(name, p.latest(), ap, err)
			} else {
				p.update(nil)
				take()
			}
		}
		for _, f := range all {
			f.check(c)
		}
		if sets > 1 && len(p.epochs) > 2 {
			c.NT()
		}
		c.ClassN("objects compared", len(all))
	})
}

// ---- C10

func (p *padRun) checkSTR(e uint64) {
	c, s := p.c, p.strs[e]
	if s.Epoch != e || (e > 0 && s.PreviousEpoch != e-1) || (e == 0 && s.PreviousEpoch != 0) {
		c.Fatalf("signed root %d says epoch %d after %d", e, s.Epoch, s.PreviousEpoch)
	}
	if len(s.TreeHash) != 32 || len(s.PreviousSTRHash) != 32 {
		c.Fatalf("signed root %d: hashes of %d and %d bytes", e, len(s.TreeHash), len(s.PreviousSTRHash))
	}
	if e > 0 && !bytes.Equal(s.PreviousSTRHash, ref.Hash(p.strs[e-1].Signature)) {
		c.Fatalf("signed root %d does not contain the hash of signature %d", e, e-1)
	}
	want := ref.LE64(e)
	if e > 0 {
		want = append(want, ref.LE64(e-1)...)
	}
	want = append(append(append(want, s.TreeHash...), s.PreviousSTRHash...), p.ads[e]...)
	if !bytes.Equal(s.Ad.Serialize(), p.ads[e]) {
		c.Fatalf("signed root %d carries associated data %x, should be %x", e, s.Ad.Serialize(), p.ads[e])
	}
	if !bytes.Equal(s.Serialize(), want) {
		c.Fatalf("signed root %d serializes to %x, by definition %x", e, s.Serialize(), want)
	}
	if !p.pub.Verify(want, s.Signature) {
		c.Fatalf("signed root %d: bad signature", e)
	}
}

func TestC10_Chain(t *testing.T) {
	vh.Check(t, vh.N{Quick: 6400}, func(rt *rapid.T, c *vh.Case) {
		capacity := rapid.IntRange(2, 8).Draw(rt, "capacity")
		p := newPadRun(rt, c, capacity, 6)
		n := rapid.IntRange(1, 16).Draw(rt, "ops")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 2).Draw(rt, "op") {
			case 0:
				p.set(drawName(rt, p.names), vh.Bytes(rt, "value", 20))
			case 1:
				p.update(nil)
			case 2:
				ad := vh.Bytes(rt, "ad", 40)
				if ad == nil {
					ad = []byte{}
				}
				p.update(ad)
			}
		}
		for e := range p.strs {
			p.checkSTR(uint64(e))
		}
		// a second dictionary with the same keys: another history
		q, err := merkletree.NewPAD(testAd{p.ads[0]}, p.signKey, p.vrfKey, uint64(capacity))
		if err != nil {
			c.Fatalf("NewPAD: %v", err)
		}
		other := []*merkletree.SignedTreeRoot{q.LatestSTR()}
		for len(other) < len(p.strs) {
			q.Update(nil)
			other = append(other, q.LatestSTR())
		}
		for i, s := range p.strs {
			for j, o := range p.strs {
				if got := s.VerifyHashChain(o); got != (i == j+1) {
					c.Fatalf("signed root %d after %d: chain check says %v", i, j, got)
				}
				if s.VerifyHashChain(other[j]) || other[j].VerifyHashChain(s) {
					c.Fatalf("signed root %d of one history accepted next to %d of another", i, j)
				}
			}
		}
		// the signature covers everything
		e := rapid.IntRange(0, len(p.strs)-1).Draw(rt, "epoch")
		orig := p.strs[e]
		for k := 0; k < 8; k++ {
			s := *orig
			what := ""
			switch rapid.IntRange(0, 5).Draw(rt, "field") {
			case 0:
				s.Epoch ^= 1 << rapid.IntRange(0, 63).Draw(rt, "bit")
				what = "epoch"
			case 1:
				if e == 0 {
					continue
				}
				s.PreviousEpoch ^= 1 << rapid.IntRange(0, 63).Draw(rt, "bit")
				what = "previous epoch"
			case 2:
				s.TreeHash = vh.Mutate(rt, "root", s.TreeHash)
				what = "root"
			case 3:
				s.PreviousSTRHash = vh.Mutate(rt, "prev", s.PreviousSTRHash)
				what = "previous hash"
			case 4:
				s.Ad = testAd{vh.Mutate(rt, "ad2", p.ads[e])}
				what = "associated data"
			case 5:
				s.Signature = vh.Mutate(rt, "sig", s.Signature)
				what = "signature"
			}
			if p.pub.Verify(s.Serialize(), s.Signature) {
				c.Fatalf("signed root %d with altered %s is correctly signed", e, what)
			}
			c.Class("altered " + what)
			if e > 0 && (what == "epoch" || what == "previous epoch" || what == "previous hash") && s.VerifyHashChain(p.strs[e-1]) {
				c.Fatalf("signed root %d with altered %s passes the chain check", e, what)
			}
			if what == "signature" && e+1 < len(p.strs) && p.strs[e+1].VerifyHashChain(&s) {
				c.Fatalf("signed root %d follows %d with an altered signature", e+1, e)
			}
		}
		if len(p.strs) > 3 {
			c.NT()
		}
	})
}

// Long chains, and large associated data.
func TestC10_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 80}, func(rt *rapid.T, c *vh.Case) {
		p := newPadRun(rt, c, rapid.IntRange(2, 8).Draw(rt, "capacity"), 3)
		n := vh.LogInt(rt, "epochs", 20, 900)
		for i := 0; i < n; i++ {
			var ad []byte
			if i < 5 || i%50 == 0 {
				ad = vh.Big(rt, "ad", 30000)
			}
			p.update(ad)
		}
		for e := range p.strs {
			p.checkSTR(uint64(e))
			if got := p.strs[e].VerifyHashChain(p.strs[max(0, e-1)]); got != (e > 0) {
				c.Fatalf("signed root %d after %d: chain check says %v", e, max(0, e-1), got)
			}
		}
		e := rapid.IntRange(0, n).Draw(rt, "epoch")
		s := *p.strs[e]
		if ad := append([]byte{}, p.ads[e]...); len(ad) > 0 {
			ad[rapid.IntRange(0, len(ad)-1).Draw(rt, "at")]++
			s.Ad = testAd{ad}
			if p.pub.Verify(s.Serialize(), s.Signature) {
				c.Fatalf("signed root %d with altered associated data of %d bytes is correctly signed", e, len(ad))
			}
		}
		c.NT()
	})
}

// Beyond the 65536th epoch, which takes a directory with short epochs days.
func TestC10_VeryLong(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2, Thorough: 8, Hang: 600 * time.Second}, func(rt *rapid.T, c *vh.Case) {
		p := newPadRun(rt, c, 5, 2)
		for k := 0; k < 3; k++ {
			p.set(p.names[0], []byte{byte(k)})
			p.update(nil)
		}
		prev := p.pad.LatestSTR()
		for e := uint64(4); e < 66000; e++ {
			p.pad.Update(nil)
			s := p.pad.LatestSTR()
			if s.Epoch != e || s.PreviousEpoch != e-1 || !bytes.Equal(s.PreviousSTRHash, ref.Hash(prev.Signature)) {
				c.Fatalf("signed root %d says epoch %d after %d, or does not follow", e, s.Epoch, s.PreviousEpoch)
			}
			if e&(e-1) == 0 || e&(e+1) == 0 || e%5000 == 0 {
				want := append(append(append(append(ref.LE64(e), ref.LE64(e-1)...), s.TreeHash...), s.PreviousSTRHash...), p.nextAd...)
				if !bytes.Equal(s.Serialize(), want) || !p.pub.Verify(want, s.Signature) || !s.VerifyHashChain(prev) {
					c.Fatalf("signed root %d serializes to %x, by definition %x, or its signature or link is bad", e, s.Serialize(), want)
				}
				if got := p.pad.GetSTR(e - 1); got == nil || got.Epoch != e-1 {
					c.Fatalf("epoch %d is not answered in epoch %d", e-1, e)
				}
				if got := p.pad.GetSTR(e - 6); got != nil && e >= 6 {
					c.Fatalf("epoch %d is answered in epoch %d", e-6, e)
				}
				ap, err := p.pad.LookupInEpoch(p.names[0], e-1)
				if err != nil {
					c.Fatalf("lookup in epoch %d of %d: %v", e-1, e, err)
				}
				checkInclusion(c, ap, string(ap.LookupIndex), p.names[0], []byte{2}, s.TreeHash)
			}
			prev = s
		}
		c.Tracef("66000 epochs")
		c.NT()
	})
}

// try says whether f returned, without a panic and before the case would count as hanging.
func try(f func()) bool {
	ok := make(chan bool, 1)
	go func() {
		defer func() { ok <- recover() == nil }()
		f()
	}()
	select {
	case r := <-ok:
		return r
	case <-time.After(20 * time.Second):
		return false
	}
}

// A dictionary in a late epoch, brought there by writing the epoch number into its newest signed root. A
// dictionary that numbers its epochs in another way takes no notice of it, or stumbles at once: such a case says nothing.
func TestC10_HighEpoch(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1200}, func(rt *rapid.T, c *vh.Case) {
		p := newPadRun(rt, c, rapid.IntRange(2, 8).Draw(rt, "capacity"), 4)
		for _, n := range p.names {
			p.set(n, vh.Bytes(rt, "value", 20))
		}
		prev := p.pad.LatestSTR()
		e0 := uint64(1)<<rapid.IntRange(8, 63).Draw(rt, "bit") - rapid.Uint64Range(0, 4).Draw(rt, "before")
		if rapid.IntRange(0, 3).Draw(rt, "any") == 0 {
			e0 = rapid.Uint64Range(1, 1<<64-1000).Draw(rt, "start")
		}
		prev.Epoch = e0
		c.Tracef("continues from epoch %d", e0)
		if !try(func() { p.pad.Update(nil) }) || p.pad.LatestSTR().Epoch == 1 {
			c.Class("numbered in another way")
			return
		}
		for i, n := uint64(1), rapid.Uint64Range(1, 12).Draw(rt, "epochs"); ; i++ {
			e, s := e0+i, p.pad.LatestSTR()
			if s.Epoch != e || s.PreviousEpoch != e-1 || !bytes.Equal(s.PreviousSTRHash, ref.Hash(prev.Signature)) {
				c.Fatalf("signed root %d says epoch %d after %d, or does not follow", e, s.Epoch, s.PreviousEpoch)
			}
			want := append(append(append(append(ref.LE64(e), ref.LE64(e-1)...), s.TreeHash...), s.PreviousSTRHash...), p.nextAd...)
			if !bytes.Equal(s.Serialize(), want) || !p.pub.Verify(want, s.Signature) || !s.VerifyHashChain(prev) || prev.VerifyHashChain(s) {
				c.Fatalf("signed root %d serializes to %x, by definition %x, or its signature or link is bad", e, s.Serialize(), want)
			}
			for name, v := range p.pending {
				ap, err := p.pad.Lookup(name)
				if err != nil {
					c.Fatalf("lookup in epoch %d: %v", e, err)
				}
				checkInclusion(c, ap, string(ap.LookupIndex), name, v, s.TreeHash)
			}
			if i == n {
				break
			}
			prev = s
			if !try(func() { p.pad.Update(nil) }) {
				c.Class("numbered in another way")
				return
			}
		}
		c.NT()
	})
}

// ---- C11

func TestC11_Retention(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		capacity := rapid.IntRange(2, 13).Draw(rt, "capacity")
		p := newPadRun(rt, c, capacity, 4)
		n := rapid.IntRange(1, 45).Draw(rt, "epochs")
		gone := map[uint64]bool{}
		name := p.names[0]
		evictions := 0
		for i := 0; i <= n; i++ {
			lo := p.mustHave()
			kept := 0
			for e := uint64(0); e <= p.latest(); e++ {
				s := p.pad.GetSTR(e)
				if s == nil {
					if e >= lo {
						c.Fatalf("epoch %d of %d is gone with capacity %d", e, p.latest(), capacity)
					}
					if !gone[e] {
						evictions++
					}
					gone[e] = true
					continue
				}
				if gone[e] {
					c.Fatalf("epoch %d of %d was gone and is back", e, p.latest())
				}
				kept++
				if s != p.strs[e] && js(strView(s)) != js(strView(p.strs[e])) {
					c.Fatalf("epoch %d is answered with epoch %d", e, s.Epoch)
				}
			}
			if kept > capacity {
				c.Fatalf("%d snapshots kept with capacity %d", kept, capacity)
			}
			if p.pad.LatestSTR() == nil || p.pad.LatestSTR().Epoch != p.latest() {
				c.Fatalf("the latest signed root is not epoch %d", p.latest())
			}
			for k := 0; k < 2; k++ {
				name = drawName(rt, p.names)
				e := rapid.Uint64Range(0, p.latest()+1).Draw(rt, "lookup")
				ap, err := p.pad.LookupInEpoch(name, e)
				if gone[e] {
					if err != merkletree.ErrSTRNotFound || ap != nil {
						c.Fatalf("lookup in evicted epoch %d: %v, %v", e, ap, err)
					}
				} else {
					p.lookup(name, e, ap, err)
				}
			}
			for _, e := range []uint64{p.latest(), p.latest() + 1, 1<<63 + 5, ^uint64(0), rapid.Uint64Range(p.latest(), ^uint64(0)).Draw(rt, "beyond")} {
				if s := p.pad.GetSTR(e); s != p.pad.LatestSTR() {
					c.Fatalf("epoch %d of %d is not answered with the latest", e, p.latest())
				}
			}
			ap, err := p.pad.LookupInEpoch(name, ^uint64(0)-rapid.Uint64Range(0, 3).Draw(rt, "far"))
			p.lookup(name, p.latest(), ap, err)
			if i < n {
				if rapid.Bool().Draw(rt, "set") {
					p.set(drawName(rt, p.names), vh.Bytes(rt, "value", 20))
				}
				p.update(nil)
			}
		}
		if evictions > 0 {
			c.NT()
			c.ClassN("epochs evicted", evictions)
		}
	})
}

// Dictionaries that keep hundreds of snapshots.
func TestC11_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 64}, func(rt *rapid.T, c *vh.Case) {
		capacity := vh.LogInt(rt, "capacity", 10, 700)
		p := newPadRun(rt, c, capacity, 4)
		n := rapid.IntRange(capacity/2, 3*capacity).Draw(rt, "epochs")
		gone := uint64(0) // epochs below are
		check := func() {
			lo, kept := p.mustHave(), 0
			for e := uint64(0); e <= p.latest(); e++ {
				s := p.pad.GetSTR(e)
				switch {
				case s == nil && e >= lo:
					c.Fatalf("epoch %d of %d is gone with capacity %d", e, p.latest(), capacity)
				case s == nil:
					gone = max(gone, e+1)
				case e < gone:
					c.Fatalf("epoch %d of %d is there, though epoch %d was gone", e, p.latest(), gone-1)
				case s != p.strs[e] && js(strView(s)) != js(strView(p.strs[e])):
					c.Fatalf("epoch %d is answered with epoch %d", e, s.Epoch)
				default:
					kept++
				}
			}
			if kept > capacity {
				c.Fatalf("%d snapshots kept with capacity %d", kept, capacity)
			}
			for k := 0; k < 3; k++ {
				name, e := drawName(rt, p.names), rapid.Uint64Range(0, p.latest()).Draw(rt, "lookup")
				ap, err := p.pad.LookupInEpoch(name, e)
				if e < gone {
					if err != merkletree.ErrSTRNotFound || ap != nil {
						c.Fatalf("lookup in evicted epoch %d: %v, %v", e, ap, err)
					}
				} else {
					p.lookup(name, e, ap, err)
				}
			}
		}
		every := max(1, n/25)
		for i := 1; i <= n; i++ {
			if i%7 == 3 {
				p.set(p.names[i%len(p.names)], []byte{byte(i)})
			}
			p.update(nil)
			if i%every == 0 || i%capacity < 2 {
				check()
			}
		}
		check()
		for e := range p.strs {
			p.checkSTR(uint64(e))
		}
		c.ClassN("epochs evicted", int(gone))
		if gone > 0 || n > 30 {
			c.NT()
		}
	})
}

// ---- C12

var errFault = fmt.Errorf("injected fault")

// faulty fails the reads whose number is in fail; kind says how.
type faulty struct {
	src   *vh.DRBG
	n     int
	fail  map[int]int
	fired int
	after bool // keeps failing until the operation ends
}

func (f *faulty) Read(p []byte) (int, error) {
	k := f.n
	f.n++
	kind, bad := f.fail[k]
	if f.after {
		bad, kind = true, 0
	}
	if !bad {
		return f.src.Read(p)
	}
	f.fired++
	switch kind {
	case 0:
		return 0, errFault
	case 1: // truncated, with the error
		n := len(p) / 2
		f.src.Read(p[:n])
		return n, errFault
	case 2: // all but one byte, then the error on the next read
		n := len(p) - 1
		f.src.Read(p[:n])
		f.after = true
		return n, nil
	default: // nothing and no error, then the error
		f.after = true
		return 0, nil
	}
}

// op runs g with the operation's reads failing at read k; it reports whether a fault was hit.
func withFault(c *vh.Case, k, kind int, g func()) bool {
	f := &faulty{src: c.Rand, fail: map[int]int{k: kind}}
	old := rand.Reader
	rand.Reader = f
	defer func() { rand.Reader = old }()
	g()
	return f.fired > 0
}

func TestC12_Creation(t *testing.T) {
	vh.Check(t, vh.N{Quick: 800}, func(rt *rapid.T, c *vh.Case) {
		k := rapid.IntRange(0, 3).Draw(rt, "read")
		kind := rapid.IntRange(0, 3).Draw(rt, "kind")
		what := rapid.SampledFrom([]string{"tree", "pad", "sign key", "vrf key"}).Draw(rt, "what")
		c.Tracef("%s, read %d fails (%d)", what, k, kind)
		var err error
		var got bool
		var panicked interface{}
		sk, e := sign.GenerateKey(rand.Reader)
		if e != nil {
			c.Fatalf("key: %v", e)
		}
		hit := withFault(c, k, kind, func() {
			defer func() {
				// creation of a dictionary ends with a documented panic carrying the error
				if panicked = recover(); panicked != nil && what == "pad" {
					if perr, ok := panicked.(error); ok {
						err = perr
						return
					}
				}
				if panicked != nil {
					c.Fatalf("%s: panic %v", what, panicked)
				}
			}()
			switch what {
			case "tree":
				var m *merkletree.MerkleTree
				m, err = merkletree.NewMerkleTree()
				got = m != nil
			case "pad":
				var p *merkletree.PAD
				p, err = merkletree.NewPAD(testAd{nil}, sk, deepKey, 3)
				got = p != nil
			case "sign key":
				_, err = sign.GenerateKey(rand.Reader)
				got = err == nil
			case "vrf key":
				_, err = vrf.GenerateKey(rand.Reader)
				got = err == nil
			}
		})
		if hit {
			c.NT()
			c.Class(what + " with a failing read")
			if err == nil || got {
				c.Fatalf("%s: a failing read was not reported", what)
			}
		} else if err != nil || !got {
			c.Fatalf("%s: %v without a fault", what, err)
		}
	})
}

func TestC12_PAD(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		p := newPadRun(rt, c, 6, 6)
		n := rapid.IntRange(1, 20).Draw(rt, "ops")
		faults := 0
		for i := 0; i < n; i++ {
			name := drawName(rt, p.names)
			switch op := rapid.IntRange(0, 5).Draw(rt, "op"); {
			case op < 2:
				p.set(name, vh.Bytes(rt, "value", 20))
			case op < 4:
				var err error
				k, kind := rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "read"), rapid.IntRange(0, 3).Draw(rt, "kind")
				v := vh.Bytes(rt, "value", 20)
				if withFault(c, k, kind, func() { err = p.pad.Set(name, v) }) {
					faults++
					if err == nil {
						c.Fatalf("Set(%q) with a failing read reports success", name)
					}
					c.Tracef("set %q fails", name)
				} else {
					if err != nil {
						c.Fatalf("Set(%q): %v without a fault", name, err)
					}
					p.pending[name] = v
					c.Tracef("set %q %s", name, vh.Hex(v))
				}
			case op == 4: // neither needs randomness
				withFault(c, 0, 0, func() {
					ap, err := p.pad.Lookup(name)
					p.lookup(name, p.latest(), ap, err)
				})
			default:
				p.update(nil)
			}
		}
		p.update(nil)
		var es []ref.Entry
		var nonce []byte
		for _, name := range p.names {
			ap, err := p.pad.Lookup(name)
			p.lookup(name, p.latest(), ap, err)
			nonce = ap.TreeNonce
			if ap.ProofType() == merkletree.ProofOfInclusion {
				es = append(es, ref.Entry{Index: ap.LookupIndex, Commit: ap.Leaf.Commitment.Value})
			}
		}
		if !bytes.Equal(p.pad.LatestSTR().TreeHash, ref.TreeRoot(nonce, es)) {
			c.Fatalf("the root is not that of the successful insertions")
		}
		if faults > 0 {
			c.NT()
			c.ClassN("failed insertions", faults)
		}
	})
}
