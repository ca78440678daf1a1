//go:build go1.23

package app_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// interval is a number of seconds for which the server's timer runs for about
// d: seconds times 10^9 wraps around at 2^64, and 10^9 = 512 * 1953125 where the
// odd factor has an inverse.  This makes epochs of milliseconds.
func interval(d time.Duration) protocol.Timestamp {
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - 1953125*inv
	}
	return protocol.Timestamp(uint64(d) / 512 * inv & (1<<55 - 1))
}

// shortEpochs tells whether interval works with this code's timers.
var shortEpochs = sync.OnceValue(func() bool {
	t := application.NewEpochTimer(interval(time.Millisecond))
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-time.After(2 * time.Second):
		return false
	}
})

// call is a request made concurrently with others.
type call struct {
	q         *request
	a         *addr
	pause     time.Duration
	begin     time.Duration
	end       time.Duration
	raw       []byte
	err       error
	epoch     uint64 // of the newest signed root in the answer
	has       bool   // has signed roots
	code      protocol.ErrorCode
	p         *protocol.DirectoryProof
	in        []string // per proof: the included value, or ""
	tb        string   // promised value
	nothing   bool     // slow: no answer
	fromEpoch uint64
}

func (o *call) String() string {
	return fmt.Sprintf("[%v, %v] type %d %q key %s %d-%d -> code %d epochs %d-%d values %q promise %q", o.begin, o.end, o.q.typ, o.q.name, vh.Hex(o.q.key), o.q.from, o.q.to,
		o.code, o.fromEpoch, o.epoch, o.in, o.tb)
}

// verify checks everything in an answer against the signed roots it comes
// with, and reads the observation from it.
func (o *call) verify(c *vh.Case, k *world.Keys, strs map[uint64]string) {
	c.T.Helper()
	bad := func(format string, args ...interface{}) {
		c.T.Helper()
		c.Fatalf("%s\nin the answer to %v:\n%s", fmt.Sprintf(format, args...), o, o.raw)
	}
	r := application.UnmarshalResponse(o.q.typ, o.raw)
	o.code = r.Error
	if r.DirectoryResponse == nil {
		return
	}
	p, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || p == nil || len(p.STR) == 0 {
		bad("no proof")
	}
	o.p, o.has = p, true
	for i, s := range p.STR {
		if !world.Complete(s) {
			bad("incomplete signed root")
		}
		if !k.Pub.Verify(world.STRMessage(s), s.Signature) {
			bad("signed root %d is not signed", s.Epoch)
		}
		if w := strs[s.Epoch]; w == "" {
			strs[s.Epoch] = world.JS(s)
		} else if w != world.JS(s) {
			bad("another signed root of epoch %d", s.Epoch)
		}
		if i > 0 && !world.Follows(p.STR[i-1], s) {
			bad("signed root %d does not follow", s.Epoch)
		}
	}
	o.fromEpoch, o.epoch = p.STR[0].Epoch, p.STR[len(p.STR)-1].Epoch
	for i, ap := range p.AP {
		if ap == nil || ap.Leaf == nil || i >= len(p.STR) {
			bad("incomplete proof")
		}
		ix, root := k.Index(o.q.name), p.STR[i].TreeHash
		if !k.VRFPub.Verify([]byte(o.q.name), ap.LookupIndex, ap.VrfProof) {
			bad("the index is not proved to be the name's")
		}
		switch {
		case ap.ProofType() == merkletree.ProofOfInclusion && mt.Included(ap, ix, o.q.name, ap.Leaf.Value, root):
			o.in = append(o.in, string(ap.Leaf.Value))
		case ap.ProofType() == merkletree.ProofOfAbsence && mt.Absent(ap, ix, root):
			o.in = append(o.in, "")
		default:
			bad("proof %d does not verify against the signed root of epoch %d", i, p.STR[i].Epoch)
		}
	}
	if p.TB != nil {
		last := p.STR[len(p.STR)-1]
		if !bytes.Equal(p.TB.Index, k.Index(o.q.name)) || !k.Pub.Verify(world.TBMessage(last.Signature, p.TB.Index, p.TB.Value), p.TB.Signature) {
			bad("the promise is not for this name and signed root")
		}
		o.tb = string(p.TB.Value)
	}
	want := 1
	if o.q.typ == protocol.MonitoringType {
		want = len(p.STR)
	}
	if len(p.AP) != want || o.q.typ < 2 && len(p.STR) != 1 {
		bad("%d proofs and %d signed roots", len(p.AP), len(p.STR))
	}
}

// reg is a registered name.
type reg struct {
	key   string
	epoch uint64
}

// state of the sequential directory.
type state struct {
	epoch uint64
	names map[string]reg
}

func (s state) with(name, key string) state {
	m := map[string]reg{name: {key, s.epoch}}
	for n, r := range s.names {
		m[n] = r
	}
	return state{s.epoch, m}
}

// step is the sequential directory.  Epochs end at any time, so an answer from
// a later epoch says that they did; none end for the sake of an answer without one.
func step(s state, q *request, o *call) (bool, state) {
	if o.has && o.epoch > s.epoch {
		s.epoch = o.epoch
	}
	r, known := s.names[q.name]
	past := func(e uint64) string { // included value in epoch e
		if known && r.epoch < e {
			return r.key
		}
		return ""
	}
	eq := func(code protocol.ErrorCode, from, to uint64, in []string, tb string) bool {
		if o.code != code || !o.has || o.fromEpoch != from || o.epoch != to || o.tb != tb || len(o.in) != len(in) {
			return false
		}
		for i := range in {
			if in[i] != o.in[i] {
				return false
			}
		}
		return true
	}
	none := !o.has && o.code == protocol.ErrMalformedMessage
	pending := ""
	if known && r.epoch == s.epoch {
		pending = r.key
	}
	now := []string{past(s.epoch)}
	switch q.typ {
	case protocol.RegistrationType:
		if !known {
			return eq(protocol.ReqSuccess, s.epoch, s.epoch, now, string(q.key)), s.with(q.name, string(q.key))
		}
		return eq(protocol.ReqNameExisted, s.epoch, s.epoch, now, pending), s
	case protocol.KeyLookupType:
		if !known {
			return eq(protocol.ReqNameNotFound, s.epoch, s.epoch, now, ""), s
		}
		return eq(protocol.ReqSuccess, s.epoch, s.epoch, now, pending), s
	case protocol.KeyLookupInEpochType:
		if q.from > s.epoch {
			return none, s
		}
		v := past(q.from)
		if v == "" {
			return eq(protocol.ReqNameNotFound, q.from, s.epoch, []string{v}, ""), s
		}
		return eq(protocol.ReqSuccess, q.from, s.epoch, []string{v}, ""), s
	}
	if q.from > s.epoch || q.from > q.to {
		return none, s
	}
	to := min(q.to, s.epoch)
	var in []string
	for e := q.from; e <= to; e++ {
		in = append(in, past(e))
	}
	return eq(protocol.ReqSuccess, q.from, to, in, ""), s
}

var model = porcupine.Model{
	Init: func() interface{} { return state{names: map[string]reg{}} },
	Step: func(s, in, out interface{}) (bool, interface{}) {
		ok, n := step(s.(state), in.(*request), out.(*call))
		return ok, n
	},
	Equal: func(a, b interface{}) bool {
		x, y := a.(state), b.(state)
		if x.epoch != y.epoch || len(x.names) != len(y.names) {
			return false
		}
		for n, r := range x.names {
			if y.names[n] != r {
				return false
			}
		}
		return true
	},
}

// sequential decides whether the calls are those of some sequential execution.
func sequential(c *vh.Case, calls []*call) {
	c.T.Helper()
	var ops []porcupine.Operation
	var last uint64
	for i, o := range calls {
		ops = append(ops, porcupine.Operation{ClientId: i, Input: o.q, Call: int64(o.begin), Output: o, Return: int64(o.end)})
		if o.has {
			last = max(last, o.epoch)
		}
	}
	switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
	case porcupine.Illegal:
		sort.Slice(calls, func(i, j int) bool { return calls[i].begin < calls[j].begin })
		var b strings.Builder
		for _, o := range calls {
			fmt.Fprintln(&b, o)
		}
		c.Fatalf("no sequential execution gives these answers:\n%s", b.String())
	case porcupine.Unknown:
		c.Class("undecided")
	}
	if last > 0 {
		c.Class("several epochs")
	}
}

func TestC27_Concurrent(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1000}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		o := opts{deadline: protocol.Timestamp(rapid.Uint64Range(1, 1<<40).Draw(rt, "deadline")), capacity: 100000, addrs: []spec{{reg: true}, {reg: true}}}
		tick := time.Duration(0)
		if rapid.IntRange(0, 4).Draw(rt, "ticking") > 0 && shortEpochs() {
			tick = time.Duration(rapid.IntRange(2000, 40000).Draw(rt, "tick")) * time.Microsecond
			o.interval = interval(tick)
		} else {
			o.interval = 1 << 20
		}
		names := texts(rt, rapid.IntRange(1, 3).Draw(rt, "nnames"))
		var clients [][]*call
		n := 0
		for i := rapid.IntRange(2, 6).Draw(rt, "clients"); i > 0; i-- {
			var mine []*call
			for j := rapid.IntRange(1, 9).Draw(rt, "calls"); j > 0; j-- {
				q := &request{typ: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(rt, "type"), name: names[rapid.IntRange(0, len(names)-1).Draw(rt, "name")]}
				n++
				switch q.typ {
				case protocol.RegistrationType:
					q.key = []byte(fmt.Sprintf("key %d", n))
				case protocol.KeyLookupInEpochType:
					q.from = rapid.Uint64Range(0, 6).Draw(rt, "epoch")
				case protocol.MonitoringType:
					q.from, q.to = rapid.Uint64Range(0, 5).Draw(rt, "start"), rapid.Uint64Range(0, 8).Draw(rt, "end")
				}
				cl := &call{q: q}
				if rapid.IntRange(0, 2).Draw(rt, "wait") == 0 {
					cl.pause = time.Duration(rapid.IntRange(0, 4000).Draw(rt, "pause")) * time.Microsecond
				}
				mine = append(mine, cl)
			}
			clients = append(clients, mine)
		}
		// the configuration is reloaded meanwhile
		type reload struct {
			pause    time.Duration
			deadline protocol.Timestamp
		}
		var reloads []reload
		order := map[protocol.Timestamp]int{o.deadline: 0}
		for i := max(0, rapid.IntRange(-2, 3).Draw(rt, "reloads")); i > 0; i-- {
			r := reload{time.Duration(rapid.IntRange(0, 8000).Draw(rt, "pause")) * time.Microsecond, protocol.Timestamp(rapid.Uint64Range(1, 1<<40).Draw(rt, "newDeadline"))}
			if _, dup := order[r.deadline]; dup {
				continue
			}
			reloads = append(reloads, r)
			order[r.deadline] = len(reloads)
			o.viaFile = true
		}
		s := start(c, k, o)
		defer s.stop()
		c.Tracef("%d clients, %d calls, names %q, epochs of %v, reloads %v", len(clients), n, names, tick, reloads)
		t0 := time.Now()
		var wg sync.WaitGroup
		if len(reloads) > 0 {
			c.Class("reloads")
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, r := range reloads {
					time.Sleep(r.pause)
					s.reload(r.deadline)
				}
			}()
		}
		var all []*call
		for i, mine := range clients {
			all = append(all, mine...)
			a := s.A[i%2]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range mine {
					time.Sleep(o.pause)
					o.begin = time.Since(t0)
					o.raw, o.err = a.exchange(o.q.json(), how{})
					o.end = time.Since(t0)
					if o.err != nil || len(o.raw) == 0 {
						o.nothing = true
						return
					}
				}
			}()
		}
		wg.Wait()
		strs := map[uint64]string{}
		// and at the end, one after the other
		var final []*call
		for _, name := range names {
			o := &call{q: &request{typ: protocol.KeyLookupType, name: name}}
			o.begin = time.Since(t0)
			o.raw, o.err = s.A[0].exchange(o.q.json(), how{})
			o.end = time.Since(t0)
			o.nothing = o.err != nil || len(o.raw) == 0
			final = append(final, o)
		}
		s.shutdown()
		done := func(list []*call) (out []*call) {
			for _, o := range list {
				if o.nothing && o.end-o.begin > 4*time.Second {
					c.T.Skip("stalled")
				}
				if o.nothing {
					c.Fatalf("no answer to %s: %v", o.q.json(), o.err)
				}
				if !json.Valid(o.raw) {
					c.Fatalf("the answer to %s is not well-formed: %q", o.q.json(), o.raw)
				}
				if o.end > 0 {
					o.verify(c, k, strs)
					out = append(out, o)
				}
			}
			return
		}
		calls := done(append(all, final...))
		overlap, regs := false, map[string]int{}
		for i, x := range calls {
			if x.q.typ == protocol.RegistrationType {
				regs[x.q.name]++
			}
			for _, y := range calls[:i] {
				overlap = overlap || x.begin < y.end && y.begin < x.end
			}
		}
		// every signed root announces a configured deadline, and they come in order
		var epochs []uint64
		for e := range strs {
			epochs = append(epochs, e)
		}
		slices.Sort(epochs)
		newest := 0
		for _, e := range epochs {
			str := new(protocol.DirSTR)
			if err := json.Unmarshal([]byte(strs[e]), str); err != nil || !world.Complete(str) {
				vh.Infra("a signed root read before: %v", err)
			}
			i, ok := order[str.Policies.EpochDeadline]
			if !ok || i < newest {
				c.Fatalf("epoch %d announces the deadline %d; configured were %d and then %v, and configuration %d was already announced", e, str.Policies.EpochDeadline, o.deadline, reloads, newest)
			}
			newest = i
		}
		if newest > 0 {
			c.Class("a reloaded deadline is announced")
		}
		sequential(c, calls)
		competing := false
		for _, n := range regs {
			competing = competing || n > 1
		}
		if overlap && competing {
			c.NT()
		}
	})
}
