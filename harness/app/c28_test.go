//go:build go1.23

package app_test

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// look is what a lookup showed.
type look struct {
	begin, end time.Duration // since before the server was made
	str        *protocol.DirSTR
	p          *protocol.DirectoryProof
	code       protocol.ErrorCode
}

func (s *srv) look(name string) look {
	s.c.T.Helper()
	l := look{begin: time.Since(s.Begun)}
	be := &remote{s, func() (*addr, how) { return s.A[0], how{} }}
	r := be.KeyLookup(&protocol.KeyLookupRequest{Username: name})
	l.end = time.Since(s.Begun)
	l.code = r.Error
	l.p, _ = r.DirectoryResponse.(*protocol.DirectoryProof)
	if l.p == nil || len(l.p.STR) != 1 || !world.Complete(l.p.STR[0]) {
		s.c.Fatalf("a lookup is answered with %s", world.JS(r))
	}
	l.str = l.p.STR[0]
	return l
}

// await looks until the epoch is at least e.
func (s *srv) await(e uint64, every time.Duration, seen func(look)) {
	s.c.T.Helper()
	for {
		l := s.look("no such name")
		if seen != nil {
			seen(l)
		}
		if l.str.Epoch >= e {
			return
		}
		if l.begin > 40*time.Second {
			s.c.Fatalf("after %v the epoch is still %d", l.begin, l.str.Epoch)
		}
		time.Sleep(every)
	}
}

// chain asks for all signed roots and checks that they are one chain from
// epoch 0 to the current one; it returns them.
func (s *srv) chain(name string, from uint64) []*protocol.DirSTR {
	s.c.T.Helper()
	be := &remote{s, func() (*addr, how) { return s.A[0], how{} }}
	r := be.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: name, Epoch: from})
	p, _ := r.DirectoryResponse.(*protocol.DirectoryProof)
	if p == nil || len(p.STR) == 0 {
		s.c.Fatalf("a lookup in epoch %d is answered with %s", from, world.JS(r))
	}
	for i, str := range p.STR {
		if !world.Complete(str) || str.Epoch != from+uint64(i) || !s.K.Pub.Verify(world.STRMessage(str), str.Signature) ||
			i > 0 && !world.Follows(p.STR[i-1], str) {
			s.c.Fatalf("signed root %d of %d from epoch %d is wrong: %s", i, len(p.STR), from, world.JS(str))
		}
	}
	return p.STR
}

// keyOf is the key included for a name in an answer, verified.
func (s *srv) keyOf(l look, name string) string {
	s.c.T.Helper()
	o := &call{q: &request{typ: protocol.KeyLookupType, name: name}, raw: []byte(world.JS(&protocol.Response{Error: l.code, DirectoryResponse: l.p}))}
	o.verify(s.c, s.K, map[uint64]string{})
	return o.in[0]
}

// noEarly checks that no epoch came before its time.
func noEarly(c *vh.Case, l look, d time.Duration) {
	c.T.Helper()
	if due := time.Duration(l.str.Epoch) * d; l.end < due {
		c.Fatalf("epoch %d is there %v after the start, with epochs of %v", l.str.Epoch, l.end, d)
	}
}

// TestC28_Schedule: epochs come when they are due, with what was registered.
func TestC28_Schedule(t *testing.T) {
	vh.Check(t, vh.N{Quick: 240}, func(rt *rapid.T, c *vh.Case) {
		if !shortEpochs() {
			c.T.Skip("no short epochs")
		}
		d := time.Duration(rapid.IntRange(15, 80).Draw(rt, "ms")) * time.Millisecond
		iv := interval(d)
		d = time.Duration(iv) * time.Second
		k := drawKeys(rt, c)
		names := texts(rt, rapid.IntRange(1, 4).Draw(rt, "nnames"))
		o := opts{interval: iv, capacity: 1000, addrs: []spec{{reg: true}}}
		if o.deadline = protocol.Timestamp(rapid.Uint64Range(1, 1<<40).Draw(rt, "deadline")); rapid.Bool().Draw(rt, "same") {
			o.deadline = iv
		}
		unset := o.deadline == iv && rapid.Bool().Draw(rt, "unset")
		var at []time.Duration
		for range names {
			at = append(at, time.Duration(rapid.IntRange(0, 150).Draw(rt, "at"))*time.Millisecond)
		}
		c.Tracef("epochs of %v, names %q registered at %v, unset %v", d, names, at, unset)
		if unset {
			o.interval = 0
		}
		s := start(c, k, o)
		if unset && s.Conf.EpochDeadline != 0 && s.Conf.EpochDeadline != iv {
			c.Fatalf("the configuration's epoch deadline is %d, the policies' %d", s.Conf.EpochDeadline, iv)
		}
		defer s.stop()
		be := &remote{s, func() (*addr, how) { return s.A[0], how{} }}
		regs := map[string]uint64{}
		for i, name := range names {
			if w := at[i] - time.Since(s.Begun); w > 0 {
				time.Sleep(w)
			}
			r := be.Register(&protocol.RegistrationRequest{Username: name, Key: []byte("key of " + name)})
			p, _ := r.DirectoryResponse.(*protocol.DirectoryProof)
			if r.Error != protocol.ReqSuccess || p == nil || len(p.STR) != 1 || !world.Complete(p.STR[0]) || p.TB == nil {
				c.Fatalf("registration of %q: %s", name, world.JS(r))
			}
			regs[name] = p.STR[0].Epoch
			noEarly(c, look{end: time.Since(s.Begun), str: p.STR[0]}, d)
		}
		last := s.look(names[0]).str.Epoch + 2
		s.await(last, time.Millisecond, func(l look) { noEarly(c, l, d) })
		for _, name := range names {
			for e := uint64(0); e <= last; e++ {
				r := be.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: name, Epoch: e})
				if want := e > regs[name]; (r.Error == protocol.ReqSuccess) != want {
					c.Fatalf("%q, registered in epoch %d: in epoch %d %s", name, regs[name], e, world.JS(r))
				}
			}
			if key := s.keyOf(s.look(name), name); key != "key of "+name {
				c.Fatalf("%q, registered in epoch %d, is bound to %q", name, regs[name], key)
			}
		}
		for _, str := range s.chain(names[0], 0) {
			if str.Policies.EpochDeadline != o.deadline {
				c.Fatalf("epoch %d announces %d, should be %d", str.Epoch, str.Policies.EpochDeadline, o.deadline)
			}
		}
		c.NT()
	})
}

// pace measures the times between the epochs of a server.
func pace(s *srv, n uint64, every time.Duration) []time.Duration {
	s.c.T.Helper()
	var out []time.Duration
	var e uint64
	var at time.Duration
	s.await(n+1, every, func(l look) {
		if l.str.Epoch == e+1 {
			if e > 0 {
				out = append(out, l.end-at)
			}
			at = l.end
		} else if l.str.Epoch != e {
			at = l.end
		}
		e = l.str.Epoch
	})
	return out
}

// TestC28_Pace: there is one epoch per deadline, not one in two; and servers set
// up by the tools' own functions follow the deadline they announce.
func TestC28_Pace(t *testing.T) {
	vh.Check(t, vh.N{Quick: 16, Thorough: 200}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		o := opts{deadline: protocol.Timestamp(rapid.Uint64Range(1, 2).Draw(rt, "deadline")), capacity: 10, addrs: []spec{{reg: true}}, viaFile: true}
		c.Tracef("deadline %d s", o.deadline)
		d := time.Duration(o.deadline) * time.Second
		for try := 1; ; try++ {
			s := start(c, k, o)
			best := time.Hour
			for _, x := range pace(s, 2, 5*time.Millisecond) {
				best = min(best, x)
			}
			if a := s.look("x").str.Policies.EpochDeadline; a != o.deadline {
				c.Fatalf("announces %d instead of %d", a, o.deadline)
			}
			s.look("x")
			noEarly(c, s.look("x"), d)
			s.stop()
			if best < d*3/2 { // a loaded machine can only delay epochs
				break
			}
			if try == 3 {
				c.Fatalf("epochs of %v take %v at the least, in three attempts", d, best)
			}
		}
		c.NT()
	})
}

// breaks are ways in which a configuration file cannot be used.
func breakConfig(rt *rapid.T, s *srv, good string) string {
	file := s.Conf.Path
	kind := rapid.SampledFrom([]string{"none", "empty", "garbage", "cut", "key", "keysize", "vrf", "nopolicies", "type", "dir"}).Draw(rt, "break")
	w := func(name, text string) {
		if err := os.WriteFile(filepath.Join(s.Dir, name), []byte(text), 0600); err != nil {
			vh.Infra("%v", err)
		}
	}
	switch kind {
	case "none":
		os.Remove(file)
	case "empty":
		w("config.toml", "")
	case "garbage":
		w("config.toml", "\x00\xff[[[")
	case "cut":
		i := strings.Index(good, "sign_key_path")
		w("config.toml", good[:i+5])
	case "key":
		w("config.toml", good)
		os.Remove(filepath.Join(s.Dir, "sign.priv"))
	case "keysize":
		w("config.toml", good)
		w("sign.priv", strings.Repeat("x", rapid.SampledFrom([]int{0, 1, 32, 63, 65, 128}).Draw(rt, "size")))
	case "vrf":
		w("config.toml", good)
		w("vrf.priv", strings.Repeat("x", rapid.SampledFrom([]int{0, 1, 32, 63, 65, 128}).Draw(rt, "size")))
	case "nopolicies":
		w("config.toml", strings.ReplaceAll(good, "[policies]", "[politics]"))
	case "type":
		w("config.toml", strings.Replace(good, "vrf_key_path = \"", "vrf_key_path = 1 #\"", 1))
	case "dir":
		os.Remove(file)
		os.Mkdir(file, 0700)
	}
	return kind
}

// TestC28_Reload: SIGUSR2 applies the deadline of a usable file, and only that.
func TestC28_Reload(t *testing.T) {
	vh.Check(t, vh.N{Quick: 200}, func(rt *rapid.T, c *vh.Case) {
		if !shortEpochs() {
			c.T.Skip("no short epochs")
		}
		d := time.Duration(rapid.IntRange(10, 40).Draw(rt, "ms")) * time.Millisecond
		k := drawKeys(rt, c)
		o := opts{interval: interval(d), deadline: protocol.Timestamp(rapid.Uint64Range(1, 1<<40).Draw(rt, "deadline")), capacity: 100000, addrs: []spec{{reg: true}}, viaFile: true}
		s := start(c, k, o)
		defer s.stop()
		be := &remote{s, func() (*addr, how) { return s.A[0], how{} }}
		be.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("a key")})
		now := o.deadline
		valid, invalid := 0, 0
		for i := rapid.IntRange(1, 4).Draw(rt, "reloads"); i > 0; i-- {
			time.Sleep(time.Duration(rapid.IntRange(0, 30).Draw(rt, "pause")) * time.Millisecond)
			next := protocol.Timestamp(rapid.Uint64Range(1, 1<<40).Draw(rt, "newDeadline"))
			os.RemoveAll(s.Conf.Path)
			for name, b := range map[string][]byte{"sign.priv": k.Sign, "vrf.priv": k.VRF} {
				if err := os.WriteFile(filepath.Join(s.Dir, name), b, 0600); err != nil {
					vh.Infra("%v", err)
				}
			}
			var as []*server.Address
			for _, a := range s.A {
				as = append(as, a.s)
			}
			f := server.NewConfig(s.Conf.Path, "toml", as, &application.LoggerConfig{Environment: "production"}, uint64(o.capacity),
				server.NewPolicies(next, "vrf.priv", "sign.priv", nil, nil), "init.str")
			// how often the server updates is another setting, and may be left out
			switch rapid.IntRange(0, 3).Draw(rt, "intervalInFile") {
			case 0:
				f.EpochDeadline = 0
			case 1, 2:
				f.EpochDeadline = protocol.Timestamp(rapid.Uint64Range(1, 1<<40).Draw(rt, "interval"))
			}
			if err := f.Save(); err != nil {
				c.Fatalf("saving: %v", err)
			}
			text, err := os.ReadFile(s.Conf.Path)
			if err != nil {
				vh.Infra("%v", err)
			}
			good, what := rapid.Bool().Draw(rt, "good"), "good"
			if !good {
				what = breakConfig(rt, s, string(text))
			}
			issued := s.chain("alice", 0)
			before := uint64(len(issued) - 1)
			if err := syscall.Kill(os.Getpid(), syscall.SIGUSR2); err != nil {
				vh.Infra("%v", err)
			}
			c.Tracef("reload %s: %d", what, next)
			if good {
				valid++
				// the new deadline comes within a few epochs once the signal was handled
				var deadline protocol.Timestamp
				for t0 := time.Now(); deadline != next; time.Sleep(2 * time.Millisecond) {
					l := s.look("alice")
					deadline = l.str.Policies.EpochDeadline
					if deadline != now && deadline != next {
						c.Fatalf("epoch %d announces %d; configured are %d and %d", l.str.Epoch, deadline, now, next)
					}
					if e := l.str.Epoch; time.Since(t0) > 40*time.Second || time.Since(t0) > 4*time.Second && e > before+60 {
						c.Fatalf("the reloaded deadline %d is not announced in epochs %d to %d", next, before, l.str.Epoch)
					}
				}
				now = next
			} else {
				invalid++
				after := uint64(0)
				for n := 0; n < 2; n++ { // epochs go on
					after = s.look("alice").str.Epoch + 2
					s.await(after, 2*time.Millisecond, func(l look) {
						if l.str.Policies.EpochDeadline != now {
							c.Fatalf("after a reload of an unusable file (%s), epoch %d announces %d instead of %d", what, l.str.Epoch, l.str.Policies.EpochDeadline, now)
						}
					})
				}
			}
			if later := s.chain("alice", 0); world.JS(later[:len(issued)]) != world.JS(issued) {
				c.Fatalf("signed roots issued before a reload changed")
			}
			if key := s.keyOf(s.look("alice"), "alice"); before > 1 && key != "a key" {
				c.Fatalf("after a reload alice is bound to %q", key)
			}
			r := be.Register(&protocol.RegistrationRequest{Username: fmt.Sprint("bob", i), Key: []byte("b")})
			if r.Error != protocol.ReqSuccess {
				c.Fatalf("after a reload a registration is answered with %s", world.JS(r))
			}
		}
		if valid > 0 && invalid > 0 {
			c.NT()
		}
	})
}

// TestC28_Shutdown: accepted requests are answered, addresses are free again,
// and no epoch is issued any more.
func TestC28_Shutdown(t *testing.T) {
	vh.Check(t, vh.N{Quick: 240}, func(rt *rapid.T, c *vh.Case) {
		d := time.Duration(rapid.IntRange(5, 60).Draw(rt, "ms")) * time.Millisecond
		k := drawKeys(rt, c)
		o := opts{interval: interval(d), deadline: 1, capacity: 100000}
		if !shortEpochs() {
			o.interval = 1
			d = time.Second
		}
		for i := rapid.IntRange(1, 3).Draw(rt, "addresses"); i > 0; i-- {
			o.addrs = append(o.addrs, spec{tls: rapid.IntRange(0, 4).Draw(rt, "tls") == 0, reg: true})
		}
		s := start(c, k, o)
		defer s.stop()
		type open struct {
			conn net.Conn
			a    *addr
			q    *request
			part int
			wait time.Duration
			late atomic.Bool // the rest of the request is on its way
			out  []byte
			err  error
		}
		var opens []*open
		for i := rapid.IntRange(0, 5).Draw(rt, "open"); i > 0; i-- {
			a := s.A[rapid.IntRange(0, len(s.A)-1).Draw(rt, "addr")]
			if a.tls {
				continue // its handshake is part of the answer
			}
			x := &open{a: a, q: &request{typ: rapid.IntRange(0, 1).Draw(rt, "type"), name: fmt.Sprint("name", i), key: []byte{byte(i)}}}
			x.part = rapid.IntRange(0, len(x.q.json())).Draw(rt, "part")
			x.wait = time.Duration(rapid.IntRange(0, 40).Draw(rt, "wait")) * time.Millisecond
			var err error
			if x.conn, err = a.dial(); err != nil {
				c.Fatalf("connecting: %v", err)
			}
			defer x.conn.Close()
			x.conn.SetDeadline(time.Now().Add(60 * time.Second))
			x.conn.Write(x.q.json()[:x.part])
			opens = append(opens, x)
		}
		// connections are accepted in order, so these are, once later ones are answered
		for _, a := range s.A {
			s.send(a, protocol.KeyLookupType, (&request{typ: 1, name: "x"}).json(), how{})
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 30).Draw(rt, "before")) * time.Millisecond)
		c.Tracef("%d addresses, epochs of %v, %d open requests", len(s.A), d, len(opens))
		t0 := time.Now()
		var wg sync.WaitGroup
		for _, x := range opens {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(x.wait)
				x.late.Store(true)
				if _, x.err = x.conn.Write(x.q.json()[x.part:]); x.err != nil {
					return
				}
				x.conn.(*net.UnixConn).CloseWrite()
				buf := make([]byte, 1<<16)
				n := 0
				for {
					m, err := x.conn.Read(buf[n:])
					n += m
					if err != nil {
						break
					}
				}
				x.out = buf[:n]
			}()
		}
		s.shutdown()
		for _, x := range opens {
			// whoever shuts a server down exits afterwards
			if !x.late.Load() && x.part < len(x.q.json()) && time.Since(t0) < 4*time.Second {
				c.Fatalf("the shutdown was over %v after it began, although %d bytes of an accepted request had not been sent yet", time.Since(t0), len(x.q.json())-x.part)
			}
		}
		at := s.S.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType, Request: &protocol.KeyLookupRequest{Username: "x"}})
		wg.Wait()
		if time.Since(t0) > 4*time.Second {
			c.T.Skip("stalled")
		}
		for _, x := range opens {
			if x.err != nil || len(x.out) == 0 {
				c.Fatalf("a request that was open at the time of the shutdown got no answer (%v)", x.err)
			}
			r := s.decode(x.q.typ, x.q.json(), x.out)
			want := protocol.ReqSuccess
			if x.q.typ == protocol.KeyLookupType {
				want = protocol.ReqNameNotFound
			}
			if r.Error != want {
				c.Fatalf("the request %s, open at the time of the shutdown, got %s", x.q.json(), world.JS(r))
			}
		}
		for _, a := range s.A {
			if conn, err := a.dial(); err == nil {
				conn.Close()
				c.Fatalf("%s still accepts connections", a.s.Address)
			}
			network := "unix"
			if a.tls {
				network = "tcp"
			}
			l, err := net.Listen(network, a.dst)
			if err != nil {
				c.Fatalf("%s is not free: %v", a.s.Address, err)
			}
			l.Close()
		}
		time.Sleep(3 * d)
		later := s.S.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType, Request: &protocol.KeyLookupRequest{Username: "x"}})
		if a, b := world.JS(at.DirectoryResponse.(*protocol.DirectoryProof).STR), world.JS(later.DirectoryResponse.(*protocol.DirectoryProof).STR); a != b {
			c.Fatalf("an epoch was issued after the shutdown:\n%s\n%s", a, b)
		}
		if len(opens) > 0 {
			c.NT()
		}
	})
}
