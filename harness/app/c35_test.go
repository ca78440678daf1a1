//go:build go1.23

package app_test

import (
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"os"
	"os/signal"
	"runtime"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

func descriptors() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		vh.Infra("%v", err)
	}
	return len(l) - 1
}

// settle waits until no more goroutines and descriptors are in use than were.
func settle(c *vh.Case, what string, goroutines, fds int) {
	c.T.Helper()
	for t0 := time.Now(); ; time.Sleep(5 * time.Millisecond) {
		g, f := runtime.NumGoroutine(), descriptors()
		if g <= goroutines && f <= fds {
			return
		}
		if time.Since(t0) > 25*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fatalf("%s %d goroutines and %d descriptors are left of what were %d and %d\n%s", what, g, f, goroutines, fds, buf)
		}
	}
}

var warm sync.Once

// TestC35_Idle: connections that are silent, slow, or abandoned are cut off,
// keep nobody else from being served, and leave nothing behind.
func TestC35_Idle(t *testing.T) {
	warm.Do(func() {
		signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)
		freePort()
	})
	vh.Check(t, vh.N{Quick: 24, Thorough: 300, Hang: 240 * time.Second}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		o := opts{interval: 1, deadline: 1, capacity: 1000}
		for i := rapid.IntRange(1, 3).Draw(rt, "addresses"); i > 0; i-- {
			o.addrs = append(o.addrs, spec{tls: rapid.Bool().Draw(rt, "tls"), reg: true})
		}
		short := rapid.IntRange(0, 2).Draw(rt, "short") > 0 && shortEpochs()
		if short {
			o.interval = interval(20 * time.Millisecond)
		}
		g0, f0 := runtime.NumGoroutine(), descriptors()
		s := start(c, k, o)
		defer s.stop()
		look := func(a *addr) {
			r := s.send(a, protocol.KeyLookupType, (&request{typ: protocol.KeyLookupType, name: "x"}).json(), how{})
			if r.Error != protocol.ReqNameNotFound {
				c.Fatalf("a lookup is answered with %v", r.Error)
			}
		}
		for _, a := range s.A {
			look(a)
		}
		many := (&request{typ: protocol.MonitoringType, name: "long", from: 0, to: 1 << 40}).json()
		if short { // an answer of half a megabyte
			r := s.send(s.A[0], protocol.RegistrationType, (&request{typ: protocol.RegistrationType, name: "long", key: make([]byte, 5500)}).json(), how{})
			if r.Error != protocol.ReqSuccess {
				c.Fatalf("a registration is answered with %v", r.Error)
			}
			s.await(60, 20*time.Millisecond, nil)
		}
		time.Sleep(50 * time.Millisecond)
		g1, f1 := runtime.NumGoroutine(), descriptors()
		type held struct {
			what       string
			at         time.Time
			slow, tls  bool
			q          *request
			out        []byte
			after, all time.Duration
		}
		var hs []*held
		var wg sync.WaitGroup
		n := vh.LogInt(rt, "connections", 1, 120)
		if rapid.IntRange(0, 3).Draw(rt, "crowd") == 0 {
			n = rapid.IntRange(150, 600).Draw(rt, "connections")
		}
		kinds := map[string]int{}
		for i := 0; i < n; i++ {
			a := s.A[rapid.IntRange(0, len(s.A)-1).Draw(rt, "addr")]
			q := &request{typ: rapid.IntRange(0, 1).Draw(rt, "type"), name: fmt.Sprint("name", i), key: []byte{byte(i)}}
			msg := q.json()
			part := rapid.IntRange(0, len(msg)-1).Draw(rt, "part")
			kind := rapid.SampledFrom([]string{"silent", "part", "trickle", "no end", "abandoned", "slow", "hello", "deaf"}).Draw(rt, "kind")
			pause := time.Duration(rapid.IntRange(100, 1200).Draw(rt, "pause")) * time.Millisecond
			if kind == "hello" && !a.tls || kind == "deaf" && !short {
				kind = "part"
			}
			raw, err := a.dial()
			if err != nil {
				c.Fatalf("connecting: %v", err)
			}
			defer raw.Close()
			x := &held{what: kind, at: time.Now(), slow: kind == "slow", tls: a.tls, q: q}
			raw.SetDeadline(time.Now().Add(60 * time.Second))
			kinds[kind]++
			c.Class(kind)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if kind != "deaf" {
					defer raw.Close()
				}
				var conn net.Conn = raw
				if kind == "abandoned" {
					raw.Write(msg[:part])
					raw.Close()
					return
				}
				if a.tls && kind != "hello" {
					// a handshake before or after the silence
					t := tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
					if t.Handshake() != nil {
						x.what += " (no handshake)"
						x.after = time.Since(x.at)
						return
					}
					conn = t
				}
				switch kind {
				case "silent":
				case "hello":
					raw.Write([]byte{22, 3, 1, 0, 200, 1, 0, 0}[:part%9])
				case "part":
					conn.Write(msg[:part])
				case "deaf": // does not read the long answer
					conn.Write(many)
					raw.(interface{ CloseWrite() error }).CloseWrite()
					return
				case "no end":
					conn.Write(msg)
				case "trickle":
					go func() {
						for x.at.Add(45 * time.Second).After(time.Now()) {
							if _, err := conn.Write([]byte(" ")); err != nil {
								return
							}
							time.Sleep(pause)
						}
					}()
				case "slow":
					conn.Write(msg[:part])
					time.Sleep(pause)
					conn.Write(msg[part : (part+len(msg))/2])
					time.Sleep(pause)
					conn.Write(msg[(part+len(msg))/2:])
					raw.(interface{ CloseWrite() error }).CloseWrite()
				}
				if kind == "slow" {
					x.all = time.Since(x.at)
				}
				x.out, err = io.ReadAll(conn)
				x.after = time.Since(x.at)
			}()
			hs = append(hs, x)
		}
		c.Tracef("%d addresses, connections: %v", len(s.A), kinds)
		down, late := rapid.IntRange(0, 2).Draw(rt, "shutdown") == 0, false
		if down {
			t0 := time.Now()
			done := make(chan struct{})
			go func() { s.shutdown(); close(done) }()
			select {
			case <-done:
			case <-time.After(30 * time.Second):
				c.Fatalf("a shutdown waits for connections that stay silent, %v after the last was made", time.Since(t0))
			}
		} else {
			// others are served meanwhile, and epochs go on
			from := s.look("x").str.Epoch
			for t0 := time.Now(); time.Since(t0) < 3500*time.Millisecond; time.Sleep(100 * time.Millisecond) {
				for _, a := range s.A {
					t1 := time.Now()
					look(a)
					if d := time.Since(t1); d > 3*time.Second {
						c.Tracef("a lookup took %v", d)
						late = true
					}
				}
			}
			if to := s.look("x").str.Epoch; to == from {
				// the machine may be slow, but not forever
				s.await(from+1, 20*time.Millisecond, nil)
				if time.Since(hs[len(hs)-1].at) > 4500*time.Millisecond {
					c.Tracef("epochs went on only after the connections were cut off")
				}
			}
		}
		wg.Wait()
		for _, x := range hs {
			switch {
			case x.what == "abandoned" || x.what == "deaf":
			case x.slow:
				if !down && x.all > 0 && x.all < 3500*time.Millisecond && len(x.out) == 0 && x.after < 4500*time.Millisecond {
					c.Fatalf("a request that took %v to send got no answer after %v", x.all, x.after)
				}
				if len(x.out) > 0 {
					s.decode(x.q.typ, x.q.json(), x.out)
				}
			case x.after > 30*time.Second:
				c.Fatalf("a connection (%s) was kept open for %v", x.what, x.after)
			case x.after < 3*time.Second && !down:
				c.Fatalf("a connection (%s) was cut off after %v", x.what, x.after)
			}
		}
		if late {
			heldUp(c, s, k, o, n, look)
		}
		if !down {
			settle(c, "after all connections were closed,", g1, f1+kinds["deaf"])
			for _, a := range s.A {
				look(a)
			}
			s.shutdown()
		}
		settle(c, "after the shutdown,", g0, f0+kinds["deaf"])
		if len(kinds) > 1 {
			c.NT()
		}
	})
}

// heldUp tells a slow machine from silent connections that hold others up: a
// server without such connections must be slow at the same time, now and then.
func heldUp(c *vh.Case, s *srv, k *world.Keys, o opts, n int, look func(*addr)) {
	c.T.Helper()
	free := start(c, k, o)
	defer free.stop()
	for try := 0; try < 3; try++ {
		var conns []net.Conn
		for i := 0; i < n; i++ {
			if conn, err := s.A[i%len(s.A)].dial(); err == nil {
				conns = append(conns, conn)
			}
		}
		var here, there time.Duration
		for i, a := range s.A {
			t0 := time.Now()
			look(a)
			here = max(here, time.Since(t0))
			t0 = time.Now()
			look(free.A[i])
			there = max(there, time.Since(t0))
		}
		for _, conn := range conns {
			conn.Close()
		}
		if here < 3*time.Second || there > 300*time.Millisecond {
			return
		}
		time.Sleep(time.Second)
	}
	c.Fatalf("beside %d silent connections, a lookup takes more than 3 s", n)
}

// TestC35_Descriptors: so many connections that the process runs out of
// descriptors; once they are freed, every address is served again.
func TestC35_Descriptors(t *testing.T) {
	warm.Do(func() {
		signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)
		freePort()
	})
	vh.Check(t, vh.N{Quick: 40, Thorough: 400, Hang: 240 * time.Second}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		o := opts{interval: 1, deadline: 1, capacity: 1000}
		for i := rapid.IntRange(1, 3).Draw(rt, "addresses"); i > 0; i-- {
			o.addrs = append(o.addrs, spec{tls: rapid.Bool().Draw(rt, "tls"), reg: true})
		}
		g0, f0 := runtime.NumGoroutine(), descriptors()
		s := start(c, k, o)
		defer s.stop()
		look := func(a *addr, name string, want protocol.ErrorCode) {
			r := s.send(a, protocol.KeyLookupType, (&request{typ: protocol.KeyLookupType, name: name}).json(), how{})
			if r.Error != want {
				c.Fatalf("a lookup is answered with %v, should be %v", r.Error, want)
			}
		}
		if r := s.send(s.A[0], protocol.RegistrationType, (&request{typ: protocol.RegistrationType, name: "known", key: []byte("key")}).json(), how{}); r.Error != protocol.ReqSuccess {
			c.Fatalf("a registration is answered with %v", r.Error)
		}
		for _, a := range s.A {
			look(a, "known", protocol.ReqSuccess)
		}
		time.Sleep(20 * time.Millisecond)
		g1, f1 := runtime.NumGoroutine(), descriptors()

		room := rapid.IntRange(1, 60).Draw(rt, "room")
		hold := time.Duration(rapid.IntRange(1, 60).Draw(rt, "hold")) * time.Millisecond
		whole := rapid.Bool().Draw(rt, "whole")
		start := rapid.IntRange(0, 100).Draw(rt, "first")
		top := 0
		l, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			vh.Infra("%v", err)
		}
		for _, e := range l {
			n := 0
			fmt.Sscan(e.Name(), &n)
			top = max(top, n)
		}
		var was syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &was); err != nil {
			vh.Infra("%v", err)
		}
		now := was
		now.Cur = uint64(top + room)
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &now); err != nil {
			vh.Infra("%v", err)
		}
		restore := func() { syscall.Setrlimit(syscall.RLIMIT_NOFILE, &was) }
		defer restore()
		var conns []net.Conn
		full := 0
		for i := 0; i < 400 && full < 3; i++ {
			a := s.A[(start+i)%len(s.A)]
			conn, err := a.dial()
			if err != nil {
				full++
				time.Sleep(hold / 3)
				continue
			}
			conns = append(conns, conn)
			if whole { // requests which are answered in the end, or not
				conn.Write((&request{typ: protocol.KeyLookupType, name: "known"}).json())
			}
		}
		for _, conn := range conns {
			conn.Close()
		}
		restore()
		c.Tracef("%d addresses, %d connections, then no descriptor left: %v, for %v", len(s.A), len(conns), full > 0, hold)
		// what was accepted is done with, and every address is served
		for _, a := range s.A {
			look(a, "known", protocol.ReqSuccess)
			look(a, "unknown", protocol.ReqNameNotFound)
		}
		settle(c, "after the descriptors were freed,", g1, f1)
		s.shutdown()
		settle(c, "after the shutdown,", g0, f0)
		if full > 0 {
			c.NT()
		}
	})
}
