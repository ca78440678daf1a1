//go:build go1.23

package app_test

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/application/testutil"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// certs makes directories with a certificate and key each.
var certs = sync.OnceValue(func() (dirs []string) {
	for i := 0; i < 3; i++ {
		d := vh.Dir()
		if err := testutil.CreateTLSCert(d); err != nil {
			vh.Infra("certificate: %v", err)
		}
		dirs = append(dirs, d)
	}
	return
})

// peer does a TLS handshake with an address and returns the certificates it shows.
func (a *addr) peer() ([][]byte, error) {
	raw, err := a.dial()
	if err != nil {
		return nil, err
	}
	defer raw.Close()
	wait := 20 * time.Second
	if !a.tls {
		wait = 100 * time.Millisecond // for what does not come
	}
	raw.SetDeadline(time.Now().Add(wait))
	t := tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
	if err := t.Handshake(); err != nil {
		return nil, err
	}
	var out [][]byte
	for _, x := range t.ConnectionState().PeerCertificates {
		out = append(out, x.Raw)
	}
	return out, nil
}

// TestC37_Addresses: every configured address is served as configured, or the
// server refuses to start.
func TestC37_Addresses(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		s := configure(c, k, opts{deadline: 3600, capacity: 10})
		defer os.RemoveAll(s.Dir)
		write := func(file, text string) string {
			file = filepath.Join(s.Dir, file)
			if err := os.WriteFile(file, []byte(text), 0600); err != nil {
				vh.Infra("%v", err)
			}
			return file
		}
		copyOf := func(file, from string, n int) string {
			b, err := os.ReadFile(from)
			if err != nil {
				vh.Infra("%v", err)
			}
			return write(file, string(b[:len(b)*n/100]))
		}
		dirs := certs()
		leaf := map[*addr][]byte{}
		flawed, what := -1, ""
		n := rapid.IntRange(1, 4).Draw(rt, "addresses")
		if rapid.Bool().Draw(rt, "flawed") {
			flawed = rapid.IntRange(0, n-1).Draw(rt, "which")
		}
		kept := map[string]string{} // what is in the way stays as it is
		for i := 0; i < n; i++ {
			a := &addr{spec: spec{tls: rapid.Bool().Draw(rt, "tls"), reg: rapid.IntRange(0, 3).Draw(rt, "reg") > 0}}
			sa := &application.ServerAddress{}
			a.s = &server.Address{ServerAddress: sa, AllowRegistration: a.reg}
			s.A = append(s.A, a)
			if !a.tls {
				a.dst = filepath.Join(s.Dir, fmt.Sprintf("s%d", i))
				sa.Address = "unix://" + a.dst
				if i != flawed {
					continue
				}
				switch rapid.IntRange(0, 5).Draw(rt, "flaw") {
				case 0:
					what, kept[a.dst] = "a file is in the way", "content"
					write(filepath.Base(a.dst), "content")
				case 1:
					what = "a directory is in the way"
					os.Mkdir(a.dst, 0700)
				case 2:
					what = "a link to nowhere is in the way"
					os.Symlink(filepath.Join(s.Dir, "nowhere"), a.dst)
				case 3:
					what = "another server has the socket"
					l, err := net.Listen("unix", a.dst)
					if err != nil {
						vh.Infra("%v", err)
					}
					defer l.Close()
				case 4:
					what = "no such directory"
					sa.Address = "unix://" + filepath.Join(s.Dir, "none", "s")
				case 5:
					what = "no such kind of address"
					sa.Address = rapid.SampledFrom([]string{"http://", "udp://", "unixgram://", "file://", "tcps://", "unixs://", "://", "", "%zz", "unix%"}).Draw(rt, "scheme") + a.dst
				}
				continue
			}
			a.dst = freePort()
			sa.Address = "tcp://" + a.dst
			at := rapid.IntRange(0, len(dirs)-1).Draw(rt, "cert")
			sa.TLSCertPath, sa.TLSKeyPath = filepath.Join(dirs[at], "server.pem"), filepath.Join(dirs[at], "server.key")
			pair, err := tls.LoadX509KeyPair(sa.TLSCertPath, sa.TLSKeyPath)
			if err != nil {
				vh.Infra("%v", err)
			}
			leaf[a] = pair.Certificate[0]
			if i != flawed {
				continue
			}
			host, _, _ := net.SplitHostPort(a.dst)
			switch rapid.IntRange(0, 8).Draw(rt, "flaw") {
			case 0:
				what, sa.TLSCertPath = "no certificate", filepath.Join(s.Dir, "none")
			case 1:
				what, sa.TLSKeyPath = "no key", filepath.Join(s.Dir, "none")
			case 2:
				what, sa.TLSCertPath, sa.TLSKeyPath = "neither certificate nor key are configured", "", ""
			case 3:
				what, sa.TLSCertPath = "half a certificate", copyOf("half", sa.TLSCertPath, rapid.IntRange(0, 90).Draw(rt, "part"))
			case 4:
				what, sa.TLSKeyPath = "half a key", copyOf("half", sa.TLSKeyPath, rapid.IntRange(0, 90).Draw(rt, "part"))
			case 5:
				what, sa.TLSKeyPath = "the key of another certificate", filepath.Join(dirs[(at+1)%len(dirs)], "server.key")
			case 6:
				what, sa.TLSCertPath, sa.TLSKeyPath = "certificate and key swapped", sa.TLSKeyPath, sa.TLSCertPath
			case 7:
				l, err := net.Listen("tcp", a.dst)
				if err != nil {
					c.T.Skip("no port")
				}
				defer l.Close()
				what = "another server has the port"
			case 8:
				what = "not an address"
				sa.Address = "tcp://" + rapid.SampledFrom([]string{host, host + ":99999", host + ":-1", host + ":no-such-service", "192.0.2.1:4", host + ":%31", ":::"}).Draw(rt, "address")
			}
		}
		var as []*server.Address
		regAt := (*addr)(nil)
		for _, a := range s.A {
			as = append(as, a.s)
			if a.reg {
				regAt = a
			}
			c.Tracef("%s cert %s key %s", a.s.Address, a.s.TLSCertPath, a.s.TLSKeyPath)
		}
		if what != "" {
			c.Tracef("address %d: %s", flawed, what)
			c.Class(what)
		}
		s.Conf.Addresses = as
		refused := func() (p interface{}) {
			defer func() { p = recover() }()
			quiet(func() { s.S = server.NewConiksServer(s.Conf) })
			s.S.Run(s.Conf.Addresses)
			return nil
		}()
		if s.S != nil {
			defer s.shutdown()
		}
		if what != "" {
			if refused == nil {
				c.Fatalf("the server starts, though at address %d (%s) %s", flawed, s.A[flawed].s.Address, what)
			}
			for f, text := range kept {
				if b, err := os.ReadFile(f); err != nil || string(b) != text {
					c.Fatalf("%s was replaced: %q %v", f, b, err)
				}
			}
			c.NT()
			return
		}
		if refused != nil {
			if strings.Contains(fmt.Sprint(refused), "address already in use") {
				c.T.Skip("someone else took the port")
			}
			c.Fatalf("the server does not start: %v", refused)
		}
		for i, a := range s.A {
			name := fmt.Sprint("name ", i)
			q := &request{typ: protocol.RegistrationType, name: name, key: []byte("key")}
			shown, err := a.peer()
			if a.tls {
				if err != nil {
					c.Fatalf("no TLS at %s: %v", a.dst, err)
				}
				if len(shown) != 1 || !bytes.Equal(shown[0], leaf[a]) {
					c.Fatalf("%s shows another certificate than the configured one", a.dst)
				}
				// a request in the clear is neither answered nor has it an effect
				b, _ := a.plainTCP(q.json())
				if bytes.Contains(b, []byte("Error")) {
					c.Fatalf("a request in the clear to %s is answered with %q", a.dst, b)
				}
				// the configured address, and no other
				_, port, _ := net.SplitHostPort(a.dst)
				pid := os.Getpid()
				near := fmt.Sprintf("127.%d.%d.%d:%s", 129+pid>>16&63, pid>>8&255, pid&255, port)
				if conn, err := net.DialTimeout("tcp", near, 5*time.Second); err == nil {
					conn.Close()
					c.Fatalf("configured at %s, served at %s too", a.dst, near)
				}
			} else if err == nil {
				c.Fatalf("TLS at %s", a.dst)
			}
			r := s.send(a, protocol.KeyLookupType, (&request{typ: protocol.KeyLookupType, name: name}).json(), how{})
			if r.Error != protocol.ReqNameNotFound {
				c.Fatalf("a lookup at %s is answered with %d", a.dst, r.Error)
			}
			if want := protocol.ReqSuccess; a.reg {
				if r := s.send(a, q.typ, q.json(), how{}); r.Error != want {
					c.Fatalf("a registration at %s is answered with %d", a.dst, r.Error)
				}
			} else if r := s.send(a, q.typ, q.json(), how{}); r.Error != protocol.ErrMalformedMessage {
				c.Fatalf("a registration at %s is answered with %d", a.dst, r.Error)
			}
		}
		if n > 1 && regAt != nil {
			c.NT()
		}
		s.shutdown()
		for _, a := range s.A {
			if conn, err := a.dial(); err == nil {
				conn.Close()
				c.Fatalf("%s is still served after the shutdown", a.dst)
			}
			if a.tls {
				continue
			}
			l, err := net.Listen("unix", a.dst)
			if err != nil {
				c.Fatalf("%s cannot be used again after the shutdown: %v", a.dst, err)
			}
			l.Close()
		}
	})
}

// plainTCP sends bytes over TCP, in the clear, and returns what comes back.
func (a *addr) plainTCP(msg []byte) ([]byte, error) {
	conn, err := net.Dial("tcp", a.dst)
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	conn.Write(msg)
	conn.(*net.TCPConn).CloseWrite()
	return io.ReadAll(conn)
}
