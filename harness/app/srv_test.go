//go:build go1.23

package app_test

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/application/testutil"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

var certDir string

func TestMain(m *testing.M) {
	certDir = vh.Dir()
	if err := testutil.CreateTLSCert(certDir); err != nil {
		vh.Infra("certificate: %v", err)
	}
	// the signal to reload must not end this process when no server listens to it
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)
	os.Exit(m.Run())
}

var null = func() *os.File {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		vh.Infra("%v", err)
	}
	return f
}()

// quiet runs f while os.Stderr goes nowhere (what keeps it keeps going nowhere).
func quiet(f func()) {
	was := os.Stderr
	os.Stderr = null
	defer func() { os.Stderr = was }()
	f()
}

// spec describes one address of a server.
type spec struct {
	tls bool
	reg bool
}

// addr is an address a client can send to.
type addr struct {
	spec
	s   *server.Address
	dst string // socket path or host:port
}

// srv is a running server.
type srv struct {
	c     *vh.Case
	S     *server.ConiksServer
	Conf  *server.Config
	K     *world.Keys
	Dir   string
	A     []*addr
	Begun time.Time // before the server was made
	down  bool
}

type opts struct {
	deadline protocol.Timestamp // announced
	interval protocol.Timestamp // conf.EpochDeadline
	capacity int
	addrs    []spec
	viaFile  bool // configuration saved and loaded
}

// freePort finds a port on a loopback address of this process's own, which no
// other process takes.
func freePort() string {
	pid := os.Getpid()
	l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+pid>>16&63, pid>>8&255, pid&255))
	if err != nil {
		vh.Infra("listen: %v", err)
	}
	defer l.Close()
	return l.Addr().String()
}

// configure makes a configuration for the given addresses below a fresh directory.
func configure(c *vh.Case, k *world.Keys, o opts) *srv {
	s := &srv{c: c, K: k, Dir: vh.Dir()}
	for i, sp := range o.addrs {
		a := &addr{spec: sp}
		sa := &application.ServerAddress{}
		if sp.tls {
			a.dst = freePort()
			sa.Address = "tcp://" + a.dst
			sa.TLSCertPath = filepath.Join(certDir, "server.pem")
			sa.TLSKeyPath = filepath.Join(certDir, "server.key")
		} else {
			a.dst = filepath.Join(s.Dir, fmt.Sprintf("s%d", i))
			sa.Address = "unix://" + a.dst
		}
		a.s = &server.Address{ServerAddress: sa, AllowRegistration: sp.reg}
		s.A = append(s.A, a)
	}
	write := func(name string, b []byte) {
		if err := os.WriteFile(filepath.Join(s.Dir, name), b, 0600); err != nil {
			vh.Infra("%v", err)
		}
	}
	write("sign.priv", k.Sign)
	write("vrf.priv", k.VRF)
	var as []*server.Address
	for _, a := range s.A {
		as = append(as, a.s)
	}
	file := filepath.Join(s.Dir, "config.toml")
	s.Conf = server.NewConfig(file, "toml", as, &application.LoggerConfig{Environment: "production"}, uint64(o.capacity),
		server.NewPolicies(o.deadline, "vrf.priv", "sign.priv", k.VRF, k.Sign), "init.str")
	if o.interval != 0 {
		s.Conf.EpochDeadline = o.interval
	}
	if o.viaFile {
		if err := s.Conf.Save(); err != nil {
			c.Fatalf("saving the configuration: %v", err)
		}
		conf := &server.Config{}
		if err := conf.Load(file, "toml"); err != nil {
			c.Fatalf("loading the configuration: %v", err)
		}
		s.Conf = conf
	}
	return s
}

// start makes and runs a server.
func start(c *vh.Case, k *world.Keys, o opts) *srv {
	c.T.Helper()
	for try := 0; ; try++ {
		s := configure(c, k, o)
		s.Begun = time.Now()
		quiet(func() { s.S = server.NewConiksServer(s.Conf) })
		busy := func() (p interface{}) {
			defer func() { p = recover() }()
			s.S.Run(s.Conf.Addresses)
			return nil
		}()
		if busy == nil {
			return s
		}
		s.stop()
		if !strings.Contains(fmt.Sprint(busy), "address already in use") || try > 5 {
			c.Fatalf("the server does not start: %v", busy)
		}
	}
}

func (s *srv) shutdown() {
	if !s.down {
		s.down = true
		s.S.Shutdown()
	}
}

func (s *srv) stop() {
	s.shutdown()
	os.RemoveAll(s.Dir)
}

// reload gives the running server a configuration file with another deadline and
// the signal to read it.  The server was configured via its file.
func (s *srv) reload(deadline protocol.Timestamp) {
	var as []*server.Address
	for _, a := range s.A {
		as = append(as, a.s)
	}
	tmp := s.Conf.Path + ".new"
	f := server.NewConfig(tmp, "toml", as, &application.LoggerConfig{Environment: "production"}, s.Conf.LoadedHistoryLength,
		server.NewPolicies(deadline, "vrf.priv", "sign.priv", nil, nil), "init.str")
	if err := f.Save(); err != nil {
		vh.Infra("saving a configuration: %v", err)
	}
	if err := os.Rename(tmp, s.Conf.Path); err != nil {
		vh.Infra("%v", err)
	}
	if err := syscall.Kill(os.Getpid(), syscall.SIGUSR2); err != nil {
		vh.Infra("%v", err)
	}
}

// how a message is sent.
type how struct {
	chunks []int // sizes of the first writes
	pause  time.Duration
	notify bool // TLS: end with close_notify
}

func (a *addr) dial() (net.Conn, error) {
	if !a.tls {
		return net.Dial("unix", a.dst)
	}
	return net.Dial("tcp", a.dst)
}

// exchange sends a message and returns everything that comes back.
func (a *addr) exchange(msg []byte, h how) ([]byte, error) {
	raw, err := a.dial()
	if err != nil {
		return nil, err
	}
	defer raw.Close()
	raw.SetDeadline(time.Now().Add(60 * time.Second))
	var conn net.Conn = raw
	if a.tls {
		t := tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
		if err := t.Handshake(); err != nil {
			return nil, err
		}
		conn = t
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, n := range h.chunks {
			if n > len(msg) {
				break
			}
			if _, err := conn.Write(msg[:n]); err != nil {
				return
			}
			msg = msg[n:]
			time.Sleep(h.pause)
		}
		if _, err := conn.Write(msg); err != nil {
			return
		}
		if t, ok := conn.(*tls.Conn); ok && h.notify {
			t.CloseWrite()
		}
		raw.(interface{ CloseWrite() error }).CloseWrite()
	}()
	var buf bytes.Buffer
	_, err = io.Copy(&buf, conn)
	raw.Close()
	wg.Wait()
	if buf.Len() > 0 {
		err = nil // a connection reset after the answer
	}
	return buf.Bytes(), err
}

// slow counts messages that were not answered while this machine stalled.
var slow int32

// send sends a message and decodes the one answer there must be.
func (s *srv) send(a *addr, typ int, msg []byte, h how) *protocol.Response {
	s.c.T.Helper()
	t0 := time.Now()
	b, err := a.exchange(msg, h)
	if (err != nil || len(b) == 0) && time.Since(t0) > 4*time.Second {
		// the server gives up on a connection after five seconds
		if atomic.AddInt32(&slow, 1) < 3 {
			s.c.T.Skip("stalled")
		}
	}
	if err != nil || len(b) == 0 {
		s.c.Fatalf("no answer to %q: %v", short(msg), err)
	}
	return s.decode(typ, msg, b)
}

func short(b []byte) string {
	if len(b) > 400 {
		return string(b[:400]) + fmt.Sprintf("… (%d bytes)", len(b))
	}
	return string(b)
}

// decode decodes an answer, which must be exactly one well-formed message.
func (s *srv) decode(typ int, msg, b []byte) *protocol.Response {
	s.c.T.Helper()
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.DisallowUnknownFields()
	var one struct {
		Error             *int
		DirectoryResponse *struct {
			AP, STR []json.RawMessage
			TB      json.RawMessage
		}
	}
	if err := dec.Decode(&one); err != nil || one.Error == nil {
		s.c.Fatalf("the answer to %q is not well-formed: %q (%v)", short(msg), short(b), err)
	}
	if _, err := dec.Token(); err != io.EOF {
		s.c.Fatalf("more than one answer to %q: %q", short(msg), b)
	}
	if typ < 0 || typ > 3 {
		typ = protocol.KeyLookupType
	}
	return application.UnmarshalResponse(typ, b)
}

// remote is the directory behind an address of a server.
type remote struct {
	s    *srv
	next func() (*addr, how) // chooses the address of each request
}

func (r *remote) ask(typ int, req interface{}) *protocol.Response {
	r.s.c.T.Helper()
	b, err := json.Marshal(map[string]interface{}{"Type": typ, "Request": req})
	if err != nil {
		vh.Infra("json: %v", err)
	}
	a, h := r.next()
	return r.s.send(a, typ, b, h)
}

func (r *remote) Register(q *protocol.RegistrationRequest) *protocol.Response {
	return r.ask(protocol.RegistrationType, map[string]interface{}{"Username": q.Username, "Key": q.Key})
}
func (r *remote) KeyLookup(q *protocol.KeyLookupRequest) *protocol.Response {
	return r.ask(protocol.KeyLookupType, map[string]interface{}{"Username": q.Username})
}
func (r *remote) KeyLookupInEpoch(q *protocol.KeyLookupInEpochRequest) *protocol.Response {
	return r.ask(protocol.KeyLookupInEpochType, map[string]interface{}{"Username": q.Username, "Epoch": q.Epoch})
}
func (r *remote) Monitor(q *protocol.MonitoringRequest) *protocol.Response {
	return r.ask(protocol.MonitoringType, map[string]interface{}{"Username": q.Username, "StartEpoch": q.StartEpoch, "EndEpoch": q.EndEpoch})
}
func (r *remote) GetSTRHistory(q *protocol.STRHistoryRequest) *protocol.Response {
	vh.Infra("servers have no history requests")
	return nil
}
func (r *remote) Update()                        { vh.Infra("servers update by themselves") }
func (r *remote) SetPolicies(protocol.Timestamp) { vh.Infra("servers reload by themselves") }
func (r *remote) LatestSTR() *protocol.DirSTR {
	r.s.c.T.Helper()
	p, ok := r.KeyLookup(&protocol.KeyLookupRequest{Username: "no such name"}).DirectoryResponse.(*protocol.DirectoryProof)
	if !ok || p == nil || len(p.STR) != 1 || p.STR[0] == nil || p.STR[0].SignedTreeRoot == nil {
		r.s.c.Fatalf("no signed root in the answer to a lookup")
	}
	return p.STR[0]
}

func drawHow(rt *rapid.T) how {
	var h how
	if rapid.IntRange(0, 3).Draw(rt, "chunked") == 0 {
		for i := rapid.IntRange(1, 4).Draw(rt, "chunks"); i > 0; i-- {
			h.chunks = append(h.chunks, rapid.IntRange(1, 60).Draw(rt, "chunk"))
		}
		h.pause = time.Duration(rapid.IntRange(0, 300).Draw(rt, "pause")) * time.Microsecond
	}
	h.notify = rapid.Bool().Draw(rt, "notify")
	return h
}

// texts draws names that are text.
func texts(rt *rapid.T, n int) []string {
	out := rapid.SliceOfNDistinct(rapid.OneOf(rapid.SampledFrom([]string{"alice", "alice@twitter", "bob", "ALICE", "alicf", "é", "\u2028", "a\x00", "<&>", "null", "x y"}),
		rapid.StringN(1, 8, 40)), n, n, rapid.ID[string]).Draw(rt, "names")
	for i, s := range out {
		out[i] = strings.ToValidUTF8(s, "?")
		for j := 0; j < i; j++ {
			if out[j] == out[i] {
				out[i] += fmt.Sprint(i)
			}
		}
	}
	return out
}
