//go:build go1.23

package app_test

import (
	"encoding/json"
	"strings"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// request is a request as the protocol defines it.
type request struct {
	typ      int
	name     string
	key      []byte
	from, to uint64
}

// lenient decodes whatever can be taken for a request.
func lenient(b []byte) *request {
	var body json.RawMessage
	m := struct {
		Type    int
		Request interface{}
	}{Request: &body} // a later null does not take an earlier body back
	if json.Unmarshal(b, &m) != nil || m.Type < 0 || m.Type > 3 || len(body) == 0 || string(body) == "null" {
		return nil
	}
	r := &request{typ: m.Type}
	var err error
	switch m.Type {
	case protocol.RegistrationType:
		var q struct {
			Username                                  string
			Key                                       []byte
			AllowUnsignedKeychange, AllowPublicLookup bool
		}
		err = json.Unmarshal(body, &q)
		r.name, r.key = q.Username, q.Key
	case protocol.KeyLookupType:
		var q struct{ Username string }
		err = json.Unmarshal(body, &q)
		r.name = q.Username
	case protocol.KeyLookupInEpochType:
		var q struct {
			Username string
			Epoch    uint64
		}
		err = json.Unmarshal(body, &q)
		r.name, r.from = q.Username, q.Epoch
	case protocol.MonitoringType:
		var q struct {
			Username             string
			StartEpoch, EndEpoch uint64
		}
		err = json.Unmarshal(body, &q)
		r.name, r.from, r.to = q.Username, q.StartEpoch, q.EndEpoch
	}
	if err != nil {
		return nil
	}
	return r
}

var fields = map[string]bool{"Username": true, "Key": true, "AllowUnsignedKeychange": true, "AllowPublicLookup": true,
	"Epoch": true, "StartEpoch": true, "EndEpoch": true}

// strict tells whether b, which can be taken for a request, is beyond doubt one.
func strict(b []byte) bool {
	t := vh.ParseJSON(string(b))
	if t.Kind != '{' || len(t.Keys) != 2 || t.Get("Type") == nil || t.Get("Request") == nil || t.Get("Type").Raw == "null" {
		return false
	}
	q := t.Get("Request")
	if q.Kind != '{' {
		return false
	}
	seen := map[string]bool{}
	for i, k := range q.Keys {
		if seen[k] || !fields[k] || q.Sub[i].Kind != 0 || q.Sub[i].Raw == "null" {
			return false
		}
		seen[k] = true
	}
	return true
}

// op is the answer's check against the reference directory.
func (q *request) check(d *world.Dir, r *protocol.Response) {
	d.C.T.Helper()
	switch q.typ {
	case protocol.RegistrationType:
		d.CheckRegister(r, q.name, q.key)
	case protocol.KeyLookupType:
		d.CheckLookup(r, q.name)
	case protocol.KeyLookupInEpochType:
		d.CheckLookupInEpoch(r, q.name, q.from)
	case protocol.MonitoringType:
		d.CheckMonitor(r, q.name, q.from, q.to)
	}
}

func malformed(c *vh.Case, r *protocol.Response, what string) {
	c.T.Helper()
	if r.Error != protocol.ErrMalformedMessage || r.DirectoryResponse != nil {
		c.Fatalf("%s is answered with %s", what, world.JS(r))
	}
}

// judge decides the answer to any message at an address with permission perm.
func judge(d *world.Dir, msg []byte, reg bool, r *protocol.Response) {
	c := d.C
	c.T.Helper()
	head := msg
	if len(head) > 8192 {
		head = head[:8192]
	}
	q := lenient(head)
	switch {
	case q == nil || q.typ == protocol.RegistrationType && !reg:
		malformed(c, r, "a message that is no permitted request")
		c.Class("malformed")
	case len(msg) <= 8192 && strict(msg):
		q.check(d, r)
		c.Class("requests")
	case r.Error == protocol.ErrMalformedMessage && r.DirectoryResponse == nil:
		c.Class("irregular and refused")
	default:
		q.check(d, r)
		c.Class("irregular and served")
	}
	if q != nil && q.name != "" && len(d.Names) < 40 {
		for _, n := range d.Names {
			if n == q.name {
				return
			}
		}
		d.Names = append(d.Names, q.name)
	}
}

func drawKeys(rt *rapid.T, c *vh.Case) *world.Keys {
	return world.NewKeys(c, rapid.IntRange(0, 3).Draw(rt, "deep") == 0)
}

// text of a request.
func (q *request) json() []byte {
	var m map[string]interface{}
	switch q.typ {
	case protocol.RegistrationType:
		m = map[string]interface{}{"Username": q.name, "Key": q.key}
	case protocol.KeyLookupInEpochType:
		m = map[string]interface{}{"Username": q.name, "Epoch": q.from}
	case protocol.MonitoringType:
		m = map[string]interface{}{"Username": q.name, "StartEpoch": q.from, "EndEpoch": q.to}
	default:
		m = map[string]interface{}{"Username": q.name}
	}
	b, err := json.Marshal(map[string]interface{}{"Type": q.typ, "Request": m})
	if err != nil {
		vh.Infra("json: %v", err)
	}
	return b
}

func drawRequest(rt *rapid.T, d *world.Dir) *request {
	q := &request{typ: rapid.IntRange(0, 3).Draw(rt, "type"), name: d.Name(rt)}
	switch q.typ {
	case protocol.RegistrationType:
		q.key = world.Key(rt)
		if rapid.IntRange(0, 19).Draw(rt, "keyless") == 0 {
			q.key = nil
		} else if rapid.IntRange(0, 9).Draw(rt, "longKey") == 0 { // the answers are longer than the requests may be
			q.key = vh.Big(rt, "key", 5900)
		}
	case protocol.KeyLookupInEpochType:
		q.from = d.Epoch(rt, "epoch")
	case protocol.MonitoringType:
		q.from, q.to = d.Epoch(rt, "start"), d.Epoch(rt, "end")
	}
	if rapid.IntRange(0, 29).Draw(rt, "nameless") == 0 {
		q.name = ""
	}
	return q
}

// message draws bytes to send.
func message(rt *rapid.T, d *world.Dir) ([]byte, string) {
	q := drawRequest(rt, d)
	b := q.json()
	switch rapid.IntRange(0, 9).Draw(rt, "message") {
	case 0, 1:
		return b, "request"
	case 2: // another type number
		t := rapid.SampledFrom([]string{"-1", "4", "5", "6", "100", "4294967296", "9223372036854775807", "9223372036854775808", "1.0", "1e0", "01", "\"1\"", "true", "[0]", "{}", ""}).Draw(rt, "number")
		return []byte(strings.Replace(string(b), `"Type":`+string(rune('0'+q.typ)), `"Type":`+t, 1)), "type " + t
	case 3: // to the limit and over it
		n := rapid.SampledFrom([]int{8191, 8192, 8193, 8200, 9000, 16384, 20000}).Draw(rt, "size")
		pad := strings.Repeat(rapid.SampledFrom([]string{" ", "\n", "x", "}", "\x00"}).Draw(rt, "pad"), max(0, n-len(b)))
		switch rapid.IntRange(0, 2).Draw(rt, "padAt") {
		case 0:
			return append(b, pad...), "padded after"
		case 1:
			return append([]byte(pad), b...), "padded before"
		}
		return []byte(strings.Replace(string(b), `"Username":"`, `"Username":"`+pad, 1)), "padded name"
	case 4:
		if rapid.Bool().Draw(rt, "empty") {
			return nil, "nothing"
		}
		return []byte(rapid.SampledFrom([]string{"null", "0", "[]", "{}", `""`, " ", "\n", `{"Type":0}`, `{"Request":{}}`, `{"Type":1,"Request":null}`,
			`{"Type":0,"Request":{}}`, `{"Type":1,"Request":[]}`, `{"Type":1,"Request":"x"}`, `{"Type":2,"Request":{"Username":"a","Epoch":-1}}`,
			`{"Type":3,"Request":{"Username":"a","StartEpoch":0,"EndEpoch":18446744073709551616}}`, `{"Type":null,"Request":{"Username":"a","Key":"AA=="}}`,
			`{"Type":0,"Request":{"Username":"a","Key":"A"}}`, `{"Type":0,"Request":{"Username":"a","Key":[1,2]}}`, `{"Type":0,"Request":{"Username":["a"],"Key":"AA=="}}`}).Draw(rt, "fixed")), "fixed"
	}
	return vh.MutateText(rt, vh.ParseJSON(string(b)))
}

// noise leaves connections that never become requests.
func noise(rt *rapid.T, c *vh.Case, a *addr) func() {
	conn, err := a.dial()
	if err != nil {
		c.Fatalf("the server does not accept connections: %v", err)
	}
	kind := rapid.IntRange(0, 3).Draw(rt, "noise")
	conn.SetDeadline(time.Now().Add(time.Minute))
	switch kind {
	case 0:
		conn.Close()
	case 1:
		conn.Write([]byte(`{"Type":1,"Requ`))
		conn.Close()
	case 2:
		conn.Write([]byte("\x16\x03\x01garbage"))
		conn.Close()
	case 3:
		conn.Write([]byte("{"))
		return func() { conn.Close() }
	}
	return func() {}
}

func TestC25_Messages(t *testing.T) {
	vh.Check(t, vh.N{Quick: 8000}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		o := opts{deadline: protocol.Timestamp(rapid.Uint64Range(3600, 1<<30).Draw(rt, "deadline")), capacity: 10,
			addrs: []spec{{reg: rapid.IntRange(0, 4).Draw(rt, "reg") > 0}}}
		if rapid.IntRange(0, 7).Draw(rt, "tls") == 0 {
			o.addrs = append(o.addrs, spec{tls: true, reg: rapid.Bool().Draw(rt, "tlsReg")})
		}
		s := start(c, k, o)
		defer s.stop()
		h := how{}
		a := s.A[0]
		be := &remote{s, func() (*addr, how) { return a, h }}
		d := world.NewDirOver(c, k, be, o.deadline, o.capacity, texts(rt, rapid.IntRange(1, 4).Draw(rt, "nnames")))
		served, refused := 0, 0
		for i := rapid.IntRange(2, 14).Draw(rt, "messages"); i > 0; i-- {
			a, h = s.A[rapid.IntRange(0, len(s.A)-1).Draw(rt, "addr")], drawHow(rt)
			if rapid.IntRange(0, 7).Draw(rt, "before") == 0 {
				defer noise(rt, c, a)()
			}
			msg, what := message(rt, d)
			if a.tls && len(msg) > 8192 { // over TCP the answer may be lost with the rest
				msg = msg[:8192]
			}
			q := lenient(msg)
			typ := protocol.KeyLookupType
			if q != nil {
				typ = q.typ
			}
			r := s.send(a, typ, msg, h)
			c.Tracef("%s %q -> %d", what, short(msg), r.Error)
			judge(d, msg, a.reg, r)
			if r.Error == protocol.ErrMalformedMessage {
				refused++
			} else {
				served++
			}
		}
		a, h = s.A[0], how{}
		for _, n := range d.Names {
			d.Lookup(n)
		}
		if served > 0 && refused > 0 {
			c.NT()
		}
	})
}

// A server keeps serving, however many requests it has had.
func TestC25_Marathon(t *testing.T) {
	vh.Check(t, vh.N{Quick: 8, Thorough: 64}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		o := opts{deadline: 3600, capacity: 10, addrs: []spec{{reg: true}, {tls: true, reg: rapid.Bool().Draw(rt, "tlsReg")}}}
		s := start(c, k, o)
		defer s.stop()
		a, h := s.A[0], how{}
		d := world.NewDirOver(c, k, &remote{s, func() (*addr, how) { return a, h }}, o.deadline, o.capacity, texts(rt, 4))
		for i := 0; i < 400; i++ {
			d.Names = append(d.Names, "user"+string(rune('a'+i%26))+strings.Repeat("x", i/26))
		}
		n := rapid.IntRange(600, 1500).Draw(rt, "requests")
		for i := 0; i < n; i++ {
			a = s.A[0]
			if i%10 == 9 {
				a = s.A[1]
			}
			name := d.Names[c.Rand.Uint64()%uint64(len(d.Names))]
			switch c.Rand.Uint64() % 8 {
			case 0:
				malformed(c, s.send(a, protocol.KeyLookupType, []byte("{"), h), "half a message")
			case 1, 2, 3:
				if a.reg {
					d.Register(name, []byte(name))
				}
			default:
				d.Lookup(name)
			}
		}
		c.NT()
	})
}
