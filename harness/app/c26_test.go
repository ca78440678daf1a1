//go:build go1.23

package app_test

import (
	"encoding/json"
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

func TestC26_Permissions(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		o := opts{deadline: protocol.Timestamp(rapid.Uint64Range(3600, 1<<30).Draw(rt, "deadline")), capacity: 10,
			viaFile: rapid.IntRange(0, 2).Draw(rt, "file") == 0}
		for i := rapid.IntRange(1, 4).Draw(rt, "addresses"); i > 0; i-- {
			sp := spec{tls: rapid.IntRange(0, 4).Draw(rt, "tls") == 0, reg: rapid.Bool().Draw(rt, "reg")}
			o.addrs = append(o.addrs, sp)
		}
		if n := len(o.addrs); n > 1 && rapid.IntRange(0, 4).Draw(rt, "both") > 0 {
			at := rapid.IntRange(1, n-1).Draw(rt, "differs")
			o.addrs[at].reg = !o.addrs[0].reg
		}
		s := start(c, k, o)
		defer s.stop()
		c.Tracef("addresses %+v from a file: %v", o.addrs, o.viaFile)
		var a *addr
		be := &remote{s, func() (*addr, how) {
			if a == nil {
				return s.A[0], how{}
			}
			return a, how{}
		}}
		d := world.NewDirOver(c, k, be, o.deadline, o.capacity, texts(rt, rapid.IntRange(1, 4).Draw(rt, "nnames")))
		registered, barred := 0, 0
		for i := rapid.IntRange(4, 20).Draw(rt, "requests"); i > 0; i-- {
			at := rapid.IntRange(0, len(s.A)-1).Draw(rt, "addr")
			a = s.A[at]
			if rapid.IntRange(0, 5).Draw(rt, "other") == 0 { // a type servers do not serve
				typ := rapid.SampledFrom([]int{protocol.AuditType, protocol.STRType, -1, 6, 7, 256, 1 << 32, -1 << 31}).Draw(rt, "type")
				var q interface{}
				switch rapid.IntRange(0, 2).Draw(rt, "body") {
				case 0:
					q = map[string]interface{}{"Username": d.Name(rt), "Key": world.Key(rt)}
				case 1:
					q = &protocol.STRHistoryRequest{}
				case 2:
					q = &protocol.AuditingRequest{}
				}
				b, _ := json.Marshal(map[string]interface{}{"Type": typ, "Request": q})
				malformed(c, s.send(a, typ, b, how{}), "a request of type "+string(b))
				c.Class("other types")
				continue
			}
			q := drawRequest(rt, d)
			if rapid.IntRange(0, 3).Draw(rt, "register") == 0 {
				q = &request{typ: protocol.RegistrationType, name: d.Name(rt), key: world.Key(rt)}
			}
			r := s.send(a, q.typ, q.json(), how{})
			c.Tracef("at %d %s -> %d", at, short(q.json()), r.Error)
			if q.typ == protocol.RegistrationType && !a.reg {
				malformed(c, r, "a registration where none is allowed")
				barred++
				c.Class("registrations barred")
				continue
			}
			q.check(d, r)
			if r.Error == protocol.ReqSuccess && q.typ == protocol.RegistrationType {
				registered++
			}
			if q.typ != protocol.RegistrationType && q.name != "" { // the same at every address
				for _, b := range s.A {
					if x := s.send(b, q.typ, q.json(), how{}); world.JS(x) != world.JS(r) {
						q.check(d, x)
						if x.Error != r.Error {
							c.Fatalf("different answers at different addresses:\n%s\n%s", world.JS(r), world.JS(x))
						}
					}
				}
				c.Class("reads at all addresses")
			}
		}
		for _, b := range s.A {
			a = b
			for _, n := range d.Names {
				d.Lookup(n)
			}
		}
		if registered > 0 && barred > 0 {
			c.NT()
		}
	})
}
