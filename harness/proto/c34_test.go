//go:build go1.23

package proto_test

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"testing"

	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// secretsIn collects the strings of a JSON value, decoded where they are base64.
func secretsIn(v interface{}, out *bytes.Buffer) {
	switch v := v.(type) {
	case string:
		out.WriteString(v)
		out.WriteByte(0)
		if b, err := base64.StdEncoding.DecodeString(v); err == nil {
			out.Write(b)
			out.WriteByte(0)
		}
	case []interface{}:
		for _, x := range v {
			secretsIn(x, out)
		}
	case map[string]interface{}:
		for k, x := range v {
			out.WriteString(k)
			secretsIn(x, out)
		}
	}
}

// hashes turns lists of bytes into base64, as other byte strings are.
func hashes(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k := range x {
			x[k] = hashes(x[k])
		}
	case []interface{}:
		var b []byte
		for i := range x {
			x[i] = hashes(x[i])
			if n, ok := x[i].(float64); ok && n >= 0 && n < 256 && n == float64(byte(n)) {
				b = append(b, byte(n))
			}
		}
		if len(b) == len(x) && len(b) > 0 {
			return base64.StdEncoding.EncodeToString(b)
		}
	}
	return v
}

// leaks compares an answer in a world, in one where only others' keys are
// different (b), and in one where only the randomness is (f).
func leaks(c *vh.Case, what, at string, a, b, f interface{}) (hidden int) {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		c.Fatalf("%s: %s depends on others' keys: %v or %v", what, at, a, b)
	}
	switch x := a.(type) {
	case map[string]interface{}:
		y := b.(map[string]interface{})
		z, _ := f.(map[string]interface{})
		if len(x) != len(y) {
			c.Fatalf("%s: %s depends on others' keys: %v or %v", what, at, a, b)
		}
		for k := range x {
			if _, ok := y[k]; !ok {
				c.Fatalf("%s: %s.%s depends on others' keys", what, at, k)
			}
			hidden += leaks(c, what, at+"."+k, x[k], y[k], z[k])
		}
	case []interface{}:
		y := b.([]interface{})
		z, _ := f.([]interface{})
		if len(x) != len(y) {
			c.Fatalf("%s: %s depends on others' keys: %d or %d entries", what, at, len(x), len(y))
		}
		for i := range x {
			var w interface{}
			if i < len(z) {
				w = z[i]
			}
			hidden += leaks(c, what, fmt.Sprintf("%s[%d]", at, i), x[i], y[i], w)
		}
	default:
		if a == b {
			break
		}
		hidden++
		s, _ := a.(string)
		u, _ := b.(string)
		p, err1 := base64.StdEncoding.DecodeString(s)
		q, err2 := base64.StdEncoding.DecodeString(u)
		if err1 != nil || err2 != nil || len(p) != len(q) || len(p) != 32 && len(p) != 64 {
			c.Fatalf("%s: %s depends on others' keys and is no hash or signature: %v or %v", what, at, a, b)
		}
		if a == f {
			c.Fatalf("%s: %s depends on others' keys, but on no randomness: %v", what, at, a)
		}
	}
	return hidden
}

// TestC34_Others: what is asked about a name tells nothing about the keys
// others have registered.
func TestC34_Others(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		deep := rapid.IntRange(0, 2).Draw(rt, "deep") > 0
		k := world.NewKeys(c, deep)
		names := world.Names(rt, deep, rapid.IntRange(2, 9).Draw(rt, "names"))
		mine := rapid.IntRange(1, len(names)-1).Draw(rt, "mine")
		capacity := rapid.IntRange(2, 20).Draw(rt, "capacity")
		dl := world.Deadline(rt)
		seed := c.Rand.Uint64()
		var d [3]*directory.ConiksDirectory
		rnd := [3]*vh.DRBG{vh.NewDRBG(seed), vh.NewDRBG(seed), vh.NewDRBG(seed + 1)}
		in := func(i int, f func(d *directory.ConiksDirectory) *protocol.Response) *protocol.Response {
			rand.Reader = rnd[i]
			defer func() { rand.Reader = c.Rand }()
			return f(d[i])
		}
		for i := range d {
			rand.Reader = rnd[i]
			d[i] = directory.New(dl, k.VRF, k.Sign, uint64(capacity), true)
		}
		rand.Reader = c.Rand
		var secrets [2][][]byte // of the two different sets of keys
		add := func(w int, b []byte) { secrets[w] = append(secrets[w], b) }
		for w := range secrets {
			add(w, k.Sign[:32])
			add(w, k.VRF[:32])
			h := sha512.Sum512(k.Sign[:32])
			add(w, h[32:])
			h = sha512.Sum512(k.VRF[:32])
			add(w, h[32:])
		}
		for _, n := range names[mine:] {
			if len(n) >= 12 {
				add(0, []byte(n))
				add(1, []byte(n))
			}
		}
		var told [3]bytes.Buffer // all that was answered
		asked, hidden, epoch, others := 0, 0, uint64(0), 0
		look := func(what string, f func(d *directory.ConiksDirectory) *protocol.Response) {
			asked++
			var v [3]interface{}
			for i := range d {
				r := in(i, f)
				if err := json.Unmarshal([]byte(world.JS(r)), &v[i]); err != nil {
					vh.Infra("json: %v", err)
				}
				v[i] = hashes(v[i])
				var all bytes.Buffer
				secretsIn(v[i], &all)
				told[i].Write(all.Bytes())
				for _, s := range secrets[i%2] {
					if bytes.Contains(all.Bytes(), s) {
						c.Fatalf("%s: the answer has %x in it, which is another's or the directory's own: %s", what, s, world.JS(r))
					}
				}
			}
			hidden += leaks(c, what, "answer", v[0], v[1], v[2])
		}
		for i := rapid.IntRange(3, 25).Draw(rt, "ops"); i > 0; i-- {
			switch rapid.IntRange(0, 8).Draw(rt, "op") {
			case 0, 1: // somebody else registers
				n := names[rapid.IntRange(mine, len(names)-1).Draw(rt, "name")]
				keys := [2][]byte{c.Rand.Bytes(rapid.IntRange(16, 80).Draw(rt, "len")), nil}
				keys[1] = c.Rand.Bytes(len(keys[0]) + rapid.IntRange(0, 3).Draw(rt, "longer"))
				for j := range d {
					key := keys[j%2]
					in(j, func(d *directory.ConiksDirectory) *protocol.Response {
						return d.Register(&protocol.RegistrationRequest{Username: n, Key: key})
					})
				}
				for w, key := range keys {
					h := sha256.Sum256(key)
					for _, s := range [][]byte{key, h[:], ref.Shake128(key), ref.Shake128([]byte(n), key), ref.Shake128(key, []byte(n))} {
						add(w, s)
					}
				}
				others++
				c.Tracef("%q registers", n)
			case 2, 3:
				for j := range d {
					in(j, func(d *directory.ConiksDirectory) *protocol.Response { d.Update(); return nil })
				}
				epoch++
				c.Tracef("update")
			case 4:
				n, key := names[rapid.IntRange(0, mine-1).Draw(rt, "name")], c.Rand.Bytes(rapid.IntRange(1, 60).Draw(rt, "len"))
				look(fmt.Sprintf("registration of %q", n), func(d *directory.ConiksDirectory) *protocol.Response {
					return d.Register(&protocol.RegistrationRequest{Username: n, Key: key})
				})
			case 5, 6:
				n := names[rapid.IntRange(0, mine-1).Draw(rt, "name")]
				look(fmt.Sprintf("lookup of %q", n), func(d *directory.ConiksDirectory) *protocol.Response {
					return d.KeyLookup(&protocol.KeyLookupRequest{Username: n})
				})
			case 7:
				n, e := names[rapid.IntRange(0, mine-1).Draw(rt, "name")], rapid.Uint64Range(0, epoch).Draw(rt, "epoch")
				look(fmt.Sprintf("lookup of %q in %d", n, e), func(d *directory.ConiksDirectory) *protocol.Response {
					return d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: n, Epoch: e})
				})
			case 8:
				n, e, to := names[rapid.IntRange(0, mine-1).Draw(rt, "name")], rapid.Uint64Range(0, epoch).Draw(rt, "epoch"), epoch+1
				if rapid.Bool().Draw(rt, "roots") {
					look(fmt.Sprintf("signed roots from %d", e), func(d *directory.ConiksDirectory) *protocol.Response {
						return d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: e, EndEpoch: to})
					})
					break
				}
				look(fmt.Sprintf("monitoring of %q from %d", n, e), func(d *directory.ConiksDirectory) *protocol.Response {
					return d.Monitor(&protocol.MonitoringRequest{Username: n, StartEpoch: e, EndEpoch: to})
				})
			}
		}
		for i := range d { // what opens others' bindings
			in(i, func(d *directory.ConiksDirectory) *protocol.Response { d.Update(); return nil })
			for _, n := range names[mine:] {
				r := in(i, func(d *directory.ConiksDirectory) *protocol.Response {
					return d.KeyLookup(&protocol.KeyLookupRequest{Username: n})
				})
				p, ok := r.DirectoryResponse.(*protocol.DirectoryProof)
				if !ok || r.Error != protocol.ReqSuccess || len(p.AP) != 1 || p.AP[0] == nil || p.AP[0].Leaf == nil || p.AP[0].Leaf.Commitment == nil {
					continue
				}
				if salt := p.AP[0].Leaf.Commitment.Salt; len(salt) > 0 && bytes.Contains(told[i].Bytes(), salt) {
					c.Fatalf("the salt of %q, %x, was in an answer about another name", n, salt)
				}
			}
		}
		c.Tracef("%d asked, %d registered by others, %d hashes differ", asked, others, hidden)
		if others > 0 && hidden > 0 {
			c.NT()
			c.ClassN("hidden", hidden)
		}
	})
}

type recorder struct {
	src io.Reader
	out []byte
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.src.Read(p)
	r.out = append(r.out, p[:n]...)
	return n, err
}

// TestC34_Salts: every binding is hidden by randomness of its own.
func TestC34_Salts(t *testing.T) {
	vh.Check(t, vh.N{Quick: 400}, func(rt *rapid.T, c *vh.Case) {
		deep := rapid.Bool().Draw(rt, "deep")
		k := world.NewKeys(c, deep)
		names := world.Names(rt, deep, rapid.IntRange(2, 9).Draw(rt, "names"))
		for i := vh.LogInt(rt, "more", 1, 60); i > 0; i-- {
			names = append(names, fmt.Sprint("user", i))
		}
		key := world.Key(rt)
		salts, values := map[string]string{}, map[string]string{}
		raw := &recorder{src: c.Rand}
		rand.Reader = raw
		for n := 0; n < 2; n++ { // the same names and keys in two directories
			d := directory.New(1, k.VRF, k.Sign, 20, true)
			for _, name := range names {
				d.Register(&protocol.RegistrationRequest{Username: name, Key: key})
				if rapid.IntRange(0, 9).Draw(rt, "update") == 0 {
					d.Update()
				}
			}
			d.Update()
			nonces := map[string]bool{}
			for _, name := range names {
				p, ok := d.KeyLookup(&protocol.KeyLookupRequest{Username: name}).DirectoryResponse.(*protocol.DirectoryProof)
				if !ok || len(p.AP) != 1 || p.AP[0] == nil || p.AP[0].Leaf == nil || p.AP[0].Leaf.Commitment == nil {
					c.Fatalf("no proof for %q", name)
				}
				cm := p.AP[0].Leaf.Commitment
				who := fmt.Sprintf("%q in directory %d", name, n)
				if len(cm.Salt) < 16 {
					c.Fatalf("%s has a salt of %d bytes", who, len(cm.Salt))
				}
				if o := salts[string(cm.Salt)]; o != "" {
					c.Fatalf("%s and %s have the same salt", who, o)
				}
				if o := values[string(cm.Value)]; o != "" {
					c.Fatalf("%s and %s have the same commitment", who, o)
				}
				salts[string(cm.Salt)], values[string(cm.Value)] = who, who
				nonces[string(p.AP[0].TreeNonce)] = true
			}
			if len(nonces) != 1 {
				c.Fatalf("%d tree nonces in one epoch", len(nonces))
			}
			for x := range nonces {
				if o := salts[x]; o != "" {
					c.Fatalf("the tree nonce of directory %d is the salt or nonce of %s", n, o)
				}
				salts[x] = fmt.Sprint("directory ", n)
			}
		}
		rand.Reader = c.Rand
		if len(raw.out) < 32*2*len(names) {
			c.Fatalf("%d bytes of randomness for %d bindings", len(raw.out), 2*len(names))
		}
		for s, who := range salts { // the source's bytes are not revealed
			for i := 0; i+12 <= len(s); i += 4 {
				if bytes.Contains(raw.out, []byte(s)[i:i+12]) {
					c.Fatalf("the salt or nonce of %s, %x, has what the randomness source gave", who, s)
				}
			}
		}
		for s := range salts { // no pattern: 16 bytes of one salt do not come again
			for _, u := range [][]byte{[]byte(s)[:16], []byte(s)[len(s)-16:]} {
				n := 0
				for o := range salts {
					if bytes.Contains([]byte(o), u) {
						n++
					}
				}
				if n > 1 {
					c.Fatalf("salts have %x in common", u)
				}
			}
		}
		c.Tracef("%d names", len(names))
		c.NT()
	})
}
