//go:build go1.23

package app_test

import (
	"bytes"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// forms of a secret in a text.
func forms(b []byte) (out [][]byte) {
	out = append(out, b, []byte(hex.EncodeToString(b)), []byte(strings.ToUpper(hex.EncodeToString(b))))
	for i := 0; i < 3; i++ { // the three ways base64 can be aligned, without the ends
		cut := b[i:]
		cut = cut[:len(cut)/3*3]
		out = append(out, []byte(base64.StdEncoding.EncodeToString(cut)), []byte(base64.URLEncoding.EncodeToString(cut)))
	}
	return append(out, []byte(strings.Trim(fmt.Sprint(b), "[]")), []byte(strings.ReplaceAll(strings.Trim(fmt.Sprint(b), "[]"), " ", ", ")),
		[]byte(strings.ReplaceAll(strings.Trim(fmt.Sprint(b), "[]"), " ", ",")))
}

// TestC34_Server: private keys are in their own files and nowhere else, not
// even in what a server says to broken messages or writes to its log.
func TestC34_Server(t *testing.T) {
	vh.Check(t, vh.N{Quick: 400}, func(rt *rapid.T, c *vh.Case) {
		k := drawKeys(rt, c)
		o := opts{deadline: 3600, capacity: 10, viaFile: rapid.Bool().Draw(rt, "viaFile"), addrs: []spec{{reg: true}, {tls: rapid.Bool().Draw(rt, "tls")}}}
		env := rapid.SampledFrom([]string{"development", "production"}).Draw(rt, "env")
		var s *srv
		for try := 0; ; try++ {
			s = configure(c, k, o)
			s.Conf.Logger = &application.LoggerConfig{Environment: env, Path: filepath.Join(s.Dir, "log"), EnableStacktrace: rapid.Bool().Draw(rt, "stack")}
			if _, err := os.Stat(s.Conf.Path); err != nil {
				if err := s.Conf.Save(); err != nil {
					c.Fatalf("saving: %v", err)
				}
			}
			quiet(func() { s.S = server.NewConiksServer(s.Conf) })
			busy := func() (p interface{}) {
				defer func() { p = recover() }()
				s.S.Run(s.Conf.Addresses)
				return nil
			}()
			if busy == nil {
				break
			}
			s.stop()
			if !strings.Contains(fmt.Sprint(busy), "address already in use") || try > 5 {
				c.Fatalf("the server does not start: %v", busy)
			}
		}
		defer s.stop()
		var secrets [][]byte
		for _, key := range [][]byte{k.Sign[:32], k.VRF[:32]} {
			h := sha512.Sum512(key)
			for _, x := range [][]byte{key, key[:16], key[16:], h[:32], h[32:]} {
				secrets = append(secrets, forms(x)...)
			}
		}
		check := func(what string, b []byte) {
			for _, x := range secrets {
				if bytes.Contains(b, x) {
					c.Fatalf("%s has a private key in it (as %.40q): %q", what, x, short(b))
				}
			}
		}
		names := texts(rt, 3)
		n := rapid.IntRange(1, 8).Draw(rt, "requests")
		for i := 0; i < n; i++ {
			a := s.A[rapid.IntRange(0, 1).Draw(rt, "addr")]
			q := &request{typ: rapid.IntRange(0, 4).Draw(rt, "type"), name: names[rapid.IntRange(0, 2).Draw(rt, "name")], key: []byte("some key")}
			msg := q.json()
			switch rapid.IntRange(0, 2).Draw(rt, "how") {
			case 0:
				msg = vh.Mutate(rt, "msg", msg)
			case 1:
				root, what := vh.MutateJSON(rt, vh.ParseJSON(string(msg)), 2)
				c.Tracef("%s", what)
				msg = []byte(root.String())
			}
			if len(msg) > 8000 {
				continue
			}
			b, _ := a.exchange(msg, how{})
			check(fmt.Sprintf("the answer to %q", short(msg)), b)
		}
		if rapid.Bool().Draw(rt, "str") {
			r := s.send(s.A[0], protocol.KeyLookupType, (&request{typ: protocol.KeyLookupType, name: "x"}).json(), how{})
			check("a signed root", []byte(world.JS(r)))
		}
		s.shutdown()
		files, err := filepath.Glob(filepath.Join(s.Dir, "*"))
		if err != nil {
			vh.Infra("%v", err)
		}
		seen := map[string]bool{}
		for _, f := range files {
			base := filepath.Base(f)
			if base == "sign.priv" || base == "vrf.priv" {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				continue // a socket
			}
			seen[base] = true
			check(base, b)
		}
		c.Tracef("%d requests, files: %v", n, files)
		if !seen["config.toml"] || !seen["init.str"] {
			c.Class("no config or signed root")
		}
		if seen["log"] {
			c.NT()
		}
	})
}
