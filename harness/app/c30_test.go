//go:build go1.23

package app_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/BurntSushi/toml"
	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/application/bots"
	clientapp "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

func write(file string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(file), 0700); err != nil {
		vh.Infra("%v", err)
	}
	if err := os.WriteFile(file, b, 0600); err != nil {
		vh.Infra("%v", err)
	}
}

func read(file string) []byte {
	b, err := os.ReadFile(file)
	if err != nil {
		vh.Infra("%v", err)
	}
	return b
}

// setting draws a text setting.
func setting(rt *rapid.T, label string) string {
	return strings.ToValidUTF8(rapid.OneOf(rapid.SampledFrom([]string{"", "a", "unix:///tmp/x.sock", "tcp://0.0.0.0:3000", `C:\x`, `"`, "'", "a\tb\nc\rd", "é\u2028", `\u0041`, "#", "[x]", "'''", `"""`, " a ", "true", "\x01", "\x7f"}),
		rapid.String(), rapid.StringMatching(`[ -~]{0,30}`)).Draw(rt, label), "?")
}

// place draws a path of a file, relative to the configuration or absolute.
func place(rt *rapid.T, label, dir string) string {
	p := rapid.SampledFrom([]string{"", "sub/", "sub/deeper/", "./", "sub/../", "x y/"}).Draw(rt, label+"_dir") +
		rapid.OneOf(rapid.StringMatching(`[a-z0-9._"\\ -]{1,12}`), rapid.SampledFrom([]string{"key.priv", "é", "a\tb"})).Draw(rt, label)
	if b := filepath.Base(p); b == "." || b == ".." {
		p += "x"
	}
	if rapid.IntRange(0, 3).Draw(rt, label+"_abs") == 0 {
		return filepath.Join(dir, "elsewhere", p)
	}
	return p
}

// resolved is where a file named in the configuration file conf is.
func resolved(p, conf string) string {
	if filepath.IsAbs(p) {
		return p
	}
	return filepath.Join(filepath.Dir(conf), p)
}

// same compares places, whether or not relative ones were made absolute.
func same(a, b string) bool {
	x, err1 := filepath.Abs(a)
	y, err2 := filepath.Abs(b)
	return err1 == nil && err2 == nil && x == y
}

// confPath draws where the configuration lies and how it is named: by an
// absolute path or one relative to the working directory.
func confPath(rt *rapid.T, label, dir string) string {
	p := filepath.Join(dir, rapid.SampledFrom([]string{"config.toml", "c d.toml", "sub/config.toml", "é.toml"}).Draw(rt, label))
	os.MkdirAll(filepath.Dir(p), 0700)
	if rapid.Bool().Draw(rt, label+"_rel") {
		wd, err := os.Getwd()
		if err != nil {
			vh.Infra("%v", err)
		}
		if r, err := filepath.Rel(wd, p); err == nil {
			return r
		}
	}
	return p
}

func noClobber(c *vh.Case, file string, save func() error) {
	c.T.Helper()
	was := read(file)
	if save() == nil {
		c.Fatalf("saving over an existing file succeeds")
	}
	if !bytes.Equal(read(file), was) {
		c.Fatalf("saving changed an existing file")
	}
}

func number(rt *rapid.T, label string) uint64 {
	if rapid.Bool().Draw(rt, label+"_small") {
		return rapid.Uint64Range(0, 100).Draw(rt, label)
	}
	return rapid.Uint64().Draw(rt, label)
}

type serverCase struct {
	o        *server.Config
	k        *world.Keys
	vrf, sig string
	certs    [][2]string
	log      string
	dir      string
}

func drawServer(rt *rapid.T, c *vh.Case, file string, dir string) *serverCase {
	x := &serverCase{k: drawKeys(rt, c), vrf: place(rt, "vrf", dir), sig: place(rt, "sig", dir), dir: dir}
	if same(resolved(x.vrf, file), resolved(x.sig, file)) {
		x.sig = "other"
	}
	lc := &application.LoggerConfig{EnableStacktrace: rapid.Bool().Draw(rt, "trace"), Environment: rapid.SampledFrom([]string{"development", "production", "Production"}).Draw(rt, "env")}
	if rapid.Bool().Draw(rt, "log") {
		lc.Path = place(rt, "logPath", dir)
	}
	x.log = lc.Path
	var as []*server.Address
	for i := rapid.IntRange(0, 4).Draw(rt, "addresses"); i > 0; i-- {
		a := &server.Address{ServerAddress: &application.ServerAddress{Address: setting(rt, "address")}, AllowRegistration: rapid.Bool().Draw(rt, "reg")}
		if rapid.Bool().Draw(rt, "cert") {
			a.TLSCertPath, a.TLSKeyPath = place(rt, "certPath", dir), place(rt, "keyPath", dir)
		}
		x.certs = append(x.certs, [2]string{a.TLSCertPath, a.TLSKeyPath})
		as = append(as, a)
	}
	x.o = server.NewConfig(file, "toml", as, lc, number(rt, "history"),
		server.NewPolicies(protocol.Timestamp(number(rt, "deadline")), x.vrf, x.sig, x.k.VRF, x.k.Sign), place(rt, "init", dir))
	if rapid.Bool().Draw(rt, "interval") {
		x.o.EpochDeadline = protocol.Timestamp(number(rt, "interval"))
	}
	write(resolved(x.vrf, file), x.k.VRF)
	write(resolved(x.sig, file), x.k.Sign)
	return x
}

// check compares a loaded configuration with the saved one.
func (x *serverCase) check(c *vh.Case, l *server.Config, file string) {
	c.T.Helper()
	o := x.o
	if l.CommonConfig == nil || l.Path != file || l.GetPath() != file || l.Policies == nil || l.Logger == nil {
		c.Fatalf("loaded from %q: %+v", file, l)
	}
	if l.LoadedHistoryLength != o.LoadedHistoryLength || l.EpochDeadline != o.EpochDeadline || l.InitSTRPath != o.InitSTRPath && !same(l.InitSTRPath, resolved(o.InitSTRPath, file)) ||
		l.Policies.EpochDeadline != o.Policies.EpochDeadline || l.Logger.Environment != o.Logger.Environment || l.Logger.EnableStacktrace != o.Logger.EnableStacktrace || len(l.Addresses) != len(o.Addresses) {
		c.Fatalf("saved %s\nloaded %s", world.JS(o), world.JS(l))
	}
	if !(x.log == "" && l.Logger.Path == "") && !same(l.Logger.Path, resolved(x.log, file)) {
		c.Fatalf("log path %q loaded from %q as %q", x.log, file, l.Logger.Path)
	}
	for i, a := range l.Addresses {
		b := o.Addresses[i]
		if a == nil || a.ServerAddress == nil || a.Address != b.Address || a.AllowRegistration != b.AllowRegistration {
			c.Fatalf("address %d: saved %s, loaded %s", i, world.JS(b), world.JS(a))
		}
		for j, p := range []string{a.TLSCertPath, a.TLSKeyPath} {
			if w := x.certs[i][j]; w != "" && !same(p, resolved(w, file)) || w == "" && p != "" && !same(p, filepath.Dir(file)) {
				c.Fatalf("address %d: certificate path %q loaded from %q as %q", i, w, file, p)
			}
		}
	}
	for _, p := range [][2]string{{l.Policies.VRFKeyPath, x.vrf}, {l.Policies.SignKeyPath, x.sig}} {
		if p[0] != p[1] && !same(p[0], resolved(p[1], file)) {
			c.Fatalf("key path %q loaded from %q as %q", p[1], file, p[0])
		}
	}
}

// TestC30_Server: server configurations, also moved, and what servers do with them.
func TestC30_Server(t *testing.T) {
	vh.Check(t, vh.N{Quick: 6000}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		file := confPath(rt, "file", dir)
		x := drawServer(rt, c, file, dir)
		if err := x.o.Save(); err != nil {
			c.Class("not saved")
			return
		}
		text := read(file)
		c.Tracef("%s:\n%s", file, text)
		noClobber(c, file, x.o.Save)
		l := &server.Config{}
		if err := l.Load(file, "toml"); err != nil {
			// characters and numbers that TOML does not carry
			if x.o.LoadedHistoryLength <= 1<<63-1 && x.o.EpochDeadline <= 1<<63-1 && x.o.Policies.EpochDeadline <= 1<<63-1 && plain(world.JS(x.o)) {
				c.Fatalf("a saved configuration does not load: %v", err)
			}
			c.Class("not loaded")
			return
		}
		x.check(c, l, file)
		if rapid.IntRange(0, 1).Draw(rt, "move") == 0 { // elsewhere, with what lies next to it
			to := filepath.Join(dir, "moved", "here")
			f2 := filepath.Join(to, "config.toml")
			write(f2, text)
			for _, p := range []struct {
				name string
				b    []byte
			}{{x.vrf, x.k.VRF}, {x.sig, x.k.Sign}} {
				if !filepath.IsAbs(p.name) {
					os.Remove(resolved(p.name, file))
					write(resolved(p.name, f2), p.b)
				}
			}
			l = &server.Config{}
			if err := l.Load(f2, "toml"); err != nil {
				c.Fatalf("a moved configuration does not load: %v", err)
			}
			x.check(c, l, f2)
			file = f2
			c.Class("moved")
		}
		c.NT()
		if l.LoadedHistoryLength < 2 || l.LoadedHistoryLength > 1000 {
			return
		}
		if p := l.Logger.Path; p != "" {
			os.MkdirAll(filepath.Dir(p), 0700)
			if fi, err := os.Stat(p); err == nil && fi.IsDir() {
				return
			}
		}
		init := resolved(x.o.InitSTRPath, file)
		taken := rapid.IntRange(0, 2).Draw(rt, "taken") == 0
		if _, err := os.Stat(init); err == nil { // named like another file
			return
		}
		os.MkdirAll(filepath.Dir(init), 0700)
		if taken {
			write(init, []byte("something"))
		}
		// a server made from it has its keys and policies, and saves its first signed root
		var s *server.ConiksServer
		l.Logger.Path = "" // its file would stay open
		quiet(func() { s = server.NewConiksServer(l) })
		defer s.Shutdown()
		r := s.HandleRequests(&protocol.Request{Type: protocol.KeyLookupType, Request: &protocol.KeyLookupRequest{Username: "alice"}})
		d := world.NewDirOver(c, x.k, strOnly{r.DirectoryResponse.(*protocol.DirectoryProof).STR[0]}, x.o.Policies.EpochDeadline, 10, nil)
		d.CheckLookup(r, "alice")
		if taken {
			if string(read(init)) != "something" {
				c.Fatalf("the server overwrote %q", init)
			}
			return
		}
		got, err := application.LoadInitSTR(x.o.InitSTRPath, file)
		if err != nil {
			c.Fatalf("the server's initial signed root does not load: %v", err)
		}
		if !world.SameSTR(got, d.STRs[0]) {
			c.Fatalf("initial signed root saved as %s", world.JS(got))
		}
		c.Class("served")
	})
}

// strOnly is a directory of which one signed root is known.
type strOnly struct{ str *protocol.DirSTR }

func (s strOnly) Register(*protocol.RegistrationRequest) *protocol.Response    { return nil }
func (s strOnly) KeyLookup(*protocol.KeyLookupRequest) *protocol.Response      { return nil }
func (s strOnly) Monitor(*protocol.MonitoringRequest) *protocol.Response       { return nil }
func (s strOnly) GetSTRHistory(*protocol.STRHistoryRequest) *protocol.Response { return nil }
func (s strOnly) KeyLookupInEpoch(*protocol.KeyLookupInEpochRequest) *protocol.Response {
	return nil
}
func (s strOnly) Update()                        {}
func (s strOnly) SetPolicies(protocol.Timestamp) {}
func (s strOnly) LatestSTR() *protocol.DirSTR    { return s.str }

// plain: nothing in s that some TOML writers do not escape.
func plain(s string) bool {
	var v interface{}
	json.Unmarshal([]byte(s), &v)
	ok := true
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch v := v.(type) {
		case string:
			for _, r := range v {
				if r < ' ' && !strings.ContainsRune("\t\n\r", r) || r == 0x7f || r == 0xfffd || r == 0xfeff {
					ok = false
				}
			}
		case []interface{}:
			for _, x := range v {
				walk(x)
			}
		case map[string]interface{}:
			for _, x := range v {
				walk(x)
			}
		}
	}
	walk(v)
	return ok
}

// TestC30_Client: client configurations.
func TestC30_Client(t *testing.T) {
	vh.Check(t, vh.N{Quick: 6000}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		file := confPath(rt, "file", dir)
		k := drawKeys(rt, c)
		key, init := place(rt, "key", dir), place(rt, "init", dir)
		if same(resolved(key, file), resolved(init, file)) || same(resolved(key, file), file) || same(resolved(init, file), file) {
			key, init = "key.pub", "init.str"
		}
		o := clientapp.NewConfig(file, "toml", key, init, setting(rt, "reg"), setting(rt, "addr"))
		if err := o.Save(); err != nil {
			return
		}
		text := read(file)
		c.Tracef("%s:\n%s", file, text)
		noClobber(c, file, o.Save)
		str := directory.New(7, k.VRF, k.Sign, 10, true).LatestSTR()
		write(resolved(key, file), k.Pub)
		if err := os.MkdirAll(filepath.Dir(resolved(init, file)), 0700); err != nil {
			vh.Infra("%v", err)
		}
		if err := application.SaveSTR(resolved(init, file), str); err != nil {
			c.Fatalf("saving the initial signed root: %v", err)
		}
		noClobber(c, resolved(init, file), func() error { return application.SaveSTR(resolved(init, file), str) })
		l := &clientapp.Config{}
		if err := l.Load(file, "toml"); err != nil {
			if plain(world.JS(o)) {
				c.Fatalf("a saved configuration does not load: %v", err)
			}
			c.Class("not loaded")
			return
		}
		if l.CommonConfig == nil || l.Path != file || l.GetPath() != file || l.RegAddress != o.RegAddress || l.Address != o.Address ||
			l.SignPubkeyPath != key && !same(l.SignPubkeyPath, resolved(key, file)) || l.InitSTRPath != init && !same(l.InitSTRPath, resolved(init, file)) {
			c.Fatalf("saved %s\nloaded %s", world.JS(o), world.JS(l))
		}
		if !bytes.Equal(l.SigningPubKey, k.Pub) || l.InitSTR == nil || !world.SameSTR(l.InitSTR, str) {
			c.Fatalf("loaded key %x and signed root %s", l.SigningPubKey, world.JS(l.InitSTR))
		}
		c.NT()
	})
}

// TestC30_Bot: bot configurations.
func TestC30_Bot(t *testing.T) {
	vh.Check(t, vh.N{Quick: 6000}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		file := confPath(rt, "file", dir)
		o := bots.NewTwitterConfig(file, "toml", setting(rt, "addr"), setting(rt, "handle"), bots.TwitterOAuth{ConsumerKey: setting(rt, "ck"), ConsumerSecret: setting(rt, "cs"),
			AccessToken: setting(rt, "at"), AccessSecret: setting(rt, "as")})
		if err := o.Save(); err != nil {
			return
		}
		c.Tracef("%s:\n%s", file, read(file))
		noClobber(c, file, o.Save)
		l := &bots.TwitterConfig{}
		if err := l.Load(file, "toml"); err != nil {
			if plain(world.JS(o)) {
				c.Fatalf("a saved configuration does not load: %v", err)
			}
			c.Class("not loaded")
			return
		}
		if l.CommonConfig == nil || l.Path != file || l.GetPath() != file || l.CONIKSAddress != o.CONIKSAddress || l.Handle != o.Handle || l.TwitterOAuth != o.TwitterOAuth {
			c.Fatalf("saved %s\nloaded %s", world.JS(o), world.JS(l))
		}
		c.NT()
	})
}

// damage does something to a file; it returns the new contents, nil if there
// is no file (any more).
func damage(rt *rapid.T, file string, good []byte, asText bool) ([]byte, string) {
	os.RemoveAll(file)
	kind := rapid.IntRange(0, 7).Draw(rt, "damage")
	var b []byte
	what := ""
	switch kind {
	case 0:
		return nil, "missing"
	case 1:
		if err := os.Mkdir(file, 0700); err != nil {
			vh.Infra("%v", err)
		}
		return nil, "a directory"
	case 2:
		b, what = append([]byte{}, good[:rapid.IntRange(0, len(good)).Draw(rt, "cut")]...), "cut off"
	case 3:
		b, what = append(append([]byte{}, good...), vh.Bytes(rt, "more", 100)...), "longer"
	case 4:
		b, what = vh.Bytes(rt, "any", 300), "arbitrary"
	default:
		b, what = vh.Mutate(rt, "change", append([]byte{}, good...)), "changed"
	}
	if asText && kind > 4 {
		lines := strings.Split(string(good), "\n")
		i, j := rapid.IntRange(0, len(lines)-1).Draw(rt, "line"), rapid.IntRange(0, len(lines)-1).Draw(rt, "line2")
		switch rapid.IntRange(0, 4).Draw(rt, "edit") {
		case 0:
			lines = append(lines[:i:i], lines[i+1:]...)
			what = "a line less"
		case 1:
			lines[i], lines[j] = lines[j], lines[i]
			what = "lines swapped"
		case 2:
			if k := strings.Index(lines[i], " = "); k >= 0 {
				lines[i] = lines[i][:k+3] + rapid.SampledFrom([]string{"0", "-1", `""`, "true", "[]", "{}", "1.5", "9223372036854775808", "[[1]]", `"x"`, "1979-05-27T07:32:00Z", ""}).Draw(rt, "value")
				what = "another value"
			}
		case 3:
			lines[i] = strings.ReplaceAll(strings.ReplaceAll(lines[i], "[[", "["), "]]", "]")
			what = "a table for tables"
		case 4:
			if k := strings.Index(lines[i], " = "); k >= 0 {
				lines[i] = "x" + lines[i]
			} else {
				lines[i] = strings.ReplaceAll(lines[i], "[", "[x")
			}
			what = "renamed"
		}
		b = []byte(strings.Join(lines, "\n"))
	}
	write(file, b)
	return b, what
}

// TestC30_Damage: damaged files give errors, or what they say.
func TestC30_Damage(t *testing.T) {
	vh.Check(t, vh.N{Quick: 12000}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		k := world.NewKeys(c, true)
		str := directory.New(7, k.VRF, k.Sign, 10, true).LatestSTR()
		file := filepath.Join(dir, "config.toml")
		var load func() error
		var files []string
		var sc *server.Config
		var cc *clientapp.Config
		var bc *bots.TwitterConfig
		app := rapid.SampledFrom([]string{"server", "client", "bot"}).Draw(rt, "app")
		switch app {
		case "server":
			s := configure(c, k, opts{deadline: 7, capacity: 10, addrs: []spec{{tls: true}, {reg: true}}})
			os.RemoveAll(dir)
			dir, file = s.Dir, s.Conf.Path
			defer os.RemoveAll(dir)
			s.Conf.Logger.Path = "a.log"
			if err := s.Conf.Save(); err != nil {
				c.Fatalf("saving: %v", err)
			}
			files = []string{file, filepath.Join(dir, "sign.priv"), filepath.Join(dir, "vrf.priv")}
			load = func() error { sc = &server.Config{}; return sc.Load(file, "toml") }
		case "client":
			if err := clientapp.NewConfig(file, "toml", "key", "str", "a", "b").Save(); err != nil {
				c.Fatalf("saving: %v", err)
			}
			write(filepath.Join(dir, "key"), k.Pub)
			write(filepath.Join(dir, "str"), []byte(world.JS(str)))
			files = []string{file, filepath.Join(dir, "key"), filepath.Join(dir, "str")}
			load = func() error { cc = &clientapp.Config{}; return cc.Load(file, "toml") }
		case "bot":
			if err := bots.NewTwitterConfig(file, "toml", "a", "b", bots.TwitterOAuth{ConsumerKey: "c", ConsumerSecret: "d", AccessToken: "e", AccessSecret: "f"}).Save(); err != nil {
				c.Fatalf("saving: %v", err)
			}
			files = []string{file}
			load = func() error { bc = &bots.TwitterConfig{}; return bc.Load(file, "toml") }
		}
		if err := load(); err != nil {
			c.Fatalf("the undamaged configuration does not load: %v", err)
		}
		good := world.JS([]interface{}{sc, cc, bc})
		if sc != nil { // the path of the file is not in it
			good = world.JS(sc)
		}
		at := rapid.IntRange(0, len(files)-1).Draw(rt, "file")
		was := read(files[at])
		b, what := damage(rt, files[at], was, at == 0)
		c.Tracef("%s: %s %s: %q", app, filepath.Base(files[at]), what, short(b))
		err := load()
		c.Class(fmt.Sprintf("%s: error %v", what, err != nil))
		if err != nil {
			c.NT()
		}
		if b == nil && err == nil {
			c.Fatalf("%s is %s: no error", files[at], what)
		}
		if bytes.Equal(b, was) && b != nil && err != nil {
			c.Fatalf("unchanged, but: %v", err)
		}
		if at == 0 {
			var m map[string]interface{}
			_, bad := toml.Decode(string(b), &m)
			if bad != nil && err == nil {
				c.Fatalf("not TOML (%v), but no error", bad)
			}
			if err != nil {
				return
			}
			// a configuration that loads is complete
			switch app {
			case "server":
				if sc.CommonConfig == nil || sc.Policies == nil || sc.Logger == nil {
					c.Fatalf("loaded without a section that the file does not have")
				}
				for i, a := range sc.Addresses {
					if a == nil || a.ServerAddress == nil {
						c.Fatalf("loaded with an empty address %d", i)
					}
				}
				says(c, m, "loaded_history_length", int64(sc.LoadedHistoryLength))
				says(c, m, "epoch_deadline", int64(sc.EpochDeadline))
			case "client":
				if len(cc.SigningPubKey) != 32 || !world.Complete(cc.InitSTR) {
					c.Fatalf("loaded without key or signed root")
				}
				says(c, m, "address", cc.Address)
				says(c, m, "registration_address", cc.RegAddress)
			case "bot":
				says(c, m, "coniks_address", bc.CONIKSAddress)
				says(c, m, "twitter_bot_handle", bc.Handle)
			}
			return
		}
		if app == "client" && at == 2 {
			if err == nil {
				if cc.InitSTR == nil || !world.Complete(cc.InitSTR) || cc.InitSTR.Epoch != 0 {
					c.Fatalf("the initial signed root %q loads as %s", b, world.JS(cc.InitSTR))
				}
				if !json.Valid(b) {
					c.Fatalf("the initial signed root is not JSON, but no error: %q", b)
				}
			}
			return
		}
		if len(b) != len(was) && err == nil {
			c.Fatalf("a key of %d bytes loads", len(b))
		}
		if len(b) == len(was) && err != nil {
			c.Fatalf("another key does not load: %v", err)
		}
		if err == nil && app == "client" && !bytes.Equal(cc.SigningPubKey, b) {
			c.Fatalf("the key %x loads as %x", b, cc.SigningPubKey)
		}
		if err == nil && app == "server" && world.JS(sc) != good {
			c.Fatalf("another key changes the configuration to %s", world.JS(sc))
		}
	})
}

// says compares a loaded setting with the one in the file, if it is there once.
func says(c *vh.Case, m map[string]interface{}, key string, got interface{}) {
	c.T.Helper()
	n := 0
	for k := range m {
		if strings.EqualFold(k, key) {
			n++
		}
	}
	v, ok := m[key]
	if n > 1 || n == 1 && !ok {
		return
	}
	if !ok {
		switch got {
		case "", int64(0):
			return
		}
		c.Fatalf("%s, which is not in the file, loads as %v", key, got)
	}
	if v != got {
		c.Fatalf("%s = %v loads as %v", key, v, got)
	}
}

// TestC30_InitSTR: initial signed roots that are not load as errors.
func TestC30_InitSTR(t *testing.T) {
	vh.Check(t, vh.N{Quick: 8000}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		k := drawKeys(rt, c)
		d := directory.New(world.Deadline(rt), k.VRF, k.Sign, 10, true)
		e := rapid.IntRange(0, 3).Draw(rt, "epoch")
		for i := 0; i < e; i++ {
			d.Update()
		}
		str := d.LatestSTR()
		b, what := []byte(world.JS(str)), "unchanged"
		if rapid.IntRange(0, 4).Draw(rt, "mutate") > 0 {
			b, what = vh.MutateText(rt, vh.ParseJSON(string(b)))
		}
		file := filepath.Join(dir, "init.str")
		write(file, b)
		c.Tracef("epoch %d %s: %q", e, what, short(b))
		got, err := application.LoadInitSTR("init.str", filepath.Join(dir, "config.toml"))
		if err != nil && got != nil {
			c.Fatalf("an error (%v) and a signed root", err)
		}
		if err == nil && got == nil {
			c.Fatalf("neither an error nor a signed root")
		}
		if what == "unchanged" {
			if e == 0 && (err != nil || !world.SameSTR(got, str)) {
				c.Fatalf("the initial signed root loads as %s, %v", world.JS(got), err)
			}
		}
		if err != nil {
			c.NT()
			c.Class("error")
			return
		}
		c.Class("loaded")
		if !json.Valid(b) || !world.Complete(got) || got.Epoch != 0 {
			c.Fatalf("loads as %s", world.JS(got))
		}
		got.Serialize()
		got.Policies.Serialize()
	})
}
