//go:build go1.23

package app_test

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/BurntSushi/toml"
	"github.com/coniks-sys/coniks-go/application"
	clientapp "github.com/coniks-sys/coniks-go/application/client"
	"github.com/coniks-sys/coniks-go/application/server"
	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/merkletree"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/protocol/directory"
	"github.com/coniks-sys/coniks-go/zzverif/mt"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// tool is the path of a command-line tool, built by the runner.
func tool(name string) string {
	p := filepath.Join(os.Getenv("VH_BIN"), name)
	if _, err := os.Stat(p); err != nil {
		vh.Infra("no %s: %v", name, err)
	}
	return p
}

// runTool runs a tool to its end.
func runTool(c *vh.Case, cwd, name string, args ...string) (out string, code int) {
	c.T.Helper()
	cmd := exec.Command(tool(name), args...)
	cmd.Dir = cwd
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		vh.Infra("%s: %v", name, err)
	}
	t := time.AfterFunc(40*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	if !cmd.ProcessState.Exited() {
		c.Fatalf("%s %v does not end: %s", name, args, buf.String())
	}
	if strings.Contains(buf.String(), "goroutine ") || strings.Contains(buf.String(), "panic:") {
		c.Fatalf("%s %v crashes:\n%s", name, args, buf.String())
	}
	return buf.String(), cmd.ProcessState.ExitCode()
}

// repl is the client tool on a pseudo-terminal.
type repl struct {
	c      *vh.Case
	cmd    *exec.Cmd
	master *os.File
	out    chan []byte
	errOut bytes.Buffer
	done   chan struct{}
	stamp  bool
}

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
		vh.Infra("ioctl: %v", e)
	}
}

const prompt = "coniks-client> "

func newREPL(c *vh.Case, cwd string, args ...string) *repl {
	c.T.Helper()
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		vh.Infra("pseudo-terminal: %v", err)
	}
	var n int32
	ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&n))
	ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		vh.Infra("pseudo-terminal: %v", err)
	}
	r := &repl{c: c, master: master, out: make(chan []byte, 1000), done: make(chan struct{})}
	r.cmd = exec.Command(tool("coniksclient"), append([]string{"run"}, args...)...)
	r.cmd.Dir = cwd
	r.cmd.Stdin, r.cmd.Stdout, r.cmd.Stderr = slave, &r.errOut, &r.errOut
	if err := r.cmd.Start(); err != nil {
		vh.Infra("coniksclient: %v", err)
	}
	slave.Close()
	go func() {
		defer close(r.out)
		for {
			b := make([]byte, 4096)
			n, err := master.Read(b)
			if n > 0 {
				r.out <- b[:n]
			}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		r.cmd.Wait()
		close(r.done)
	}()
	r.read("")
	return r
}

// read reads up to the next prompt; ended is set if the tool ended instead.
func (r *repl) read(line string) (text string, ended bool) {
	r.c.T.Helper()
	var buf []byte
	limit := time.After(40 * time.Second)
	for {
		if bytes.HasSuffix(buf, []byte(prompt)) {
			return string(buf[:len(buf)-len(prompt)]), false
		}
		select {
		case b, ok := <-r.out:
			if !ok {
				return string(buf), true
			}
			buf = append(buf, b...)
		case <-limit:
			r.c.Fatalf("the client does not answer to %q: %q", line, buf)
		}
	}
}

var stampRE = regexp.MustCompile(`^<\d\d:\d\d:\d\d(\.\d+)?> `)

// do types a line and returns what is printed, line by line.
func (r *repl) do(line string) []string {
	r.c.T.Helper()
	if _, err := r.master.Write([]byte(line + "\r")); err != nil {
		r.c.Fatalf("the client has ended: %v %s", err, r.errOut.String())
	}
	text, ended := r.read(line)
	if ended {
		<-r.done
		r.c.Fatalf("the client ended at %q: %q %s", line, text, r.errOut.String())
	}
	return r.lines(line, text)
}

// printed is s without what lines leaves out.
func printed(s string) string {
	var ls []string
	for _, l := range strings.Split(strings.ReplaceAll(s, "\r", ""), "\n") {
		if l != "" {
			ls = append(ls, l)
		}
	}
	return strings.Join(ls, "\n")
}

func (r *repl) lines(line, text string) (out []string) {
	// the echo of the line, then what is printed
	text = strings.ReplaceAll(text, "\r", "")
	i := strings.Index(text, line)
	if i < 0 {
		r.c.Fatalf("no echo of %q in %q", line, text)
	}
	for _, l := range strings.Split(text[i+len(line):], "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return
}

// one is do for commands that print one line.
func (r *repl) one(line string) string {
	r.c.T.Helper()
	ls := r.do(line)
	if len(ls) == 0 || len(ls) > 4 {
		r.c.Fatalf("%q prints %q", line, ls)
	}
	l := strings.Join(ls, "\n") // a key can have line ends
	if stampRE.MatchString(l) != r.stamp {
		r.c.Fatalf("%q prints %q; timestamps are on: %v", line, l, r.stamp)
	}
	return stampRE.ReplaceAllString(l, "")
}

// end types the line, or end of input, after which the tool must end.
func (r *repl) end(line string) {
	r.c.T.Helper()
	r.master.Write([]byte(line))
	select {
	case <-r.done:
	case <-time.After(40 * time.Second):
		r.c.Fatalf("the client does not end at %q", line)
	}
	if code := r.cmd.ProcessState.ExitCode(); code != 0 {
		r.c.Fatalf("the client ended with code %d at %q: %s", code, line, r.errOut.String())
	}
}

func (r *repl) close() {
	r.cmd.Process.Kill()
	<-r.done
	r.master.Close()
	for range r.out {
	}
}

// desk is an address of a stand-in for a server.
type desk struct {
	url string
	l   net.Listener
	mu  sync.Mutex
	got [][]byte
	say func() []byte // nil: hang up
	wg  sync.WaitGroup
}

func newDesk(tlsToo bool) *desk {
	d := &desk{}
	var err error
	if tlsToo {
		cert, err := tls.LoadX509KeyPair(filepath.Join(certDir, "server.pem"), filepath.Join(certDir, "server.key"))
		if err != nil {
			vh.Infra("%v", err)
		}
		dst := freePort()
		d.url = "tcp://" + dst
		if d.l, err = tls.Listen("tcp", dst, &tls.Config{Certificates: []tls.Certificate{cert}}); err != nil {
			vh.Infra("%v", err)
		}
	} else {
		p := filepath.Join(vh.Dir(), "s")
		d.url = "unix://" + p
		if d.l, err = net.Listen("unix", p); err != nil {
			vh.Infra("%v", err)
		}
	}
	d.wg.Add(1)
	go func() {
		defer d.wg.Done()
		for {
			conn, err := d.l.Accept()
			if err != nil {
				return
			}
			conn.SetDeadline(time.Now().Add(time.Minute))
			d.mu.Lock()
			say := d.say
			d.mu.Unlock()
			if say == nil {
				d.mu.Lock()
				d.got = append(d.got, nil)
				d.mu.Unlock()
				conn.Close()
				continue
			}
			// the client half-closes; a TLS client may do so without close_notify
			var b []byte
			buf := make([]byte, 4096)
			for {
				n, err := conn.Read(buf)
				b = append(b, buf[:n]...)
				if err != nil {
					break
				}
			}
			d.mu.Lock()
			d.got = append(d.got, b)
			d.mu.Unlock()
			conn.Write(say())
			conn.Close()
		}
	}()
	return d
}

func (d *desk) stop() {
	d.l.Close()
	d.wg.Wait()
	if strings.HasPrefix(d.url, "unix://") {
		os.RemoveAll(filepath.Dir(strings.TrimPrefix(d.url, "unix://")))
	}
}

func (d *desk) take() [][]byte {
	d.mu.Lock()
	defer d.mu.Unlock()
	g := d.got
	d.got = nil
	return g
}

func word(rt *rapid.T, label string) string {
	return rapid.OneOf(rapid.SampledFrom([]string{"alice", "bob", "a", "[+]", "null", "alice@twitter", `"q"`, "\\n", "100%s", "é", "日本"}),
		rapid.StringMatching(`[!-~]{1,12}`)).Draw(rt, label)
}

const (
	mRegistered = "Succesfully registered name: "
	mExists     = "Name is already registered."
	mUpdate     = "Are you trying to update your binding?"
	mOops       = "Oops!"
	mFound      = "Found! Key bound to name is: ["
	mNone       = "Name isn't registered."
)

func TestC33_Client(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		k := world.NewKeys(c, false)
		n := rapid.IntRange(1, 4).Draw(rt, "names")
		names := rapid.SliceOfNDistinct(rapid.Custom(func(rt *rapid.T) string { return word(rt, "name") }), n, n, rapid.ID[string]).Draw(rt, "names")
		d := world.NewDirOver(c, k, directory.New(60, k.VRF, k.Sign, 1000, true), 60, 1000, names)
		vrfs := world.VRFs{}
		vrfs.Add(k)
		v := world.NewView(c, k, vrfs, d.STRs[0], true)

		// the client's setup
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		look := newDesk(rapid.Bool().Draw(rt, "tls"))
		defer look.stop()
		reg := look
		regURL := ""
		switch rapid.IntRange(0, 2).Draw(rt, "addresses") {
		case 0:
			reg = newDesk(rapid.Bool().Draw(rt, "tls"))
			defer reg.stop()
			regURL = reg.url
		case 1:
			regURL = reg.url
		}
		if err := os.WriteFile(filepath.Join(dir, "sign.pub"), k.Pub, 0600); err != nil {
			vh.Infra("%v", err)
		}
		if err := application.SaveSTR(filepath.Join(dir, "init.str"), d.STRs[0]); err != nil {
			c.Fatalf("SaveSTR: %v", err)
		}
		if err := clientapp.NewConfig(filepath.Join(dir, "config.toml"), "toml", "sign.pub", "init.str", regURL, look.url).Save(); err != nil {
			c.Fatalf("saving the client's configuration: %v", err)
		}
		args := []string{}
		cwd := dir
		if rapid.Bool().Draw(rt, "elsewhere") {
			cwd, args = certDir, []string{"--config", filepath.Join(dir, "config.toml")}
		}
		stamp := rapid.IntRange(0, 3).Draw(rt, "debug") == 0
		if stamp {
			args = append(args, "--debug")
		}
		r := newREPL(c, cwd, args...)
		defer r.close()
		r.stamp = stamp

		var parts world.Parts
		var old [][]byte
		good, bad := 0, 0
		forked := false
		for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "n"); i < n; i++ {
			isReg := false
			switch op := rapid.IntRange(0, 9).Draw(rt, "op"); op {
			case 0, 1, 2:
				isReg = true
			case 3, 4, 5:
			case 6, 7:
				for e := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(rt, "epochs"); e > 0; e-- {
					d.Update()
				}
				c.Tracef("an epoch ends")
				continue
			case 8: // someone else
				name, key := d.Name(rt), word(rt, "key")
				d.Register(name, []byte(key))
				continue
			case 9:
				line := rapid.SampledFrom([]string{"", "  ", "help", "register", "register x", "register x y z", "lookup", "lookup x y", "foo", "enable", "enable x",
					"disable timestamp", "enable timestamp", "quit"}).Draw(rt, "line")
				c.Tracef("command %q", line)
				ls := r.do(line)
				switch line {
				case "enable timestamp", "disable timestamp":
					r.stamp = line[0] == 'e'
					if len(ls) != 0 {
						c.Fatalf("%q prints %q", line, ls)
					}
				case "help":
					if !strings.Contains(strings.Join(ls, "\n"), "lookup [name]") {
						c.Fatalf("help prints %q", ls)
					}
				default:
					if len(ls) != 1 || !strings.Contains(ls[0], "[!]") {
						c.Fatalf("%q prints %q", line, ls)
					}
				}
				if len(look.take())+len(reg.take()) > 0 {
					c.Fatalf("%q sends a request", line)
				}
				continue
			}
			name, key := d.Name(rt), word(rt, "key")
			typ, at := protocol.KeyLookupType, look
			if isReg {
				typ, at = protocol.RegistrationType, reg
			}
			// what comes back
			var resp *protocol.Response
			forKey := key
			kind := rapid.SampledFrom([]string{"honest", "honest", "honest", "honest", "altered", "other key", "mangled", "old", "other name", "nothing", "garbage", "dishonest"}).Draw(rt, "answer")
			if forked && rapid.IntRange(0, 3).Draw(rt, "go on") > 0 {
				kind = "dishonest"
			}
			asked := name
			switch kind {
			case "other key":
				forKey = word(rt, "key2")
			case "other name":
				asked = d.Name(rt)
			}
			if isReg {
				resp = d.Register(asked, []byte(forKey))
			} else {
				resp = d.Lookup(asked)
			}
			if kind == "dishonest" {
				// a root that continues what the client has seen, over other bindings
				binds := map[string][]byte{}
				for _, n := range names {
					if x, ok := v.Bindings[n]; ok && rapid.Bool().Draw(rt, "keep") {
						binds[n] = x
					} else if rapid.IntRange(0, 2).Draw(rt, "bind") > 0 {
						binds[n] = []byte(word(rt, "key3"))
					}
				}
				if isReg && rapid.Bool().Draw(rt, "bind name") {
					binds[name] = []byte(key)
				}
				tree := world.NewTree(c, k, names, binds)
				codes := []protocol.ErrorCode{protocol.ReqNameNotFound, protocol.ReqSuccess, protocol.ReqNameExisted}
				code := codes[0]
				if _, ok := binds[name]; ok && isReg {
					code = codes[2]
				} else if ok || isReg {
					code = codes[1]
				}
				if rapid.IntRange(0, 4).Draw(rt, "lie") == 0 {
					code = rapid.SampledFrom(codes).Draw(rt, "code")
				}
				str := v.Pinned
				if !forked || rapid.Bool().Draw(rt, "new epoch") || !bytes.Equal(str.TreeHash, tree.Root) {
					str = world.MakeSTR(k, v.Pinned, mt.Cp(tree.Root), 60)
				}
				p := &protocol.DirectoryProof{AP: []*merkletree.AuthenticationPath{tree.Path(c, name)}, STR: []*protocol.DirSTR{str}}
				if _, ok := binds[name]; !ok && (isReg || rapid.Bool().Draw(rt, "promise")) {
					if !isReg {
						key = word(rt, "key4")
						if code == codes[0] {
							code = codes[1]
						}
					}
					p.TB = &protocol.TemporaryBinding{Index: k.Index(name), Value: []byte(key)}
					p.TB.Signature = k.Sign.Sign(world.TBMessage(str.Signature, p.TB.Index, p.TB.Value))
				}
				resp = &protocol.Response{Error: code, DirectoryResponse: p}
				forked = true
			}
			parts.Add(resp)
			what := ""
			if kind == "altered" {
				resp = world.CloneResponse(resp)
				what = world.AlterAnswer(rt, resp, &parts, k)
			}
			b, err := json.Marshal(resp)
			if err != nil {
				vh.Infra("json: %v", err)
			}
			old = append(old, b)
			switch kind {
			case "old":
				b = rapid.SampledFrom(old).Draw(rt, "old")
			case "mangled":
				root := vh.ParseJSON(string(b))
				if rapid.Bool().Draw(rt, "structure") {
					x, w := vh.MutateJSON(rt, root, 1)
					b, what = []byte(x.String()), w
				} else {
					b, what = vh.MutateText(rt, root)
				}
			case "nothing":
				b = nil
			case "garbage":
				b = vh.Bytes(rt, "garbage", 200)
			}
			if len(b) > 8192 {
				continue // see DESIGN.md
			}
			say := func() []byte { return b }
			hangup := kind == "nothing" && rapid.Bool().Draw(rt, "hang up")
			for _, x := range []*desk{look, reg} {
				x.mu.Lock()
				x.say = say
				if hangup {
					x.say = nil
				}
				x.mu.Unlock()
			}
			line := "lookup " + name
			if isReg {
				line = "register " + name + " " + key
			}
			got := r.one(line)
			c.Tracef("%s (%s answer %s) prints %q", line, kind, what, got)

			// what was asked
			reqs := at.take()
			if len(reqs) != 1 || at != look && len(look.take()) > 0 || at != reg && len(reg.take()) > 0 {
				c.Fatalf("%q sends %d requests, or to another address", line, len(reqs))
			}
			if !hangup {
				var q struct {
					Type    int
					Request struct {
						Username string
						Key      []byte
					}
				}
				if err := json.Unmarshal(reqs[0], &q); err != nil || q.Type != typ || q.Request.Username != name || isReg && string(q.Request.Key) != key {
					c.Fatalf("%q sends %q", line, reqs[0])
				}
			}
			// what must be said
			var pass []byte
			if isReg {
				pass = []byte(key)
			} else if known, ok := v.Bindings[name]; ok {
				pass = known
			}
			answer := application.UnmarshalResponse(typ, b)
			if hangup {
				answer = application.UnmarshalResponse(typ, nil)
			}
			err = v.Handle(typ, answer, name, pass)
			says := func(s string) bool { return strings.HasPrefix(got, "[+] "+s) }
			ok := false
			switch {
			case err == nil && isReg && answer.Error == protocol.ReqSuccess:
				ok = got == "[+] "+mRegistered+name
				good++
			case err == nil && isReg && answer.Error == protocol.ReqNameExisted:
				ok = says(mExists)
				good++
			case err == nil && !isReg && answer.Error == protocol.ReqSuccess:
				ok = got == printed("[+] "+mFound+string(v.Bindings[name])+"]")
				good++
			case err == nil && !isReg && answer.Error == protocol.ReqNameNotFound:
				ok = says(mNone)
				good++
			case err == protocol.CheckBindingsDiffer && isReg && answer.Error == protocol.ReqNameExisted:
				ok = says(mUpdate)
			case err == protocol.CheckBindingsDiffer && isReg:
				ok = says(mOops)
				bad++
			case err != nil:
				ok = says("Error")
				bad++
			}
			if !ok {
				c.Fatalf("%q prints %q; checking the answer gives %v with code %d and key %q", line, got, err, answer.Error, v.Bindings[name])
			}
			if kind == "honest" {
				c.Class(fmt.Sprintf("honest: %.24s", got))
			} else {
				c.Class(fmt.Sprintf("%s: %.9s", kind, got))
			}
		}
		if good > 0 && bad > 0 {
			c.NT()
		}
		// an unreachable server is reported, and the client goes on
		if rapid.IntRange(0, 2).Draw(rt, "down") == 0 {
			look.l.Close()
			reg.l.Close()
			for _, line := range []string{"lookup x", "register x y"} {
				if got := r.one(line); !strings.Contains(got, "Error") {
					c.Fatalf("%q prints %q when the server is down", line, got)
				}
			}
		}
		r.end(rapid.SampledFrom([]string{"q\r", "exit\r", "\x04"}).Draw(rt, "end"))
	})
}

// Long keys that others registered are reported like short ones.
func TestC33_Long(t *testing.T) {
	vh.Check(t, vh.N{Quick: 96}, func(rt *rapid.T, c *vh.Case) {
		k := world.NewKeys(c, false)
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		tls := rapid.Bool().Draw(rt, "tls")
		s := start(c, k, opts{deadline: 3600, capacity: 1000, addrs: []spec{{reg: true}, {tls: tls, reg: true}}})
		defer s.stop()
		look := s.A[1]
		first := s.look("no such name").str
		if err := os.WriteFile(filepath.Join(dir, "sign.pub"), k.Pub, 0600); err != nil {
			vh.Infra("%v", err)
		}
		if err := application.SaveSTR(filepath.Join(dir, "init.str"), first); err != nil {
			c.Fatalf("SaveSTR: %v", err)
		}
		if err := clientapp.NewConfig(filepath.Join(dir, "config.toml"), "toml", "sign.pub", "init.str", "", look.s.Address).Save(); err != nil {
			c.Fatalf("saving the client's configuration: %v", err)
		}
		r := newREPL(c, dir)
		defer r.close()
		long := 0
		for i := rapid.IntRange(1, 6).Draw(rt, "names"); i > 0; i-- {
			name := fmt.Sprintf("name%d", i)
			n := vh.LogInt(rt, "len", 1, 5900)
			if rapid.Bool().Draw(rt, "big") {
				n = rapid.IntRange(4000, 5900).Draw(rt, "big len")
			}
			key := strings.ToValidUTF8(strings.Repeat(word(rt, "key"), n)[:n], "x")
			q := &request{typ: protocol.RegistrationType, name: name, key: []byte(key)}
			if a := s.send(s.A[0], q.typ, q.json(), how{}); a.Error != protocol.ReqSuccess {
				c.Fatalf("registering a key of %d bytes in %d: %v", n, len(q.json()), a.Error)
			}
			b, err := look.exchange((&request{typ: protocol.KeyLookupType, name: name}).json(), how{})
			if err != nil {
				c.Fatalf("looking up: %v", err)
			}
			got := r.one("lookup " + name)
			c.Tracef("key of %d bytes, answer of %d: %.80q", n, len(b), got)
			if len(b) > 8192 {
				long++
				if strings.HasPrefix(got, "[+] Error: "+protocol.ErrMalformedMessage.Error()) && vh.Known("C33", "long answers") {
					continue
				}
			}
			if got != printed("[+] "+mFound+key+"]") {
				c.Fatalf("looking up %s, with a key of %d bytes and an answer of %d, prints %q", name, n, len(b), got)
			}
		}
		r.end("q\r")
		if long > 0 {
			c.NT()
		}
	})
}

// Setups that do not work are reported.
func TestC33_BadSetup(t *testing.T) {
	vh.Check(t, vh.N{Quick: 240}, func(rt *rapid.T, c *vh.Case) {
		k := world.NewKeys(c, false)
		d := world.NewDirOver(c, k, directory.New(60, k.VRF, k.Sign, 1000, true), 60, 1000, []string{"x"})
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		os.WriteFile(filepath.Join(dir, "sign.pub"), k.Pub, 0600)
		application.SaveSTR(filepath.Join(dir, "init.str"), d.STRs[0])
		url := rapid.SampledFrom([]string{"", "ftp://x", "unix:///nonexistent/s", "tcp://127.0.0.1:1", "127.0.0.1:3000", "://", "%zz", "tcp://", "unix://", "http://x", "tcp://%zz:1", "tcp://127.0.0.1:99999"}).Draw(rt, "url")
		regURL := rapid.SampledFrom([]string{"", "ftp://x", "unix:///nonexistent/s", "%zz", "://", "tcp://127.0.0.1:1", "host:port"}).Draw(rt, "registration url")
		c.Tracef("addresses %q, %q", url, regURL)
		c.NT()
		if err := clientapp.NewConfig(filepath.Join(dir, "config.toml"), "toml", "sign.pub", "init.str", regURL, url).Save(); err != nil {
			c.Fatalf("saving the client's configuration: %v", err)
		}
		damage := rapid.SampledFrom([]string{"", "", "", "config.toml", "sign.pub", "init.str", "empty config.toml", "empty init.str", "empty sign.pub"}).Draw(rt, "damage")
		if f := strings.TrimPrefix(damage, "empty "); f != damage {
			os.Truncate(filepath.Join(dir, f), 0)
		} else if damage != "" {
			os.Remove(filepath.Join(dir, f))
		}
		if damage != "" {
			c.Tracef("damage: %s", damage)
			out, code := runTool(c, dir, "coniksclient", "run")
			if code == 0 || out == "" {
				c.Fatalf("the client ends with code %d: %q", code, out)
			}
			return
		}
		r := newREPL(c, dir)
		defer r.close()
		for i := 0; i < 3; i++ {
			line := rapid.SampledFrom([]string{"lookup x", "register x y"}).Draw(rt, "line")
			got := r.one(line)
			c.Tracef("%q prints %q", line, got)
			if !strings.Contains(got, "Error") && !strings.Contains(got, "Invalid config!") {
				c.Fatalf("%q prints %q", line, got)
			}
		}
		r.end("q\r")
	})
}

var setupFiles = []string{"config.toml", "sign.priv", "sign.pub", "vrf.priv", "vrf.pub", "server.pem", "server.key"}

// Setups are complete, usable and harm nothing.
func TestC33_Init(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		syscall.Umask(022)
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		which := rapid.SampledFrom([]string{"coniksserver", "coniksserver", "coniksserver", "coniksclient", "coniksbot"}).Draw(rt, "tool")
		was := map[string][]byte{}
		other := []string{"config.toml"}
		switch which {
		case "coniksserver":
			other = setupFiles
		case "coniksbot":
			other = []string{"botconfig.toml"}
		}
		for _, f := range append(append([]string{}, other...), "init.str", "unrelated") {
			if rapid.IntRange(0, 4).Draw(rt, f) == 0 {
				was[f] = vh.NewDRBG(rapid.Uint64().Draw(rt, "content")).Bytes(rapid.IntRange(0, 100).Draw(rt, "len"))
				if err := os.WriteFile(filepath.Join(dir, f), was[f], 0644); err != nil {
					vh.Infra("%v", err)
				}
			}
		}
		dangling := ""
		if which == "coniksserver" && rapid.IntRange(0, 9).Draw(rt, "dangling") == 0 {
			if f := rapid.SampledFrom(setupFiles).Draw(rt, "link"); was[f] == nil {
				dangling = f
				os.Symlink(filepath.Join(dir, "target"), filepath.Join(dir, f))
			}
		}
		args := []string{"init"}
		cwd := dir
		switch rapid.IntRange(0, 2).Draw(rt, "where") {
		case 0:
			cwd, args = certDir, append(args, "-d", dir)
		case 1:
			cwd, args = filepath.Dir(dir), append(args, "--dir="+filepath.Base(dir))
		}
		cert := which == "coniksserver" && rapid.Bool().Draw(rt, "cert")
		if cert {
			args = append(args, rapid.SampledFrom([]string{"-c", "--cert"}).Draw(rt, "flag"))
		}
		c.Tracef("%s %v in a directory with %d files", which, args[1:], len(was))
		if len(was) > 0 {
			c.NT()
		}
		now := func() map[string][]byte {
			m := map[string][]byte{}
			es, err := os.ReadDir(dir)
			if err != nil {
				vh.Infra("%v", err)
			}
			for _, e := range es {
				b, err := os.ReadFile(filepath.Join(dir, e.Name()))
				if err != nil && !os.IsNotExist(err) {
					vh.Infra("%v", err)
				}
				m[e.Name()] = b
			}
			return m
		}
		for round := rapid.IntRange(1, 2).Draw(rt, "rounds"); round > 0; round-- {
			_, code := runTool(c, cwd, which, args...)
			if which == "coniksclient" && (code != 0) != (was["config.toml"] != nil) {
				c.Fatalf("the client's init ends with code %d; the file existed: %v", code, was["config.toml"] != nil)
			}
			is := now()
			for f, b := range was {
				if !bytes.Equal(is[f], b) {
					c.Fatalf("%s, which existed, was changed", f)
				}
			}
			if round > 1 {
				was = is // again: nothing changes
			}
		}
		if dangling != "" {
			return
		}
		is := now()
		conf := filepath.Join(dir, "config.toml")
		switch which {
		case "coniksclient":
			if was["config.toml"] == nil {
				var x map[string]interface{}
				if _, err := toml.DecodeFile(conf, &x); err != nil {
					c.Fatalf("the generated configuration: %v", err)
				}
			}
			return
		case "coniksbot":
			if was["botconfig.toml"] == nil {
				var x map[string]interface{}
				if _, err := toml.DecodeFile(filepath.Join(dir, "botconfig.toml"), &x); err != nil {
					c.Fatalf("the generated configuration: %v", err)
				}
			}
			return
		}
		for _, f := range setupFiles {
			if !cert && strings.HasPrefix(f, "server.") {
				if _, ok := is[f]; ok != (was[f] != nil) {
					c.Fatalf("%s appears although no certificate is wanted", f)
				}
			}
			if fi, err := os.Stat(filepath.Join(dir, f)); err == nil && was[f] == nil && (strings.HasSuffix(f, ".priv") || f == "server.key") && fi.Mode().Perm()&077 != 0 {
				c.Fatalf("%s has mode %v", f, fi.Mode())
			}
		}
		// each kind of file is complete if there was none of it
		fresh := func(fs ...string) bool {
			for _, f := range fs {
				if was[f] != nil {
					return false
				}
			}
			return true
		}
		if fresh("sign.priv", "sign.pub") {
			sk := sign.PrivateKey(is["sign.priv"])
			if len(sk) != sign.PrivateKeySize {
				c.Fatalf("the signing key has %d bytes", len(sk))
			}
			if pk, ok := sk.Public(); !ok || !bytes.Equal(pk, is["sign.pub"]) {
				c.Fatalf("sign.pub does not belong to sign.priv")
			}
			if !sign.PublicKey(is["sign.pub"]).Verify([]byte("m"), sk.Sign([]byte("m"))) {
				c.Fatalf("the generated signing keys do not work")
			}
		}
		if fresh("vrf.priv", "vrf.pub") {
			sk := vrf.PrivateKey(is["vrf.priv"])
			if len(sk) != vrf.PrivateKeySize {
				c.Fatalf("the VRF key has %d bytes", len(sk))
			}
			if pk, ok := sk.Public(); !ok || !bytes.Equal(pk, is["vrf.pub"]) {
				c.Fatalf("vrf.pub does not belong to vrf.priv")
			}
			val, proof := sk.Prove([]byte("m"))
			if !vrf.PublicKey(is["vrf.pub"]).Verify([]byte("m"), val, proof) {
				c.Fatalf("the generated VRF keys do not work")
			}
		}
		if cert && fresh("server.pem", "server.key") {
			if _, err := tls.LoadX509KeyPair(filepath.Join(dir, "server.pem"), filepath.Join(dir, "server.key")); err != nil {
				c.Fatalf("the generated certificate: %v", err)
			}
		}
		if fresh("config.toml", "sign.priv", "vrf.priv") {
			sc := &server.Config{}
			if err := sc.Load(conf, "toml"); err != nil {
				c.Fatalf("the generated configuration does not load: %v", err)
			}
			c.Class("loaded")
		}
	})
}

// edit changes the settings of a generated configuration.
func edit(c *vh.Case, file string, f func(m map[string]interface{})) {
	c.T.Helper()
	var m map[string]interface{}
	if _, err := toml.DecodeFile(file, &m); err != nil {
		c.Fatalf("%s: %v", file, err)
	}
	f(m)
	var buf bytes.Buffer
	if err := toml.NewEncoder(&buf).Encode(m); err != nil {
		vh.Infra("toml: %v", err)
	}
	if err := os.WriteFile(file, buf.Bytes(), 0600); err != nil {
		vh.Infra("%v", err)
	}
}

// The tools together, from generated setups.
func TestC33_EndToEnd(t *testing.T) {
	resent := 0
	vh.Check(t, vh.N{Quick: 96}, func(rt *rapid.T, c *vh.Case) {
		base := vh.Dir()
		defer os.RemoveAll(base)
		sdir := filepath.Join(base, "server")
		os.Mkdir(sdir, 0700)
		if _, code := runTool(c, sdir, "coniksserver", "init", "-c"); code != 0 {
			c.Fatalf("coniksserver init ends with code %d", code)
		}
		sock := filepath.Join(base, "s")
		host := freePort()
		deadline := rapid.SampledFrom([]int64{60, 60, 1}).Draw(rt, "deadline")
		regs := 0
		edit(c, filepath.Join(sdir, "config.toml"), func(m map[string]interface{}) {
			as, ok := m["addresses"].([]map[string]interface{})
			if !ok || len(as) != 2 {
				c.Fatalf("the generated configuration has addresses %v", m["addresses"])
			}
			for _, a := range as {
				if strings.HasPrefix(fmt.Sprint(a["address"]), "unix:") {
					a["address"] = "unix://" + sock
				} else {
					a["address"] = "tcp://" + host
				}
				if a["allow_registration"] == true {
					regs++
				}
			}
			p, ok := m["policies"].(map[string]interface{})
			if !ok || p["epoch_deadline"] == nil {
				c.Fatalf("the generated configuration has policies %v", m["policies"])
			}
			p["epoch_deadline"] = deadline
		})
		if regs == 0 {
			c.Fatalf("no address of the generated configuration allows registrations")
		}
		// somebody else's pid file, longer than the number to come
		pid := rapid.Bool().Draw(rt, "pid")
		cwd := sdir
		args := []string{"run"}
		if rapid.Bool().Draw(rt, "elsewhere") {
			cwd, args = base, []string{"run", "-c", filepath.Join(sdir, "config.toml")}
		}
		if pid {
			args = append(args, "-p")
			if rapid.Bool().Draw(rt, "stale pid") {
				os.WriteFile(filepath.Join(cwd, "coniks.pid"), []byte("123456789012"), 0600)
			}
		}
		srv := exec.Command(tool("coniksserver"), args...)
		srv.Dir = cwd
		log, err := os.Create(filepath.Join(base, "output"))
		if err != nil {
			vh.Infra("%v", err)
		}
		defer log.Close()
		output := func() string {
			b, _ := os.ReadFile(log.Name())
			return string(b)
		}
		srv.Stdout, srv.Stderr = log, log
		if err := srv.Start(); err != nil {
			vh.Infra("coniksserver: %v", err)
		}
		began := time.Now()
		done := make(chan struct{})
		go func() { srv.Wait(); close(done) }()
		defer func() { srv.Process.Kill(); <-done }()
		for up := time.Now(); ; time.Sleep(3 * time.Millisecond) {
			a, err1 := net.Dial("unix", sock)
			b, err2 := net.Dial("tcp", host)
			if err1 == nil {
				a.Close()
			}
			if err2 == nil {
				b.Close()
			}
			if err1 == nil && err2 == nil {
				break
			}
			select {
			case <-done:
				if strings.Contains(output(), "address already in use") {
					rt.Skip("port taken")
				}
				c.Fatalf("the server ends:\n%s", output())
			default:
			}
			if time.Since(up) > 40*time.Second {
				c.Fatalf("the server does not listen: %v, %v", err1, err2)
			}
		}
		c.Tracef("server %v, epochs of %d s", args, deadline)
		cdir := filepath.Join(base, "client")
		os.Mkdir(cdir, 0700)
		if _, code := runTool(c, base, "coniksclient", "init", "-d", cdir); code != 0 {
			c.Fatalf("coniksclient init ends with code %d", code)
		}
		edit(c, filepath.Join(cdir, "config.toml"), func(m map[string]interface{}) {
			for _, s := range []string{"sign_pubkey_path", "init_str_path", "registration_address", "address"} {
				if m[s] == nil {
					c.Fatalf("the generated client configuration has no %s: %v", s, m)
				}
			}
			m["sign_pubkey_path"] = "../server/sign.pub"
			m["init_str_path"] = filepath.Join(sdir, "init.str")
			m["registration_address"] = "unix://" + sock
			m["address"] = "tcp://" + host
		})
		var rs []*repl
		for i := rapid.IntRange(1, 2).Draw(rt, "clients"); i > 0; i-- {
			r := newREPL(c, cdir)
			defer r.close()
			rs = append(rs, r)
		}
		has := map[string]string{}
		last := make([]time.Time, len(rs))
		for i := range last {
			last[i] = began
		}
		names := []string{"alice", "bob", "x" + word(rt, "name")}
		n := rapid.IntRange(3, 12).Draw(rt, "n")
		lost := false
		for i := 0; i < n; i++ {
			w := rapid.IntRange(0, len(rs)-1).Draw(rt, "client")
			name, key := rapid.SampledFrom(names).Draw(rt, "name"), "k"+word(rt, "key")
			if deadline == 1 && rapid.IntRange(0, 3).Draw(rt, "wait") == 0 {
				time.Sleep(900 * time.Millisecond)
			}
			reg := rapid.Bool().Draw(rt, "register")
			line, want := "lookup "+name, "[+] "+mFound+has[name]+"]"
			if has[name] == "" {
				want = "[+] " + mNone
			}
			if reg {
				line = "register " + name + " " + key
				want = "[+] " + mRegistered + name
				if k := has[name]; k == key {
					want = "[+] " + mExists
				} else if k != "" {
					want = "[+] " + mUpdate
				}
			}
			sent := time.Now()
			got := rs[w].one(line)
			c.Tracef("client %d: %s prints %q", w, line, got)
			// short epochs can follow each other faster on a busy machine
			missed := deadline == 1 || time.Since(last[w]) > time.Duration(deadline)*time.Second
			last[w] = sent
			if !strings.HasPrefix(got, want) {
				if missed && strings.HasPrefix(got, "[+] Error: ") && strings.Contains(got, "missed an epoch") {
					lost = true // the client may have missed an epoch, which it cannot catch up with
					break
				}
				c.Fatalf("client %d: %q prints %q, should print %q", w, line, got, want)
			}
			if reg && has[name] == "" {
				has[name] = key
			}
		}
		if len(has) > 0 {
			c.NT()
		}
		if lost {
			c.Class("missed an epoch")
		}
		for _, r := range rs {
			r.end("exit\r")
		}
		if pid {
			b, err := os.ReadFile(filepath.Join(cwd, "coniks.pid"))
			if err != nil || string(bytes.TrimSpace(b)) != strconv.Itoa(srv.Process.Pid) {
				c.Fatalf("the pid file holds %q (%v), the server's pid is %d", b, err, srv.Process.Pid)
			}
		}
		if err := srv.Process.Signal(os.Interrupt); err != nil {
			c.Fatalf("the server cannot be interrupted: %v\n%s", err, output())
		}
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			// a signal may get lost once, but not twice
			srv.Process.Signal(os.Interrupt)
			resent++
			select {
			case <-done:
			case <-time.After(40 * time.Second):
				resent = 2
				srv.Process.Signal(syscall.SIGQUIT) // tell where it is
				select {
				case <-done:
				case <-time.After(20 * time.Second):
				}
			}
			if resent > 1 {
				c.Fatalf("the server does not end when interrupted:\n%s", output())
			}
			c.Class("interrupted twice")
		}
		if code := srv.ProcessState.ExitCode(); code != 0 {
			c.Fatalf("the server ends with code %d:\n%s", code, output())
		}
		if strings.Contains(output(), "panic:") {
			c.Fatalf("the server crashes:\n%s", output())
		}
	})
}

// Server configurations that do not work are reported.
func TestC33_ServerRun(t *testing.T) {
	vh.Check(t, vh.N{Quick: 160}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		runTool(c, dir, "coniksserver", "init")
		edit(c, filepath.Join(dir, "config.toml"), func(m map[string]interface{}) {
			for _, a := range m["addresses"].([]map[string]interface{}) {
				a["address"] = "unix://" + filepath.Join(dir, "s")
			}
		})
		f := rapid.SampledFrom([]string{"config.toml", "sign.priv", "vrf.priv"}).Draw(rt, "file")
		how := rapid.SampledFrom([]string{"missing", "empty", "cut"}).Draw(rt, "how")
		c.Tracef("%s %s", how, f)
		c.NT()
		p := filepath.Join(dir, f)
		switch how {
		case "missing":
			os.Remove(p)
		case "empty":
			os.Truncate(p, 0)
		case "cut":
			os.Truncate(p, 17)
		}
		if out, code := runTool(c, dir, "coniksserver", "run"); code == 0 || out == "" {
			c.Fatalf("the server ends with code %d: %q", code, out)
		}
		for _, x := range []string{"coniksserver", "coniksclient", "coniksbot"} {
			if out, code := runTool(c, dir, x, "version"); code != 0 || !regexp.MustCompile(x+` v\d`).MatchString(out) {
				c.Fatalf("%s version prints %q", x, out)
			}
		}
		if out, code := runTool(c, dir, "coniksbot", "run"); code == 0 || out == "" {
			c.Fatalf("the bot without a configuration ends with code %d: %q", code, out)
		}
	})
}
