//go:build go1.23

package app_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"

	"github.com/coniks-sys/coniks-go/application/bots"
	"github.com/coniks-sys/coniks-go/protocol"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"github.com/coniks-sys/coniks-go/zzverif/world"
	"pgregory.net/rapid"
)

// provider stands for Twitter.
type provider struct {
	handle string // of the bot's account
	stream io.ReadCloser
	mu     sync.Mutex
	sent   []url.Values
	got    chan bool
}

type body struct {
	io.Reader
	close func() error
}

func (b body) Close() error { return b.close() }

func (p *provider) RoundTrip(r *http.Request) (*http.Response, error) {
	var in []byte
	if r.Body != nil {
		in, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	answer := func(s string) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}},
			Body: io.NopCloser(strings.NewReader(s)), ContentLength: int64(len(s)), Request: r}, nil
	}
	switch path := r.URL.Path; {
	case strings.HasSuffix(path, "verify_credentials.json"):
		return answer(fmt.Sprintf(`{"screen_name":%q}`, p.handle))
	case strings.HasSuffix(path, "direct_messages.json"):
		return answer("[]")
	case strings.HasSuffix(path, "direct_messages/new.json"):
		v, _ := url.ParseQuery(string(in))
		p.mu.Lock()
		p.sent = append(p.sent, v)
		p.mu.Unlock()
		p.got <- true
		return answer(`{"id":7}`)
	case strings.HasSuffix(path, "user.json"):
		if p.stream == nil {
			return nil, io.EOF
		}
		s := p.stream
		p.stream = nil
		return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: s, ContentLength: -1, Request: r}, nil
	}
	return answer("{}")
}

// keyServer records what reaches a key server's socket.
type keyServer struct {
	path   string
	l      net.Listener
	mu     sync.Mutex
	got    [][]byte
	answer func() []byte
	slam   bool // hang up without reading
	wg     sync.WaitGroup
}

func newKeyServer(dir string) *keyServer {
	k := &keyServer{path: filepath.Join(dir, "coniks.sock")}
	k.up()
	return k
}

func (k *keyServer) up() {
	var err error
	if k.l, err = net.Listen("unix", k.path); err != nil {
		vh.Infra("%v", err)
	}
	l := k.l
	k.wg.Add(1)
	go func() {
		defer k.wg.Done()
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			k.mu.Lock()
			slam := k.slam
			k.mu.Unlock()
			if slam {
				conn.Close()
				continue
			}
			conn.SetDeadline(time.Now().Add(time.Minute))
			b, _ := io.ReadAll(conn)
			k.mu.Lock()
			k.got = append(k.got, b)
			a := k.answer()
			k.mu.Unlock()
			conn.Write(a)
			conn.Close()
		}
	}()
}

func (k *keyServer) down() {
	if k.l != nil {
		k.l.Close()
		k.l = nil
		k.wg.Wait()
	}
}

func (k *keyServer) take() [][]byte {
	k.mu.Lock()
	defer k.mu.Unlock()
	g := k.got
	k.got = nil
	return g
}

func newBot(c *vh.Case, k *keyServer, p *provider) bots.Bot {
	http.DefaultTransport = p
	log.SetOutput(io.Discard)
	b, err := bots.NewTwitterBot(bots.NewTwitterConfig(filepath.Join(filepath.Dir(k.path), "bot.toml"), "toml", k.path, p.handle,
		bots.TwitterOAuth{ConsumerKey: "a", ConsumerSecret: "b", AccessToken: "c", AccessSecret: "d"}))
	if err != nil {
		c.Fatalf("no bot: %v", err)
	}
	return b
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// lower folds letters of ASCII only.
func lower(s string) string {
	return strings.Map(func(r rune) rune {
		if 'A' <= r && r <= 'Z' {
			return r + 32
		}
		return r
	}, s)
}

// fold folds every letter that any notion of case might.
func fold(s string) string {
	return strings.Map(func(r rune) rune {
		m := r
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			m = min(m, x)
		}
		return m
	}, strings.ToLower(s))
}

// own decides whether msg is the sender's own registration: yes, no, or
// (where letters of other scripts or irregular messages leave it open) either.
func own(sender string, msg []byte) (yes, no bool) {
	q := lenient(msg)
	if q == nil || q.typ != protocol.RegistrationType || fold(q.name) != fold(sender+"@twitter") {
		return false, true
	}
	return strict(msg) && lower(q.name) == lower(sender+"@twitter"), false
}

func handle(rt *rapid.T, label string) string {
	return rapid.OneOf(rapid.SampledFrom([]string{"alice", "Alice", "ALICE", "bob", "alice_1", "k", "s", "coniksbot", "a"}), rapid.StringMatching(`[A-Za-z0-9_]{1,15}`)).Draw(rt, label)
}

// near draws names that are the sender's, or nearly.
func near(rt *rapid.T, sender string) string {
	n := sender + "@twitter"
	switch rapid.IntRange(0, 14).Draw(rt, "near") {
	case 0, 1, 2:
		return strings.ToLower(n)
	case 3:
		return n
	case 4:
		return strings.ToUpper(n)
	case 5:
		b := []rune(n)
		i := rapid.IntRange(0, len(b)-1).Draw(rt, "letter")
		b[i] = unicode.SimpleFold(b[i])
		return string(b)
	case 6:
		return sender
	case 7:
		return handle(rt, "other") + "@twitter"
	case 8:
		return n + rapid.SampledFrom([]string{" ", "\x00", "@twitter", ".com", "x", "r"}).Draw(rt, "tail")
	case 9:
		return rapid.SampledFrom([]string{" ", "\x00", "x", "@", "mallory "}).Draw(rt, "head") + n
	case 10:
		return sender + rapid.SampledFrom([]string{"@twitte", "@facebook", "@", "twitter", "@ twitter", "\uff20twitter", "@twitter\u200b", "@xtwitter"}).Draw(rt, "space")
	case 11:
		return string(vh.Mutate(rt, "raw", []byte(n)))
	case 12:
		return ""
	case 13:
		return n[:rapid.IntRange(0, len(n)).Draw(rt, "cut")]
	}
	return strings.TrimSuffix(n, "@twitter")[1:] + "@twitter"
}

func draft(rt *rapid.T, sender string) ([]byte, string) {
	q := &request{typ: protocol.RegistrationType, name: near(rt, sender), key: world.Key(rt)}
	q.name = strings.ToValidUTF8(q.name, "\ufffd")
	switch rapid.IntRange(0, 9).Draw(rt, "draft") {
	case 0: // another type with the same contents
		t := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, -1, 100}).Draw(rt, "type")
		m := map[string]interface{}{"Username": q.name, "Key": q.key}
		b, _ := json.Marshal(map[string]interface{}{"Type": t, "Request": m})
		return b, "another type"
	case 1:
		return append(q.json(), rapid.SampledFrom([]string{" ", "\n", "x", "{}", "\x00"}).Draw(rt, "tail")...), "a tail"
	case 2, 3:
		return vh.MutateText(rt, vh.ParseJSON(string(q.json())))
	case 4:
		n := rapid.IntRange(0, 20000).Draw(rt, "long")
		q.key = bytes.Repeat([]byte{1}, max(n, 1))
		return q.json(), "a long key"
	case 5: // two names, one of them the sender's
		a, b := fmt.Sprintf("%q", strings.ToLower(sender)+"@twitter"), `"mallory@twitter"`
		if rapid.Bool().Draw(rt, "last") {
			a, b = b, a
		}
		k := rapid.SampledFrom([]string{"Username", "username", "USERNAME"}).Draw(rt, "again")
		return []byte(fmt.Sprintf(`{"Type":0,"Request":{"Username":%s,"%s":%s,"Key":"AA=="}}`, a, k, b)), "two names"
	}
	return q.json(), "registration"
}

// TestC29_Messages: what is forwarded, and what comes back.
func TestC29_Messages(t *testing.T) {
	vh.Check(t, vh.N{Quick: 8000}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		k := newKeyServer(dir)
		defer k.down()
		var answer []byte
		k.answer = func() []byte { return answer }
		bot := newBot(c, k, &provider{handle: "coniksbot"})
		forwarded, refused := 0, 0
		for i := rapid.IntRange(1, 8).Draw(rt, "messages"); i > 0; i-- {
			sender := handle(rt, "sender")
			msg, what := draft(rt, sender)
			up := rapid.IntRange(0, 5).Draw(rt, "up") > 0
			answer = vh.Bytes(rt, "answer", 300)
			if rapid.IntRange(0, 5).Draw(rt, "big") == 0 {
				answer = bytes.Repeat([]byte{'x', 0xff, '\n'}, rapid.IntRange(1, 9000).Draw(rt, "size"))
			}
			slam := up && rapid.IntRange(0, 60).Draw(rt, "slam") == 0
			if slam { // more than fits into the socket, so that the bot is told
				msg, what, up = (&request{typ: protocol.RegistrationType, name: strings.ToLower(sender) + "@twitter", key: make([]byte, 300000)}).json(), "a registration nobody reads", false
			}
			k.mu.Lock()
			k.slam = slam
			k.mu.Unlock()
			if !up && !slam {
				k.down()
			}
			in := append([]byte{}, msg...)
			out := bot.HandleRegistration(sender, msg)
			if !bytes.Equal(in, msg) {
				c.Fatalf("the message was changed")
			}
			if !up && !slam {
				k.up()
			}
			got := k.take()
			c.Tracef("%s from %q: %q; server up %v -> %q", what, sender, short(in), up, short([]byte(out)))
			yes, no := own(sender, in)
			if yes && up && len(got) == 0 || yes && out == `{"Error":106}` && !bytes.Equal(answer, []byte(out)) {
				c.Fatalf("the sender's own registration is not forwarded")
			}
			if no && len(got) > 0 {
				c.Fatalf("forwarded: %q", got)
			}
			if len(got) > 1 || len(got) == 1 && !bytes.Equal(got[0], in) {
				c.Fatalf("forwarded as %q", got)
			}
			code := func(want protocol.ErrorCode) {
				var m struct {
					Error             protocol.ErrorCode
					DirectoryResponse json.RawMessage
				}
				if err := json.Unmarshal([]byte(out), &m); err != nil || m.Error != want || m.DirectoryResponse != nil {
					c.Fatalf("the answer is %q, should be error %d", out, want)
				}
			}
			switch {
			case no || len(got) == 0 && up:
				code(protocol.ErrMalformedMessage)
				refused++
			case len(got) == 1:
				if out != string(answer) {
					c.Fatalf("the server's answer %q is returned as %q", short(answer), short([]byte(out)))
				}
				forwarded++
			case yes && !up:
				code(protocol.ErrDirectory)
				c.Class("unreachable server")
			}
			c.Class(map[bool]string{true: "forwarded", false: "not forwarded"}[len(got) == 1])
		}
		if forwarded > 0 && refused > 0 {
			c.NT()
		}
	})
}

// TestC29_Messenger: the same for direct messages, whose sender the provider
// authenticates; answers go to the sender.
func TestC29_Messenger(t *testing.T) {
	vh.Check(t, vh.N{Quick: 16, Thorough: 80, Hang: 5 * time.Minute}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		k := newKeyServer(dir)
		defer k.down()
		k.answer = func() []byte { return []byte(`{"Error":100}`) }
		r, w := io.Pipe()
		p := &provider{handle: handle(rt, "bot"), stream: body{r, func() error { return w.Close() }}, got: make(chan bool, 100)}
		bot := newBot(c, k, p)
		bot.Run()
		defer bot.Stop()
		defer w.Close()
		type dm struct {
			sender, text string
			want         string // answer
			fwd          []byte
		}
		var dms []dm
		replies := 0
		for i := rapid.IntRange(2, 6).Draw(rt, "messages"); i > 0; i-- {
			m := dm{sender: handle(rt, "sender")}
			if rapid.IntRange(0, 5).Draw(rt, "self") == 0 {
				m.sender = p.handle
			}
			name := strings.ToLower(m.sender) + "@twitter"
			if rapid.Bool().Draw(rt, "other") {
				name = handle(rt, "name") + "@twitter"
			}
			msg := (&request{typ: protocol.RegistrationType, name: name, key: []byte{1}}).json()
			m.text = "?CONIKS?" + string(msg)
			kind := rapid.IntRange(0, 5).Draw(rt, "kind")
			switch {
			case kind == 0:
				m.text = string(msg)
			case kind == 1:
				m.text = "hello ?CONIKS?" + string(msg)
			case lower(m.sender) == lower(p.handle):
			case replies == 2: // every reply takes five seconds
				continue
			default:
				replies++
				m.want = `?CONIKS?{"Error":106}`
				if yes, _ := own(m.sender, msg); yes {
					m.want, m.fwd = `?CONIKS?{"Error":100}`, msg
				}
			}
			dms = append(dms, m)
		}
		for i, m := range dms {
			b, _ := json.Marshal(map[string]interface{}{"direct_message": map[string]interface{}{"id": i + 1, "text": m.text, "sender_screen_name": m.sender,
				"recipient_screen_name": p.handle, "sender": map[string]string{"screen_name": m.sender}}})
			c.Tracef("%q: %q", m.sender, m.text)
			if _, err := w.Write(append(b, "\r\n"...)); err != nil {
				c.Fatalf("the bot stopped reading its messages: %v", err)
			}
		}
		for i := 0; i < replies; i++ {
			select {
			case <-p.got:
			case <-time.After(2 * time.Minute):
				c.Fatalf("no reply number %d of %d", i+1, replies)
			}
		}
		// the bot handles messages in order; one more shows it is through
		b, _ := json.Marshal(map[string]interface{}{"direct_message": map[string]interface{}{"id": 99, "text": "?CONIKS?", "sender_screen_name": p.handle + "x"}})
		if _, err := w.Write(append(b, "\r\n"...)); err != nil {
			c.Fatalf("the bot stopped reading its messages: %v", err)
		}
		select {
		case <-p.got:
		case <-time.After(2 * time.Minute):
			c.Fatalf("no reply to the last message")
		}
		p.mu.Lock()
		sent := p.sent[:len(p.sent)-1]
		p.mu.Unlock()
		got := k.take()
		n := 0
		for _, m := range dms {
			if m.want == "" {
				continue
			}
			if n >= len(sent) || sent[n].Get("screen_name") != m.sender || sent[n].Get("text") != m.want {
				c.Fatalf("%q should be sent %q; sent are %v", m.sender, m.want, sent)
			}
			n++
			if m.fwd != nil {
				if len(got) == 0 || !bytes.Equal(got[0], m.fwd) {
					c.Fatalf("%q should be forwarded; are %q", m.fwd, got)
				}
				got = got[1:]
			}
		}
		if n != len(sent) || len(got) > 0 {
			c.Fatalf("further replies %v, further requests %q", sent[n:], got)
		}
		if replies > 0 {
			c.NT()
		}
	})
}
