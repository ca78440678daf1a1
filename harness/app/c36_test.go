//go:build go1.23

package app_test

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/coniks-sys/coniks-go/application"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// entry is a message logged, or one read.
type entry struct {
	Level string
	Msg   string
	KV    map[string]interface{}
	Stack bool `json:"-"`
}

var stamp = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d[.,]\d+[-+Z0-9:]*$`)

// readLog reads a log in which messages have no tabs and line ends.
func readLog(c *vh.Case, text string) (out []entry) {
	c.T.Helper()
	if text != "" && !strings.HasSuffix(text, "\n") {
		c.Fatalf("the log does not end with a line end: %q", text)
	}
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		f := strings.Split(line, "\t")
		if len(f) < 3 || !stamp.MatchString(f[0]) {
			if len(out) == 0 {
				if line == "" {
					continue
				}
				c.Fatalf("the log has a line %q", line)
			}
			out[len(out)-1].Stack = true
			continue
		}
		e := entry{Level: f[1]}
		last := f[len(f)-1]
		if strings.HasPrefix(last, "{") && len(f) > 3 && json.Unmarshal([]byte(last), &e.KV) == nil {
			f = f[:len(f)-1]
		}
		e.Msg = f[len(f)-1]
		out = append(out, e)
	}
	return out
}

// words draws a message without tabs and line ends.
func words(rt *rapid.T, label string) string {
	return rapid.OneOf(rapid.SampledFrom([]string{"a message", "%s %d %", "{\"a\": 1", "", "é\u2028", "-"}),
		rapid.StringMatching(`[ -z]{1,60}`),
		rapid.Custom(func(rt *rapid.T) string { // a long one
			return strings.Repeat("long ", vh.LogInt(rt, "length", 20, 20000)) + "."
		})).Draw(rt, label)
}

func drawEntry(rt *rapid.T, levels []string) (e entry, kvs []interface{}) {
	e = entry{Level: rapid.SampledFrom(levels).Draw(rt, "level"), Msg: words(rt, "msg")}
	n := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 3), rapid.IntRange(4, 60)).Draw(rt, "context")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"address", "error", "request type", "é"}).Draw(rt, "key") + fmt.Sprint(i)
		var v, want interface{}
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0:
			s := strings.ToValidUTF8(rapid.String().Draw(rt, "text"), "?")
			v, want = s, s
		case 1:
			x := rapid.IntRange(-1<<50, 1<<50).Draw(rt, "int")
			v, want = x, float64(x)
		case 2:
			b := rapid.Bool().Draw(rt, "bool")
			v, want = b, b
		case 3:
			v, want = errors.New("some error"), "some error"
		}
		if e.KV == nil {
			e.KV = map[string]interface{}{}
		}
		e.KV[k] = want
		kvs = append(kvs, k, v)
	}
	return e, kvs
}

func logTo(l *application.Logger, e entry, kvs []interface{}) (panicked interface{}) {
	defer func() { panicked = recover() }()
	switch e.Level {
	case "DEBUG":
		l.Debug(e.Msg, kvs...)
	case "INFO":
		l.Info(e.Msg, kvs...)
	case "WARN":
		l.Warn(e.Msg, kvs...)
	case "ERROR":
		l.Error(e.Msg, kvs...)
	case "PANIC":
		l.Panic(e.Msg, kvs...)
	}
	return nil
}

func sameEntries(c *vh.Case, what string, got, want []entry, stack bool) {
	c.T.Helper()
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			c.Fatalf("%s has %d entries, %d were logged; the first missing one is %+v", what, len(got), len(want), want[i])
		}
		if i >= len(want) {
			c.Fatalf("%s has %d entries, %d were logged; the first surplus one is %+v", what, len(got), len(want), got[i])
		}
		g, w := got[i], want[i]
		if g.Level != w.Level || g.Msg != w.Msg || len(g.KV)+len(w.KV) > 0 && !reflect.DeepEqual(g.KV, w.KV) {
			c.Fatalf("entry %d of %s is %+v, logged was %+v", i, what, g, w)
		}
		if g.Stack && !stack {
			c.Fatalf("entry %d of %s, %+v, has a stack trace, which is not enabled", i, what, g)
		}
	}
}

// TestC36_Entries: what is logged is in the file and on standard error, once,
// in order, with its level and context, and debug messages only in development.
func TestC36_Entries(t *testing.T) {
	vh.Check(t, vh.N{Quick: 8000}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "the log")
		old := ""
		if rapid.Bool().Draw(rt, "exists") {
			old = "2026-01-01T00:00:00.000Z\tINFO\tx.go:1\tan old entry\n"
			os.WriteFile(file, []byte(old), 0600)
		}
		var want []entry
		if old != "" {
			want = append(want, entry{Level: "INFO", Msg: "an old entry"})
		}
		stacks, logged, hidden := false, 0, 0
		for r := rapid.IntRange(1, 3).Draw(rt, "runs"); r > 0; r-- {
			errs, err := os.Create(filepath.Join(dir, "stderr"))
			if err != nil {
				vh.Infra("%v", err)
			}
			env := rapid.SampledFrom([]string{"development", "production", "Production", "DEVELOPMENT"}).Draw(rt, "env")
			stack := rapid.IntRange(0, 3).Draw(rt, "stack") == 0
			stacks = stacks || stack
			was := os.Stderr
			os.Stderr = errs
			l := application.NewLogger(&application.LoggerConfig{Environment: env, Path: file, EnableStacktrace: stack})
			os.Stderr = was
			c.Tracef("%s, stack traces %v", env, stack)
			dev := strings.EqualFold(env, "development")
			var here []entry
			for i := rapid.IntRange(0, 12).Draw(rt, "messages"); i > 0; i-- {
				e, kvs := drawEntry(rt, []string{"DEBUG", "INFO", "WARN", "ERROR", "PANIC"})
				c.Tracef("%+v", e)
				p := logTo(l, e, kvs)
				if (p != nil) != (e.Level == "PANIC") {
					c.Fatalf("logging %+v panicked: %v", e, p)
				}
				logged++
				if e.Level == "DEBUG" && !dev {
					hidden++
					continue
				}
				here = append(here, e)
			}
			want = append(want, here...)
			b, err := os.ReadFile(filepath.Join(dir, "stderr"))
			if err != nil {
				vh.Infra("%v", err)
			}
			got := readLog(c, string(b))
			sameEntries(c, "standard error", got, here, stack)
			for _, e := range got {
				if stack && !e.Stack && (e.Level == "ERROR" || e.Level == "PANIC") {
					c.Fatalf("%+v has no stack trace, although those are enabled", e)
				}
			}
			errs.Close()
		}
		b, err := os.ReadFile(file)
		if err != nil {
			c.Fatalf("the log file: %v", err)
		}
		sameEntries(c, "the log file", readLog(c, string(b)), want, stacks)
		if logged > hidden {
			c.NT()
		}
	})
}

// TestC36_Concurrent: entries of concurrent users do not mix, nor get lost.
func TestC36_Concurrent(t *testing.T) {
	vh.Check(t, vh.N{Quick: 400}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "log")
		var l *application.Logger
		quiet(func() {
			l = application.NewLogger(&application.LoggerConfig{Environment: "development", Path: file})
		})
		users := rapid.IntRange(2, 6).Draw(rt, "users")
		want := make([][]entry, users)
		kvs := make([][][]interface{}, users)
		for u := range want {
			for i := rapid.IntRange(1, 40).Draw(rt, "messages"); i > 0; i-- {
				e, kv := drawEntry(rt, []string{"DEBUG", "INFO", "WARN", "ERROR"})
				if e.KV == nil {
					e.KV = map[string]interface{}{}
				}
				e.KV["user"] = float64(u)
				want[u], kvs[u] = append(want[u], e), append(kvs[u], append(kv, "user", u))
			}
		}
		var wg sync.WaitGroup
		for u := range want {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, e := range want[u] {
					logTo(l, e, kvs[u][i])
				}
			}()
		}
		wg.Wait()
		b, err := os.ReadFile(file)
		if err != nil {
			c.Fatalf("the log file: %v", err)
		}
		got := make([][]entry, users)
		for _, e := range readLog(c, string(b)) {
			u, ok := e.KV["user"].(float64)
			if !ok || int(u) >= users || u < 0 {
				c.Fatalf("the log has %+v", e)
			}
			got[int(u)] = append(got[int(u)], e)
		}
		for u := range want {
			sameEntries(c, fmt.Sprintf("what user %d logged", u), got[u], want[u], false)
		}
		c.Tracef("%d users", users)
		c.NT()
	})
}

// TestFatalChild is run by TestC36_Fatal in a process of its own.
func TestFatalChild(t *testing.T) {
	spec := os.Getenv("VH_FATAL")
	if spec == "" {
		return
	}
	var e struct {
		File, Env, Msg string
		Keys           []string
	}
	if err := json.Unmarshal([]byte(spec), &e); err != nil {
		os.Exit(77)
	}
	l := application.NewLogger(&application.LoggerConfig{Environment: e.Env, Path: e.File})
	var kvs []interface{}
	for _, k := range e.Keys {
		kvs = append(kvs, k, "value of "+k)
	}
	l.Info("before")
	l.Fatal(e.Msg, kvs...)
	l.Info("after")
	os.Exit(0)
}

// TestC36_Fatal: a fatal message is in the log when the program has ended, as
// failed.
func TestC36_Fatal(t *testing.T) {
	vh.Check(t, vh.N{Quick: 80, Thorough: 800}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "log")
		msg := words(rt, "msg")
		keys := []string{"a", "b"}[:rapid.IntRange(0, 2).Draw(rt, "keys")]
		spec, _ := json.Marshal(map[string]interface{}{"File": file, "Env": rapid.SampledFrom([]string{"development", "production"}).Draw(rt, "env"), "Msg": msg, "Keys": keys})
		cmd := exec.Command(os.Args[0], "-test.run", "^TestFatalChild$")
		cmd.Env = append(os.Environ(), "VH_FATAL="+string(spec))
		cmd.Dir = dir
		t0 := time.Now()
		err := cmd.Run()
		var x *exec.ExitError
		if err == nil || !errors.As(err, &x) || x.ExitCode() <= 0 {
			c.Fatalf("after a fatal message the program ended with %v (%v)", err, time.Since(t0))
		}
		if x.ExitCode() == 77 {
			vh.Infra("the child did not start")
		}
		b, err := os.ReadFile(file)
		if err != nil {
			c.Fatalf("the log file: %v", err)
		}
		want := []entry{{Level: "INFO", Msg: "before"}, {Level: "FATAL", Msg: msg}}
		for _, k := range keys {
			if want[1].KV == nil {
				want[1].KV = map[string]interface{}{}
			}
			want[1].KV[k] = "value of " + k
		}
		sameEntries(c, "the log file", readLog(c, string(b)), want, false)
		c.Tracef("%q %v", msg, keys)
		c.NT()
	})
}

// TestC36_Burst: many equal messages at once are all there.
func TestC36_Burst(t *testing.T) {
	vh.Check(t, vh.N{Quick: 64}, func(rt *rapid.T, c *vh.Case) {
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "log")
		var l *application.Logger
		env := rapid.SampledFrom([]string{"development", "production"}).Draw(rt, "env")
		quiet(func() { l = application.NewLogger(&application.LoggerConfig{Environment: env, Path: file}) })
		var want []entry
		for r := rapid.IntRange(1, 3).Draw(rt, "bursts"); r > 0; r-- {
			e, kvs := drawEntry(rt, []string{"INFO", "WARN", "ERROR"})
			for i := vh.LogInt(rt, "times", 1, 5000); i > 0; i-- {
				logTo(l, e, kvs)
				want = append(want, e)
			}
		}
		b, err := os.ReadFile(file)
		if err != nil {
			c.Fatalf("the log file: %v", err)
		}
		sameEntries(c, "the log file", readLog(c, string(b)), want, false)
		c.Tracef("%d entries", len(want))
		c.NT()
	})
}
