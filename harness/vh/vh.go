//go:build go1.23

// Package vh is the small runtime every generated check in /verif shares: it
// runs a rapid property in one shard of a seeded campaign, makes the system's
// randomness a function of the drawn values, counts what was generated, and
// separates failures of the property from failures of the environment.
package vh

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// N is the number of cases of a test over all shards.
type N struct {
	Quick    int
	Thorough int           // default: 25 times Quick
	Hang     time.Duration // wall-clock limit of a single case; default 90s
}

func envInt(name string, def int64) int64 {
	v, err := strconv.ParseInt(os.Getenv(name), 10, 64)
	if err != nil {
		return def
	}
	return v
}

// Tier returns "quick" or "thorough".
func Tier() string {
	if os.Getenv("VH_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Shard returns this process's shard and the number of shards.
func Shard() (int, int) {
	n := int(envInt("VH_SHARDS", 1))
	if n < 1 {
		n = 1
	}
	return int(envInt("VH_SHARD", 0)), n
}

// Seed derives a non-zero seed for (VERIF_SEED, name, shard).
func Seed(name string) uint64 {
	s, _ := Shard()
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", envInt("VH_SEED", 1), name, s)))
	v := binary.LittleEndian.Uint64(h[:8]) >> 1
	if v == 0 {
		v = 1
	}
	return v
}

// Scratch is a directory that belongs to this process; the runner removes it.
func Scratch() string {
	if d := os.Getenv("VH_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

var dirN struct {
	sync.Mutex
	n int
}

// Dir makes a fresh directory below Scratch; the caller removes it.
func Dir() string {
	dirN.Lock()
	dirN.n++
	d := filepath.Join(Scratch(), fmt.Sprintf("d%d", dirN.n))
	dirN.Unlock()
	if err := os.MkdirAll(d, 0700); err != nil {
		Infra("mkdir: %v", err)
	}
	return d
}

// Infra ends the process with the exit code for "the check could not run".
func Infra(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "VH-INFRA: "+format+"\n", args...)
	os.Exit(3)
}

var knownOnce sync.Map

// Known reports whether known_findings.txt lists a finding of the property with
// that tag, and if so says that it has been met.
func Known(pid, tag string) bool {
	for _, l := range strings.Split(os.Getenv("VH_KNOWN"), "\n") {
		if strings.HasPrefix(l, "property="+pid+" ["+tag+"] ") {
			if _, said := knownOnce.LoadOrStore(l, true); !said {
				fmt.Printf("\nKNOWN-FINDING: %s\n", l)
			}
			return true
		}
	}
	return false
}

// DRBG is a deterministic random stream, safe for concurrent use.
type DRBG struct {
	mu  sync.Mutex
	key [32]byte
	ctr uint64
	buf []byte
}

// NewDRBG returns the stream for seed.
func NewDRBG(seed uint64) *DRBG {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	return &DRBG{key: sha256.Sum256(b[:])}
}

func (d *DRBG) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range p {
		if len(d.buf) == 0 {
			var b [40]byte
			copy(b[:], d.key[:])
			binary.LittleEndian.PutUint64(b[32:], d.ctr)
			d.ctr++
			h := sha256.Sum256(b[:])
			d.buf = h[:]
		}
		p[i] = d.buf[0]
		d.buf = d.buf[1:]
	}
	return len(p), nil
}

// Bytes returns n bytes of the stream.
func (d *DRBG) Bytes(n int) []byte {
	b := make([]byte, n)
	d.Read(b)
	return b
}

// Case is one generated case.
type Case struct {
	T     *rapid.T
	Rand  *DRBG // also installed as crypto/rand.Reader for the case
	nt    bool
	trace []string
	cls   map[string]int
	mu    sync.Mutex
}

// NT marks the case as non-trivial by the check's rule.
func (c *Case) NT() { c.mu.Lock(); c.nt = true; c.mu.Unlock() }

// Class counts the case under a label.
func (c *Case) Class(name string) { c.mu.Lock(); c.cls[name]++; c.mu.Unlock() }

// ClassN adds n to a label.
func (c *Case) ClassN(name string, n int) { c.mu.Lock(); c.cls[name] += n; c.mu.Unlock() }

// Tracef appends a line to the case's description: what makes two cases
// distinct, and what is shown as a sample.
func (c *Case) Tracef(format string, args ...interface{}) {
	c.mu.Lock()
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

// Trace returns the description so far.
func (c *Case) Trace() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return strings.Join(c.trace, "\n")
}

// Fatalf fails the case, showing its trace.
func (c *Case) Fatalf(format string, args ...interface{}) {
	c.T.Helper()
	c.T.Fatalf("%s\n--- case ---\n%s", fmt.Sprintf(format, args...), c.Trace())
}

type stats struct {
	Test         string         `json:"test"`
	Evaluations  int            `json:"evaluations"`
	Classes      map[string]int `json:"classes"`
	Nontrivial   int            `json:"nontrivial"`
	Fingerprints []uint64       `json:"fingerprints"`
	Samples      []string       `json:"samples"`
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("… (%d bytes)", len(s))
	}
	return s
}

var realReader = rand.Reader

// RealRand is the system's randomness source, as it was at start-up.
func RealRand() io.Reader { return realReader }

// Check runs f on generated cases: this shard's share of n.
func Check(t *testing.T, n N, f func(rt *rapid.T, c *Case)) {
	shard, shards := Shard()
	total := n.Quick
	if Tier() == "thorough" {
		total = n.Thorough
		if total == 0 {
			total = 25 * n.Quick
		}
	}
	// a documented manual override for long private campaigns
	if m := envInt("VH_MULT", 1); m > 1 {
		total *= int(m)
	}
	if d := envInt("VH_DIV", 1); d > 1 { // mutation campaigns: fewer cases
		total = (total + int(d) - 1) / int(d)
	}
	mine := total / shards
	if shard < total%shards {
		mine++
	}
	replay := flag.Lookup("rapid.failfile").Value.String() != ""
	if mine == 0 && !replay {
		return
	}
	flag.Set("rapid.checks", strconv.Itoa(max(mine, 1)))
	flag.Set("rapid.seed", strconv.FormatUint(Seed(t.Name()), 10))
	flag.Set("rapid.shrinktime", "20s")

	st := &stats{Test: t.Name(), Classes: map[string]int{}}
	fps := map[uint64]bool{}
	failed := false
	limit := n.Hang
	if limit == 0 {
		limit = 90 * time.Second
	}
	wd := time.AfterFunc(time.Hour*24, func() {
		buf := make([]byte, 1<<22)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "VH-HANG: a case of %s took more than %v\n%s\n", t.Name(), limit, buf)
		os.Exit(4)
	})
	defer wd.Stop()
	defer func() { rand.Reader = realReader }()
	rapid.Check(t, func(rt *rapid.T) {
		if !failed {
			wd.Reset(limit)
		} else {
			wd.Reset(10 * limit)
		}
		c := &Case{T: rt, cls: map[string]int{}}
		c.Rand = NewDRBG(rapid.Uint64().Draw(rt, "randomness"))
		rand.Reader = c.Rand
		ok := false
		defer func() {
			rand.Reader = realReader
			wd.Reset(time.Hour * 24)
			if !ok {
				failed = failed || rt.Failed()
				if replay {
					fmt.Fprintf(os.Stderr, "--- case ---\n%s\n", c.Trace())
				}
			}
		}()
		f(rt, c)
		ok = true
		if failed {
			return
		}
		st.Evaluations++
		for k, v := range c.cls {
			st.Classes[k] += v
		}
		if c.nt {
			st.Nontrivial++
			h := fnv.New64a()
			io.WriteString(h, t.Name())
			for _, l := range c.trace {
				io.WriteString(h, l)
				h.Write([]byte{0})
			}
			fps[h.Sum64()] = true
			if len(st.Samples) < 2 {
				st.Samples = append(st.Samples, cut(c.Trace(), 1500))
			}
		}
	})
	writeStats(st, fps)
}

func writeStats(st *stats, fps map[uint64]bool) {
	dir := os.Getenv("VH_STATS")
	if dir == "" {
		return
	}
	for k := range fps {
		st.Fingerprints = append(st.Fingerprints, k)
	}
	sort.Slice(st.Fingerprints, func(i, j int) bool { return st.Fingerprints[i] < st.Fingerprints[j] })
	b, err := json.Marshal(st)
	if err != nil {
		Infra("stats: %v", err)
	}
	shard, _ := Shard()
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("%s.%d.json", strings.ReplaceAll(st.Test, "/", "_"), shard)), b, 0600); err != nil {
		Infra("stats: %v", err)
	}
}

// Hex abbreviates bytes for traces.
func Hex(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x…%d", b[:20], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Uint64 returns the next 8 bytes of the stream.
func (d *DRBG) Uint64() uint64 { return binary.LittleEndian.Uint64(d.Bytes(8)) }
