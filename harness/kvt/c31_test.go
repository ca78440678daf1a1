//go:build go1.23

package kvt

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"

	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/storage/kv/leveldbkv"
	"github.com/coniks-sys/coniks-go/utils"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// drawKey draws keys that are often prefixes and neighbours of each other.
func drawKey(rt *rapid.T, label string) []byte {
	n := rapid.IntRange(0, 4).Draw(rt, label+" len")
	k := make([]byte, n)
	for i := range k {
		k[i] = rapid.SampledFrom([]byte{0, 1, 'a', 'b', 0x7f, 0x80, 0xfe, 0xff, 0xff}).Draw(rt, label)
	}
	if rapid.IntRange(0, 9).Draw(rt, label+" long") == 0 {
		k = append(k, bytes.Repeat([]byte{0xff}, rapid.IntRange(1, 300).Draw(rt, label+" n"))...)
	}
	return k
}

func show(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 12 {
		return fmt.Sprintf("%x…(%d)", b[:6], len(b))
	}
	return fmt.Sprintf("%q", b)
}

type pair struct{ k, v []byte }

// ordered lists the entries of m from start to before limit.
func ordered(m map[string][]byte, rg *kv.Range) (ps []pair) {
	for k, v := range m {
		if rg != nil && (bytes.Compare([]byte(k), rg.Start) < 0 || rg.Limit != nil && bytes.Compare([]byte(k), rg.Limit) >= 0) {
			continue
		}
		ps = append(ps, pair{[]byte(k), v})
	}
	sort.Slice(ps, func(i, j int) bool { return bytes.Compare(ps[i].k, ps[j].k) < 0 })
	return
}

func clone(m map[string][]byte) map[string][]byte {
	n := map[string][]byte{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// cursor is an iterator and where it should be: -1 before the first entry,
// len(ps) after the last.
type cursor struct {
	it       kv.Iterator
	ps       []pair
	at       int
	released bool
	name     string
}

func (cu *cursor) check(c *vh.Case, op string, got bool) {
	want := cu.at >= 0 && cu.at < len(cu.ps)
	if got != want {
		c.Fatalf("%s %s returned %v at entry %d of %d", cu.name, op, got, cu.at, len(cu.ps))
	}
	if err := cu.it.Error(); err != nil {
		c.Fatalf("%s: error %v", cu.name, err)
	}
	if want {
		if p := cu.ps[cu.at]; !bytes.Equal(cu.it.Key(), p.k) || !bytes.Equal(cu.it.Value(), p.v) {
			c.Fatalf("%s %s is at %s = %s, should be at %s = %s", cu.name, op, show(cu.it.Key()), show(cu.it.Value()), show(p.k), show(p.v))
		}
	}
}

// entry is what a batch holds.
type entry struct {
	del  bool
	k, v []byte
}

// small indices are drawn more often
var ops = []int{0, 7, 10, 4, 12, 13, 8, 11, 1, 3, 14, 9, 6, 15, 5, 2}

func TestC31_Map(t *testing.T) {
	vh.Check(t, vh.N{Quick: 8000}, func(rt *rapid.T, c *vh.Case) {
		var disk *fs
		var dir string
		h := drawHow(rt)
		if rapid.IntRange(0, 9).Draw(rt, "onDisk") == 0 {
			dir = vh.Dir()
			defer os.RemoveAll(dir)
			h = how{plain: true}
			c.Class("on disk")
		} else {
			disk = newFS()
		}
		c.Tracef("%v, on disk: %v", h, dir != "")
		var db kv.DB
		open := func() {
			var err error
			if disk != nil {
				if db, err = openOn(disk, h); err != nil {
					c.Fatalf("open: %v", err)
				}
				return
			}
			defer func() {
				if p := recover(); p != nil {
					c.Fatalf("OpenDB: %v", p)
				}
			}()
			db = leveldbkv.OpenDB(filepath.Join(dir, "db"))
		}
		open()
		closed := false
		defer func() {
			if !closed {
				db.Close()
			}
		}()
		m := map[string][]byte{}
		pool := [][]byte{}
		for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "keys"); i < n; i++ {
			pool = append(pool, drawKey(rt, "key"))
		}
		key := func() []byte {
			k := rapid.SampledFrom(pool).Draw(rt, "k")
			if k == nil || rapid.IntRange(0, 30).Draw(rt, "nilKey") == 0 && len(k) == 0 {
				return nil
			}
			return append([]byte{}, k...)
		}
		val := func() []byte {
			n := rapid.IntRange(0, 20).Draw(rt, "vlen")
			if rapid.IntRange(0, 5).Draw(rt, "big") == 0 {
				n = rapid.IntRange(200, 5000).Draw(rt, "vlen2")
			}
			if n == 0 && rapid.Bool().Draw(rt, "nilVal") {
				return nil
			}
			return vh.NewDRBG(rapid.Uint64().Draw(rt, "v")).Bytes(n)
		}
		type bt struct {
			b  kv.Batch
			es []entry
		}
		batches := []*bt{}
		var curs []*cursor
		spoil := func(bs ...[]byte) { // what the caller passed in is the caller's
			for _, b := range bs {
				for i := range b {
					b[i] ^= 0x55
				}
			}
		}
		writes, reads := 0, 0
		get := func(k []byte) {
			v, err := db.Get(k)
			want, ok := m[string(k)]
			switch {
			case !ok && err != db.ErrNotFound():
				c.Fatalf("Get(%s) = %s, %v; it has no value", show(k), show(v), err)
			case !ok && len(v) != 0:
				c.Fatalf("Get(%s) = %s with its not-found error", show(k), show(v))
			case ok && err != nil:
				c.Fatalf("Get(%s): %v, should be %s", show(k), err, show(want))
			case ok && !bytes.Equal(v, want):
				c.Fatalf("Get(%s) = %s, should be %s", show(k), show(v), show(want))
			}
			spoil(v)
		}
		for step, n := 0, rapid.SampledFrom([]int{40, 20, 10, 5, 2}).Draw(rt, "steps"); step < n; step++ {
			switch ops[rapid.IntRange(0, len(ops)-1).Draw(rt, "op")] {
			case 0, 1, 2:
				k, v := key(), val()
				c.Tracef("put %s %s", show(k), show(v))
				ck, cv := append([]byte{}, k...), append([]byte{}, v...)
				if err := db.Put(k, v); err != nil {
					c.Fatalf("Put(%s): %v", show(k), err)
				}
				if !bytes.Equal(k, ck) || !bytes.Equal(v, cv) {
					c.Fatalf("Put modified its arguments")
				}
				m[string(k)] = cv
				spoil(k, v)
				writes++
			case 3:
				k := key()
				c.Tracef("delete %s", show(k))
				if err := db.Delete(k); err != nil {
					c.Fatalf("Delete(%s): %v (present: %v)", show(k), err, m[string(k)] != nil)
				}
				delete(m, string(k))
				spoil(k)
				writes++
			case 4, 5:
				k := key()
				if rapid.Bool().Draw(rt, "other") {
					k = drawKey(rt, "k2")
				}
				get(k)
				reads++
			case 6:
				b := &bt{b: db.NewBatch()}
				batches = append(batches, b)
			case 7, 8, 9:
				if len(batches) == 0 {
					batches = append(batches, &bt{b: db.NewBatch()})
				}
				b := batches[rapid.IntRange(0, len(batches)-1).Draw(rt, "batch")]
				for i := rapid.IntRange(1, 5).Draw(rt, "entries"); i > 0; i-- {
					k := key()
					if rapid.IntRange(0, 3).Draw(rt, "del") == 0 {
						b.b.Delete(k)
						b.es = append(b.es, entry{true, append([]byte{}, k...), nil})
						spoil(k)
					} else {
						v := val()
						b.b.Put(k, v)
						b.es = append(b.es, entry{false, append([]byte{}, k...), append([]byte{}, v...)})
						spoil(k, v)
					}
				}
			case 10, 11:
				if len(batches) == 0 {
					continue
				}
				i := rapid.IntRange(0, len(batches)-1).Draw(rt, "batch")
				b := batches[i]
				if rapid.IntRange(0, 3).Draw(rt, "reset") == 0 {
					c.Tracef("reset batch %d", i)
					b.b.Reset()
					b.es = nil
					continue
				}
				s := ""
				for _, e := range b.es {
					s += fmt.Sprintf(" %s=%s(%v)", show(e.k), show(e.v), e.del)
				}
				c.Tracef("write batch %d:%s", i, s)
				if err := db.Write(b.b); err != nil {
					c.Fatalf("Write: %v", err)
				}
				for _, e := range b.es {
					if e.del {
						delete(m, string(e.k))
					} else {
						m[string(e.k)] = e.v
					}
				}
				if len(b.es) > 1 {
					c.Class("batch written")
				}
				writes++
			case 12:
				var rg *kv.Range
				switch rapid.IntRange(0, 4).Draw(rt, "range") {
				case 0:
				case 1, 2:
					p := drawKey(rt, "prefix")
					if rapid.Bool().Draw(rt, "of key") {
						k := key()
						p = k[:rapid.IntRange(0, len(k)).Draw(rt, "plen")]
					}
					rg = kv.BytesPrefix(p)
				case 3:
					rg = &kv.Range{Start: drawKey(rt, "start")}
				case 4:
					rg = &kv.Range{Start: drawKey(rt, "start"), Limit: drawKey(rt, "limit")}
					if len(rg.Limit) == 0 {
						rg.Limit = nil // goleveldb does not tell an empty limit from none
					} else if bytes.Compare(rg.Start, rg.Limit) > 0 {
						rg.Start, rg.Limit = rg.Limit, rg.Start // nor does it take backward ranges
					}
				}
				cu := &cursor{ps: ordered(m, rg), at: -1}
				if rg == nil {
					cu.name = fmt.Sprintf("iterator %d", len(curs))
				} else {
					cu.name = fmt.Sprintf("iterator %d [%s,%s)", len(curs), show(rg.Start), show(rg.Limit))
				}
				c.Tracef("%s: %d entries", cu.name, len(cu.ps))
				cu.it = db.NewIterator(rg)
				curs = append(curs, cu)
				reads++
			case 13, 14:
				if len(curs) == 0 {
					continue
				}
				cu := curs[rapid.IntRange(0, len(curs)-1).Draw(rt, "iterator")]
				if cu.released {
					continue
				}
				switch rapid.IntRange(0, 9).Draw(rt, "move") {
				case 0:
					got := cu.it.First()
					cu.at = 0
					cu.check(c, "First", got)
				case 1:
					got := cu.it.Last()
					if cu.at = len(cu.ps) - 1; cu.at < 0 {
						cu.at = 0
					}
					cu.check(c, "Last", got)
				case 2:
					cu.it.Release()
					cu.released = true
					if err := cu.it.Error(); err != nil {
						c.Fatalf("%s: error after release: %v", cu.name, err)
					}
				case 3: // to the end
					for i := 0; i <= len(cu.ps)+1; i++ {
						got := cu.it.Next()
						cu.at = min(cu.at+1, len(cu.ps))
						cu.check(c, "Next", got)
					}
				default:
					got := cu.it.Next()
					cu.at = min(cu.at+1, len(cu.ps))
					cu.check(c, "Next", got)
				}
				c.Class("iterator moved")
			case 15:
				if rapid.IntRange(0, 2).Draw(rt, "close") != 0 {
					continue
				}
				c.Tracef("close and reopen")
				for _, cu := range curs {
					if !cu.released {
						cu.it.Release()
					}
				}
				curs = nil
				if err := db.Close(); err != nil {
					c.Fatalf("Close: %v", err)
				}
				if _, err := db.Get([]byte("x")); err == nil || err == db.ErrNotFound() {
					c.Fatalf("Get on a closed store returns %v", err)
				}
				if err := db.Put([]byte("x"), []byte("y")); err == nil {
					c.Fatalf("Put on a closed store succeeds")
				}
				open()
				c.Class("reopened")
			}
		}
		for i := range pool {
			get(pool[i])
		}
		it := db.NewIterator(nil)
		for i, p := range ordered(m, nil) {
			if !it.Next() || !bytes.Equal(it.Key(), p.k) || !bytes.Equal(it.Value(), p.v) {
				c.Fatalf("entry %d of the store is %s, should be %s = %s", i, show(it.Key()), show(p.k), show(p.v))
			}
		}
		if it.Next() {
			c.Fatalf("the store has %s, which was deleted or never written", show(it.Key()))
		}
		it.Release()
		for _, cu := range curs {
			if cu.released {
				continue
			}
			for cu.at < len(cu.ps) {
				got := cu.it.Next()
				cu.at++
				cu.check(c, "Next", got)
			}
			cu.it.Release()
		}
		if disk != nil && disk.tables > 0 {
			c.Class("tables written")
		}
		closed = true
		if err := db.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		if writes > 1 {
			c.NT()
		}
	})
}

type otherBatch struct{}

func (otherBatch) Reset()            {}
func (otherBatch) Put(k, v []byte)   {}
func (otherBatch) Delete(key []byte) {}

func TestC31_Prefix(t *testing.T) {
	vh.Check(t, vh.N{Quick: 24000}, func(rt *rapid.T, c *vh.Case) {
		p, changed := vh.Guarded(drawKey(rt, "prefix"))
		c.Tracef("prefix %x", p)
		if len(p) > 0 {
			c.NT()
		}
		rg := kv.BytesPrefix(p)
		inc := kv.IncrementKey(p)
		if changed() {
			c.Fatalf("the prefix was modified")
		}
		if !bytes.Equal(rg.Limit, inc) || (rg.Limit == nil) != (inc == nil) {
			c.Fatalf("BytesPrefix's limit is %x, IncrementKey is %x", rg.Limit, inc)
		}
		for i := 0; i < 6; i++ {
			k := drawKey(rt, "key")
			switch rapid.IntRange(0, 4).Draw(rt, "shape") {
			case 0:
				k = append(append([]byte{}, p...), k...)
			case 1:
				if len(p) > 0 {
					q := append([]byte{}, p...)
					q[rapid.IntRange(0, len(q)-1).Draw(rt, "at")] += byte(rapid.SampledFrom([]int{1, 255, 2}).Draw(rt, "by"))
					k = append(q, k...)
				}
			case 2:
				k = p[:rapid.IntRange(0, len(p)).Draw(rt, "cut")]
			case 3:
				if inc != nil {
					k = append(append([]byte{}, inc...), k[:min(len(k), 1)]...)
				}
			}
			in := bytes.Compare(k, rg.Start) >= 0 && (rg.Limit == nil || bytes.Compare(k, rg.Limit) < 0)
			if in != bytes.HasPrefix(k, p) {
				c.Fatalf("key %x is in the range [%x, %x): %v; has the prefix: %v", k, rg.Start, rg.Limit, in, !in)
			}
		}
		if inc != nil {
			// the result is the caller's
			for i := range inc {
				inc[i] ^= 0x5a
			}
			if changed() {
				c.Fatalf("IncrementKey's result shares memory with the prefix")
			}
		}
	})
}

// Concurrent users: batches are seen all at once or not at all, and what a
// writer was told is there can be read by everyone.
func TestC31_Concurrent(t *testing.T) {
	vh.Check(t, vh.N{Quick: 400}, func(rt *rapid.T, c *vh.Case) {
		disk := newFS()
		h := drawHow(rt)
		db, err := openOn(disk, h)
		if err != nil {
			c.Fatalf("open: %v", err)
		}
		writers := rapid.IntRange(1, 4).Draw(rt, "writers")
		width := rapid.IntRange(2, 6).Draw(rt, "width")
		n := rapid.IntRange(1, 15).Draw(rt, "writes")
		size := rapid.SampledFrom([]int{4, 100, 1000}).Draw(rt, "size")
		c.Tracef("%v, %d writers, batches of %d, %d writes of %d bytes", h, writers, width, n, size)
		c.NT()
		var mu sync.Mutex
		var fail string
		bad := func(f string, a ...interface{}) {
			mu.Lock()
			if fail == "" {
				fail = fmt.Sprintf(f, a...)
			}
			mu.Unlock()
		}
		var wg, rd sync.WaitGroup
		stop := make(chan struct{})
		for w := 0; w < writers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				own := []byte(fmt.Sprintf("own%d", w))
				b := db.NewBatch()
				for i := 0; i < n; i++ {
					v := bytes.Repeat([]byte{byte(w), byte(i)}, size)
					b.Reset()
					for k := 0; k < width; k++ {
						b.Put([]byte(fmt.Sprintf("shared%d", k)), v)
					}
					if err := db.Write(b); err != nil {
						bad("Write: %v", err)
					}
					if err := db.Put(own, v); err != nil {
						bad("Put: %v", err)
					}
					if g, err := db.Get(own); err != nil || !bytes.Equal(g, v) {
						bad("a value read back after Put is %s (%v), should be %s", show(g), err, show(v))
					}
					if i%3 == 2 {
						if err := db.Delete(own); err != nil {
							bad("Delete: %v", err)
						}
						if g, err := db.Get(own); err != db.ErrNotFound() {
							bad("a deleted key reads %s, %v", show(g), err)
						}
					}
				}
			}(w)
		}
		seen := 0
		for r := 0; r < 2; r++ {
			rd.Add(1)
			go func() {
				defer rd.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					it := db.NewIterator(kv.BytesPrefix([]byte("shared")))
					var vs [][]byte
					for it.Next() {
						vs = append(vs, append([]byte{}, it.Value()...))
					}
					it.Release()
					if len(vs) != 0 && len(vs) != width {
						bad("%d of %d entries of a batch are visible", len(vs), width)
					}
					for _, v := range vs {
						if !bytes.Equal(v, vs[0]) {
							bad("entries of different batches are visible at once: %s, %s", show(v), show(vs[0]))
						}
					}
					mu.Lock()
					seen++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		close(stop)
		rd.Wait()
		if fail != "" {
			c.Fatalf("%s", fail)
		}
		c.ClassN("snapshots", seen)
		if err := db.Write(otherBatch{}); err == nil {
			c.Fatalf("a batch of another kind is accepted")
		}
		if err := db.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
	})
}

func TestC31_WithDB(t *testing.T) {
	vh.Check(t, vh.N{Quick: 160}, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(0, 5).Draw(rt, "n")
		boom := rapid.Bool().Draw(rt, "panic")
		c.Tracef("%d entries, panic %v", n, boom)
		c.NT()
		tmp := os.TempDir()
		before, _ := os.ReadDir(tmp)
		var msg string
		func() {
			defer func() {
				if p := recover(); p != nil && p != "boom" {
					msg = fmt.Sprint(p)
				}
			}()
			utils.WithDB(func(db kv.DB) {
				if m, err := dump(db); err != nil || len(m) != 0 {
					msg = fmt.Sprintf("a new store has %d entries (%v)", len(m), err)
				}
				for i := 0; i < n; i++ {
					if err := db.Put([]byte{byte(i)}, []byte{1}); err != nil {
						msg = err.Error()
					}
				}
				if m, err := dump(db); err != nil || len(m) != n {
					msg = fmt.Sprintf("the store has %d entries of %d (%v)", len(m), n, err)
				}
				if boom {
					panic("boom")
				}
			})
		}()
		if msg != "" {
			c.Fatalf("%s", msg)
		}
		after, _ := os.ReadDir(tmp)
		if len(after) > len(before) {
			c.Fatalf("%d files left behind", len(after)-len(before))
		}
	})
}
