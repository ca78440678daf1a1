//go:build go1.23

package kvt

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// wr is one entry of a write.
type wr struct {
	del bool
	k   string
	v   []byte
}

// write is one operation: a single put or delete, or a batch.
type write struct {
	batch bool
	w     []wr
}

func (o write) String() string {
	s := ""
	for _, w := range o.w {
		if w.del {
			s += fmt.Sprintf(" delete %q", w.k)
		} else if len(w.v) > 12 {
			s += fmt.Sprintf(" put %q %x…(%d)", w.k, w.v[:4], len(w.v))
		} else {
			s += fmt.Sprintf(" put %q %x", w.k, w.v)
		}
	}
	if o.batch {
		return "batch{" + s + " }"
	}
	return s[1:]
}

func (o write) apply(m map[string][]byte) {
	for _, w := range o.w {
		if w.del {
			delete(m, w.k)
		} else {
			m[w.k] = w.v
		}
	}
}

func (o write) do(db kv.DB, b kv.Batch) error {
	if !o.batch {
		if o.w[0].del {
			return db.Delete([]byte(o.w[0].k))
		}
		return db.Put([]byte(o.w[0].k), o.w[0].v)
	}
	if b == nil {
		b = db.NewBatch()
	} else {
		b.Reset()
	}
	for _, w := range o.w {
		if w.del {
			b.Delete([]byte(w.k))
		} else {
			b.Put([]byte(w.k), w.v)
		}
	}
	return db.Write(b)
}

// drawWrites draws operations on the keys with the given first letter.
func drawWrites(rt *rapid.T, c *vh.Case, who byte, n int, h how) (ops []write) {
	keys := rapid.IntRange(1, 6).Draw(rt, "keys")
	for i := 0; i < n; i++ {
		o := write{batch: rapid.Bool().Draw(rt, "batch")}
		m := 1
		if o.batch {
			m = rapid.IntRange(0, 6).Draw(rt, "entries")
		}
		for j := 0; j < m; j++ {
			w := wr{k: fmt.Sprintf("%c%d", who, rapid.IntRange(0, keys-1).Draw(rt, "key"))}
			if rapid.IntRange(0, 3).Draw(rt, "del") == 0 {
				w.del = true
			} else {
				n := 0
				size := rapid.IntRange(0, 7).Draw(rt, "size")
				if h.huge && size >= 3 {
					size = 7
				}
				switch size {
				case 0:
				case 1, 2, 3:
					n = rapid.IntRange(1, 40).Draw(rt, "len")
				case 4, 5, 6:
					n = rapid.IntRange(100, 3000).Draw(rt, "len")
				case 7:
					n = rapid.IntRange(30000, 70000).Draw(rt, "len")
					if h.huge {
						n *= 75 // about a write buffer
					}
				}
				w.v = vh.NewDRBG(rapid.Uint64().Draw(rt, "v")).Bytes(min(n, 64))
				w.v = append(w.v, bytes.Repeat([]byte{byte(n), who}, (n-len(w.v))/2)...)
			}
			o.w = append(o.w, w)
		}
		ops = append(ops, o)
	}
	return
}

func dump(db kv.DB) (map[string][]byte, error) {
	m := map[string][]byte{}
	it := db.NewIterator(nil)
	for it.Next() {
		m[string(it.Key())] = append([]byte{}, it.Value()...)
	}
	err := it.Error()
	it.Release()
	return m, err
}

func diff(got, want map[string][]byte) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		w, wok := want[k]
		if ok != wok || !bytes.Equal(g, w) {
			return fmt.Sprintf("%q is %x (present: %v), should be %x (present: %v)", k, g[:min(len(g), 12)], ok, w[:min(len(w), 12)], wok)
		}
	}
	return ""
}

func drawHow(rt *rapid.T) how {
	if rapid.Bool().Draw(rt, "plain") {
		return how{plain: true}
	}
	return how{buf: rapid.SampledFrom([]int{600, 2000, 10000}).Draw(rt, "buf")}
}

func TestC32_Crash(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400}, func(rt *rapid.T, c *vh.Case) { crash(rt, c, false) })
}

// Writes of about the size of the buffers that users of OpenDB get.
func TestC32_Large(t *testing.T) {
	vh.Check(t, vh.N{Quick: 200}, func(rt *rapid.T, c *vh.Case) { crash(rt, c, true) })
}

func crash(rt *rapid.T, c *vh.Case, huge bool) {
	{
		disk := newFS()
		base := map[string][]byte{}
		gens := rapid.IntRange(1, 3).Draw(rt, "generations")
		for g := 0; g < gens; g++ {
			h := drawHow(rt)
			if huge {
				h = how{plain: true, huge: true}
			}
			c.Tracef("generation %d: %v", g, h)
			writers := rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(rt, "writers")
			ops := make([][]write, writers)
			most := 10
			if huge {
				most = 5
			}
			for i := range ops {
				ops[i] = drawWrites(rt, c, byte('a'+i), rapid.IntRange(1, most).Draw(rt, "n"), h)
				for j, o := range ops[i] {
					c.Tracef("  writer %d op %d: %v", i, j, o)
				}
			}
			reuse := rapid.Bool().Draw(rt, "reuse")
			acked := make([]atomic.Int64, writers)
			var images []image
			disk.after = func(op string, n int) {
				var a []int
				for i := range acked {
					a = append(a, int(acked[i].Load()))
				}
				im := disk.image()
				im.acked, im.op = a, op
				images = append(images, im)
			}
			db, err := openOn(disk, h)
			if err != nil {
				c.Fatalf("the store does not open: %v", err)
			}
			if g == 0 {
				// a crash while goleveldb makes a new store can leave half of it behind
				disk.mu.Lock()
				half := images[rapid.IntRange(0, len(images)-1).Draw(rt, "half")]
				images = nil
				disk.after("opened", disk.ops)
				disk.mu.Unlock()
				if re, err := openOn(half.crash(vh.NewDRBG(rapid.Uint64().Draw(rt, "half crash")), true), h); err != nil {
					if !strings.Contains(err.Error(), "file missing") || !vh.Known("C32", "creation") {
						c.Fatalf("crash after %q (storage operation %d) when the store was made: it does not open: %v", half.op, half.n, err)
					}
				} else {
					re.Close()
				}
			}
			var wg sync.WaitGroup
			errs := make([]error, writers)
			run := func(i int) {
				defer wg.Done()
				var b kv.Batch
				if reuse {
					b = db.NewBatch()
				}
				for j, o := range ops[i] {
					if errs[i] = o.do(db, b); errs[i] != nil {
						errs[i] = fmt.Errorf("op %d failed: %v", j, errs[i])
						return
					}
					acked[i].Add(1)
					// a crash between operations
					disk.mu.Lock()
					disk.after("return", disk.ops)
					disk.mu.Unlock()
				}
			}
			wg.Add(writers)
			if writers == 1 {
				run(0)
			} else {
				for i := range ops {
					go run(i)
				}
			}
			wg.Wait()
			for i, err := range errs {
				if err != nil {
					c.Fatalf("writer %d: %v", i, err)
				}
			}
			disk.mu.Lock()
			imgs := images
			rot, tab := disk.rotate, disk.tables
			disk.mu.Unlock()
			if rot > 1 {
				c.Class("journal rotated")
			}
			if tab > 0 {
				c.Class("tables written")
			}
			states := make([][]map[string][]byte, writers) // by operations done, own keys only
			for i := range ops {
				m := map[string][]byte{}
				for k, v := range base {
					if k[0] == byte('a'+i) {
						m[k] = v
					}
				}
				states[i] = append(states[i], m)
				for _, o := range ops[i] {
					n := map[string][]byte{}
					for k, v := range m {
						n[k] = v
					}
					o.apply(n)
					states[i] = append(states[i], n)
					m = n
				}
			}
			// look at some of the crash points
			r := vh.NewDRBG(rapid.Uint64().Draw(rt, "crashes"))
			max := 16
			if huge {
				max = 8
			}
			step := len(imgs)/max + 1
			last := rapid.IntRange(0, len(imgs)-1).Draw(rt, "last")
			var next *fs
			var nextBase map[string][]byte
			for at := 0; at < len(imgs); at++ {
				if at != last && !(huge && imgs[at].op == "return") && at%step != int(r.Bytes(1)[0])%step {
					continue
				}
				im := imgs[at]
				if r.Bytes(1)[0]%8 == 0 {
					if re, err := openOn(im.crash(nil, false), how{plain: true}); err != nil {
						if f := im.files[im.meta]; f.synced >= f.named || !strings.Contains(err.Error(), "manifest corrupted") || !vh.Known("C32", "manifest") {
							c.Fatalf("crash after %q (storage operation %d, returned %v): the store does not open: %v", im.op, im.n, im.acked, err)
						}
					} else {
						re.Close()
					}
				}
				for _, rr := range []*vh.DRBG{nil, r} {
					s := im.crash(rr, true)
					left := s.image()
					re, err := openOn(s, how{plain: huge || r.Bytes(1)[0]%4 == 0, buf: 1 << 17})
					if err != nil {
						c.Fatalf("crash after %q (storage operation %d, returned %v): the store does not open: %v", im.op, im.n, im.acked, err)
					}
					got, err := dump(re)
					if err != nil {
						c.Fatalf("crash after %q (storage operation %d): %v", im.op, im.n, err)
					}
					for k, v := range got {
						if g, err := re.Get([]byte(k)); err != nil || !bytes.Equal(g, v) {
							c.Fatalf("crash after %q: Get(%q) and the iterator differ", im.op, k)
						}
					}
					parts := make([]map[string][]byte, writers)
					rest := map[string][]byte{}
					for i := range parts {
						parts[i] = map[string][]byte{}
					}
					for k, v := range got {
						if i := int(k[0] - 'a'); i >= 0 && i < writers {
							parts[i][k] = v
						} else {
							rest[k] = v
						}
					}
					for k, v := range base {
						if int(k[0]-'a') >= writers && !bytes.Equal(rest[k], v) {
							c.Fatalf("crash after %q: %q, written before an earlier crash, is gone or changed", im.op, k)
						}
					}
					for i := range parts {
						a := im.acked[i]
						d := diff(parts[i], states[i][a])
						if d != "" && a < len(ops[i]) {
							d += "; " + diff(parts[i], states[i][a+1])
						}
						if d == "" {
							continue
						}
						c.Class("differs from the acknowledged state")
						if a == len(ops[i]) || diff(parts[i], states[i][a+1]) != "" {
							c.Fatalf("crash after %q (storage operation %d; everything unflushed lost: %v) when %d operations of writer %d had returned: %s", im.op, im.n, rr == nil, a, i, d)
						}
						c.Class("in-flight write survived")
					}
					c.Class("crash")
					if err := re.Close(); err != nil {
						c.Fatalf("close after a crash: %v", err)
					}
					if at == last && (rr == nil) == (g%2 == 0) {
						next = left.crash(nil, true)
						nextBase = got
					}
				}
			}
			if len(ops[0]) > 0 {
				c.NT()
			}
			disk.after = nil
			if err := db.Close(); err != nil {
				c.Fatalf("close: %v", err)
			}
			if next == nil {
				break
			}
			disk, base = next, nextBase
		}
	}
}
