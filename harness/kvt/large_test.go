//go:build go1.23

package kvt

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/coniks-sys/coniks-go/storage/kv"
	"github.com/coniks-sys/coniks-go/storage/kv/leveldbkv"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// Thousands of entries, batches of thousands, values of a megabyte.
func TestC31_Large(t *testing.T) {
	vh.Check(t, vh.N{Quick: 64}, func(rt *rapid.T, c *vh.Case) {
		var db kv.DB
		var disk *fs
		h := drawHow(rt)
		dir := vh.Dir()
		defer os.RemoveAll(dir)
		open := func() {
			var err error
			if disk == nil {
				db = leveldbkv.OpenDB(filepath.Join(dir, "db"))
			} else if db, err = openOn(disk, h); err != nil {
				c.Fatalf("open: %v", err)
			}
		}
		if rapid.IntRange(0, 3).Draw(rt, "onDisk") > 0 {
			disk = newFS()
		}
		open()
		m := map[string][]byte{}
		pool := vh.LogInt(rt, "keys", 10, 20000)
		long := rapid.Bool().Draw(rt, "longKeys")
		key := func() []byte {
			k := []byte(fmt.Sprintf("%d", c.Rand.Uint64()%uint64(pool)))
			if long && k[0] == '7' {
				k = append(bytes.Repeat(k[:1], 5000), k...)
			}
			return k
		}
		val := func(n int) []byte { return c.Rand.Bytes(n) }
		b := db.NewBatch()
		for i := rapid.IntRange(1, 6).Draw(rt, "steps"); i > 0; i-- {
			size := rapid.SampledFrom([]int{1, 10, 100, 500}).Draw(rt, "size")
			switch rapid.IntRange(0, 3).Draw(rt, "op") {
			case 0, 1:
				n := vh.LogInt(rt, "batch", 1, 5000)
				if rapid.Bool().Draw(rt, "new") {
					b = db.NewBatch()
				} else {
					b.Reset()
				}
				now := clone(m)
				for j := 0; j < n; j++ {
					k := key()
					if j%5 == 4 {
						b.Delete(k)
						delete(now, string(k))
					} else {
						v := val(size)
						b.Put(k, v)
						now[string(k)] = append([]byte{}, v...)
					}
				}
				c.Tracef("batch of %d, values of %d", n, size)
				if err := db.Write(b); err != nil {
					c.Fatalf("Write of %d entries: %v", n, err)
				}
				m = now
			case 2:
				k, v := key(), val(vh.LogInt(rt, "large", 1000, 3000000))
				c.Tracef("put %d bytes", len(v))
				if err := db.Put(k, v); err != nil {
					c.Fatalf("Put of %d bytes: %v", len(v), err)
				}
				m[string(k)] = append([]byte{}, v...)
				if g, err := db.Get(k); err != nil || !bytes.Equal(g, v) {
					c.Fatalf("a value of %d bytes reads back as %s (%v)", len(v), show(g), err)
				}
			case 3:
				c.Tracef("close and reopen")
				if err := db.Close(); err != nil {
					c.Fatalf("Close: %v", err)
				}
				open()
				b = db.NewBatch()
			}
		}
		for _, p := range []string{"", "1", "77", fmt.Sprintf("%d", rapid.IntRange(0, 99).Draw(rt, "prefix"))} {
			rg := kv.BytesPrefix([]byte(p))
			if p == "" {
				rg = nil
			}
			ps := ordered(m, rg)
			it := db.NewIterator(rg)
			for i, e := range ps {
				if !it.Next() || !bytes.Equal(it.Key(), e.k) || !bytes.Equal(it.Value(), e.v) {
					c.Fatalf("entry %d of %d with prefix %q is %s, should be %s (%v)", i, len(ps), p, show(it.Key()), show(e.k), it.Error())
				}
			}
			if it.Next() || it.Error() != nil {
				c.Fatalf("after %d entries with prefix %q: %s, %v", len(ps), p, show(it.Key()), it.Error())
			}
			it.Release()
		}
		for i := 0; i < 50; i++ {
			k := key()
			g, err := db.Get(k)
			if want, ok := m[string(k)]; ok && (err != nil || !bytes.Equal(g, want)) || !ok && err != db.ErrNotFound() {
				c.Fatalf("Get(%s) = %s, %v; it has the value %s: %v", show(k), show(g), err, show(want), ok)
			}
		}
		c.ClassN("entries", len(m))
		if len(m) > 100 {
			c.NT()
		}
		if err := db.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
	})
}
