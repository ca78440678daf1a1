//go:build go1.23

package basic

import (
	"bytes"
	"encoding/binary"
	"math"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/coniks-sys/coniks-go/utils"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

func TestC06_Bits(t *testing.T) {
	vh.Check(t, vh.N{Quick: 16000}, func(rt *rapid.T, c *vh.Case) {
		b, changed := vh.Guarded(vh.Bytes(rt, "b", 80))
		c.Tracef("bytes %s", vh.Hex(b))
		if len(b) > 0 {
			c.NT()
		}
		bits := utils.ToBits(b)
		if len(bits) != 8*len(b) {
			c.Fatalf("%d bits for %d bytes", len(bits), len(b))
		}
		for i, got := range bits {
			want := b[i/8]>>(7-i%8)&1 == 1
			if got != want {
				c.Fatalf("bit %d is %v, want %v", i, got, want)
			}
			if utils.GetNthBit(b, uint32(i)) != want {
				c.Fatalf("GetNthBit(%d) is %v, want %v", i, !want, want)
			}
		}
		if back := utils.ToBytes(bits); !bytes.Equal(back, b) {
			c.Fatalf("ToBytes(ToBits(b)) = %x", back)
		}
		// bit strings of any length
		n := rapid.IntRange(0, len(bits)).Draw(rt, "n")
		pre := append([]bool{}, bits[:n]...)
		by := utils.ToBytes(pre)
		if len(by) != (n+7)/8 {
			c.Fatalf("%d bits give %d bytes", n, len(by))
		}
		back := utils.ToBits(by)
		for i := range back {
			if want := i < n && bits[i]; back[i] != want {
				c.Fatalf("bit %d of the padded conversion is %v", i, back[i])
			}
		}
		for i := range pre {
			if pre[i] != bits[i] {
				c.Fatalf("ToBytes modified its input")
			}
		}
		if changed() {
			c.Fatalf("an input was modified")
		}
	})
}

func TestC06_Ints(t *testing.T) {
	vh.Check(t, vh.N{Quick: 16000}, func(rt *rapid.T, c *vh.Case) {
		u := rapid.Uint64().Draw(rt, "u")
		switch rapid.IntRange(0, 3).Draw(rt, "shape") {
		case 0:
			u = uint64(1)<<rapid.IntRange(0, 63).Draw(rt, "shift") + uint64(int64(rapid.IntRange(-2, 2).Draw(rt, "off")))
		case 1:
			u = rapid.SampledFrom([]uint64{0, 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint32, math.MaxUint32 + 1}).Draw(rt, "special")
		case 2:
			u = vh.NewDRBG(u).Uint64()
		}
		c.Tracef("%d", u)
		c.NT()
		var want [8]byte
		for i := range want {
			want[i] = byte(u >> (8 * i))
		}
		if got := utils.ULongToBytes(u); !bytes.Equal(got, want[:]) || binary.LittleEndian.Uint64(got) != u {
			c.Fatalf("ULongToBytes(%d) = %x", u, got)
		}
		if got := utils.LongToBytes(int64(u)); !bytes.Equal(got, want[:]) || int64(binary.LittleEndian.Uint64(got)) != int64(u) {
			c.Fatalf("LongToBytes(%d) = %x", int64(u), got)
		}
		for _, v := range []uint32{uint32(u), uint32(u >> 32)} {
			w := []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
			if got := utils.UInt32ToBytes(v); !bytes.Equal(got, w) {
				c.Fatalf("UInt32ToBytes(%d) = %x", v, got)
			}
		}
		// results are independent of each other
		a := utils.ULongToBytes(u)
		utils.ULongToBytes(^u)
		if !bytes.Equal(a, want[:]) {
			c.Fatalf("a second conversion changed the first result")
		}
	})
}

func TestC06_ResolvePath(t *testing.T) {
	seg := rapid.StringMatching(`[a-zA-Z0-9_. -]{1,8}`)
	vh.Check(t, vh.N{Quick: 8000}, func(rt *rapid.T, c *vh.Case) {
		path := func(l string) string {
			p := strings.Join(rapid.SliceOfN(rapid.OneOf(seg, rapid.SampledFrom([]string{"..", ".", "a"})), 1, 5).Draw(rt, l), "/")
			if rapid.Bool().Draw(rt, l+"_abs") {
				p = "/" + p
			}
			return p
		}
		file, other := path("file"), path("other")
		c.Tracef("file %q mentioned in %q", file, other)
		got := utils.ResolvePath(file, other)
		if strings.HasPrefix(file, "/") {
			if got != file {
				c.Fatalf("absolute path %q became %q", file, got)
			}
			return
		}
		c.NT()
		dir := "."
		if i := strings.LastIndex(other, "/"); i >= 0 {
			dir = other[:i+1]
		}
		if want := filepath.Clean(dir + "/" + file); filepath.Clean(got) != want {
			c.Fatalf("%q next to %q resolves to %q, want %q", file, other, got, want)
		}
	})
}

func TestC06_WriteFile(t *testing.T) {
	syscall.Umask(022)
	vh.Check(t, vh.N{Quick: 3000}, func(rt *rapid.T, c *vh.Case) {
		d := vh.Dir()
		defer os.RemoveAll(d)
		files := map[string][]byte{}
		modes := map[string]os.FileMode{}
		names := []string{"a", "b", "sub/c", "sub/d", "nodir/x", "sub"}
		if err := os.Mkdir(filepath.Join(d, "sub"), 0700); err != nil {
			vh.Infra("%v", err)
		}
		n := rapid.IntRange(2, 8).Draw(rt, "n")
		for i := 0; i < n; i++ {
			name := rapid.SampledFrom(names).Draw(rt, "name")
			buf, changed := vh.Guarded(vh.Bytes(rt, "buf", 200))
			mode := rapid.SampledFrom([]os.FileMode{0600, 0644}).Draw(rt, "mode")
			err := utils.WriteFile(filepath.Join(d, name), buf, mode)
			c.Tracef("write %s (%d bytes, %v): %v", name, len(buf), mode, err != nil)
			_, exists := files[name]
			if exists {
				c.NT()
			}
			if (exists || name == "sub" || name == "nodir/x") != (err != nil) {
				c.Fatalf("WriteFile(%s): %v, existed: %v", name, err, exists)
			}
			if err == nil {
				files[name] = append([]byte{}, buf...)
				modes[name] = mode
			}
			if changed() {
				c.Fatalf("an input was modified")
			}
			for f, want := range files {
				got, err := os.ReadFile(filepath.Join(d, f))
				if err != nil || !bytes.Equal(got, want) {
					c.Fatalf("%s no longer has its content (%v)", f, err)
				}
				if fi, err := os.Stat(filepath.Join(d, f)); err != nil || fi.Mode().Perm() != modes[f] {
					c.Fatalf("%s: mode %v, want %v", f, fi.Mode(), modes[f])
				}
			}
			for _, f := range names {
				if _, ok := files[f]; !ok && f != "sub" {
					if _, err := os.Stat(filepath.Join(d, f)); err == nil {
						c.Fatalf("%s appeared", f)
					}
				}
			}
		}
	})
}
