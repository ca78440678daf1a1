//go:build go1.23

package basic

import (
	"bytes"
	"crypto/rand"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

func parts(rt *rapid.T, c *vh.Case, label string) (ps [][]byte, changed func() bool) {
	n := rapid.IntRange(0, 5).Draw(rt, label+"_n")
	var gs []func() bool
	for i := 0; i < n; i++ {
		b, g := vh.Guarded(vh.Bytes(rt, label, 400))
		ps, gs = append(ps, b), append(gs, g)
		c.Tracef("%s[%d]=%s", label, i, vh.Hex(b))
	}
	return ps, func() bool {
		for _, g := range gs {
			if g() {
				return true
			}
		}
		return false
	}
}

func cat(ps ...[]byte) []byte { return bytes.Join(ps, nil) }

// resplit cuts b into n pieces at drawn places.
func resplit(rt *rapid.T, b []byte, n int) [][]byte {
	var out [][]byte
	for i := 0; i < n-1; i++ {
		k := rapid.IntRange(0, len(b)).Draw(rt, "cut")
		out, b = append(out, b[:k]), b[k:]
	}
	return append(out, b)
}

func TestC01_Digest(t *testing.T) {
	vh.Check(t, vh.N{Quick: 64000}, func(rt *rapid.T, c *vh.Case) {
		ps, changed := parts(rt, c, "m")
		want := ref.Shake128(ps...)
		got := crypto.Digest(ps...)
		if !bytes.Equal(got, want) || len(got) != crypto.HashSizeByte {
			c.Fatalf("Digest = %x, want SHAKE128 %x", got, want)
		}
		if changed() {
			c.Fatalf("Digest modified its input")
		}
		whole := cat(ps...)
		if n := rapid.IntRange(1, 4).Draw(rt, "resplit"); n > 1 {
			if got := crypto.Digest(resplit(rt, whole, n)...); !bytes.Equal(got, want) {
				c.Fatalf("Digest of the same concatenation split differently differs")
			}
		}
		if len(whole) > 0 {
			c.NT()
			if bytes.Equal(crypto.Digest(vh.Mutate(rt, "other", whole)), want) {
				c.Fatalf("Digest collision")
			}
		}
	})
}

func TestC01_CommitOpens(t *testing.T) {
	vh.Check(t, vh.N{Quick: 96000}, func(rt *rapid.T, c *vh.Case) {
		ps, changed := parts(rt, c, "m")
		whole := cat(ps...)
		com, err := crypto.NewCommit(ps...)
		if err != nil {
			c.Fatalf("NewCommit: %v", err)
		}
		salt0, val0 := append([]byte{}, com.Salt...), append([]byte{}, com.Value...)
		check := func(what string, want bool, co *crypto.Commit, ms ...[]byte) {
			s, v := append([]byte{}, co.Salt...), append([]byte{}, co.Value...)
			if got := co.Verify(ms...); got != want {
				c.Fatalf("%s: Verify = %v, want %v (salt %x value %x data %x)", what, got, want, co.Salt, co.Value, ms)
			}
			if !bytes.Equal(s, co.Salt) || !bytes.Equal(v, co.Value) {
				c.Fatalf("%s: Verify modified the commitment", what)
			}
		}
		check("honest", true, com, ps...)
		check("honest, second time", true, com, ps...)
		if len(com.Salt) != crypto.HashSizeByte || len(com.Value) != crypto.HashSizeByte {
			c.Fatalf("salt of %d bytes, value of %d bytes", len(com.Salt), len(com.Value))
		}
		com2, err := crypto.NewCommit(ps...)
		if err != nil || bytes.Equal(com2.Salt, com.Salt) || bytes.Equal(com2.Value, com.Value) {
			c.Fatalf("two commitments to the same data share salt or value (%v)", err)
		}
		check("commitment value of another commitment", false, &crypto.Commit{Salt: com.Salt, Value: com2.Value}, ps...)
		check("salt of another commitment", false, &crypto.Commit{Salt: com2.Salt, Value: com.Value}, ps...)

		kind := rapid.SampledFrom([]string{"data", "salt", "value", "salt+data", "data+salt", "emptied", "drop", "both"}).Draw(rt, "kind")
		c.Class(kind)
		c.Tracef("altered: %s", kind)
		c.NT()
		switch kind {
		case "data":
			m := vh.Mutate(rt, "data", whole)
			check("changed data", false, com, resplit(rt, m, rapid.IntRange(1, 3).Draw(rt, "n"))...)
		case "salt":
			check("changed salt", false, &crypto.Commit{Salt: vh.Mutate(rt, "salt", com.Salt), Value: com.Value}, ps...)
		case "value":
			check("changed value", false, &crypto.Commit{Salt: com.Salt, Value: vh.Mutate(rt, "value", com.Value)}, ps...)
		case "salt+data": // bytes move from the data into the salt
			if len(whole) == 0 {
				rt.Skip("no data")
			}
			k := rapid.IntRange(1, len(whole)).Draw(rt, "move")
			check("data moved into salt", false, &crypto.Commit{Salt: cat(com.Salt, whole[:k]), Value: com.Value}, whole[k:])
		case "data+salt": // bytes move from the salt into the data
			k := rapid.IntRange(0, len(com.Salt)-1).Draw(rt, "move")
			check("salt moved into data", false, &crypto.Commit{Salt: com.Salt[:k], Value: com.Value}, cat(com.Salt[k:], whole))
		case "emptied":
			check("no salt", false, &crypto.Commit{Value: com.Value}, ps...)
			check("no value", false, &crypto.Commit{Salt: com.Salt}, ps...)
			check("empty commitment", false, &crypto.Commit{}, ps...)
			k := rapid.IntRange(0, 31).Draw(rt, "cut")
			check("value prefix", false, &crypto.Commit{Salt: com.Salt, Value: com.Value[:k]}, ps...)
		case "drop":
			for i := range ps {
				if len(ps[i]) > 0 {
					check("one part dropped", false, com, append(append([][]byte{}, ps[:i]...), ps[i+1:]...)...)
				}
			}
			check("one part added", false, com, append(append([][]byte{}, ps...), []byte{0})...)
			check("one part added in front", false, com, append([][]byte{{0}}, ps...)...)
		case "both":
			// the value recomputed for other data must not verify for the original
			m := vh.Mutate(rt, "data", whole)
			check("commitment to other data", false, &crypto.Commit{Salt: com.Salt, Value: crypto.Digest(com.Salt, m)}, ps...)
		}
		if changed() {
			c.Fatalf("an input was modified")
		}
		if !bytes.Equal(com.Salt, salt0) || !bytes.Equal(com.Value, val0) {
			c.Fatalf("the commitment changed")
		}
		check("honest, at the end", true, com, ps...)
	})
}

// Every salt depends on all of 32 fresh random bytes.
type flipReader struct {
	r   *vh.DRBG
	n   int
	bit int
}

func (f *flipReader) Read(p []byte) (int, error) {
	f.r.Read(p)
	for i := range p {
		if f.bit >= 0 && f.bit/8 == f.n+i {
			p[i] ^= 1 << (f.bit % 8)
		}
	}
	f.n += len(p)
	return len(p), nil
}

func TestC01_Salts(t *testing.T) {
	vh.Check(t, vh.N{Quick: 16000}, func(rt *rapid.T, c *vh.Case) {
		seed := rapid.Uint64().Draw(rt, "stream")
		bit := rapid.IntRange(0, 255).Draw(rt, "bit")
		c.Tracef("stream %d, bit %d flipped", seed, bit)
		c.NT()
		mk := func(bit int) ([]byte, int) {
			fr := &flipReader{r: vh.NewDRBG(seed), bit: bit}
			rand.Reader = fr
			s, err := crypto.MakeRand()
			if err != nil || len(s) != crypto.HashSizeByte {
				c.Fatalf("MakeRand: %d bytes, %v", len(s), err)
			}
			return s, fr.n
		}
		a, n := mk(-1)
		b, _ := mk(bit)
		if n < crypto.HashSizeByte {
			c.Fatalf("a salt was made from only %d random bytes", n)
		}
		if bytes.Equal(a, b) {
			c.Fatalf("the salt does not depend on bit %d of its randomness", bit)
		}
	})
}

// Large inputs: hash and commitment cover every byte of them.
func TestC01_Large(t *testing.T) {
	vh.Check(t, vh.N{Quick: 400}, func(rt *rapid.T, c *vh.Case) {
		var ps [][]byte
		for n := rapid.IntRange(1, 4).Draw(rt, "parts"); n > 0; n-- {
			ps = append(ps, vh.Big(rt, "m", 400000))
		}
		if rapid.IntRange(0, 3).Draw(rt, "many") == 0 { // many small ones
			for n := vh.LogInt(rt, "more", 1, 3000); n > 0; n-- {
				ps = append(ps, c.Rand.Bytes(n%7))
			}
		}
		whole := cat(ps...)
		c.Tracef("%d parts, %d bytes", len(ps), len(whole))
		want := ref.Shake128(ps...)
		if got := crypto.Digest(ps...); !bytes.Equal(got, want) {
			c.Fatalf("Digest of %d bytes = %x, want SHAKE128 %x", len(whole), got, want)
		}
		com, err := crypto.NewCommit(ps...)
		if err != nil || !com.Verify(ps...) || !com.Verify(whole) {
			c.Fatalf("a commitment to %d bytes does not open (%v)", len(whole), err)
		}
		for _, i := range []int{0, len(whole) - 1, rapid.IntRange(0, len(whole)-1).Draw(rt, "at")} {
			whole[i]++
			if bytes.Equal(crypto.Digest(whole), want) || com.Verify(whole) {
				c.Fatalf("byte %d of %d does not matter", i, len(whole))
			}
			whole[i]--
		}
		if com.Verify(whole[:len(whole)-1]) || com.Verify(append(whole, 0)) {
			c.Fatalf("the length of %d bytes does not matter", len(whole))
		}
		if len(whole) > 4096 {
			c.NT()
		}
	})
}
