//go:build go1.23

package basic

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

func vrfKey(c *vh.Case) (vrf.PrivateKey, vrf.PublicKey) {
	sk, err := vrf.GenerateKey(rand.Reader)
	if err != nil {
		c.Fatalf("GenerateKey: %v", err)
	}
	pk, ok := sk.Public()
	if !ok || len(pk) != vrf.PublicKeySize || len(sk) != vrf.PrivateKeySize {
		c.Fatalf("Public failed")
	}
	return sk, pk
}

func TestC03_Complete(t *testing.T) {
	vh.Check(t, vh.N{Quick: 3200}, func(rt *rapid.T, c *vh.Case) {
		sk, pk := vrfKey(c)
		sk2, pk2 := vrfKey(c)
		raw := vh.Bytes(rt, "name", 300)
		m, mChanged := vh.Guarded(raw)
		skG, skChanged := vh.Guarded(sk)
		pkG, pkChanged := vh.Guarded(pk)
		c.Tracef("key=%s name=%s", vh.Hex(pk), vh.Hex(raw))
		c.NT()
		v := vrf.PrivateKey(skG).Compute(m)
		v1, proof := vrf.PrivateKey(skG).Prove(m)
		if len(v) != vrf.Size || !bytes.Equal(v, v1) || len(proof) != vrf.ProofSize {
			c.Fatalf("Compute %x, Prove %x, proof of %d bytes", v, v1, len(proof))
		}
		vG, vChanged := vh.Guarded(v)
		prG, prChanged := vh.Guarded(proof)
		if !vrf.PublicKey(pkG).Verify(m, vG, prG) {
			c.Fatalf("the proof does not verify")
		}
		if mChanged() || skChanged() || pkChanged() || vChanged() || prChanged() {
			c.Fatalf("an input was modified")
		}
		v2, proof2 := sk.Prove(raw)
		if !bytes.Equal(v2, v) || !bytes.Equal(proof, proof2) || !bytes.Equal(sk.Compute(raw), v) {
			c.Fatalf("not deterministic")
		}
		m2 := vh.Mutate(rt, "other", raw)
		if bytes.Equal(sk.Compute(m2), v) {
			c.Fatalf("names %x and %x have the same value", raw, m2)
		}
		if bytes.Equal(sk2.Compute(raw), v) || bytes.Equal(pk, pk2) {
			c.Fatalf("two keys give the same value")
		}
	})
}

func TestC03_Definition(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1000, Thorough: 12000}, func(rt *rapid.T, c *vh.Case) {
		sk, pk := vrfKey(c)
		m := vh.Bytes(rt, "name", 200)
		c.Tracef("seed=%x name=%s", []byte(sk[:32]), vh.Hex(m))
		c.NT()
		k := ref.NewVRFKey(sk[:32])
		if !bytes.Equal(k.Pub[:], pk) || !bytes.Equal(sk[32:], pk) {
			c.Fatalf("public key %x, definition gives %x", []byte(pk), k.Pub)
		}
		wantV, wantP := k.Prove(m)
		v, p := sk.Prove(m)
		if !bytes.Equal(v, wantV) {
			c.Fatalf("value %x, definition gives %x", v, wantV)
		}
		if !bytes.Equal(p, wantP) {
			c.Fatalf("proof %x, definition gives %x", p, wantP)
		}
		// a proof made independently, with any nonce, is accepted too
		h := ref.HashName(m)
		var ii [32]byte
		copy(ii[:], p[64:])
		r := new(big.Int).Mod(ref.FromLE(c.Rand.Bytes(64)), ref.L)
		p2 := k.ProveWith(m, h, ii, r)
		if !pk.Verify(m, v, p2) {
			c.Fatalf("a proof made by the definition with another nonce does not verify: %x", p2)
		}
	})
}

func TestC03_GenerateKeyFaults(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2000}, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(0, 40).Draw(rt, "bytes")
		piece := rapid.IntRange(1, 40).Draw(rt, "piece")
		e := rapid.SampledFrom([]error{io.EOF, io.ErrUnexpectedEOF, errors.New("no entropy")}).Draw(rt, "err")
		c.Tracef("%d bytes in pieces of %d, then %v", n, piece, e)
		c.NT()
		sk, err := vrf.GenerateKey(&shortReader{r: c.Rand, n: n, piece: piece, err: e, with: rapid.Bool().Draw(rt, "with")})
		if n < 32 {
			if err == nil {
				c.Fatalf("a VRF key was generated from %d random bytes: %x", n, sk)
			}
			return
		}
		if err != nil {
			c.Fatalf("GenerateKey failed although %d bytes were available: %v", n, err)
		}
	})
}

// Large names: the value depends on every byte.
func TestC03_Large(t *testing.T) {
	vh.Check(t, vh.N{Quick: 240}, func(rt *rapid.T, c *vh.Case) {
		sk, pk := vrfKey(c)
		m := vh.Big(rt, "name", 200000)
		c.Tracef("%d bytes", len(m))
		wantV, wantP := ref.NewVRFKey(sk[:32]).Prove(m)
		v, p := sk.Prove(m)
		if !bytes.Equal(v, wantV) || !bytes.Equal(p, wantP) || !bytes.Equal(sk.Compute(m), v) {
			c.Fatalf("value %x and proof %x of %d bytes, definition gives %x and %x", v, p, len(m), wantV, wantP)
		}
		if !pk.Verify(m, v, p) {
			c.Fatalf("the proof for %d bytes does not verify", len(m))
		}
		for _, i := range []int{0, len(m) - 1, rapid.IntRange(0, len(m)-1).Draw(rt, "at")} {
			m[i]++
			if pk.Verify(m, v, p) || bytes.Equal(sk.Compute(m), v) {
				c.Fatalf("byte %d of %d does not matter", i, len(m))
			}
			m[i]--
		}
		if pk.Verify(m[:len(m)-1], v, p) || pk.Verify(append(m, 0), v, p) {
			c.Fatalf("the length of %d bytes does not matter", len(m))
		}
		if len(m) > 4096 {
			c.NT()
		}
	})
}
