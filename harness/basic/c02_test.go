//go:build go1.23

package basic

import (
	"bytes"
	stded "crypto/ed25519"
	"crypto/sha512"
	"errors"
	"io"
	"math/big"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/sign"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

// refSign is Ed25519 of RFC 8032 over math/big.
func refSign(seed, msg []byte) (pub, sig []byte) {
	h := sha512.Sum512(seed)
	s := append([]byte{}, h[:32]...)
	s[0] &= 248
	s[31] &= 127
	s[31] |= 64
	a := ref.FromLE(s)
	A := ref.B.Mul(a).Bytes()
	rh := sha512.Sum512(cat(h[32:], msg))
	r := new(big.Int).Mod(ref.FromLE(rh[:]), ref.L)
	R := ref.B.Mul(r).Bytes()
	kh := sha512.Sum512(cat(R[:], A[:], msg))
	k := ref.FromLE(kh[:])
	S := new(big.Int).Mul(k, a)
	S.Add(S, r).Mod(S, ref.L)
	Sb := ref.LE(S)
	return A[:], cat(R[:], Sb[:])
}

func genKey(c *vh.Case) (sign.PrivateKey, sign.PublicKey) {
	sk, err := sign.GenerateKey(nil)
	if err != nil {
		c.Fatalf("GenerateKey: %v", err)
	}
	pk, ok := sk.Public()
	if !ok || len(sk) != sign.PrivateKeySize || len(pk) != sign.PublicKeySize {
		c.Fatalf("Public: %v, sizes %d %d", ok, len(sk), len(pk))
	}
	return sk, pk
}

func TestC02_SignVerify(t *testing.T) {
	vh.Check(t, vh.N{Quick: 12000}, func(rt *rapid.T, c *vh.Case) {
		sk, pk := genKey(c)
		sk2, pk2 := genKey(c)
		if bytes.Equal(sk, sk2) || bytes.Equal(pk, pk2) {
			c.Fatalf("two generated keys are equal")
		}
		raw := vh.Bytes(rt, "msg", 600)
		msg, mChanged := vh.Guarded(raw)
		skG, skChanged := vh.Guarded(sk)
		pkG, pkChanged := vh.Guarded(pk)
		c.Tracef("msg=%s key=%s", vh.Hex(msg), vh.Hex(pk))
		sig := sign.PrivateKey(skG).Sign(msg)
		if len(sig) != sign.SignatureSize {
			c.Fatalf("signature of %d bytes", len(sig))
		}
		if want := stded.Sign(stded.NewKeyFromSeed(sk[:32]), raw); !bytes.Equal(sig, want) {
			c.Fatalf("signature %x is not Ed25519's %x", sig, want)
		}
		if !bytes.Equal(sign.PrivateKey(skG).Sign(msg), sig) {
			c.Fatalf("signing is not deterministic")
		}
		sigG, sChanged := vh.Guarded(sig)
		if !sign.PublicKey(pkG).Verify(msg, sigG) {
			c.Fatalf("the signature does not verify")
		}
		if sign.PublicKey(pk2).Verify(msg, sig) {
			c.Fatalf("verifies under another key")
		}
		kind := rapid.SampledFrom([]string{"msg", "sig", "S+L", "othermsg", "otherkey", "len", "pkbit"}).Draw(rt, "kind")
		c.Tracef("altered: %s", kind)
		c.Class(kind)
		c.NT()
		switch kind {
		case "msg":
			m := vh.Mutate(rt, "m", raw)
			if pk.Verify(m, sig) {
				c.Fatalf("verifies for another message %x", m)
			}
		case "sig":
			s := vh.FlipBit(sig, rapid.IntRange(0, 511).Draw(rt, "bit"))
			if pk.Verify(raw, s) {
				c.Fatalf("altered signature %x verifies", s)
			}
		case "S+L": // the other encodings of the same scalar
			S := ref.FromLE(sig[32:])
			k := rapid.IntRange(1, 15).Draw(rt, "k")
			S.Add(S, new(big.Int).Mul(ref.L, big.NewInt(int64(k))))
			if S.BitLen() <= 256 {
				b := ref.LE(S)
				if pk.Verify(raw, cat(sig[:32], b[:])) {
					c.Fatalf("signature with S+%dL verifies", k)
				}
			}
		case "othermsg":
			m := vh.Mutate(rt, "m", raw)
			if pk.Verify(raw, sk.Sign(m)) {
				c.Fatalf("a signature of another message verifies")
			}
		case "otherkey":
			if pk.Verify(raw, sk2.Sign(raw)) {
				c.Fatalf("another key's signature verifies")
			}
		case "len":
			s := vh.Mutate(rt, "s", sig)
			if pk.Verify(raw, s) {
				c.Fatalf("altered signature %x verifies", s)
			}
			for _, s := range [][]byte{nil, {}, sig[:63], sig[:32], cat(sig, []byte{0}), cat(sig, sig)} {
				if pk.Verify(raw, s) {
					c.Fatalf("signature of %d bytes verifies", len(s))
				}
			}
		case "pkbit":
			p := vh.FlipBit(pk, rapid.IntRange(0, 255).Draw(rt, "bit"))
			if sign.PublicKey(p).Verify(raw, sig) {
				c.Fatalf("verifies under an altered public key")
			}
		}
		if mChanged() || skChanged() || pkChanged() || sChanged() {
			c.Fatalf("an input was modified")
		}
	})
}

func TestC02_Standard(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		sk, pk := genKey(c)
		msg := vh.Bytes(rt, "msg", 300)
		c.Tracef("seed=%x msg=%s", []byte(sk[:32]), vh.Hex(msg))
		c.NT()
		pub, sig := refSign(sk[:32], msg)
		if !bytes.Equal(pub, pk) || !bytes.Equal(pub, sk[32:]) {
			c.Fatalf("public key %x, RFC 8032 gives %x", []byte(pk), pub)
		}
		if got := sk.Sign(msg); !bytes.Equal(got, sig) {
			c.Fatalf("signature %x, RFC 8032 gives %x", got, sig)
		}
		if !pk.Verify(msg, sig) {
			c.Fatalf("the RFC 8032 signature does not verify")
		}
	})
}

// shortReader gives n bytes in small pieces, then an error.
type shortReader struct {
	r     *vh.DRBG
	n     int
	piece int
	err   error
	with  bool // deliver the error together with the last bytes
}

func (s *shortReader) Read(p []byte) (int, error) {
	if s.n == 0 {
		return 0, s.err
	}
	k := min(len(p), s.piece, s.n)
	s.r.Read(p[:k])
	s.n -= k
	if s.n == 0 && s.with {
		return k, s.err
	}
	return k, nil
}

func TestC02_GenerateKeyFaults(t *testing.T) {
	vh.Check(t, vh.N{Quick: 4000}, func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(0, 40).Draw(rt, "bytes")
		piece := rapid.IntRange(1, 40).Draw(rt, "piece")
		e := rapid.SampledFrom([]error{io.EOF, io.ErrUnexpectedEOF, errors.New("no entropy")}).Draw(rt, "err")
		with := rapid.Bool().Draw(rt, "with")
		c.Tracef("%d bytes in pieces of %d, then %v (with data: %v)", n, piece, e, with)
		c.NT()
		sk, err := sign.GenerateKey(&shortReader{r: c.Rand, n: n, piece: piece, err: e, with: with})
		if n < 32 {
			c.Class("starved")
			if err == nil {
				c.Fatalf("a key was generated from %d random bytes: %x", n, sk)
			}
			return
		}
		if err != nil {
			c.Fatalf("GenerateKey failed although %d bytes were available: %v", n, err)
		}
		pk, ok := sk.Public()
		if !ok || !pk.Verify([]byte("m"), sk.Sign([]byte("m"))) {
			c.Fatalf("generated key does not work")
		}
	})
}

// Large messages: the signature covers every byte.
func TestC02_Large(t *testing.T) {
	vh.Check(t, vh.N{Quick: 400}, func(rt *rapid.T, c *vh.Case) {
		sk, pk := genKey(c)
		msg := vh.Big(rt, "msg", 400000)
		c.Tracef("%d bytes", len(msg))
		sig := sk.Sign(msg)
		if want := stded.Sign(stded.NewKeyFromSeed(sk[:32]), msg); !bytes.Equal(sig, want) {
			c.Fatalf("the signature of %d bytes is %x, not Ed25519's %x", len(msg), sig, want)
		}
		if !pk.Verify(msg, sig) {
			c.Fatalf("the signature of %d bytes does not verify", len(msg))
		}
		for _, i := range []int{0, len(msg) - 1, rapid.IntRange(0, len(msg)-1).Draw(rt, "at")} {
			msg[i]++
			if pk.Verify(msg, sig) {
				c.Fatalf("byte %d of %d does not matter", i, len(msg))
			}
			msg[i]--
		}
		if pk.Verify(msg[:len(msg)-1], sig) || pk.Verify(append(msg, 0), sig) {
			c.Fatalf("the length of %d bytes does not matter", len(msg))
		}
		if len(msg) > 4096 {
			c.NT()
		}
	})
}
