//go:build go1.23

package basic

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/coniks-sys/coniks-go/crypto/vrf"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

func TestC04_AlteredProofs(t *testing.T) {
	vh.Check(t, vh.N{Quick: 1600}, func(rt *rapid.T, c *vh.Case) {
		sk, pk := vrfKey(c)
		sk2, pk2 := vrfKey(c)
		m := vh.Bytes(rt, "name", 100)
		m2 := vh.Mutate(rt, "other", m)
		v, p := sk.Prove(m)
		v2, p2 := sk.Prove(m2)
		v3, p3 := sk2.Prove(m)
		c.Tracef("key=%s name=%s other=%s", vh.Hex(pk), vh.Hex(m), vh.Hex(m2))
		c.NT()
		no := func(what string, pk vrf.PublicKey, m, v, p []byte) {
			if pk.Verify(m, v, p) {
				c.Fatalf("%s: accepted (name %x value %x proof %x)", what, m, v, p)
			}
		}
		no("other name", pk, m2, v, p)
		no("other name's value", pk, m, v2, p)
		no("other name's proof", pk, m, v, p2)
		no("other name's value and proof", pk, m, v2, p2)
		no("other key's value", pk, m, v3, p)
		no("other key's proof", pk, m, v, p3)
		no("other key's value and proof", pk, m, v3, p3)
		no("other key", pk2, m, v, p)
		for i := 0; i < 12; i++ {
			b := rapid.IntRange(0, 96*8-1).Draw(rt, "bit")
			no("flipped proof bit", pk, m, v, vh.FlipBit(p, b))
		}
		no("flipped value bit", pk, m, vh.FlipBit(v, rapid.IntRange(0, 255).Draw(rt, "vbit")), p)
		no("flipped key bit", vrf.PublicKey(vh.FlipBit(pk, rapid.IntRange(0, 255).Draw(rt, "kbit"))), m, v, p)
		a := vh.Mutate(rt, "p", p)
		if len(a) != len(p) {
			no("altered proof length", pk, m, v, a)
		}
		a = vh.Mutate(rt, "v", v)
		no("altered value", pk, m, a, p)
		a = vh.Mutate(rt, "k", pk)
		no("altered key", vrf.PublicKey(a), m, v, p)
		for _, x := range [][]byte{nil, {}, p[:64], p[:95], cat(p, []byte{0}), cat(p, p)} {
			no("proof length", pk, m, v, x)
		}
		for _, x := range [][]byte{nil, {}, v[:31], cat(v, []byte{0})} {
			no("value length", pk, m, x, p)
		}
		for _, x := range [][]byte{nil, {}, pk[:31], cat(pk, []byte{0})} {
			no("key length", vrf.PublicKey(x), m, v, p)
		}
		// recombined parts of valid proofs
		for k := 1; k < 7; k++ {
			q := append([]byte{}, p...)
			for j := 0; j < 3; j++ {
				if k>>j&1 == 1 {
					copy(q[32*j:32*j+32], p2[32*j:])
				}
			}
			no("mixed proofs", pk, m, v, q)
			no("mixed proofs", pk, m, v2, q)
			no("mixed proofs, other name", pk, m2, v2, q)
		}
		if !pk.Verify(m, v, p) {
			c.Fatalf("the honest proof stopped verifying")
		}
	})
}

// hv is the value that goes with an intermediate point.
func hv(ii [32]byte, m []byte) []byte { return ref.Shake256(32, ii[:], m) }

// A prover who knows the private key and chooses everything else.
func TestC04_MaliciousProver(t *testing.T) {
	vh.Check(t, vh.N{Quick: 320, Thorough: 6000}, func(rt *rapid.T, c *vh.Case) {
		sk, pk := vrfKey(c)
		k := ref.NewVRFKey(sk[:32])
		m := vh.Bytes(rt, "name", 60)
		own := sk.Compute(m)
		h := ref.HashName(m)
		hB := h.Bytes()
		c.NT()
		kind := rapid.SampledFrom([]string{"torsion", "torsion", "torsion", "torsion-only", "other-multiple", "simulated", "noncanonical"}).Draw(rt, "kind")
		c.Class(kind)
		tor := ref.Torsion[rapid.IntRange(1, 7).Draw(rt, "torsion")]
		c.Tracef("%s key=%s name=%s torsion=%x", kind, vh.Hex(pk), vh.Hex(m), tor.Bytes())
		try := func(what string, ii [32]byte, proof []byte) {
			v := hv(ii, m)
			if bytes.Equal(v, own) {
				return
			}
			if pk.Verify(m, v, proof) {
				c.Fatalf("%s: value %x verifies, but the name's value is %x (proof %x)", what, v, own, proof)
			}
			if pk.Verify(m, own, proof) {
				c.Fatalf("%s: the name's own value verifies with a forged proof %x", what, proof)
			}
		}
		nonce := func() *big.Int { return new(big.Int).Mod(ref.FromLE(c.Rand.Bytes(64)), ref.L) }
		switch kind {
		case "torsion", "torsion-only":
			// ii = h^x + T: the verifier computes B = r*h + c*T; pick r until c*T
			// equals what was hashed
			iiP := h.Mul(k.X).Add(tor)
			if kind == "torsion-only" {
				iiP = tor
			}
			ii := iiP.Bytes()
			for n := 0; n < 4; n++ {
				r := nonce()
				for j := 0; j < 8; j += 1 {
					// guess c = j mod 8, so B = r*h + j*T
					Bp := h.Mul(r).Add(tor.Mul(big.NewInt(int64(j))))
					cc := ref.Challenge(hB, k.Pub, ii, ref.B.Mul(r).Bytes(), Bp.Bytes(), m)
					tt := new(big.Int).Mul(cc, k.X)
					tt.Sub(r, tt).Mod(tt, ref.L)
					cb, tb := ref.LE(cc), ref.LE(tt)
					if kind == "torsion" && new(big.Int).And(cc, big.NewInt(7)).Int64() != int64(j) {
						continue
					}
					c.ClassN("equation satisfied up to the order check", 1)
					try(kind, ii, cat(cb[:], tb[:], ii[:]))
					break
				}
			}
		case "other-multiple":
			x2 := nonce()
			ii := h.Mul(x2).Bytes()
			p := k.ProveWith(m, h, ii, nonce())
			try(kind, ii, p)
			// equal parity of both: prove with the wrong exponent on h only
			r := nonce()
			cc := ref.Challenge(hB, k.Pub, ii, ref.B.Mul(r).Bytes(), h.Mul(r).Bytes(), m)
			tt := new(big.Int).Mul(cc, x2)
			tt.Sub(r, tt).Mod(tt, ref.L)
			cb, tb := ref.LE(cc), ref.LE(tt)
			try(kind, ii, cat(cb[:], tb[:], ii[:]))
		case "simulated":
			// choose c and t first, as a simulator would; the hash must not match
			cc, tt := nonce(), nonce()
			ii := h.Mul(nonce()).Bytes()
			cb, tb := ref.LE(cc), ref.LE(tt)
			try(kind, ii, cat(cb[:], tb[:], ii[:]))
			z := ref.LE(big.NewInt(0))
			try("zero scalars", ii, cat(z[:], z[:], ii[:]))
			l := ref.LE(ref.L)
			try("scalars of the group order", ii, cat(l[:], l[:], ii[:]))
		case "noncanonical":
			// other encodings of the same point (none fits for random points), and
			// unreduced scalars, must not change which value verifies
			v, p := sk.Prove(m)
			y := append([]byte{}, p[64:]...)
			y[31] &= 127
			n := ref.FromLE(y)
			n.Add(n, ref.P)
			if n.BitLen() <= 255 {
				ii := ref.LE(n)
				ii[31] |= p[95] & 128
				try("non-canonical point", ii, cat(p[:64], ii[:]))
			}
			s := ref.FromLE(p[:32])
			s.Add(s, ref.L)
			sb := ref.LE(s)
			if pk.Verify(m, v, cat(sb[:], p[32:])) {
				c.Fatalf("unreduced challenge accepted")
			}
		}
	})
}

// Public keys and intermediate points that are not valid group elements.
func TestC04_InvalidElements(t *testing.T) {
	vh.Check(t, vh.N{Quick: 600, Thorough: 8000}, func(rt *rapid.T, c *vh.Case) {
		sk, _ := vrfKey(c)
		k := ref.NewVRFKey(sk[:32])
		m := vh.Bytes(rt, "name", 60)
		h := ref.HashName(m)
		c.NT()
		kind := rapid.SampledFrom([]string{"identity", "small-order", "mixed-order", "not-on-curve", "noncanonical"}).Draw(rt, "kind")
		c.Class(kind)
		tor := ref.Torsion[rapid.IntRange(1, 7).Draw(rt, "torsion")]
		var pub [32]byte
		x := k.X
		switch kind {
		case "identity":
			pub, x = ref.Identity().Bytes(), big.NewInt(0)
		case "small-order":
			pub, x = tor.Bytes(), big.NewInt(0)
		case "mixed-order":
			pub = ref.B.Mul(x).Add(tor).Bytes()
		case "not-on-curve":
			for {
				copy(pub[:], c.Rand.Bytes(32))
				if _, ok := ref.Decode(pub); !ok {
					break
				}
			}
		case "noncanonical":
			y := int64(rapid.IntRange(0, 18).Draw(rt, "y"))
			pub = ref.LE(new(big.Int).Add(ref.P, big.NewInt(y)))
			if rapid.Bool().Draw(rt, "sign") {
				pub[31] |= 128
			}
			x = big.NewInt(0)
		}
		c.Tracef("%s pub=%x name=%s", kind, pub, vh.Hex(m))
		// prove honestly relative to exponent x; for keys with torsion pick the
		// nonce so that c*T vanishes
		kk := &ref.VRFKey{X: x, Pub: pub}
		for n := 0; n < 16; n++ {
			r := new(big.Int).Mod(ref.FromLE(c.Rand.Bytes(64)), ref.L)
			ii := h.Mul(x).Bytes()
			p := kk.ProveWith(m, h, ii, r)
			if p[0]&7 != 0 && n < 15 {
				continue
			}
			if vrf.PublicKey(pub[:]).Verify(m, hv(ii, m), p) {
				c.Fatalf("a proof under the invalid public key %x verifies", pub)
			}
			// the same element as the intermediate point of a valid key
			p2 := k.ProveWith(m, h, pub, r)
			if vrf.PublicKey(k.Pub[:]).Verify(m, hv(pub, m), p2) {
				c.Fatalf("a proof with the invalid element %x verifies", pub)
			}
			break
		}
		// the honest identity case: key with exponent zero
		id := ref.Identity().Bytes()
		p := (&ref.VRFKey{X: big.NewInt(0), Pub: id}).ProveWith(m, h, id, big.NewInt(5))
		if vrf.PublicKey(id[:]).Verify(m, hv(id, m), p) {
			c.Fatalf("the identity is accepted as public key")
		}
	})
}

// No bytes crash the verifier.
func TestC04_AnyBytes(t *testing.T) {
	vh.Check(t, vh.N{Quick: 4000}, func(rt *rapid.T, c *vh.Case) {
		pk := vh.Bytes(rt, "pk", 40)
		m := vh.Bytes(rt, "m", 40)
		v := vh.Bytes(rt, "v", 40)
		p := vh.Bytes(rt, "p", 100)
		if rapid.Bool().Draw(rt, "right value") && len(p) == vrf.ProofSize {
			v = ref.Shake256(32, p[64:], m)
		}
		c.Tracef("pk=%s m=%s v=%s p=%s", vh.Hex(pk), vh.Hex(m), vh.Hex(v), vh.Hex(p))
		if len(pk) == 32 && len(p) == 96 && len(v) == 32 {
			c.Class("right lengths")
			c.NT()
		}
		if vrf.PublicKey(pk).Verify(m, v, p) {
			c.Fatalf("random bytes verify")
		}
	})
}
