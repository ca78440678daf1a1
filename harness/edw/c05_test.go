//go:build go1.23

package edw

import (
	"crypto/sha512"
	"math/big"
	"testing"

	ed "github.com/coniks-sys/coniks-go/crypto/internal/ed25519/edwards25519"
	"github.com/coniks-sys/coniks-go/crypto/internal/ed25519/extra25519"
	"github.com/coniks-sys/coniks-go/zzverif/ref"
	"github.com/coniks-sys/coniks-go/zzverif/vh"
	"pgregory.net/rapid"
)

var weights = func() (w [10]*big.Int) {
	e := []uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}
	for i := range w {
		w[i] = new(big.Int).Lsh(big.NewInt(1), e[i])
	}
	return
}()

// val is the field value of limbs.
func val(f *ed.FieldElement) *big.Int {
	s := new(big.Int)
	for i, l := range f {
		s.Add(s, new(big.Int).Mul(big.NewInt(int64(l)), weights[i]))
	}
	return s.Mod(s, ref.P)
}

func feBytes(f *ed.FieldElement) [32]byte {
	var cp ed.FieldElement
	ed.FeCopy(&cp, f)
	var b [32]byte
	ed.FeToBytes(&b, &cp)
	return b
}

// fe draws limbs; scale 1.0 is the bound of reduced elements (2^25/2^24), 2 that
// of sums of two, which multiplication accepts.
func fe(rt *rapid.T, label string, scale float64) *ed.FieldElement {
	var f ed.FieldElement
	switch rapid.IntRange(0, 3).Draw(rt, label+"_kind") {
	case 0: // extreme limbs
		for i := range f {
			m := int32(scale * 33554432)
			if i%2 == 1 {
				m = int32(scale * 16777216)
			}
			f[i] = rapid.SampledFrom([]int32{0, 1, -1, m, -m, m - 1, 1 - m}).Draw(rt, label+"_limb")
		}
	case 1:
		for i := range f {
			m := int32(scale * 33554432)
			if i%2 == 1 {
				m = int32(scale * 16777216)
			}
			f[i] = rapid.Int32Range(-m, m).Draw(rt, label+"_limb")
		}
	default:
		b := bytes32(rt, label)
		ed.FeFromBytes(&f, &b)
	}
	return &f
}

// bytes32 draws 32 bytes: random, near multiples of p, l and powers of two.
func bytes32(rt *rapid.T, label string) (out [32]byte) {
	base := rapid.SampledFrom([]string{"random", "random", "small", "p", "l", "2^255", "2^256", "bit", "pattern"}).Draw(rt, label+"_base")
	off := big.NewInt(int64(rapid.IntRange(-20, 20).Draw(rt, label+"_off")))
	n := new(big.Int)
	switch base {
	case "random":
		copy(out[:], vh.NewDRBG(rapid.Uint64().Draw(rt, label+"_seed")).Bytes(32))
		return
	case "small":
	case "p":
		n.Set(ref.P)
	case "l":
		n.Mul(ref.L, big.NewInt(int64(rapid.IntRange(1, 15).Draw(rt, label+"_k"))))
	case "2^255":
		n.Lsh(big.NewInt(1), 255)
	case "2^256":
		n.Lsh(big.NewInt(1), 256)
	case "bit":
		n.Lsh(big.NewInt(1), uint(rapid.IntRange(0, 255).Draw(rt, label+"_bit")))
	case "pattern":
		b := rapid.SampledFrom([]byte{0x0f, 0xf0, 0x88, 0x77, 0x7f, 0x80, 0xff, 0xaa, 0x08}).Draw(rt, label+"_pat")
		for i := range out {
			out[i] = b
		}
		return
	}
	n.Add(n, off)
	n.Mod(n, new(big.Int).Lsh(big.NewInt(1), 256))
	return ref.LE(n)
}

func TestC05_Field(t *testing.T) {
	vh.Check(t, vh.N{Quick: 60000}, func(rt *rapid.T, c *vh.Case) {
		f, g := fe(rt, "f", 1.0), fe(rt, "g", 1.0)
		vf, vg := val(f), val(g)
		c.Tracef("f=%v g=%v", *f, *g)
		c.NT()
		want := func(op string, got *ed.FieldElement, w *big.Int) {
			if v := val(got); v.Cmp(ref.Mod(w)) != 0 {
				c.Fatalf("%s = %x, want %x", op, v, ref.Mod(w))
			}
			b := feBytes(got)
			if b != ref.LE(ref.Mod(w)) {
				c.Fatalf("%s encodes as %x, want %x", op, b, ref.LE(ref.Mod(w)))
			}
		}
		var h, s, d ed.FieldElement
		ed.FeAdd(&s, f, g)
		if val(&s).Cmp(ref.Mod(new(big.Int).Add(vf, vg))) != 0 {
			c.Fatalf("FeAdd")
		}
		ed.FeSub(&d, f, g)
		if val(&d).Cmp(ref.Mod(new(big.Int).Sub(vf, vg))) != 0 {
			c.Fatalf("FeSub")
		}
		ed.FeNeg(&h, f)
		want("FeNeg", &h, new(big.Int).Neg(vf))
		ed.FeMul(&h, f, g)
		want("FeMul", &h, new(big.Int).Mul(vf, vg))
		// unreduced sums are legal operands of multiplication and squaring
		vs, vd := val(&s), val(&d)
		ed.FeMul(&h, &s, &d)
		want("FeMul(f+g, f-g)", &h, new(big.Int).Mul(vs, vd))
		ed.FeSquare(&h, f)
		want("FeSquare", &h, new(big.Int).Mul(vf, vf))
		ed.FeSquare(&h, &s)
		want("FeSquare(f+g)", &h, new(big.Int).Mul(vs, vs))
		ed.FeSquare2(&h, &d)
		want("FeSquare2(f-g)", &h, new(big.Int).Lsh(new(big.Int).Mul(vd, vd), 1))
		ed.FeCopy(&h, f)
		ed.FeMul(&h, &h, g)
		want("FeMul in place", &h, new(big.Int).Mul(vf, vg))
		if val(f).Cmp(vf) != 0 || val(g).Cmp(vg) != 0 {
			c.Fatalf("an operand changed")
		}
		var fc ed.FieldElement
		ed.FeCopy(&fc, f)
		if got := ed.FeIsNegative(&fc); uint(got) != vf.Bit(0) {
			c.Fatalf("FeIsNegative(%x) = %d", vf, got)
		}
		ed.FeCopy(&fc, f)
		nz := int32(1)
		if vf.Sign() == 0 {
			nz = 0
		}
		if got := ed.FeIsNonZero(&fc); got != nz {
			c.Fatalf("FeIsNonZero(%x) = %d", vf, got)
		}
		ed.FeCopy(&fc, f)
		ed.FeCMove(&fc, g, 0)
		if fc != *f {
			c.Fatalf("FeCMove 0")
		}
		ed.FeCMove(&fc, g, 1)
		if fc != *g {
			c.Fatalf("FeCMove 1")
		}
	})
}

func TestC05_FieldBytesInvert(t *testing.T) {
	vh.Check(t, vh.N{Quick: 20000}, func(rt *rapid.T, c *vh.Case) {
		b := bytes32(rt, "b")
		c.Tracef("%x", b)
		c.NT()
		var f ed.FieldElement
		in := b
		ed.FeFromBytes(&f, &in)
		if in != b {
			c.Fatalf("FeFromBytes changed its input")
		}
		m := b
		m[31] &= 127
		v := ref.Mod(ref.FromLE(m[:]))
		if val(&f).Cmp(v) != 0 || feBytes(&f) != ref.LE(v) {
			c.Fatalf("FeFromBytes(%x) = %x", b, val(&f))
		}
		var h ed.FieldElement
		ed.FeInvert(&h, &f)
		if val(&h).Cmp(ref.Inv(v)) != 0 {
			c.Fatalf("FeInvert(%x) = %x", v, val(&h))
		}
		ed.FeInvert(&f, &f)
		if val(&f).Cmp(ref.Inv(v)) != 0 {
			c.Fatalf("FeInvert in place")
		}
		var z, o ed.FieldElement
		ed.FeCopy(&z, &f)
		ed.FeCopy(&o, &f)
		ed.FeZero(&z)
		ed.FeOne(&o)
		if val(&z).Sign() != 0 || val(&o).Cmp(big.NewInt(1)) != 0 {
			c.Fatalf("FeZero/FeOne")
		}
	})
}

func bytes64(rt *rapid.T, label string) (out [64]byte) {
	switch rapid.IntRange(0, 3).Draw(rt, label+"_kind") {
	case 0:
		lo, hi := bytes32(rt, label+"lo"), bytes32(rt, label+"hi")
		copy(out[:32], lo[:])
		copy(out[32:], hi[:])
	case 1: // near a multiple of l
		k := ref.FromLE(vh.NewDRBG(rapid.Uint64().Draw(rt, label+"_k")).Bytes(32))
		n := k.Mul(k, ref.L)
		n.Add(n, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(rt, label+"_off"))))
		if n.Sign() < 0 {
			n.SetInt64(0)
		}
		for i, b := range n.Bytes() {
			out[len(n.Bytes())-1-i] = b
		}
	case 2:
		b := rapid.SampledFrom([]byte{0, 0xff, 0x7f, 0x80, 1}).Draw(rt, label+"_pat")
		for i := range out {
			out[i] = b
		}
	default:
		copy(out[:], vh.NewDRBG(rapid.Uint64().Draw(rt, label+"_seed")).Bytes(64))
	}
	return
}

func TestC05_Scalars(t *testing.T) {
	vh.Check(t, vh.N{Quick: 60000}, func(rt *rapid.T, c *vh.Case) {
		w := bytes64(rt, "w")
		a, b, d := bytes32(rt, "a"), bytes32(rt, "b"), bytes32(rt, "c")
		c.Tracef("w=%x a=%x b=%x c=%x", w, a, b, d)
		c.NT()
		var r [32]byte
		w0 := w
		ed.ScReduce(&r, &w)
		if want := ref.LE(new(big.Int).Mod(ref.FromLE(w0[:]), ref.L)); r != want || w != w0 {
			c.Fatalf("ScReduce(%x) = %x, want %x", w0, r, want)
		}
		a0, b0, d0 := a, b, d
		ed.ScMulAdd(&r, &a, &b, &d)
		n := new(big.Int).Mul(ref.FromLE(a0[:]), ref.FromLE(b0[:]))
		n.Add(n, ref.FromLE(d0[:]))
		if want := ref.LE(n.Mod(n, ref.L)); r != want || a != a0 || b != b0 || d != d0 {
			c.Fatalf("ScMulAdd(%x,%x,%x) = %x, want %x", a0, b0, d0, r, want)
		}
		// in place
		x := a
		ed.ScMulAdd(&x, &x, &b, &d)
		if x != r {
			c.Fatalf("ScMulAdd in place = %x, want %x", x, r)
		}
		s := new(big.Int).Mod(ref.FromLE(a[:]), ref.L)
		if rapid.IntRange(0, 9).Draw(rt, "s=l") == 0 {
			s.Set(ref.L)
		}
		sb := ref.LE(s)
		ed.ScNeg(&r, &sb)
		if want := ref.LE(new(big.Int).Sub(ref.L, s)); r != want {
			c.Fatalf("ScNeg(%x) = %x, want %x", sb, r, want)
		}
		ed.ScNeg(&sb, &sb)
		if sb != r {
			c.Fatalf("ScNeg in place")
		}
	})
}

// point draws a curve point: multiples of the base point, torsion points, their
// sums, with and without Z=1.
func point(rt *rapid.T, label string) (*ref.Point, *ed.ExtendedGroupElement) {
	p := ref.Identity()
	kind := rapid.IntRange(0, 5).Draw(rt, label+"_kind")
	if kind != 0 {
		if kind == 1 {
			p = ref.B.Mul(big.NewInt(int64(rapid.IntRange(0, 20).Draw(rt, label+"_small"))))
		} else {
			p = ref.B.Mul(ref.FromLE(vh.NewDRBG(rapid.Uint64().Draw(rt, label+"_seed")).Bytes(16)))
		}
	}
	if kind <= 2 {
		p = p.Add(ref.Torsion[rapid.IntRange(0, 7).Draw(rt, label+"_tor")])
	}
	b := p.Bytes()
	var e ed.ExtendedGroupElement
	if !e.FromBytes(&b) {
		rt.Fatalf("FromBytes rejects the point %x", b)
	}
	if rapid.Bool().Draw(rt, label+"_z") { // re-randomise the projective coordinates
		var z ed.FieldElement
		zb := vh.NewDRBG(rapid.Uint64().Draw(rt, label+"_zseed")).Bytes(32)
		zb[0] |= 1
		var za [32]byte
		copy(za[:], zb)
		ed.FeFromBytes(&z, &za)
		ed.FeMul(&e.X, &e.X, &z)
		ed.FeMul(&e.Y, &e.Y, &z)
		ed.FeMul(&e.Z, &e.Z, &z)
		ed.FeMul(&e.T, &e.T, &z)
	}
	return p, &e
}

func ext(e *ed.ExtendedGroupElement) (b [32]byte) { e.ToBytes(&b); return }

func valid(c *vh.Case, what string, e *ed.ExtendedGroupElement) {
	x, y, z, t := val(&e.X), val(&e.Y), val(&e.Z), val(&e.T)
	if z.Sign() == 0 || ref.Mul(x, y).Cmp(ref.Mul(z, t)) != 0 {
		c.Fatalf("%s: invalid extended coordinates", what)
	}
	zi := ref.Inv(z)
	if !ref.OnCurve(ref.Mul(x, zi), ref.Mul(y, zi)) {
		c.Fatalf("%s: not on the curve", what)
	}
}

func TestC05_GroupLaw(t *testing.T) {
	vh.Check(t, vh.N{Quick: 6000, Thorough: 80000}, func(rt *rapid.T, c *vh.Case) {
		p, e := point(rt, "p")
		q, f := point(rt, "q")
		switch rapid.IntRange(0, 5).Draw(rt, "rel") {
		case 0:
			q, f = p, e
		case 1:
			q = p.Neg()
			b := q.Bytes()
			f = new(ed.ExtendedGroupElement)
			if !f.FromBytes(&b) {
				c.Fatalf("FromBytes rejects %x", b)
			}
		}
		c.Tracef("p=%x q=%x", p.Bytes(), q.Bytes())
		c.NT()
		if ext(e) != p.Bytes() {
			c.Fatalf("ToBytes(FromBytes(%x)) = %x", p.Bytes(), ext(e))
		}
		var r ed.ExtendedGroupElement
		ed.GeAdd(&r, e, f)
		valid(c, "GeAdd", &r)
		if ext(&r) != p.Add(q).Bytes() {
			c.Fatalf("GeAdd = %x, want %x", ext(&r), p.Add(q).Bytes())
		}
		var cp ed.ExtendedGroupElement
		ed.ExtendedGroupElementCopy(&cp, e)
		ed.GeAdd(&cp, &cp, f)
		if ext(&cp) != p.Add(q).Bytes() {
			c.Fatalf("GeAdd in place (first)")
		}
		ed.ExtendedGroupElementCopy(&cp, f)
		ed.GeAdd(&cp, e, &cp)
		if ext(&cp) != p.Add(q).Bytes() {
			c.Fatalf("GeAdd in place (second)")
		}
		ed.GeDouble(&r, e)
		valid(c, "GeDouble", &r)
		if ext(&r) != p.Add(p).Bytes() {
			c.Fatalf("GeDouble = %x, want %x", ext(&r), p.Add(p).Bytes())
		}
		ed.ExtendedGroupElementCopy(&cp, e)
		ed.GeDouble(&cp, &cp)
		if ext(&cp) != p.Add(p).Bytes() {
			c.Fatalf("GeDouble in place")
		}
		if ext(e) != p.Bytes() || ext(f) != q.Bytes() {
			c.Fatalf("an operand changed")
		}
		var pr ed.ProjectiveGroupElement
		e.ToProjective(&pr)
		var pb [32]byte
		pr.ToBytes(&pb)
		if pb != p.Bytes() {
			c.Fatalf("ToProjective/ToBytes = %x", pb)
		}
		pr.ToExtended(&r)
		valid(c, "ToExtended", &r)
		if ext(&r) != p.Bytes() {
			c.Fatalf("ToExtended")
		}
		var co ed.CompletedGroupElement
		pr.Double(&co)
		co.ToExtended(&r)
		valid(c, "Double", &r)
		if ext(&r) != p.Add(p).Bytes() {
			c.Fatalf("ProjectiveGroupElement.Double")
		}
		ed.ExtendedGroupElementCMove(&r, f, 0)
		if ext(&r) != p.Add(p).Bytes() {
			c.Fatalf("CMove 0")
		}
		ed.ExtendedGroupElementCMove(&r, f, 1)
		if ext(&r) != q.Bytes() {
			c.Fatalf("CMove 1")
		}
		r.Zero()
		if !ref.Identity().Equal(ref.Identity()) || ext(&r) != ref.Identity().Bytes() {
			c.Fatalf("Zero")
		}
	})
}

func TestC05_ScalarMult(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400, Thorough: 30000}, func(rt *rapid.T, c *vh.Case) {
		p, e := point(rt, "p")
		a, b := bytes32(rt, "a"), bytes32(rt, "b")
		c.Tracef("p=%x a=%x b=%x", p.Bytes(), a, b)
		c.NT()
		var r ed.ExtendedGroupElement
		want := p.Mul(ref.FromLE(a[:]))
		ed.GeScalarMult(&r, &a, e)
		valid(c, "GeScalarMult", &r)
		if ext(&r) != want.Bytes() {
			c.Fatalf("GeScalarMult(%x, %x) = %x, want %x", a, p.Bytes(), ext(&r), want.Bytes())
		}
		if ext(e) != p.Bytes() {
			c.Fatalf("GeScalarMult changed its operand")
		}
		ed.GeScalarMult(e, &a, e)
		if ext(e) != want.Bytes() {
			c.Fatalf("GeScalarMult in place")
		}
		// below 2^255
		a[31] &= 127
		b[31] &= 127
		aB := ref.B.Mul(ref.FromLE(a[:]))
		ed.GeScalarMultBase(&r, &a)
		valid(c, "GeScalarMultBase", &r)
		if ext(&r) != aB.Bytes() {
			c.Fatalf("GeScalarMultBase(%x) = %x, want %x", a, ext(&r), aB.Bytes())
		}
		// e is now another point: a*P + b*B. Scalars as verification uses them are
		// reduced; the sliding window needs room for its last carry.
		ar, br := new(big.Int).Mod(ref.FromLE(a[:]), ref.L), new(big.Int).Mod(ref.FromLE(b[:]), ref.L)
		if rapid.Bool().Draw(rt, "unreduced") {
			ar, br = ref.FromLE(a[:]), ref.FromLE(b[:])
		}
		al, bl := ref.LE(ar), ref.LE(br)
		var pr ed.ProjectiveGroupElement
		ed.GeDoubleScalarMultVartime(&pr, &al, e, &bl)
		var got [32]byte
		pr.ToBytes(&got)
		if w := want.Mul(ar).Add(ref.B.Mul(br)).Bytes(); got != w {
			c.Fatalf("GeDoubleScalarMultVartime(%x, %x, %x) = %x, want %x", al, want.Bytes(), bl, got, w)
		}
	})
}

func TestC05_Decoding(t *testing.T) {
	vh.Check(t, vh.N{Quick: 6000, Thorough: 80000}, func(rt *rapid.T, c *vh.Case) {
		var b [32]byte
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0:
			b = bytes32(rt, "b")
		case 1: // torsion and mixed order, prime order
			p, _ := point(rt, "p")
			b = p.Bytes()
		case 2: // non-canonical y
			y := int64(rapid.IntRange(0, 18).Draw(rt, "y"))
			b = ref.LE(new(big.Int).Add(ref.P, big.NewInt(y)))
		case 3: // small y, canonical
			b = ref.LE(big.NewInt(int64(rapid.IntRange(0, 200).Draw(rt, "y"))))
		}
		if rapid.Bool().Draw(rt, "sign") {
			b[31] ^= 128
		}
		c.Tracef("%x", b)
		want, ok := ref.Decode(b)
		var e ed.ExtendedGroupElement
		in := b
		got := e.FromBytes(&in)
		if got != ok || in != b {
			c.Fatalf("FromBytes(%x) = %v, want %v", b, got, ok)
		}
		canonical := false
		if ok {
			c.NT()
			valid(c, "FromBytes", &e)
			if ext(&e) != want.Bytes() {
				c.Fatalf("FromBytes(%x) gives %x, want %x", b, ext(&e), want.Bytes())
			}
			canonical = want.Bytes() == b
		}
		if !canonical {
			c.Class("not canonical or not a point")
		}
		inBase := canonical && !want.IsIdentity() && want.Mul(ref.L).IsIdentity()
		if inBase {
			c.Class("in base group")
		} else if canonical {
			c.Class("point outside base group")
		}
		var g ed.ExtendedGroupElement
		if got := g.FromBytesBaseGroup(&in); got != inBase {
			c.Fatalf("FromBytesBaseGroup(%x) = %v, want %v", b, got, inBase)
		}
		if inBase {
			valid(c, "FromBytesBaseGroup", &g)
			if ext(&g) != b {
				c.Fatalf("FromBytesBaseGroup(%x) gives %x", b, ext(&g))
			}
		}
	})
}

func TestC05_Elligator(t *testing.T) {
	vh.Check(t, vh.N{Quick: 8000, Thorough: 120000}, func(rt *rapid.T, c *vh.Case) {
		h := bytes32(rt, "h")
		c.Tracef("%x", h)
		c.NT()
		want := ref.HashToEdwards(h)
		var e ed.ExtendedGroupElement
		in := h
		extra25519.HashToEdwards(&e, &in)
		valid(c, "HashToEdwards", &e)
		if ext(&e) != want.Bytes() || in != h {
			c.Fatalf("HashToEdwards(%x) = %x, want %x", h, ext(&e), want.Bytes())
		}
		// the Montgomery form of the same map
		rep := h
		rep[31] &= 127
		u := ref.MontgomeryFromRepresentative(ref.FromLE(rep[:]))
		var pub [32]byte
		extra25519.RepresentativeToPublicKey(&pub, &rep)
		if pub != ref.LE(u) {
			c.Fatalf("RepresentativeToPublicKey(%x) = %x, want %x", rep, pub, ref.LE(u))
		}
	})
}

func clamp(b []byte) *big.Int {
	x := append([]byte{}, b[:32]...)
	x[0] &= 248
	x[31] &= 127
	x[31] |= 64
	return ref.FromLE(x)
}

// montU is the Montgomery coordinate of an Edwards point.
func montU(p *ref.Point) *big.Int {
	_, y := p.XY()
	one := big.NewInt(1)
	return ref.Mul(new(big.Int).Add(one, y), ref.Inv(new(big.Int).Sub(one, y)))
}

func TestC05_Curve25519Keys(t *testing.T) {
	vh.Check(t, vh.N{Quick: 2400, Thorough: 30000}, func(rt *rapid.T, c *vh.Case) {
		sk := bytes32(rt, "sk")
		c.Tracef("%x", sk)
		want := ref.LE(montU(ref.B.Mul(clamp(sk[:]))))
		var pub, rep [32]byte
		in := sk
		if extra25519.ScalarBaseMult(&pub, &rep, &in) {
			c.NT()
			c.Class("has a representative")
			if pub != want {
				c.Fatalf("ScalarBaseMult(%x): public key %x, want %x", sk, pub, want)
			}
			if u := ref.MontgomeryFromRepresentative(ref.FromLE(rep[:])); ref.LE(u) != want {
				c.Fatalf("ScalarBaseMult(%x): representative %x stands for %x, want %x", sk, rep, ref.LE(u), want)
			}
			var back [32]byte
			extra25519.RepresentativeToPublicKey(&back, &rep)
			if back != want {
				c.Fatalf("RepresentativeToPublicKey(%x) = %x, want %x", rep, back, want)
			}
		} else {
			// no representative: u(u+A) must be a non-square times -2, i.e. -2u(u+A) non-square
			u := ref.FromLE(want[:])
			n := ref.Mul(ref.Mul(big.NewInt(-2), u), new(big.Int).Add(u, ref.A_))
			if big.Jacobi(n, ref.P) == 1 {
				c.Fatalf("ScalarBaseMult(%x) finds no representative for %x", sk, want)
			}
		}
		if in != sk {
			c.Fatalf("ScalarBaseMult changed its input")
		}
		// conversion of Ed25519 keys
		hsh := sha512.Sum512(sk[:])
		A := ref.B.Mul(clamp(hsh[:32]))
		var full [64]byte
		copy(full[:], sk[:])
		ab := A.Bytes()
		copy(full[32:], ab[:])
		var cpriv, cpub [32]byte
		extra25519.PrivateKeyToCurve25519(&cpriv, &full)
		if cpriv != ref.LE(clamp(hsh[:32])) {
			c.Fatalf("PrivateKeyToCurve25519(%x) = %x", full, cpriv)
		}
		if !extra25519.PublicKeyToCurve25519(&cpub, &ab) || cpub != ref.LE(montU(A)) {
			c.Fatalf("PublicKeyToCurve25519(%x) = %x, want %x", ab, cpub, ref.LE(montU(A)))
		}
		b := bytes32(rt, "pk")
		p, ok := ref.Decode(b)
		if got := extra25519.PublicKeyToCurve25519(&cpub, &b); got != ok {
			c.Fatalf("PublicKeyToCurve25519(%x) = %v, want %v", b, got, ok)
		} else if ok && cpub != ref.LE(montU(p)) {
			c.Fatalf("PublicKeyToCurve25519(%x) = %x, want %x", b, cpub, ref.LE(montU(p)))
		}
	})
}
