//go:build go1.23

// Package ref is an independent, slow implementation of the mathematics the
// project relies on: edwards25519 over math/big, the Elligator map, the VRF.
package ref

import (
	"math/big"

	"golang.org/x/crypto/sha3"
)

func bi(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

var (
	P  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	L  = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), bi("27742317777372353535851937790883648493"))
	D  = mod(mul(big.NewInt(-121665), inv(big.NewInt(121666))))
	I  = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P, one), 2), P) // sqrt(-1)
	A_ = big.NewInt(486662)

	one  = big.NewInt(1)
	zero = big.NewInt(0)

	// B is the base point: y=4/5, x even.
	B = func() *Point {
		p, ok := FromY(mod(mul(big.NewInt(4), inv(big.NewInt(5)))), 0)
		if !ok {
			panic("base point")
		}
		return p
	}()
)

func mod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, P) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(a, b), P) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Add(a, b), P) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Sub(a, b), P) }

// inv(0) = 0, as exponentiation by p-2 gives.
func inv(a *big.Int) *big.Int {
	return new(big.Int).Exp(new(big.Int).Mod(a, P), new(big.Int).Sub(P, big.NewInt(2)), P)
}

// Inv, Mul, ... on field elements.
func Inv(a *big.Int) *big.Int    { return inv(a) }
func Mul(a, b *big.Int) *big.Int { return mul(a, b) }
func Mod(a *big.Int) *big.Int    { return mod(a) }

// Point is a point in extended coordinates.
type Point struct{ X, Y, Z, T *big.Int }

// Identity is the neutral element.
func Identity() *Point { return &Point{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)} }

// Affine makes a point of affine coordinates.
func Affine(x, y *big.Int) *Point { return &Point{x, y, big.NewInt(1), mul(x, y)} }

// XY returns affine coordinates.
func (p *Point) XY() (x, y *big.Int) {
	z := inv(p.Z)
	return mul(p.X, z), mul(p.Y, z)
}

// OnCurve checks -x^2+y^2 = 1+d x^2 y^2.
func OnCurve(x, y *big.Int) bool {
	xx, yy := mul(x, x), mul(y, y)
	return sub(yy, xx).Cmp(add(one, mul(D, mul(xx, yy)))) == 0
}

// Add is the complete addition law.
func (p *Point) Add(q *Point) *Point {
	a := mul(sub(p.Y, p.X), sub(q.Y, q.X))
	b := mul(add(p.Y, p.X), add(q.Y, q.X))
	c := mul(mul(p.T, add(D, D)), q.T)
	d := mul(add(p.Z, p.Z), q.Z)
	e, f, g, h := sub(b, a), sub(d, c), add(d, c), add(b, a)
	return &Point{mul(e, f), mul(g, h), mul(f, g), mul(e, h)}
}

// Neg is -p.
func (p *Point) Neg() *Point {
	return &Point{sub(zero, p.X), new(big.Int).Set(p.Y), new(big.Int).Set(p.Z), sub(zero, p.T)}
}

// Mul is k*p for k >= 0.
func (p *Point) Mul(k *big.Int) *Point {
	r := Identity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

// Equal compares points.
func (p *Point) Equal(q *Point) bool {
	return mul(p.X, q.Z).Cmp(mul(q.X, p.Z)) == 0 && mul(p.Y, q.Z).Cmp(mul(q.Y, p.Z)) == 0
}

// IsIdentity reports p == 0.
func (p *Point) IsIdentity() bool { return p.Equal(Identity()) }

// LE encodes n in 32 little-endian bytes.
func LE(n *big.Int) (out [32]byte) {
	b := n.Bytes()
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return
}

// FromLE decodes little-endian bytes.
func FromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// Bytes is the canonical encoding.
func (p *Point) Bytes() [32]byte {
	x, y := p.XY()
	out := LE(y)
	out[31] |= byte(x.Bit(0)) << 7
	return out
}

// Sqrt returns a square root of a mod p, if there is one.
func Sqrt(a *big.Int) (*big.Int, bool) {
	a = mod(a)
	r := new(big.Int).ModSqrt(a, P)
	return r, r != nil
}

// FromY decompresses: the point with this y and this parity of x.
func FromY(y *big.Int, bit uint) (*Point, bool) {
	y = mod(y)
	yy := mul(y, y)
	x, ok := Sqrt(mul(sub(yy, one), inv(add(mul(D, yy), one))))
	if !ok {
		return nil, false
	}
	if x.Bit(0) != bit {
		x = sub(zero, x)
	}
	return Affine(x, y), true
}

// Decode reads an encoding, canonical or not.
func Decode(b [32]byte) (*Point, bool) {
	bit := uint(b[31] >> 7)
	b[31] &= 127
	return FromY(FromLE(b[:]), bit)
}

// Torsion returns the eight points of order dividing 8.
var Torsion = func() []*Point {
	// any point times L is a torsion point; find one of order 8
	for i := int64(2); ; i++ {
		p, ok := FromY(big.NewInt(i), 0)
		if !ok {
			continue
		}
		t := p.Mul(L)
		if t.Mul(big.NewInt(4)).IsIdentity() {
			continue
		}
		out := []*Point{}
		q := Identity()
		for j := 0; j < 8; j++ {
			out = append(out, q)
			q = q.Add(t)
		}
		return out
	}
}()

// MontgomeryFromRepresentative is the Elligator 2 map to Montgomery u.
func MontgomeryFromRepresentative(r *big.Int) *big.Int {
	u := mul(sub(zero, A_), inv(add(one, mul(big.NewInt(2), mul(r, r)))))
	e := add(add(mul(u, mul(u, u)), mul(A_, mul(u, u))), u)
	if big.Jacobi(mod(e), P) == -1 {
		u = sub(sub(zero, u), A_)
	}
	return u
}

// HashToEdwards maps 32 bytes to a point: top bit is the parity of x.
func HashToEdwards(h [32]byte) *Point {
	bit := uint(h[31] >> 7)
	h[31] &= 127
	u := MontgomeryFromRepresentative(FromLE(h[:]))
	y := mul(sub(u, one), inv(add(u, one)))
	p, ok := FromY(y, bit)
	if !ok {
		panic("ref: Elligator image not on curve")
	}
	return p
}

// Shake256 hashes the concatenation of the parts to n bytes.
func Shake256(n int, parts ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, n)
	h.Read(out)
	return out
}

// HashName is H(n) = 8*f(h(n)).
func HashName(m []byte) *Point {
	var h [32]byte
	copy(h[:], Shake256(32, m))
	p := HashToEdwards(h)
	for i := 0; i < 3; i++ {
		p = p.Add(p)
	}
	return p
}

// VRFKey is an expanded VRF key.
type VRFKey struct {
	X   *big.Int // secret scalar
	R   []byte   // nonce key
	Pub [32]byte
}

// NewVRFKey expands a 32-byte seed.
func NewVRFKey(seed []byte) *VRFKey {
	h := Shake256(64, seed[:32])
	x := append([]byte{}, h[:32]...)
	x[0] &= 248
	x[31] &= 127
	x[31] |= 64
	k := &VRFKey{X: FromLE(x), R: h[32:]}
	k.Pub = B.Mul(k.X).Bytes()
	return k
}

// Compute is VRF_x(n) = h(H(n)^x, n).
func (k *VRFKey) Compute(m []byte) []byte {
	ii := HashName(m).Mul(k.X).Bytes()
	return Shake256(32, ii[:], m)
}

// Challenge is H2 over all elements, reduced mod L.
func Challenge(h, pub, ii, a, b [32]byte, m []byte) *big.Int {
	g := B.Bytes()
	c := FromLE(Shake256(64, g[:], h[:], pub[:], ii[:], a[:], b[:], m))
	return c.Mod(c, L)
}

// Prove gives the proof (c, t, ii).
func (k *VRFKey) Prove(m []byte) (vrf, proof []byte) {
	h := HashName(m)
	r := FromLE(Shake256(64, k.R, k.Pub[:], m))
	r.Mod(r, L)
	ii := h.Mul(k.X).Bytes()
	return Shake256(32, ii[:], m), k.ProveWith(m, h, ii, r)
}

// ProveWith makes a proof for a chosen intermediate point and nonce.
func (k *VRFKey) ProveWith(m []byte, h *Point, ii [32]byte, r *big.Int) []byte {
	c := Challenge(h.Bytes(), k.Pub, ii, B.Mul(r).Bytes(), h.Mul(r).Bytes(), m)
	t := new(big.Int).Mul(c, k.X)
	t.Sub(r, t).Mod(t, L)
	cb, tb := LE(c), LE(t)
	return append(append(append([]byte{}, cb[:]...), tb[:]...), ii[:]...)
}

// Shake128 is the project's digest: 32 bytes of SHAKE128 over the parts.
func Shake128(parts ...[]byte) []byte {
	h := sha3.NewShake128()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, 32)
	h.Read(out)
	return out
}
