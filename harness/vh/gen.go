//go:build go1.23

package vh

import (
	"bytes"
	"math/bits"

	"pgregory.net/rapid"
)

// boundary lengths: hash rates, block sizes, word sizes
var lens = []int{0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 96, 127, 128, 135, 136, 137, 167, 168, 169, 255, 256, 257, 336, 337}

// Bytes draws a byte string: boundary lengths, patterns and random content.
func Bytes(rt *rapid.T, label string, maxLen int) []byte {
	var n int
	if rapid.Bool().Draw(rt, label+"_boundary") {
		n = rapid.SampledFrom(lens).Draw(rt, label+"_len")
		if n > maxLen {
			n %= maxLen + 1
		}
	} else {
		n = rapid.IntRange(0, maxLen).Draw(rt, label+"_len")
	}
	switch rapid.IntRange(0, 5).Draw(rt, label+"_kind") {
	case 0:
		return bytes.Repeat([]byte{rapid.SampledFrom([]byte{0, 0xff, 'a', 0x80, 1}).Draw(rt, label+"_b")}, n)
	case 1:
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, label)
	}
	return NewDRBG(rapid.Uint64().Draw(rt, label+"_seed")).Bytes(n)
}

// Guarded returns a copy of b inside a larger array with a canary after it, and
// a function that reports whether b or the canary changed.
func Guarded(b []byte) ([]byte, func() bool) {
	arr := make([]byte, len(b)+48)
	copy(arr, b)
	for i := len(b); i < len(arr); i++ {
		arr[i] = 0xa5
	}
	snap := append([]byte{}, arr...)
	return arr[:len(b)], func() bool { return !bytes.Equal(arr, snap) }
}

// Mutate returns a changed copy of b (never equal to b): bit flip, byte set,
// truncation, extension, insertion, deletion, swap.
func Mutate(rt *rapid.T, label string, b []byte) []byte {
	for try := 0; ; try++ {
		k := rapid.IntRange(0, 7).Draw(rt, label+"_mut")
		out := append([]byte{}, b...)
		if len(b) == 0 || try > 3 {
			k = 3
		}
		switch k {
		case 0, 1:
			i := rapid.IntRange(0, len(b)*8-1).Draw(rt, label+"_bit")
			out[i/8] ^= 1 << (i % 8)
		case 2:
			out = out[:rapid.IntRange(0, len(b)-1).Draw(rt, label+"_cut")]
		case 3:
			out = append(out, rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(rt, label+"_ext")...)
		case 4:
			i := rapid.IntRange(0, len(b)).Draw(rt, label+"_ins")
			out = append(append(append([]byte{}, b[:i]...), rapid.Byte().Draw(rt, label+"_insb")), b[i:]...)
		case 5:
			i := rapid.IntRange(0, len(b)-1).Draw(rt, label+"_del")
			out = append(append([]byte{}, b[:i]...), b[i+1:]...)
		case 6:
			i := rapid.IntRange(0, len(b)-1).Draw(rt, label+"_i")
			j := rapid.IntRange(0, len(b)-1).Draw(rt, label+"_j")
			out[i], out[j] = out[j], out[i]
		case 7:
			i := rapid.IntRange(0, len(b)-1).Draw(rt, label+"_i")
			out[i] = bits.Reverse8(out[i]) + 1
		}
		if !bytes.Equal(out, b) {
			return out
		}
	}
}

// FlipBit returns b with bit i inverted.
func FlipBit(b []byte, i int) []byte {
	out := append([]byte{}, b...)
	out[i/8] ^= 1 << (i % 8)
	return out
}

// Names draws the pool of names a case works with.  deep: names whose indices
// under the key from NewDRBG(42) are close to each other.
func Names(rt *rapid.T, deep bool, n int) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	if deep {
		g := rapid.SampledFrom(DeepNames).Draw(rt, "group")
		// the deepest pair stands in the middle of the first eight
		k := rapid.IntRange(1, len(g)).Draw(rt, "groupSize")
		add(g[3])
		add(g[4])
		for _, s := range g[:k] {
			if len(out) < n {
				add(s)
			}
		}
	}
	for len(out) < n {
		switch rapid.IntRange(0, 9).Draw(rt, "nameKind") {
		case 0:
			add(string(Bytes(rt, "name", 40)))
		case 1:
			add(rapid.SampledFrom([]string{"alice", "Alice", "alice ", "alice@twitter", "bob", "b", "\x00", "ünïcödé", "alice\x00"}).Draw(rt, "name"))
		default:
			add(rapid.StringMatching(`[a-z]{1,6}`).Draw(rt, "name"))
		}
	}
	return out
}

// LogInt draws from lo to hi (lo > 0), every order of magnitude alike.
func LogInt(rt *rapid.T, label string, lo, hi int) int {
	k := rapid.IntRange(bits.Len(uint(lo)), bits.Len(uint(hi))).Draw(rt, label+"_mag")
	return rapid.IntRange(max(lo, 1<<(k-1)), min(hi, 1<<k-1)).Draw(rt, label)
}

// Big draws a byte string of up to maxLen bytes, which may be much.
func Big(rt *rapid.T, label string, maxLen int) []byte {
	return NewDRBG(rapid.Uint64().Draw(rt, label+"_seed")).Bytes(LogInt(rt, label+"_len", 1, maxLen))
}
