package hx

import (
	"encoding/binary"
	"strings"

	"pgregory.net/rapid"
)

// LegalKeyByte reports whether memcached's protocol allows b in a key.
func LegalKeyByte(b byte) bool { return b > 0x20 && b != 0x7f }

// LegalKey reports whether the text protocols can express the key.
func LegalKey(k string) bool {
	if len(k) == 0 || len(k) > 250 {
		return false
	}
	for i := 0; i < len(k); i++ {
		if !LegalKeyByte(k[i]) {
			return false
		}
	}
	return true
}

func legalByte() *rapid.Generator[byte] {
	return rapid.Custom(func(t *rapid.T) byte {
		n := rapid.IntRange(0, 0x5e+0x80-1).Draw(t, "b")
		if n < 0x5e {
			return byte(0x21 + n)
		}
		return byte(0x80 + n - 0x5e)
	})
}

// Key generates legal keys: plain, keyword-like, arbitrary bytes, long.
func Key() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z]{1,8}`),
		rapid.SampledFrom([]string{"f", "c", "t", "k", "f0", "c1", "t-1", "kk", "VALUE", "END", "EN", "MN", "HD", "0", "-1", "noreply", "a:b/c", "ключ", "\u00a0x", "a\u2003b", "\xff\xfe", "\x80", "q", "v"}),
		rapid.Custom(func(t *rapid.T) string {
			return string(rapid.SliceOfN(legalByte(), 1, 40).Draw(t, "raw"))
		}),
		rapid.Custom(func(t *rapid.T) string {
			n := rapid.SampledFrom([]int{100, 127, 128, 249, 250}).Draw(t, "len")
			c := legalByte().Draw(t, "c")
			return strings.Repeat(string([]byte{c}), n)
		}),
	)
}

// Keys generates n distinct legal keys.
func Keys(min, max int) *rapid.Generator[[]string] {
	return rapid.SliceOfNDistinct(Key(), min, max, rapid.ID[string])
}

var nasty = []string{"", "\r\n", "\n", "END\r\n", "STORED\r\n", "EN\r\n", "MN\r\n", "HD\r\n", "VALUE a 0 1\r\nx\r\nEND\r\n", "VA 1 f0\r\nx\r\n",
	"\x81\x00\x00\x00", "\x80", "\x00", "ERROR\r\n", "0", "1", "18446744073709551615", "%d%s%!", " ", "\r", "END", "x\r\nEND\r\nget a\r\n"}

var valueSizes = []int{1, 2, 3, 100, 1023, 1024, 2047, 4000, 4070, 4080, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537}
var hugeSizes = []int{131072, 300000, 524288, 700000, 1000000, 1048000}

// Value generates values of all kinds and sizes.
func Value() *rapid.Generator[[]byte] {
	return rapid.OneOf(
		rapid.SliceOfN(rapid.Byte(), 0, 24),
		rapid.Custom(func(t *rapid.T) []byte { return []byte(rapid.SampledFrom(nasty).Draw(t, "nasty")) }),
		rapid.Custom(func(t *rapid.T) []byte {
			return Fill(rapid.SampledFrom(valueSizes).Draw(t, "size"), rapid.Byte().Draw(t, "salt"))
		}),
	)
}

// BigValue adds values up to the item limit.
func BigValue() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		if rapid.IntRange(0, 19).Draw(t, "huge") == 19 {
			return Fill(rapid.SampledFrom(hugeSizes).Draw(t, "size"), rapid.Byte().Draw(t, "salt"))
		}
		return Value().Draw(t, "v")
	})
}

// aboveLimit are sizes that a memcached takes only when it is told to.
var aboveLimit = []int{1<<20 - 2, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 2, 1<<20 + 4096, 1500000, 2 << 20, 2<<20 + 1, 3000001}

// ServedValue is what this module's own server handles: it has no item limit.
func ServedValue() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		if rapid.IntRange(0, 99).Draw(t, "above") == 99 {
			return Fill(rapid.SampledFrom(aboveLimit).Draw(t, "size"), rapid.Byte().Draw(t, "salt"))
		}
		return BigValue().Draw(t, "v")
	})
}

// AboveValue is larger than the usual item limit, or about as large.
func AboveValue() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := rapid.OneOf(rapid.SampledFrom(aboveLimit), rapid.IntRange(1<<20-100, 1<<20+100), rapid.IntRange(1<<20, 6<<20), rapid.SampledFrom([]int{8 << 20, 16<<20 + 1, 24000000})).Draw(t, "size")
		return Fill(n, rapid.Byte().Draw(t, "salt"))
	})
}

// SmallValue keeps histories cheap.
func SmallValue() *rapid.Generator[[]byte] {
	return rapid.OneOf(
		rapid.SliceOfN(rapid.Byte(), 0, 12),
		rapid.Custom(func(t *rapid.T) []byte { return []byte(rapid.SampledFrom(nasty).Draw(t, "nasty")) }),
	)
}

// Fill makes n position-dependent bytes, so that shifted or mixed up content
// is noticed.
func Fill(n int, salt byte) []byte {
	b := make([]byte, n)
	x := uint32(salt)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// Flags32 generates flag words with the boundary values.
func Flags32() *rapid.Generator[uint32] {
	return rapid.OneOf(
		rapid.SampledFrom([]uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xdeadbeef, 0xffffffff}),
		rapid.Uint32(),
	)
}

// FlagBytes generates nil or four big-endian bytes.
func FlagBytes() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		if rapid.IntRange(0, 3).Draw(t, "noflags") == 0 {
			return nil
		}
		return U32(Flags32().Draw(t, "flags"))
	})
}

// U32 is the wire form of flags.
func U32(v uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return b
}

// FlagWord is the flag word an item stored with these flag bytes has.
func FlagWord(b []byte) uint32 {
	if len(b) == 4 {
		return binary.BigEndian.Uint32(b)
	}
	return 0
}

// Segments generates reply chunk patterns; empty means untouched.
func Segments() *rapid.Generator[[]int] {
	return rapid.OneOf(
		rapid.Just([]int(nil)),
		rapid.Just([]int{1}),
		rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 8, 11, 13, 16, 23, 24, 25, 28, 32, 64, 100, 1000, 4095, 4096, 4097}), 1, 8),
	)
}

// LongTTL generates lifetimes that do not end during a case: none or relative.
func LongTTL() *rapid.Generator[int] {
	return rapid.OneOf(rapid.Just(0), rapid.SampledFrom([]int{1000, 86400, 100000, 2591999, 2592000}), rapid.IntRange(1000, 2592000))
}
