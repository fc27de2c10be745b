package main

import (
	"crypto/sha256"
	"encoding/binary"

	"pgregory.net/rapid"
)

// B is a byte string in a case (base64 in JSON).
type B []byte

var lenClasses = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 191, 255, 256, 257}

// genLen draws a length: boundary classes, small, medium, and now and then big.
func genLen(t *rapid.T, name string, max int) int {
	switch rapid.IntRange(0, 9).Draw(t, name+"LenKind") {
	case 0, 1, 2:
		n := rapid.SampledFrom(lenClasses).Draw(t, name+"Len")
		if n > max {
			n = max
		}
		return n
	case 9:
		return rapid.IntRange(0, max).Draw(t, name+"Len")
	default:
		m := 80
		if m > max {
			m = max
		}
		return rapid.IntRange(0, m).Draw(t, name+"Len")
	}
}

func expand(seed []byte, n int) []byte {
	out := make([]byte, 0, n+32)
	var c uint64
	for len(out) < n {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], c)
		h := sha256.Sum256(append(append([]byte{}, seed...), b[:]...))
		out = append(out, h[:]...)
		c++
	}
	return out[:n]
}

// genBytes draws a byte string of up to max bytes.
func genBytes(t *rapid.T, name string, max int) B {
	n := genLen(t, name, max)
	return genBytesN(t, name, n)
}

func genBytesN(t *rapid.T, name string, n int) B {
	if n == 0 {
		return B{}
	}
	switch rapid.IntRange(0, 3).Draw(t, name+"Kind") {
	case 0: // repeated byte
		b := rapid.Byte().Draw(t, name+"Byte")
		out := make([]byte, n)
		for i := range out {
			out[i] = b
		}
		return out
	case 1: // readable
		txt := []byte(`{"log":[{"time":1571887976,"kind":"add","uuid":"d6f"},{"key":"pass","value":"hunter2"}]}`)
		o := rapid.IntRange(0, len(txt)-1).Draw(t, name+"Off")
		out := make([]byte, n)
		for i := range out {
			out[i] = txt[(i+o)%len(txt)]
		}
		return out
	default:
		if n <= 32 {
			return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, name)
		}
		s := rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, name+"Seed")
		return expand(s, n)
	}
}

// genPass draws a non-empty passphrase that does not end in a zero byte
// (HMAC treats trailing zero bytes of short keys as absent).
func genPass(t *rapid.T, name string) B {
	var b []byte
	switch rapid.IntRange(0, 5).Draw(t, name+"Kind") {
	case 0:
		b = []byte(rapid.SampledFrom([]string{"a", "hunter2", "correct horse battery staple", "pässwörd", "日本語", " ", "p%41ss", "user1"}).Draw(t, name))
	case 1:
		b = genBytesN(t, name, rapid.IntRange(60, 140).Draw(t, name+"N"))
	case 2:
		b = rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, name)
	default:
		b = []byte(rapid.StringMatching(`[a-zA-Z0-9 !-~]{1,20}`).Draw(t, name))
	}
	b = append([]byte{}, b...)
	if b[len(b)-1] == 0 {
		b[len(b)-1] = 'z'
	}
	return b
}

func genFixed(t *rapid.T, name string, n int) B {
	s := rapid.SliceOfN(rapid.Byte(), 6, 6).Draw(t, name)
	return expand(s, n)
}

func genUserName(t *rapid.T, name string) B {
	switch rapid.IntRange(0, 3).Draw(t, name+"Kind") {
	case 0:
		return []byte(rapid.SampledFrom([]string{"alice", "bob", "Alice", "alice ", "user/alice", "ålice", "a", "root"}).Draw(t, name))
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, name)
	default:
		return []byte(rapid.StringMatching(`[a-z]{1,8}`).Draw(t, name))
	}
}

// genSlice draws a list of up to max elements whose length is spread over the
// whole range (rapid alone rarely goes beyond a handful), and still shrinks well.
func genSlice[T any](t *rapid.T, name string, min, max int, g *rapid.Generator[T]) []T {
	lo := min + rapid.SampledFrom([]int{0, 0, 0, (max - min) / 8, (max - min) / 4, (max - min) / 2, (max - min) * 4 / 5}).Draw(t, name+"Min")
	return rapid.SliceOfN(g, lo, max).Draw(t, name)
}
