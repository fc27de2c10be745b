package main

import (
	"bytes"
	"fmt"

	"github.com/aarondl/bpass/pkcs7"
	"pgregory.net/rapid"
)

type c08pad struct {
	Data  B
	K     int
	Spare int
}
type c08unpad struct{ Data B }

func init() {
	part("C08", "pad", 100000, 3000000,
		"byte strings of up to 700 bytes and block sizes 1..255; non-trivial: block size above 1",
		func(t *rapid.T) c08pad {
			return c08pad{genBytes(t, "data", 700), rapid.IntRange(1, 255).Draw(t, "k"), rapid.IntRange(0, 300).Draw(t, "spare")}
		},
		func(c c08pad, x *Ctx) error {
			if c.K > 1 {
				x.NonTrivial()
			}
			in := append(make([]byte, 0, len(c.Data)+c.Spare), c.Data...)
			var out, back []byte
			var err error
			if e := guard("Pad", func() { out = pkcs7.Pad(in, c.K) }); e != nil {
				return e
			}
			n := len(out) - len(c.Data)
			if n < 1 || n > c.K || len(out)%c.K != 0 || !bytes.HasPrefix(out, c.Data) {
				return failf("pad(%d bytes, k=%d) has %d bytes", len(c.Data), c.K, len(out))
			}
			for _, b := range out[len(c.Data):] {
				if int(b) != n {
					return failf("pad(%d bytes, k=%d): padding byte %d, want %d", len(c.Data), c.K, b, n)
				}
			}
			if !bytes.Equal(in, c.Data) {
				return failf("pad changed its input")
			}
			x.LabelIf(n == c.K, "full block")
			if e := guard("Unpad", func() { back, err = pkcs7.Unpad(clone(out)) }); e != nil {
				return e
			}
			if err != nil || !bytes.Equal(back, c.Data) {
				return failf("unpad(pad(%d bytes, k=%d)): %d bytes, err %v", len(c.Data), c.K, len(back), err)
			}
			return nil
		})
	part("C08", "unpad", 100000, 3000000,
		"byte strings, half of them ending in nearly valid padding (right, one byte off, zero, too long); non-trivial: not empty",
		func(t *rapid.T) c08unpad {
			d := append([]byte{}, genBytes(t, "data", 300)...)
			switch rapid.IntRange(0, 4).Draw(t, "kind") {
			case 1, 2:
				n := rapid.IntRange(0, 255).Draw(t, "n")
				if rapid.Bool().Draw(t, "small") {
					n %= 18
				}
				m := n
				if rapid.Bool().Draw(t, "off") {
					m += rapid.IntRange(-2, 2).Draw(t, "delta")
				}
				if m < 0 {
					m = 0
				}
				d = append(d, bytes.Repeat([]byte{byte(n)}, m)...)
			case 3:
				n := rapid.IntRange(1, 40).Draw(t, "n")
				d = append(d, bytes.Repeat([]byte{byte(n)}, n)...)
				d[len(d)-1-rapid.IntRange(0, n-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			case 4:
				d = append(d, 0)
			}
			return c08unpad{d}
		},
		func(c c08unpad, x *Ctx) error {
			if len(c.Data) > 0 {
				x.NonTrivial()
			}
			valid := false
			n := 0
			if len(c.Data) > 0 {
				n = int(c.Data[len(c.Data)-1])
				valid = n >= 1 && n <= len(c.Data)
				for i := 0; valid && i < n; i++ {
					valid = int(c.Data[len(c.Data)-1-i]) == n
				}
			}
			x.Label(fmt.Sprintf("valid=%v", valid))
			in := clone(c.Data)
			if in == nil {
				in = []byte{}
			}
			var out []byte
			var err error
			if e := guard("Unpad", func() { out, err = pkcs7.Unpad(in) }); e != nil {
				return e
			}
			if !bytes.Equal(in, c.Data) {
				return failf("unpad changed its input")
			}
			if valid {
				if err != nil || !bytes.Equal(out, c.Data[:len(c.Data)-n]) {
					return failf("valid padding of %d rejected or wrongly removed: %v", n, err)
				}
			} else if err == nil {
				return failf("invalid padding accepted: last byte %d of %d bytes", n, len(c.Data))
			}
			return nil
		})
}
