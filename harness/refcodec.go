package main

// An independent implementation of the published version-1 file layout:
//
//   single: "blobpass" "0001" "0000" salt[32] iv[40] ct
//   multi:  "blobpass" "0001" "%04d" n*( sha256(user)[32] salt[32] iv[40] mkey[96] ) ivm[40] ct
//   ct = E(sha512(everything before ct || data) || data)
//   E  = for AES-256, Camellia-256, CAST5-128: PKCS#7 pad to the block size, CBC
//   96 bytes of key and 40 bytes of IV are split 32/32/16... keys: 32 AES, 32 Camellia, 16 CAST5
//   user key = scrypt(passphrase, salt, 524288, 8, 1)

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"fmt"

	"github.com/enceve/crypto/camellia"
	"golang.org/x/crypto/cast5"
	"golang.org/x/crypto/scrypt"
)

const (
	refKeySize  = 32 + 32 + 16
	refIVSize   = 16 + 16 + 8
	refSaltSize = 32
	refUserSize = 32 + refSaltSize + refIVSize + refKeySize
)

func refKey(pass, salt []byte) []byte {
	k, err := scrypt.Key(pass, salt, 524288, 8, 1, refKeySize)
	must(err)
	return k
}

type refCipher struct {
	b  cipher.Block
	iv []byte
}

func refCiphers(key, iv []byte) []refCipher {
	if len(key) != refKeySize || len(iv) != refIVSize {
		panic(infraError{"refCiphers: bad sizes"})
	}
	a, err := aes.NewCipher(key[:32])
	must(err)
	c, err := camellia.NewCipher(key[32:64])
	must(err)
	k, err := cast5.NewCipher(key[64:80])
	must(err)
	return []refCipher{{a, iv[:16]}, {c, iv[16:32]}, {k, iv[32:40]}}
}

func refEnc(key, iv, data []byte, pad bool) []byte {
	w := append([]byte{}, data...)
	for _, c := range refCiphers(key, iv) {
		bs := c.b.BlockSize()
		if pad {
			n := bs - len(w)%bs
			w = append(w, bytes.Repeat([]byte{byte(n)}, n)...)
		}
		prev := c.iv
		for i := 0; i < len(w); i += bs {
			blk := w[i : i+bs]
			for j := range blk {
				blk[j] ^= prev[j]
			}
			c.b.Encrypt(blk, blk)
			prev = blk
		}
	}
	return w
}

var errRef = errors.New("reference: does not decrypt")

func refDec(key, iv, data []byte, pad bool) ([]byte, error) {
	w := append([]byte{}, data...)
	cs := refCiphers(key, iv)
	for k := len(cs) - 1; k >= 0; k-- {
		c := cs[k]
		bs := c.b.BlockSize()
		if len(w) == 0 && pad || len(w)%bs != 0 {
			return nil, errRef
		}
		prev := append([]byte{}, c.iv...)
		for i := 0; i < len(w); i += bs {
			blk := w[i : i+bs]
			ct := append([]byte{}, blk...)
			c.b.Decrypt(blk, blk)
			for j := range blk {
				blk[j] ^= prev[j]
			}
			prev = ct
		}
		if pad {
			n := int(w[len(w)-1])
			if n < 1 || n > bs || n > len(w) {
				return nil, errRef
			}
			for _, b := range w[len(w)-n:] {
				if int(b) != n {
					return nil, errRef
				}
			}
			w = w[:len(w)-n]
		}
	}
	return w, nil
}

func refSeal(header, key, iv, pt []byte) []byte {
	h := sha512.New()
	h.Write(header)
	h.Write(pt)
	return append(append([]byte{}, header...), refEnc(key, iv, append(h.Sum(nil), pt...), true)...)
}

func refOpen(file []byte, hlen int, key, iv []byte) ([]byte, error) {
	w, err := refDec(key, iv, file[hlen:], true)
	if err != nil {
		return nil, err
	}
	if len(w) < 64 {
		return nil, errRef
	}
	h := sha512.New()
	h.Write(file[:hlen])
	h.Write(w[64:])
	if !bytes.Equal(h.Sum(nil), w[:64]) {
		return nil, errRef
	}
	return w[64:], nil
}

func refEncryptSingle(pass, salt, iv, pt []byte) []byte {
	h := []byte("blobpass00010000")
	h = append(append(h, salt...), iv...)
	return refSeal(h, refKey(pass, salt), iv, pt)
}

type refUser struct{ Name, Pass, Salt, IV []byte }

func refEncryptMulti(users []refUser, master, ivm, pt []byte) []byte {
	h := []byte(fmt.Sprintf("blobpass0001%04d", len(users)))
	for _, u := range users {
		n := sha256.Sum256(u.Name)
		h = append(h, n[:]...)
		h = append(h, u.Salt...)
		h = append(h, u.IV...)
		h = append(h, refEnc(refKey(u.Pass, u.Salt), u.IV, master, false)...)
	}
	h = append(h, ivm...)
	return refSeal(h, master, ivm, pt)
}

type refFile struct {
	NUsers int
	Users  [][]byte
	Salts  [][]byte
	IVs    [][]byte
	MKeys  [][]byte
	IVM    []byte
	Salt   []byte // single
	IV     []byte
	HdrLen int
}

// refParse splits a file by the layout.
func refParse(f []byte) (*refFile, error) {
	if len(f) < 16 || string(f[:12]) != "blobpass0001" {
		return nil, errors.New("reference: not a version 1 file")
	}
	n := 0
	for _, d := range f[12:16] {
		if d < '0' || d > '9' {
			return nil, errors.New("reference: bad user count")
		}
		n = n*10 + int(d-'0')
	}
	r := &refFile{NUsers: n}
	if n == 0 {
		if len(f) < 16+refSaltSize+refIVSize {
			return nil, errors.New("reference: short")
		}
		r.Salt = f[16 : 16+32]
		r.IV = f[48 : 48+40]
		r.HdrLen = 88
		return r, nil
	}
	off := 16
	if len(f) < off+n*refUserSize+refIVSize {
		return nil, errors.New("reference: short")
	}
	for i := 0; i < n; i++ {
		r.Users = append(r.Users, f[off:off+32])
		r.Salts = append(r.Salts, f[off+32:off+64])
		r.IVs = append(r.IVs, f[off+64:off+104])
		r.MKeys = append(r.MKeys, f[off+104:off+184])
		off += refUserSize
	}
	r.IVM = f[off : off+refIVSize]
	r.HdrLen = off + refIVSize
	return r, nil
}

// refDecrypt opens a file with a user name (multi-user files) and passphrase.
func refDecrypt(file, user, pass []byte) ([]byte, error) {
	r, err := refParse(file)
	if err != nil {
		return nil, err
	}
	if r.NUsers == 0 {
		return refOpen(file, r.HdrLen, refKey(pass, r.Salt), r.IV)
	}
	h := sha256.Sum256(user)
	for i, u := range r.Users {
		if bytes.Equal(u, h[:]) {
			master, err := refDec(refKey(pass, r.Salts[i]), r.IVs[i], r.MKeys[i], false)
			if err != nil {
				return nil, err
			}
			return refOpen(file, r.HdrLen, master, r.IVM)
		}
	}
	return nil, errors.New("reference: unknown user")
}

// refMKey is the user's record of the master key.
func refMKey(u refUser, master []byte) []byte {
	return refEnc(refKey(u.Pass, u.Salt), u.IV, master, false)
}
