package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"

	"github.com/aarondl/bpass/crypt"
	"pgregory.net/rapid"
)

const cryptV = 1

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

type decResult struct {
	version int
	p       crypt.Params
	pt      []byte
	err     error
}

func dec(user, pass, key, salt, file []byte) (r decResult, err error) {
	in := clone(file)
	u, pw, k, s := clone(user), clone(pass), clone(key), clone(salt)
	err = guard("Decrypt", func() { r.version, r.p, r.pt, r.err = crypt.Decrypt(u, pw, k, s, in) })
	if err == nil && !bytes.Equal(in, file) {
		err = failf("Decrypt modified the encrypted bytes it was given")
	}
	return
}

func enc(p *crypt.Params, pt []byte) (ct []byte, err error) {
	in := clone(pt)
	var e error
	if err = guard("Encrypt", func() { ct, e = crypt.Encrypt(cryptV, p, in) }); err != nil {
		return
	}
	if e != nil {
		return nil, failf("Encrypt refused valid parameters: %v", e)
	}
	if !bytes.Equal(in, pt) {
		return nil, failf("Encrypt modified the plaintext it was given")
	}
	return ct, nil
}

func derive(pass []byte) (key, salt []byte) {
	key, salt, err := crypt.DeriveKey(cryptV, clone(pass))
	if err != nil {
		panic("DeriveKey failed: " + err.Error())
	}
	return key, salt
}

// ---------------------------------------------------------------- multi-user files built through the API

type cUser struct{ Name, Pass B }

type mfile struct {
	users  []cUser
	keys   [][]byte
	params crypt.Params
}

func genUsers(t *rapid.T, min, max int) []cUser {
	n := rapid.IntRange(min, max).Draw(t, "nusers")
	return rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) cUser {
		return cUser{genUserName(t, "name"), genPass(t, "pass")}
	}), n, n, func(u cUser) string { return string(u.Name) }).Draw(t, "users")
}

// moreUsers adds n users.
func moreUsers(users []cUser, n int) []cUser {
	users = append([]cUser{}, users...)
	taken := map[string]bool{}
	for _, u := range users {
		taken[string(u.Name)] = true
	}
	for i := 0; n > 0; i++ {
		name := fmt.Sprintf("user%d", i)
		if !taken[name] {
			users = append(users, cUser{B(name), B(fmt.Sprintf("pass%d", i%7))})
			n--
		}
	}
	return users
}

// genMore draws how many users there are in addition, 0 most of the time.
func genMore(t *rapid.T) int {
	switch rapid.IntRange(0, 600).Draw(t, "more") {
	case 300:
		return rapid.IntRange(90, 320).Draw(t, "many")
	case 200, 201, 202, 203, 204, 205, 400, 401:
		return rapid.IntRange(3, 16).Draw(t, "some")
	}
	return 0
}

func buildMulti(users []cUser) *mfile {
	m := &mfile{users: users}
	master, ivm, err := crypt.NewMasterKey(cryptV)
	if err != nil {
		panic("NewMasterKey failed: " + err.Error())
	}
	p := crypt.Params{NUsers: len(users), Master: master, IVM: ivm}
	for _, u := range users {
		key, salt := derive(u.Pass)
		mk, iv, err := crypt.EncryptMasterKey(cryptV, key, master)
		if err != nil {
			panic("EncryptMasterKey failed: " + err.Error())
		}
		h := sha256.Sum256(u.Name)
		p.Users = append(p.Users, h[:])
		p.Keys = append(p.Keys, key)
		p.Salts = append(p.Salts, salt)
		p.IVs = append(p.IVs, iv)
		p.MKeys = append(p.MKeys, mk)
		m.keys = append(m.keys, key)
	}
	m.params = p
	return m
}

// ---------------------------------------------------------------- C01

type c01 struct {
	Pass  B
	Other B
	Steps []c01Step
}
type c01Step struct {
	PT   B
	Big  int  // if not 0, the data is this long
	Mode int  // how it is opened
	Re   bool // re-encrypt with what Decrypt returned, rather than with the first key
}

func init() {
	part("C01", "roundtrip", 160000, 1200000,
		"a passphrase and a chain of 1..5 encrypt/decrypt steps over plaintexts of all length classes, opened by passphrase, by key and salt, by both, or by passphrase with a key of another salt; non-trivial: at least two steps, or a plaintext longer than 64 bytes",
		func(t *rapid.T) c01 {
			c := c01{Pass: genPass(t, "pass"), Other: genPass(t, "other")}
			n := rapid.IntRange(1, 5).Draw(t, "steps")
			for i := 0; i < n; i++ {
				c.Steps = append(c.Steps, c01Step{PT: genBytes(t, "pt", 6000), Mode: rapid.IntRange(0, 4).Draw(t, "mode"), Re: rapid.Bool().Draw(t, "re")})
			}
			if rapid.IntRange(0, 1000).Draw(t, "big") == 500 {
				c.Steps[0].Big = 1<<rapid.IntRange(16, 21).Draw(t, "bits") + rapid.IntRange(-40, 40).Draw(t, "off")
			}
			return c
		},
		func(c c01, x *Ctx) error {
			key0, salt0 := derive(c.Pass)
			okey, osalt := derive(c.Other)
			p := crypt.Params{Keys: [][]byte{clone(key0)}, Salts: [][]byte{clone(salt0)}}
			for i, s := range c.Steps {
				if s.Big > 0 {
					s.PT = expand(s.PT, s.Big)
					x.Label("large")
				}
				x.Label(fmt.Sprintf("mode%d", s.Mode))
				x.Label(fmt.Sprintf("len%%16=%d", len(s.PT)%16))
				if i > 0 || len(s.PT) > 64 {
					x.NonTrivial()
				}
				ct, err := enc(&p, s.PT)
				if err != nil {
					return failf("step %d: %v", i, err)
				}
				var multi bool
				var merr error
				if err := guard("IsMultiUser", func() { multi, merr = crypt.IsMultiUser(ct) }); err != nil {
					return err
				}
				if merr != nil || multi {
					return failf("step %d: a single-user file is reported as multi=%v err=%v", i, multi, merr)
				}
				var user, pass, key, salt []byte
				switch s.Mode {
				case 0:
					pass = c.Pass
				case 1:
					key, salt = key0, salt0
				case 2:
					pass, key, salt = c.Pass, key0, salt0
				case 3:
					pass, key, salt = c.Pass, okey, osalt
				case 4:
					pass, user = c.Pass, []byte("someone")
				}
				r, err := dec(user, pass, key, salt, ct)
				if err != nil {
					return failf("step %d mode %d: %v", i, s.Mode, err)
				}
				if r.err != nil {
					return failf("step %d mode %d: cannot open what was just encrypted: %v", i, s.Mode, r.err)
				}
				if r.version != cryptV {
					return failf("step %d: version %d", i, r.version)
				}
				if !bytes.Equal(r.pt, s.PT) {
					return failf("step %d mode %d: plaintext of %d bytes came back different (%d bytes)", i, s.Mode, len(s.PT), len(r.pt))
				}
				if r.p.NUsers != 0 || len(r.p.Keys) == 0 || len(r.p.Salts) == 0 || !bytes.Equal(r.p.Keys[r.p.User], key0) || !bytes.Equal(r.p.Salts[r.p.User], salt0) {
					return failf("step %d mode %d: returned credentials are not those of the file", i, s.Mode)
				}
				if s.Re {
					x.Label("re-encrypt")
					p = r.p
				}
			}
			return nil
		})

	// ---------------------------------------------------------------- C02
	type step struct {
		PT   B
		By   int // which user opens and re-saves next
		Fast bool
	}
	type c02 struct {
		Users   []cUser
		More    int
		OnlyKey int // -1: all keys given at creation
		Steps   []step
	}
	part("C02", "access", 80000, 500000,
		"1..6 (now and then up to 326) users with arbitrary distinct names and passphrases, a chain of 1..4 'user i opens (by passphrase or key) and re-saves' steps; after every save every user opens; non-trivial: at least two users and two saves",
		func(t *rapid.T) c02 {
			c := c02{Users: genUsers(t, 1, 6), More: genMore(t)}
			c.OnlyKey = rapid.IntRange(-1, len(c.Users)-1).Draw(t, "onlyKey")
			n := rapid.IntRange(1, 4).Draw(t, "steps")
			for i := 0; i < n; i++ {
				c.Steps = append(c.Steps, step{genBytes(t, "pt", 3000), rapid.IntRange(0, len(c.Users)+c.More-1).Draw(t, "by"), rapid.Bool().Draw(t, "fast")})
			}
			return c
		},
		func(c c02, x *Ctx) error {
			c.Users = moreUsers(c.Users, c.More)
			x.LabelIf(len(c.Users) > 9, "ten or more users")
			x.LabelIf(len(c.Users) > 99, "hundred or more users")
			m := buildMulti(c.Users)
			staleKey, staleSalt := derive(c.Users[0].Pass)
			p := m.params
			p.Keys = append([][]byte{}, m.params.Keys...)
			if c.OnlyKey >= 0 {
				x.Label("others' keys unknown")
				for i := range p.Keys {
					if i != c.OnlyKey {
						p.Keys[i] = nil
					}
				}
				p.User = c.OnlyKey
			}
			x.Label(fmt.Sprintf("users=%d", min(len(c.Users), 10)))
			for i, s := range c.Steps {
				if len(c.Users) > 1 && i > 0 {
					x.NonTrivial()
				}
				ct, err := enc(&p, s.PT)
				if err != nil {
					return failf("save %d: %v", i, err)
				}
				var multi bool
				var merr error
				if err := guard("IsMultiUser", func() { multi, merr = crypt.IsMultiUser(ct) }); err != nil {
					return err
				}
				if merr != nil || !multi {
					return failf("save %d: a multi-user file is reported as multi=%v err=%v", i, multi, merr)
				}
				var next crypt.Params
				for k, u := range c.Users {
					if k > 8 && k < len(c.Users)-2 && (k+i)%9 != 0 && k != s.By {
						continue
					}
					for _, fast := range []bool{false, true} {
						var r decResult
						switch {
						case fast:
							r, err = dec(u.Name, nil, m.keys[k], m.params.Salts[k], ct)
						case (i+k)%3 == 1:
							// the key known so far belongs to another salt
							x.Label("stale key")
							r, err = dec(u.Name, u.Pass, staleKey, staleSalt, ct)
						default:
							r, err = dec(u.Name, u.Pass, nil, nil, ct)
						}
						if err != nil {
							return failf("save %d user %d fast=%v: %v", i, k, fast, err)
						}
						if r.err != nil {
							return failf("save %d: user %d of %d cannot open the file (fast=%v): %v", i, k, len(c.Users), fast, r.err)
						}
						if !bytes.Equal(r.pt, s.PT) {
							return failf("save %d: user %d sees different data", i, k)
						}
						if r.p.User < 0 || r.p.User >= len(c.Users) || r.p.NUsers != len(c.Users) || !bytes.Equal(r.p.Keys[r.p.User], m.keys[k]) || !bytes.Equal(r.p.Salts[r.p.User], m.params.Salts[k]) {
							return failf("save %d: credentials returned to user %d are not theirs", i, k)
						}
						if k == s.By && fast == s.Fast {
							next = r.p
						}
					}
				}
				p = next
			}
			return nil
		})

	// ---------------------------------------------------------------- C03
	type wrong struct {
		Kind int
		A    B
		I    int
	}
	type c03 struct {
		Multi bool
		Users []cUser // single: Users[0]
		PT    B
		Wrong []wrong
	}
	part("C03", "wrong", 24000, 200000,
		"a single- or multi-user file and 8..30 wrong credentials each (random and near-miss passphrases, empty ones, other users' passphrases, unknown and missing users, stale, foreign and odd-sized keys); non-trivial: some credential reaches decryption with a wrong key",
		func(t *rapid.T) c03 {
			c := c03{Multi: rapid.Bool().Draw(t, "multi")}
			if c.Multi {
				c.Users = genUsers(t, 1, 4)
			} else {
				c.Users = genUsers(t, 1, 1)
			}
			c.PT = genBytes(t, "pt", 300)
			n := rapid.IntRange(8, 30).Draw(t, "nwrong")
			for i := 0; i < n; i++ {
				c.Wrong = append(c.Wrong, wrong{rapid.IntRange(0, 12).Draw(t, "kind"), rapid.SliceOfN(rapid.Byte(), 4, 8).Draw(t, "a"), rapid.IntRange(0, 60).Draw(t, "i")})
			}
			return c
		},
		func(c c03, x *Ctx) error {
			var ct []byte
			var err error
			var keys, salts [][]byte
			if c.Multi {
				m := buildMulti(c.Users)
				keys, salts = m.keys, m.params.Salts
				ct, err = enc(&m.params, c.PT)
			} else {
				k, s := derive(c.Users[0].Pass)
				keys, salts = [][]byte{k}, [][]byte{s}
				ct, err = enc(&crypt.Params{Keys: [][]byte{k}, Salts: [][]byte{s}}, c.PT)
			}
			if err != nil {
				return err
			}
			okey, osalt := derive([]byte("completely different"))
			for _, w := range c.Wrong {
				ui := w.I % len(c.Users)
				var user []byte
				if c.Multi {
					user = c.Users[ui].Name
				}
				var pass, key, salt []byte
				want := crypt.ErrWrongPassphrase
				pass = clone(c.Users[ui].Pass)
				deep := true
				switch w.Kind {
				case 0, 1, 2: // random passphrases
					pass = append([]byte("w"), w.A...)
				case 3: // near miss: flip a bit
					pass[w.I%len(pass)] ^= 1 << (w.A[0] % 8)
				case 4: // near miss: append
					pass = append(pass, w.A[0]|1)
				case 5: // near miss: drop the last byte
					pass = pass[:len(pass)-1]
					deep = len(pass) > 0
				case 6:
					pass = nil
					deep = false
				case 7: // another user's passphrase
					pass = c.Users[(ui+1)%len(c.Users)].Pass
				case 8: // unknown user with somebody's passphrase
					if !c.Multi {
						continue
					}
					user = append([]byte("nobody-"), w.A...)
				case 9: // no user name
					if !c.Multi {
						continue
					}
					user = nil
					want = crypt.ErrNeedUser
					deep = false
				case 10: // key of another salt, no passphrase
					pass, key, salt = nil, okey, osalt
					deep = false
				case 11: // wrong key for this salt
					pass, key, salt = nil, clone(keys[ui]), salts[ui]
					key[w.I%len(key)] ^= 1 << (1 + w.A[0]%7) // bit 0 might be a parity bit in some ciphers
				case 12: // odd-sized key for this salt, no passphrase
					pass, key, salt = nil, clone(keys[ui][:w.I%len(keys[ui])]), salts[ui]
				}
				if w.Kind <= 7 && len(pass) > 0 && (hmacEq(pass, c.Users[ui].Pass)) {
					continue // not a wrong passphrase
				}
				if len(user) > 0 {
					for _, u := range c.Users {
						if w.Kind == 8 && bytes.Equal(u.Name, user) {
							deep = false
						}
					}
				}
				x.Label(fmt.Sprintf("kind%d", w.Kind))
				if deep {
					x.NonTrivial()
				}
				r, err := dec(user, pass, key, salt, ct)
				if err != nil {
					return failf("wrong credential kind %d: %v", w.Kind, err)
				}
				if r.err == nil {
					return failf("wrong credential kind %d opened the file", w.Kind)
				}
				if len(r.pt) != 0 {
					return failf("wrong credential kind %d: data returned with the error", w.Kind)
				}
				if !errors.Is(r.err, want) {
					return failf("wrong credential kind %d: error %q, want %q", w.Kind, r.err, want)
				}
			}
			return nil
		})

	// ---------------------------------------------------------------- C04
	type alter struct {
		Kind   int
		Pos, N int
		Data   B
	}
	type c04 struct {
		Multi bool
		Users []cUser
		PT    B
		PT2   B
		Alts  [][]alter
	}
	part("C04", "tamper", 32000, 250000,
		"a valid file and 4..12 independent alterations of it (bit flips, byte sets, cuts, insertions, truncation, extension, block swaps and copies, splices with a second file of the same users, user-record swaps, header digits), opened by every user by passphrase and by key; non-trivial: the altered file still has the signature",
		func(t *rapid.T) c04 {
			c := c04{Multi: rapid.Bool().Draw(t, "multi")}
			if c.Multi {
				c.Users = genUsers(t, 1, 3)
			} else {
				c.Users = genUsers(t, 1, 1)
			}
			c.PT, c.PT2 = genBytes(t, "pt", 400), genBytes(t, "pt2", 400)
			n := rapid.IntRange(4, 12).Draw(t, "nalts")
			for i := 0; i < n; i++ {
				k := 1
				if rapid.IntRange(0, 4).Draw(t, "more") == 0 {
					k = rapid.IntRange(2, 3).Draw(t, "k")
				}
				var as []alter
				for j := 0; j < k; j++ {
					as = append(as, alter{rapid.IntRange(0, 14).Draw(t, "kind"), rapid.IntRange(0, 4000).Draw(t, "pos"), rapid.IntRange(0, 200).Draw(t, "n"), rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "data")})
				}
				c.Alts = append(c.Alts, as)
			}
			return c
		},
		func(c c04, x *Ctx) error {
			var ct, ct2 []byte
			var err error
			var keys, salts [][]byte
			if c.Multi {
				m := buildMulti(c.Users)
				keys, salts = m.keys, m.params.Salts
				if ct, err = enc(&m.params, c.PT); err != nil {
					return err
				}
				if ct2, err = enc(&m.params, c.PT2); err != nil {
					return err
				}
			} else {
				k, s := derive(c.Users[0].Pass)
				keys, salts = [][]byte{k}, [][]byte{s}
				p := crypt.Params{Keys: [][]byte{k}, Salts: [][]byte{s}}
				if ct, err = enc(&p, c.PT); err != nil {
					return err
				}
				if ct2, err = enc(&p, c.PT2); err != nil {
					return err
				}
			}
			rf, err := refParse(ct)
			if err != nil {
				return failf("file does not have the published layout: %v", err)
			}
			hl := rf.HdrLen
			for _, as := range c.Alts {
				m := clone(ct)
				for _, a := range as {
					if len(m) == 0 {
						break
					}
					pos := a.Pos % len(m)
					switch a.Kind {
					case 0, 1, 2: // bit flip anywhere
						m[pos] ^= 1 << (a.N % 8)
					case 3: // bit flip in header
						m[a.Pos%min(hl, len(m))] ^= 1 << (a.N % 8)
					case 4: // set bytes
						copy(m[pos:], a.Data)
					case 5: // cut a range
						e := min(len(m), pos+1+a.N)
						m = append(m[:pos:pos], m[e:]...)
					case 6: // insert
						m = append(m[:pos:pos], append(clone(a.Data), m[pos:]...)...)
					case 7: // truncate
						m = m[:pos]
					case 8: // truncate at a cipher block boundary
						if len(m) > hl {
							m = m[:hl+8*(a.Pos%((len(m)-hl)/8+1))]
						}
					case 9: // extend
						m = append(m, bytes.Repeat(a.Data, 1+a.N%9)...)
					case 10: // swap two ciphertext blocks
						nb := (len(m) - hl) / 8
						if nb >= 2 {
							i, j := hl+8*(a.Pos%nb), hl+8*(a.N%nb)
							for k := 0; k < 8; k++ {
								m[i+k], m[j+k] = m[j+k], m[i+k]
							}
						}
					case 11: // splice: ciphertext (or its tail) of the second file
						cut := hl + 8*(a.N%16)
						if cut <= len(m) && cut <= len(ct2) {
							m = append(m[:cut:cut], ct2[cut:]...)
						}
					case 12: // header of the second file
						if len(m) > hl && len(ct2) > hl {
							m = append(clone(ct2[:hl]), m[hl:]...)
						}
					case 13: // swap or duplicate user records
						if c.Multi && len(c.Users) > 1 && len(m) >= hl {
							n := len(c.Users)
							i, j := 16+(a.Pos%n)*refUserSize, 16+(a.N%n)*refUserSize
							ri, rj := clone(m[i:i+refUserSize]), clone(m[j:j+refUserSize])
							copy(m[i:], rj)
							if a.Data[0]%2 == 0 {
								copy(m[j:], ri)
							}
						} else {
							m[pos] ^= 0x80
						}
					case 14: // version and user count digits
						if len(m) >= 16 {
							m[8+a.Pos%8] = "0123456789 +-_.xabc"[a.N%19]
						}
					}
				}
				if bytes.Equal(m, ct) {
					continue
				}
				if !c.Multi && bytes.Equal(m, ct2) || c.Multi && bytes.Equal(m, ct2) {
					continue // simply the other valid file
				}
				if len(m) >= 12 && string(m[:12]) == "blobpass0001" {
					x.NonTrivial()
				}
				x.Label(fmt.Sprintf("alter%d", as[0].Kind))
				for k, u := range c.Users {
					for _, fast := range []bool{false, true} {
						var r decResult
						var err error
						if fast {
							r, err = dec(u.Name, nil, keys[k], salts[k], m)
						} else {
							r, err = dec(u.Name, u.Pass, nil, nil, m)
						}
						if err != nil {
							return failf("altered file (%+v): %v", as, err)
						}
						if r.err == nil {
							return failf("altered file (%+v) was accepted (data equal: %v)", as, bytes.Equal(r.pt, c.PT))
						}
						if len(r.pt) != 0 {
							return failf("altered file: data returned with the error")
						}
					}
				}
			}
			return nil
		})

	// ---------------------------------------------------------------- C05
	type c05 struct {
		File       B
		User, Pass B
		Key        B
		SaltFrom   int // -1: nil, else the salt is file[SaltFrom:SaltFrom+32]
		Salt       B
	}
	genAny := func(t *rapid.T) c05 {
		var f []byte
		digits := func(name string) string {
			switch rapid.IntRange(0, 3).Draw(t, name+"Kind") {
			case 0:
				return rapid.SampledFrom([]string{"0001", "0000", "-001", "+001", "9999", "   1", "0x01", "1e10", "-999", "0002", "1000", "00 1", "\x00\x00\x00\x01", "+000", "-000"}).Draw(t, name)
			case 1:
				return fmt.Sprintf("%04d", rapid.IntRange(0, 20).Draw(t, name))
			case 2:
				return string(rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, name))
			default:
				return "0001"
			}
		}
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		case 0:
			f = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")
		case 1: // truncated header
			h := "blobpass" + digits("ver") + digits("users")
			f = []byte(h)[:rapid.IntRange(0, len(h)).Draw(t, "cut")]
		case 2: // legacy header
			f = append([]byte("kniopass00000001"), genBytes(t, "tail", 200)...)
		case 3: // header and a tail around the sizes that matter
			h := []byte("blobpass" + digits("ver") + digits("users"))
			base := rapid.SampledFrom([]int{0, 32, 72, 72 + 64, 72 + 80, 72 + 96, 184, 184 + 40, 184 + 40 + 64, 184 + 40 + 96, 2*184 + 40, 2*184 + 40 + 96}).Draw(t, "base")
			n := base + rapid.IntRange(-3, 20).Draw(t, "delta")
			if n < 0 {
				n = 0
			}
			f = append(h, genBytesN(t, "tail", n)...)
		case 4: // block-aligned tail, so that decryption is reached
			h := []byte("blobpass0001" + digits("users"))
			n := rapid.SampledFrom([]int{72, 184 + 40, 2*184 + 40}).Draw(t, "hdr") + 16*rapid.IntRange(0, 20).Draw(t, "blocks")
			f = append(h, genFixed(t, "tail", n)...)
		case 5: // wrong signature
			h := []byte("blobpass00010000")
			h[rapid.IntRange(0, 7).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			f = append(h, genBytes(t, "tail", 200)...)
		default:
			h := []byte("blobpass" + digits("ver") + digits("users"))
			f = append(h, genBytes(t, "tail", 1200)...)
		}
		c := c05{File: f, SaltFrom: -1}
		if rapid.Bool().Draw(t, "hasUser") {
			c.User = genUserName(t, "user")
		}
		if rapid.IntRange(0, 3).Draw(t, "hasPass") > 0 {
			c.Pass = genPass(t, "pass")
		}
		if rapid.IntRange(0, 2).Draw(t, "hasKey") == 0 {
			c.Key = genFixed(t, "key", rapid.SampledFrom([]int{80, 80, 80, 0, 1, 31, 32, 33, 64, 79, 81, 96}).Draw(t, "keyLen"))
			c.SaltFrom = rapid.SampledFrom([]int{-1, 16, 48}).Draw(t, "saltFrom")
			if c.SaltFrom < 0 {
				c.Salt = genFixed(t, "salt", 32)
			}
		}
		return c
	}
	part("C05", "arbitrary", 600000, 4000000,
		"byte strings: random, truncated and odd headers, absurd version and user counts, tails around every size the layout implies, block-aligned random ciphertext, wrong signatures; with arbitrary users, passphrases and keys of right and wrong sizes; non-trivial: the signature is right and the file is longer than its 16-byte prefix",
		genAny,
		func(c c05, x *Ctx) error {
			salt := []byte(c.Salt)
			if c.SaltFrom >= 0 && len(c.File) >= c.SaltFrom+32 {
				salt = c.File[c.SaltFrom : c.SaltFrom+32]
			}
			signed := bytes.HasPrefix(c.File, []byte("blobpass"))
			if signed && len(c.File) > 16 {
				x.NonTrivial()
			}
			var multi bool
			var merr error
			if err := guard("IsMultiUser", func() { multi, merr = crypt.IsMultiUser(clone(c.File)) }); err != nil {
				return err
			}
			r, err := dec(c.User, c.Pass, c.Key, salt, c.File)
			if err != nil {
				return err
			}
			if r.err == nil {
				return failf("bytes that the program never wrote were opened")
			}
			if len(r.pt) != 0 {
				return failf("data returned together with error %v", r.err)
			}
			legacy := bytes.HasPrefix(c.File, []byte("kniopass00000001"))
			if !signed || len(c.File) < 16 {
				if !errors.Is(merr, crypt.ErrInvalidFileFormat) {
					return failf("multi-user question about a non-file: multi=%v err=%v", multi, merr)
				}
				if !legacy && !errors.Is(r.err, crypt.ErrInvalidFileFormat) {
					return failf("opening a non-file: error %v, want %v", r.err, crypt.ErrInvalidFileFormat)
				}
				x.Label("non-file")
				return nil
			}
			ver, users := string(c.File[8:12]), string(c.File[12:16])
			plain := func(s string) bool {
				for _, ch := range s {
					if ch < '0' || ch > '9' {
						return false
					}
				}
				return true
			}
			if plain(ver) && ver != "0001" {
				x.Label("unknown version")
				if errors.Is(r.err, crypt.ErrWrongPassphrase) || errors.Is(r.err, crypt.ErrNeedUser) {
					return failf("file of unknown version %q is treated as readable: %v", ver, r.err)
				}
			}
			if plain(users) && plain(ver) {
				if merr != nil {
					return failf("multi-user question fails on a well-formed prefix %q: %v", c.File[:16], merr)
				}
				if multi != (users != "0000") {
					return failf("user count %q reported as multi=%v", users, multi)
				}
				if ver == "0001" {
					if !multi && errors.Is(r.err, crypt.ErrNeedUser) {
						return failf("single-user file asks for a user")
					}
					x.LabelIf(multi, "multi header")
					x.LabelIf(!multi, "single header")
				}
			} else if ver == "0001" && !plain(users) && merr == nil && multi && users[0] == '-' {
				return failf("a negative user count %q is reported as a multi-user file", users)
			}
			return nil
		})

	// ---------------------------------------------------------------- C06
	type c06 struct {
		Multi  bool
		Users  []cUser
		More   int
		Salts  []B
		IVs    []B
		Master B
		IVM    B
		PT     B
	}
	gen06 := func(maxUsers int) func(t *rapid.T) c06 {
		return func(t *rapid.T) c06 {
			c := c06{Multi: rapid.Bool().Draw(t, "multi")}
			if !c.Multi {
				maxUsers := 1
				c.Users = genUsers(t, 1, maxUsers)
			} else {
				c.Users = genUsers(t, 1, maxUsers)
				if maxUsers > 2 {
					c.More = genMore(t)
				}
			}
			for range c.Users {
				c.Salts = append(c.Salts, genFixed(t, "salt", 32))
				c.IVs = append(c.IVs, genFixed(t, "iv", 40))
			}
			c.Master, c.IVM = genFixed(t, "master", 80), genFixed(t, "ivm", 40)
			c.PT = genBytes(t, "pt", 3000)
			return c
		}
	}
	run06 := func(c c06, x *Ctx) error {
		for i := len(c.Users); i < len(c.Users)+c.More; i++ {
			c.Salts = append(c.Salts, expand([]byte(fmt.Sprint("salt", i)), 32))
			c.IVs = append(c.IVs, expand([]byte(fmt.Sprint("iv", i)), 40))
		}
		c.Users = moreUsers(c.Users, c.More)
		x.LabelIf(len(c.Users) > 9, "ten or more users")
		few := func(i int) bool { return i < 8 || i > len(c.Users)-3 || i%19 == 0 }
		x.LabelIf(c.Multi, "multi")
		x.NonTrivial()
		// reference writes, program reads
		var f []byte
		if c.Multi {
			var us []refUser
			for i, u := range c.Users {
				us = append(us, refUser{u.Name, u.Pass, c.Salts[i], c.IVs[i]})
			}
			f = refEncryptMulti(us, c.Master, c.IVM, c.PT)
		} else {
			f = refEncryptSingle(c.Users[0].Pass, c.Salts[0], c.IVs[0], c.PT)
		}
		for i, u := range c.Users {
			if !few(i) {
				continue
			}
			r, err := dec(u.Name, u.Pass, nil, nil, f)
			if err != nil {
				return err
			}
			if r.err != nil {
				return failf("user %d cannot open a file in the published layout: %v", i, r.err)
			}
			if !bytes.Equal(r.pt, c.PT) {
				return failf("a file in the published layout is read as different data")
			}
		}
		// program writes, reference reads
		var ct []byte
		var err error
		if c.Multi {
			m := buildMulti(c.Users)
			ct, err = enc(&m.params, c.PT)
		} else {
			k, s := derive(c.Users[0].Pass)
			ct, err = enc(&crypt.Params{Keys: [][]byte{k}, Salts: [][]byte{s}}, c.PT)
		}
		if err != nil {
			return err
		}
		want := "blobpass00010000"
		if c.Multi {
			want = fmt.Sprintf("blobpass0001%04d", len(c.Users))
		}
		if len(ct) < 16 || string(ct[:16]) != want {
			return failf("prefix of the written file is %q, want %q", ct[:min(16, len(ct))], want)
		}
		for i, u := range c.Users {
			if !few(i) {
				continue
			}
			pt, err := refDecrypt(ct, u.Name, u.Pass)
			if err != nil {
				return failf("an independent reader cannot open the written file (user %d): %v", i, err)
			}
			if !bytes.Equal(pt, c.PT) {
				return failf("an independent reader sees different data")
			}
		}
		return nil
	}
	part("C06", "layout", 80000, 500000,
		"random single- and multi-user files written by an independent codec and read by the program, and the reverse (scrypt cost reduced, its parameters kept observable); every case is non-trivial",
		gen06(4), run06)
	p := part("C06", "real", 8, 60,
		"the same with the real scrypt at full cost; every case is non-trivial",
		gen06(2), run06)
	p.Workers = 4

	// ---------------------------------------------------------------- C07
	type c07 struct {
		Pass  B
		PT    B
		N     int
		Names []B
	}
	part("C07", "fresh", 24000, 120000,
		"2..6 (now and then 70) repetitions of every random-producing operation with identical inputs (derive, single-user encrypt, master key creation, master-key wrapping, multi-user encrypt); every 8-byte chunk of every salt/IV/key must differ between repetitions, and no bit be constant, and no secret occurs in a file; non-trivial: passphrase or data of at least 12 bytes",
		func(t *rapid.T) c07 {
			n := rapid.IntRange(2, 6).Draw(t, "n")
			if rapid.IntRange(0, 60).Draw(t, "often") == 30 {
				n = 70
			}
			return c07{genPass(t, "pass"), genBytes(t, "pt", 600), n, []B{genUserName(t, "u1"), append(genUserName(t, "u2"), '2')}}
		},
		func(c c07, x *Ctx) error {
			if len(c.Pass) >= 12 || len(c.PT) >= 12 {
				x.NonTrivial()
			}
			fields := map[string][][]byte{}
			add := func(n string, b []byte) { fields[n] = append(fields[n], clone(b)) }
			var files [][]byte
			var secrets [][]byte
			secrets = append(secrets, c.Pass)
			cts := map[string]bool{}
			for i := 0; i < c.N; i++ {
				k, s := derive(c.Pass)
				add("salt", s)
				add("key", k)
				secrets = append(secrets, k)
				k0 := fields["key"][0]
				s0 := fields["salt"][0]
				ct, err := enc(&crypt.Params{Keys: [][]byte{k0}, Salts: [][]byte{s0}}, c.PT)
				if err != nil {
					return err
				}
				rf, err := refParse(ct)
				if err != nil {
					return failf("file does not have the published layout: %v", err)
				}
				add("iv", rf.IV)
				if cts[string(ct[rf.HdrLen:])] {
					return failf("encrypting the same data twice gave the same ciphertext")
				}
				cts[string(ct[rf.HdrLen:])] = true
				files = append(files, ct)

				// re-encrypting with what decryption returned needs a fresh IV too
				r, err := dec(nil, c.Pass, nil, nil, ct)
				if err != nil {
					return err
				}
				if r.err != nil {
					return failf("cannot open: %v", r.err)
				}
				p := r.p
				ct2, err := enc(&p, c.PT)
				if err != nil {
					return err
				}
				if rf, err = refParse(ct2); err != nil {
					return err
				}
				add("iv", rf.IV)

				mf := buildMulti([]cUser{{c.Names[0], c.Pass}, {c.Names[1], c.Pass}})
				add("master", mf.params.Master)
				add("ivm", mf.params.IVM)
				add("salt", mf.params.Salts[0])
				add("salt", mf.params.Salts[1])
				add("miv", mf.params.IVs[0])
				add("miv", mf.params.IVs[1])
				// wrapping the same master for the same key again
				mk, iv, err := crypt.EncryptMasterKey(cryptV, mf.keys[0], mf.params.Master)
				if err != nil {
					return failf("EncryptMasterKey: %v", err)
				}
				add("miv", iv)
				if bytes.Equal(mk, mf.params.MKeys[0]) {
					return failf("wrapping a master key twice gave the same result")
				}
				mct, err := enc(&mf.params, c.PT)
				if err != nil {
					return err
				}
				files = append(files, mct)
				secrets = append(secrets, clone(mf.params.Master), clone(mf.keys[0]), clone(mf.keys[1]))

				// and so does what a user saves after opening it
				u := i % 2
				if r, err = dec(c.Names[u], c.Pass, nil, nil, mct); err != nil {
					return err
				}
				if r.err != nil {
					return failf("user %d cannot open: %v", u, r.err)
				}
				mp := r.p
				if mct, err = enc(&mp, c.PT); err != nil {
					return err
				}
				files = append(files, mct)
			}
			all := map[string]string{}
			for _, n := range sortedKeys(fields) {
				if vs := fields[n]; len(vs) >= 64 {
					// no bit is the same in all of them
					x.Label("every bit")
					for o := range vs[0] {
						and, or := byte(0xff), byte(0)
						for _, v := range vs {
							and, or = and&v[o], or|v[o]
						}
						if and != 0 || or != 0xff {
							return failf("bits of byte %d of %s are the same in %d random values (and %02x, or %02x)", o, n, len(vs), and, or)
						}
					}
				}
				for i, v := range fields[n] {
					if len(v) < 32 {
						return failf("%s has only %d bytes", n, len(v))
					}
					for o := 0; o+8 <= len(v); o += 8 {
						ch := string(v[o : o+8])
						if w, dup := all[ch]; dup {
							return failf("random value %s[%d] repeats 8 bytes of %s", n, i, w)
						}
						all[ch] = fmt.Sprintf("%s[%d]", n, i)
						if bytes.Count([]byte(ch), []byte{ch[0]}) == 8 {
							return failf("random value %s[%d] has a constant run", n, i)
						}
					}
				}
			}
			for _, f := range files {
				for _, s := range secrets {
					if len(s) >= 12 && constRun(s) == false {
						for o := 0; o+12 <= len(s); o += 12 {
							if bytes.Contains(f, s[o:o+12]) {
								return failf("a secret (passphrase or key) is readable in the file")
							}
						}
					}
				}
				for o := 0; o+12 <= len(c.PT); o += 4 {
					if bytes.Contains(f, c.PT[o:o+12]) {
						return failf("12 bytes of the data are readable in the file")
					}
				}
			}
			return nil
		})

	// ---------------------------------------------------------------- C09
	type mut struct {
		Field, Idx, Op, N int
	}
	type c09 struct {
		Multi   bool
		Users   []cUser
		PT      B
		Version int
		Muts    []mut
		Huge    int // > 0: this many users
	}
	part("C09", "params", 240000, 1500000,
		"a valid parameter set (single, or 1..4 users) with 0..3 deviations (missing, short, long, extra, removed or nil elements, wrong counts, indexes and versions, huge user counts), encrypted; non-trivial: at least one deviation",
		func(t *rapid.T) c09 {
			c := c09{Multi: rapid.IntRange(0, 3).Draw(t, "multi") > 0, Version: 1}
			if c.Multi {
				c.Users = genUsers(t, 1, 4)
			} else {
				c.Users = genUsers(t, 1, 1)
			}
			c.PT = genBytes(t, "pt", 100)
			if rapid.IntRange(0, 9).Draw(t, "v") == 0 {
				c.Version = rapid.SampledFrom([]int{0, 2, -1, 9999, 10000, 1}).Draw(t, "version")
			}
			n := rapid.IntRange(0, 3).Draw(t, "nmuts")
			for i := 0; i < n; i++ {
				c.Muts = append(c.Muts, mut{rapid.IntRange(0, 8).Draw(t, "field"), rapid.IntRange(0, 4).Draw(t, "idx"), rapid.IntRange(0, 6).Draw(t, "op"), rapid.IntRange(-2, 100).Draw(t, "n")})
			}
			if c.Multi && rapid.IntRange(0, 400).Draw(t, "huge") == 77 {
				c.Huge = rapid.SampledFrom([]int{9999, 10000, 10001, 12345}).Draw(t, "hugeN")
			}
			return c
		},
		func(c c09, x *Ctx) error {
			var p crypt.Params
			var keys, salts [][]byte
			if c.Multi {
				m := buildMulti(c.Users)
				p = m.params
				keys, salts = m.keys, m.params.Salts
			} else {
				k, s := derive(c.Users[0].Pass)
				p = crypt.Params{Keys: [][]byte{k}, Salts: [][]byte{s}}
				keys, salts = p.Keys, p.Salts
			}
			orig := p
			cp := func(a [][]byte) [][]byte { return append([][]byte{}, a...) }
			p.Keys, p.Salts, p.Users, p.IVs, p.MKeys = cp(p.Keys), cp(p.Salts), cp(p.Users), cp(p.IVs), cp(p.MKeys)
			lists := []*[][]byte{&p.Keys, &p.Salts, &p.Users, &p.IVs, &p.MKeys}
			needRekey := false
			for _, m := range c.Muts {
				switch m.Field {
				case 0, 1, 2, 3, 4:
					l := lists[m.Field]
					switch m.Op {
					case 0:
						*l = nil
					case 1: // drop the last
						if len(*l) > 0 {
							*l = (*l)[:len(*l)-1]
						}
					case 2: // extra
						if len(*l) > 0 {
							*l = append(*l, clone((*l)[0]))
						}
					case 3: // nil element
						if len(*l) > 0 {
							(*l)[m.Idx%len(*l)] = nil
						}
					case 4: // short element
						if len(*l) > 0 {
							i := m.Idx % len(*l)
							if e := (*l)[i]; len(e) > 0 {
								(*l)[i] = clone(e[:max(0, m.N)%len(e)])
							}
						}
					case 5: // long element
						if len(*l) > 0 {
							i := m.Idx % len(*l)
							(*l)[i] = append(clone((*l)[i]), make([]byte, 1+max(0, m.N))...)
						}
					case 6: // empty, non-nil element
						if len(*l) > 0 {
							(*l)[m.Idx%len(*l)] = []byte{}
						}
					}
				case 5:
					p.NUsers = m.N
					if m.Op < 3 {
						p.NUsers = m.Idx
					}
				case 6:
					p.User = m.N
				case 7, 8:
					f := &p.Master
					if m.Field == 8 {
						f = &p.IVM
					}
					switch m.Op {
					case 0, 1, 2:
						*f = nil
					case 3:
						*f = []byte{}
					case 4:
						if len(*f) > 0 {
							*f = clone((*f)[:max(0, m.N)%len(*f)])
						}
					default:
						*f = append(clone(*f), 1)
					}
				}
			}
			if c.Huge > 0 && len(p.Users) > 0 && len(c.Muts) == 0 {
				for len(p.Users) < c.Huge {
					h := sha256.Sum256([]byte(fmt.Sprint("u", len(p.Users))))
					p.Users = append(p.Users, h[:])
					p.Keys = append(p.Keys, nil)
					p.Salts = append(p.Salts, p.Salts[0])
					p.IVs = append(p.IVs, p.IVs[0])
					p.MKeys = append(p.MKeys, p.MKeys[0])
				}
				p.NUsers = c.Huge
				x.Label("huge")
				x.NonTrivial()
			}
			if len(c.Muts) > 0 {
				x.NonTrivial()
			}
			if c.Multi && len(c.Muts) == 1 && (c.Muts[0].Field == 7 || c.Muts[0].Field == 8) && c.Muts[0].Op <= 2 && c.Version == 1 {
				needRekey = true
			}
			q := p
			var ct []byte
			var e error
			if err := guard("Encrypt", func() { ct, e = crypt.Encrypt(c.Version, &q, clone(c.PT)) }); err != nil {
				return err
			}
			if needRekey {
				x.Label("need rekey")
				if !errors.Is(e, crypt.ErrNeedFullRekey) {
					return failf("multi-user parameters without master key or IV: error %v, want %v", e, crypt.ErrNeedFullRekey)
				}
			}
			if e != nil {
				if len(ct) != 0 {
					return failf("error and data returned together")
				}
				if len(c.Muts) == 0 && c.Version == 1 && c.Huge <= 9999 {
					return failf("valid parameters refused: %v", e)
				}
				x.Label("refused")
				return nil
			}
			x.Label("accepted")
			if c.Version != 1 {
				return failf("encryption for the non-existing version %d succeeded", c.Version)
			}
			// accepted: it must open with every key that was given for it
			n := len(p.Keys)
			if p.NUsers == 0 {
				n = 1
			}
			for i := 0; i < n && i < len(c.Users); i++ {
				if len(p.Keys[i]) == 0 {
					continue
				}
				if p.NUsers == 0 && c.Multi && i > 0 {
					continue
				}
				if p.NUsers != 0 && !(bytes.Equal(p.Keys[i], keys[i]) && bytes.Equal(p.Salts[i], salts[i]) && bytes.Equal(p.Users[i], orig.Users[i]) && bytes.Equal(p.IVs[i], orig.IVs[i]) && bytes.Equal(p.MKeys[i], orig.MKeys[i])) {
					x.Label("a key that does not belong to its record")
					continue
				}
				r, err := dec(c.Users[i].Name, nil, p.Keys[i], p.Salts[i], ct)
				if err != nil {
					return err
				}
				if r.err != nil {
					return failf("parameters were accepted but the file does not open with key %d: %v (users=%d)", i, r.err, p.NUsers)
				}
				if !bytes.Equal(r.pt, c.PT) {
					return failf("parameters were accepted but the file holds different data")
				}
			}
			return nil
		})
}

func constRun(b []byte) bool {
	for _, c := range b {
		if c != b[0] {
			return false
		}
	}
	return true
}

// hmacEq tells whether two passphrases are the same HMAC key.
func hmacEq(a, b []byte) bool {
	n := func(x []byte) []byte {
		if len(x) > 64 {
			h := sha256.Sum256(x)
			x = h[:]
		}
		return bytes.TrimRight(x, "\x00")
	}
	return bytes.Equal(n(a), n(b))
}
