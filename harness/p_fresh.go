package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C07: the values that sessions put into files

type c07op struct {
	Op   string // edit nothing passwd rekey passwdother rekeyother adduser rekeyall
	Same bool   // the passphrase is the one from before
}

type c07prog struct {
	Multi bool
	Ops   [][]c07op // of each session
}

func genC07prog(t *rapid.T) c07prog {
	c := c07prog{Multi: rapid.Bool().Draw(t, "multi")}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []c07op {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c07op {
			return c07op{rapid.SampledFrom([]string{"edit", "nothing", "passwd", "passwd", "rekey", "rekey", "passwdother", "rekeyother", "adduser", "rekeyall", "rekeyall"}).Draw(t, "op"), rapid.Bool().Draw(t, "same")}
		}), 1, 2).Draw(t, "ops")
	}), 1, 4).Draw(t, "sessions")
	return c
}

func runC07prog(c c07prog, x *Ctx) error {
	h := newHome(x, "c07p")
	defer h.done()
	var users []refUser
	if c.Multi {
		users = twoUsers()
	}
	log := addTx(multiLog(users, h, "db"), 1, "first", 1600000050e9)
	h.writeDB("db", "the pass", users, storeJSON(log, 0))
	pass := map[string]string{"": "the pass"} // "": in a file without users
	self := ""
	if c.Multi {
		self = "u0"
		pass = map[string]string{"u0": "the pass", "u1": "other"}
	}
	seen := map[string]string{} // every random value so far -> what it is
	type vals struct {
		salt, iv, mkey string
	}
	type fileVals struct {
		users       map[string]vals
		ivm, master string
	}
	look := func() (fileVals, error) {
		b := h.read("db")
		f, err := refParse(b)
		if err != nil {
			return fileVals{}, err
		}
		v := fileVals{users: map[string]vals{}}
		if f.NUsers == 0 {
			v.users[""] = vals{salt: string(f.Salt), iv: string(f.IV)}
			return v, nil
		}
		v.ivm = string(f.IVM)
		for n, p := range pass {
			h := sha256.Sum256([]byte(n))
			for i := range f.Users {
				if !bytes.Equal(f.Users[i], h[:]) {
					continue
				}
				v.users[n] = vals{string(f.Salts[i]), string(f.IVs[i]), string(f.MKeys[i])}
				if n == self {
					m, err := refDec(refKey([]byte(p), f.Salts[i]), f.IVs[i], f.MKeys[i], false)
					if err != nil {
						return v, err
					}
					v.master = string(m)
				}
			}
		}
		return v, nil
	}
	fresh := func(what, val string) error {
		if len(val) == 0 {
			return failf("there is no %s", what)
		}
		for i := 0; i+16 <= len(val); i += 16 {
			k := val[i : i+16]
			if strings.Count(k, k[:1]) == len(k) {
				return failf("%s has a constant part: %x", what, val)
			}
			if was, ok := seen[k]; ok {
				return failf("%s is not new, it is part of %s", what, was)
			}
		}
		return nil
	}
	note := func(v fileVals) {
		add := func(what, val string) {
			for i := 0; i+16 <= len(val); i += 16 {
				if _, ok := seen[val[i:i+16]]; !ok {
					seen[val[i:i+16]] = what
				}
			}
		}
		for n, u := range v.users {
			add("an earlier salt of "+n, u.salt)
			add("an earlier iv of "+n, u.iv)
			add("an earlier wrapped key of "+n, u.mkey)
		}
		add("an earlier master iv", v.ivm)
		add("an earlier master key", v.master)
	}
	v, err := look()
	must(err)
	note(v)
	for i, ops := range c.Ops {
		open := []string{pass[self]}
		if self != "" {
			open = []string{self, pass[self]}
		}
		var steps []step
		newSalt, newWrap, newMaster := map[string]bool{}, map[string]bool{}, false
		for k, o := range ops {
			// the passphrase typed in a dialogue
			np := fmt.Sprintf("pw%d.%d", i, k)
			other := ""
			for n := range pass {
				if n != self && (other == "" || n < other) {
					other = n
				}
			}
			who := self
			if strings.HasSuffix(o.Op, "other") {
				if who = other; who == "" {
					continue
				}
			}
			if o.Same {
				np = pass[who]
			}
			dialogue := "m\n" + np + "\n" + np + "\n"
			switch o.Op {
			case "edit":
				steps = append(steps, step{what: "set", in: fmt.Sprintf("set first note %d.%d\n", i, k)})
			case "passwd", "passwdother", "rekeyother":
				in := strings.TrimSuffix(o.Op, "other") + " " + who + "\n" + dialogue
				steps = append(steps, step{what: o.Op, in: in})
				pass[who] = np
				newSalt[who], newWrap[who] = true, true
			case "rekey":
				steps = append(steps, step{what: o.Op, in: "rekey\n"})
				newSalt[who], newWrap[who] = true, true
			case "adduser":
				n := fmt.Sprintf("a%d%d", i, k)
				in := "adduser " + n + "\n"
				if self != "" {
					in += "m\n" + np + "\n" + np + "\n"
					pass[n] = np
					newSalt[n] = true
				} else {
					pass[n] = pass[""]
					delete(pass, "")
					newMaster = true
					if newSalt[""] {
						newSalt[n] = true
						delete(newSalt, "")
						delete(newWrap, "")
					}
					self = n
				}
				newWrap[n] = true
				steps = append(steps, step{what: o.Op, in: in})
			case "rekeyall":
				if self == "" {
					continue
				}
				newMaster = true
				names := []string{}
				for n := range pass {
					newSalt[n], newWrap[n] = true, true
					names = append(names, n)
				}
				steps = append(steps, step{what: o.Op, in: "rekeyall\nyes\n", check: func(seg string) error {
					for _, n := range names {
						for _, l := range strings.Split(seg, "\n") {
							if p, ok := strings.CutPrefix(strings.TrimLeft(l, " "), n+": "); ok {
								pass[n] = p
							}
						}
					}
					return nil
				}})
				// passwords are known after the session only
				goto run
			}
		}
	run:
		before := h.read("db")
		r, err := h.session([]string{"--no-sync", "--no-clear-clip", "-f", "db"}, open, steps, "exit\n")
		if err != nil {
			return err
		}
		if r.RC != 0 {
			return failf("session %d: %s", i, r.tail())
		}
		n, err := look()
		if err != nil {
			return failf("session %d: %v", i, err)
		}
		ctx := func(err error) error {
			if err == nil {
				return nil
			}
			return failf("session %d, %v: %v", i, ops, err)
		}
		if self == "" && !bytes.Equal(before, h.read("db")) {
			if err := fresh("the iv", n.users[""].iv); err != nil {
				return ctx(err)
			}
		}
		for u := range newSalt {
			if err := fresh("the salt of the user "+u, n.users[u].salt); err != nil {
				return ctx(err)
			}
		}
		for u := range newWrap {
			if self == "" {
				continue
			}
			if err := fresh("the iv of the user "+u, n.users[u].iv); err != nil {
				return ctx(err)
			}
			if err := fresh("the wrapped master key of the user "+u, n.users[u].mkey); err != nil {
				return ctx(err)
			}
		}
		if newMaster {
			if err := fresh("the master key", n.master); err != nil {
				return ctx(err)
			}
			if err := fresh("the master iv", n.ivm); err != nil {
				return ctx(err)
			}
		}
		// values of one file differ from each other
		all := map[string]string{}
		for u, w := range n.users {
			for what, val := range map[string]string{"salt": w.salt, "iv": w.iv, "wrapped key": w.mkey} {
				if len(val) < 16 {
					continue
				}
				if o, ok := all[val[:16]]; ok {
					return ctx(failf("the %s of %q is the %s", what, u, o))
				}
				all[val[:16]] = what + " of " + u
			}
		}
		v = n
		note(v)
		x.LabelIf(newMaster, "new master key")
		x.LabelIf(len(newSalt) > 0, "new salt")
		if len(newSalt) > 0 || newMaster {
			x.NonTrivial()
		}
	}
	return nil
}

func init() {
	part("C07", "sessions", 1500, 30000,
		"a single- or two-user file, 1..4 sessions with changes of passphrases (also to the same), rekeying, adding users and saving; the salts, IVs, wrapped keys, master key and master IV in the file that had to be replaced are new; non-trivial: some salt or master key had to be replaced",
		genC07prog, runC07prog)
}
