package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M02

type uop struct {
	Op  string
	N   string // user
	N2  string
	V   string // manual password, confirmation
	End string
	Pw  []pwStep
}

type uSession struct {
	Who int // which of the users able to open it
	Ops []uop
	End string
}

type m02 struct {
	Pass     string
	Sessions []uSession
}

var userNames = []string{"al", "bob", "Al", "é", "日本", "x/y", "al1", "user/al", "100%"}

func genUop(t *rapid.T, i int) uop {
	o := uop{Op: rapid.SampledFrom([]string{
		"adduser", "adduser", "adduser", "passwd", "passwd", "passwdself", "rekey", "rekeyself", "rekeyall", "rmuser", "rmuser", "rmself", "rmall", "mvuser", "mvself", "fake", "data", "data", "setuser", "dumpall", "mvaway", "mvback",
	}).Draw(t, "op")}
	o.N = rapid.SampledFrom(userNames).Draw(t, "user")
	o.N2 = rapid.SampledFrom(userNames).Draw(t, "new")
	o.Pw = genPwSteps(t)
	o.V = genPassText(t, "manual")
	if rapid.IntRange(0, 7).Draw(t, "emptypw") == 3 {
		o.V = ""
	}
	o.End = rapid.SampledFrom([]string{"m", "m", "m", "y", "y", "eof"}).Draw(t, "end")
	return o
}

func genM02(t *rapid.T) m02 {
	c := m02{Pass: genPassText(t, "pass")}
	n := rapid.IntRange(1, 5).Draw(t, "sessions")
	for i := 0; i < n; i++ {
		s := uSession{Who: rapid.IntRange(0, 5).Draw(t, "who"), End: rapid.SampledFrom([]string{"exit", "exit", "exit", "exit", "eof", "interrupt"}).Draw(t, "end")}
		k := rapid.IntRange(0, 10).Draw(t, "n")
		s.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uop { return genUop(t, i) }), k, k).Draw(t, "ops")
		if i == 0 && rapid.IntRange(0, 3).Draw(t, "multi") > 0 {
			add := []uop{{Op: "adduser", N: "al", End: "m", V: "x"}, {Op: "adduser", N: "bob", End: "m", V: "bobpass"}}
			s.Ops = append(add[:rapid.IntRange(1, 2).Draw(t, "users")], s.Ops...)
		}
		c.Sessions = append(c.Sessions, s)
	}
	return c
}

// ucred is a way that should (or should not) open the file.
type ucred struct{ user, pass string }

// uplan is a session of a file with users.
type uplan struct {
	*planner
	self     string // name of the user in session ("" in a single-user file)
	pass     string // own passphrase
	gen      int    // master key generation, 0: single-user
	lastGen  int
	old      []ucred // credentials that were replaced or removed
	userCmds int
}

func (p *uplan) users() []*ment {
	var out []*ment
	for _, e := range p.m.E {
		if n, ok := strings.CutPrefix(e.Name, "user/"); ok && n != "" {
			out = append(out, e)
		}
	}
	return out
}

// able lists the users who can open the file.
func able(m *mstore, gen int) []ucred {
	var out []ucred
	for _, e := range m.E {
		if n, ok := strings.CutPrefix(e.Name, "user/"); ok && n != "" && e.Gen == gen {
			out = append(out, ucred{n, e.Pass})
		}
	}
	return out
}

func (p *uplan) setCred(e *ment, pass string) {
	if e.Gen != 0 {
		p.old = append(p.old, ucred{strings.TrimPrefix(e.Name, "user/"), e.Pass})
	}
	e.Pass, e.Gen = pass, p.gen
	for _, k := range []string{"iv", "salt", "mkey"} {
		e.F[k] = anyMark
	}
}

func (p *uplan) do(o uop) {
	m := p.m
	if !okName(o.N) || !okName(o.N2) {
		return
	}
	o.V = cleanText(o.V)
	if o.Op != "data" && o.Op != "dumpall" {
		p.userCmds++
	}
	pp := planPass(o.Pw, o.End, o.V)
	// the dialogue is refused in the end
	refused := pp.eof || !pp.gen && pp.val == "" || pp.gen && pp.set.Length == 0
	named := m.byName("user/" + o.N)
	switch o.Op {
	case "adduser":
		in := "adduser " + o.N + "\n"
		if named != nil {
			p.step(in, in, nil)
			return
		}
		if p.gen == 0 {
			p.step(in, in, nil)
			p.lastGen++
			p.gen = p.lastGen
			p.self = o.N
			p.setCred(m.add("user/"+o.N), p.pass)
			p.changed++
			return
		}
		v, chk := p.passValue(pp)
		p.step(in, in+pp.lines, both(chk, func(seg string) error {
			if refused {
				return nil
			}
			return shows(seg, "pass: "+curGen.sub(v))
		}))
		if !refused {
			p.setCred(m.add("user/"+o.N), v)
			p.changed++
		}
	case "passwd", "passwdself", "rekey", "rekeyself":
		cmd := strings.TrimSuffix(o.Op, "self")
		target := named
		in := cmd + " " + o.N + "\n"
		if cmd != o.Op {
			in, target = cmd+"\n", nil
			if p.gen != 0 {
				target = m.byName("user/" + p.self)
			}
		} else if p.gen == 0 || target == nil {
			p.step(in, in, nil) // no such user
			return
		}
		own := target == nil || target.Name == "user/"+p.self
		if cmd == "rekey" && own {
			p.step(in, in, nil)
			if target != nil {
				target.Gen = p.gen
			}
			p.changed++
			return
		}
		v, chk := p.passValue(pp)
		p.step(in, in+pp.lines, chk)
		if refused {
			return
		}
		p.changed++
		if own {
			p.old = append(p.old, ucred{p.self, p.pass})
			p.pass = v
		}
		if target != nil {
			p.setCred(target, v)
		}
	case "rekeyall":
		in := "rekeyall\n"
		if p.gen == 0 {
			p.step(in, in, nil)
			return
		}
		if o.End == "eof" {
			p.step(in, in+"\x04", nil)
			return
		}
		if len(o.V)%3 == 1 {
			p.step(in+" refused", in+"maybe\nno\n", nil)
			return
		}
		id := fmt.Sprintf("\x00gen:all%d:%p:", len(p.steps), p.planner)
		p.lastGen++
		p.gen = p.lastGen
		want := map[string]bool{}
		for _, e := range p.users() {
			if e.Gen != 0 {
				n := strings.TrimPrefix(e.Name, "user/")
				want[n] = true
				p.setCred(e, id+n)
				if n == p.self {
					p.pass = e.Pass
				}
			}
		}
		p.changed++
		p.step(in, in+"yes\n", func(seg string) error {
			for n := range want {
				pw := ""
				for _, l := range strings.Split(seg, "\n") {
					l = strings.TrimLeft(l, " ")
					if v, ok := strings.CutPrefix(l, n+": "); ok && !strings.Contains(v, " ") {
						pw = v
					}
				}
				if len(pw) < 16 {
					return failf("no new password is shown for the user %q", n)
				}
				for k, v := range curGen {
					if v == pw {
						return failf("the password %q was given out before (%q)", pw, k)
					}
				}
				curGen[id+n] = pw
			}
			return nil
		})
	case "rmuser", "rmself":
		n := o.N
		if o.Op == "rmself" && p.self != "" {
			n = p.self
		}
		p.rm("user/" + n)
	case "rmall":
		var all []string
		for _, e := range m.E {
			if strings.HasPrefix(e.Name, "user/") && e.Name != "user/"+p.self {
				all = append(all, e.Name)
			}
		}
		for _, n := range all {
			if okName(n) {
				p.rm(n)
			}
		}
		if p.self != "" {
			p.rm("user/" + p.self)
		}
	case "mvuser", "mvself", "mvaway", "mvback":
		src, dst := "user/"+o.N, "user/"+o.N2
		switch o.Op {
		case "mvself":
			if p.self != "" {
				src = "user/" + p.self
			}
			if o.End == "eof" {
				dst = "user/"
			}
		case "mvaway":
			dst = "was-" + o.N
		case "mvback":
			src, dst = "was-"+o.N, "user/"+o.N
		}
		in := fmt.Sprintf("mv %s %s\n", src, dst)
		p.step(in, in, nil)
		e := m.byName(src)
		if e == nil || m.byName(dst) != nil {
			return
		}
		if p.gen != 0 && src == "user/"+p.self {
			n, ok := strings.CutPrefix(dst, "user/")
			if !ok || n == "" {
				return
			}
			p.self = n
		}
		if e.Gen != 0 {
			p.old = append(p.old, ucred{strings.TrimPrefix(src, "user/"), e.Pass})
		}
		e.Name = dst
		p.changed++
	case "fake":
		p.planner.do(sop{Op: "add", N: "user/" + o.N, Lines: []string{"", ""}, End: "m", V: "notused"})
	case "setuser":
		p.planner.do(sop{Op: "set", N: "user/" + o.N, K: []string{"notes", "salt", "mkey", "IV", "pass"}[len(o.V)%5], V: "00"})
		p.planner.do(sop{Op: "rmk", N: "user/" + o.N, K: []string{"mkey", "salt", "iv"}[len(o.V)%3]})
	case "data":
		p.planner.do(sop{Op: "add", N: fmt.Sprintf("d%d", len(m.E)), Lines: []string{"e", "u"}, End: "m", V: o.V})
	case "dumpall":
		p.dumpStep()
	}
}

func both(a, b func(string) error) func(string) error {
	return func(s string) error {
		if a != nil {
			if err := a(s); err != nil {
				return err
			}
		}
		return b(s)
	}
}

func shows(seg, what string) error {
	if !strings.Contains(seg, what) {
		return failf("does not show %q", what)
	}
	return nil
}

func (p *uplan) rm(name string) {
	e := p.m.byName(name)
	in := "rm " + name + "\n"
	if e == nil {
		p.step(in, in, nil)
		return
	}
	self := p.gen != 0 && name == "user/"+p.self
	if self {
		n := 0
		for _, e := range p.m.E {
			if strings.HasPrefix(e.Name, "user/") {
				n++
			}
		}
		if n > 1 {
			p.step(in+" (self, refused)", in, nil)
			return
		}
	}
	p.step(in, in+name+"\n", nil)
	p.m.drop(e)
	p.changed++
	if e.Gen != 0 && !self {
		p.old = append(p.old, ucred{strings.TrimPrefix(name, "user/"), e.Pass})
	}
	if self {
		p.old = append(p.old, ucred{p.self, "\x00multi"})
		p.self, p.gen = "", 0
	}
}

func runM02(c m02, x *Ctx) error {
	pass := cleanText(c.Pass)
	if pass == "" {
		pass = "p"
	}
	h := newHome(x, "m02")
	defer h.done()
	curGen = genVals{}
	m := &mstore{}
	gen, lastGen := 0, 0
	exists := false
	userCmds, multi := 0, false
	loggedIn := map[string]bool{}
	for i, s := range c.Sessions {
		before := h.read("db")
		p := &uplan{planner: &planner{m: m.clone(), x: x, start: time.Now()}, gen: gen, lastGen: lastGen, pass: pass}
		open := []string{pass}
		if !exists {
			open = []string{pass, pass}
		} else if gen != 0 {
			us := able(m, gen)
			if len(us) == 0 {
				return failf("no user is able to open the file any more")
			}
			u := us[s.Who%len(us)]
			p.self, p.pass = u.user, u.pass
			open = []string{u.user, u.pass}
			loggedIn[u.user] = true
		}
		for _, o := range s.Ops {
			p.do(o)
		}
		p.dumpStep()
		r, err := h.session([]string{"--no-sync", "--no-clear-clip", "-f", "db"}, open, p.steps, endInput(s.End))
		if err != nil {
			if isInfra(err) {
				return err
			}
			return failf("session %d (opened with %q): %v", i+1, open, err)
		}
		after := h.read("db")
		if s.End == "interrupt" {
			if r.RC == 0 || !bytes.Equal(before, after) {
				return failf("session %d: interrupted, but the exit status is %d or the file changed", i+1, r.RC)
			}
			continue
		}
		if r.RC != 0 {
			return failf("session %d (opened with %q): %s", i+1, open, r.tail())
		}
		exists = true
		m = fillGen(p.m)
		gen, lastGen = p.gen, p.lastGen
		userCmds += p.userCmds
		if gen == 0 {
			pass = curGen.sub(p.pass)
		} else {
			multi = true
		}
		if err := checkAccess(h, m, gen, pass, p.old); err != nil {
			return failf("after session %d (opened with %q): %v", i+1, open, err)
		}
	}
	if userCmds >= 3 && multi {
		x.NonTrivial()
	}
	x.LabelIf(len(loggedIn) > 1, "several users in session")
	x.LabelIf(lastGen > 1, "rekeyall or new master")
	x.LabelIf(multi && gen == 0, "back to single-user")
	return nil
}

// checkAccess opens the file in every way that should work and some that should not.
func checkAccess(h *Home, m *mstore, gen int, pass string, old []ucred) error {
	file := h.read("db")
	rf, err := refParse(file)
	if err != nil {
		return failf("the file is malformed: %v", err)
	}
	good := map[ucred]bool{}
	if gen == 0 {
		if len(rf.Users) != 0 {
			return failf("the file should be single-user but has %d users", len(rf.Users))
		}
		st, err := openFile(h.path("db"), nil, []byte(pass))
		if err != nil {
			return err
		}
		if err := m.compare(st); err != nil {
			return err
		}
		good[ucred{"", pass}] = true
	} else {
		us := able(m, gen)
		if len(us) == 0 {
			return failf("no user can open the file")
		}
		for _, u := range us {
			good[u] = true
			st, err := openFile(h.path("db"), []byte(u.user), []byte(u.pass))
			if err != nil {
				return err
			}
			if err := m.compare(st); err != nil {
				return failf("what %q sees: %v", u.user, err)
			}
		}
		// nobody else is in the header: users with key material of another generation cannot open
		for _, e := range m.E {
			if n, ok := strings.CutPrefix(e.Name, "user/"); ok && e.Gen != gen && e.Pass != "" {
				old = append(old, ucred{n, e.Pass})
			}
		}
		n := 0
		for _, e := range m.E {
			if s, ok := strings.CutPrefix(e.Name, "user/"); ok && s != "" && e.Gen != 0 {
				n++
			}
		}
		if len(rf.Users) != n {
			return failf("the file has %d user records, want %d (%v)", len(rf.Users), n, us)
		}
	}
	for _, o := range old {
		o.pass = curGen.sub(o.pass)
		if good[o] || gen == 0 && good[ucred{"", o.pass}] {
			continue
		}
		if _, err := refDecrypt(file, []byte(o.user), []byte(o.pass)); err == nil {
			return failf("the file still opens for %q with %q, which was changed or removed", o.user, o.pass)
		}
	}
	return nil
}

func init() {
	part("M02", "users", 1600, 40000,
		"1..5 sessions of 0..12 user commands (adduser, passwd, rekey, rekeyall, rm, mv, entries merely named like users, ordinary data) by whichever user can open the file; the file is decrypted by an independent reader as every user, and with credentials that must not work; non-trivial: at least 3 user commands and a multi-user file",
		genM02, runM02)
}
