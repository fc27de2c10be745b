package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M15: credentials and synchronisation

type credOp struct {
	Op string // passwd passwdself rekey rekeyself rekeyall adduser rm tosingle
	U  int
	P  int
}

type credRound struct {
	A       int // the copy that changes credentials
	Ops     []credOp
	Auto    bool  // and synchronises in the same session
	Edits   []int // copies with data changes, in order
	After   bool  // after the credentials were changed
	Order   []int
	Cmd     []bool // synchronise by command
	Yes     bool
	Pick    int
	Decline int  // this copy refuses to give credentials the first time (-1: none)
	Late    bool // A synchronises only at the start of the session that changes credentials
}

type m15 struct {
	Users  int // in the beginning
	Copies []int
	Rounds []credRound
}

var credNames = []string{"al", "bob", "cy"}
var credPasses = []string{"p0", "p1", "pässwörd 2", "p3"}

func genM15(t *rapid.T) m15 {
	c := m15{Users: rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3}).Draw(t, "users")}
	n := rapid.IntRange(2, 3).Draw(t, "copies")
	for i := 0; i < n; i++ {
		c.Copies = append(c.Copies, rapid.IntRange(0, 2).Draw(t, "who"))
	}
	rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
	for i := 0; i < rounds; i++ {
		r := credRound{A: rapid.IntRange(0, n-1).Draw(t, "a"), Auto: rapid.IntRange(0, 2).Draw(t, "auto") == 0}
		r.Ops = genSlice(t, "ops", 1, 3, rapid.Custom(func(t *rapid.T) credOp {
			return credOp{
				Op: rapid.SampledFrom([]string{"passwd", "passwdself", "passwdself", "rekey", "rekeyself", "rekeyall", "adduser", "adduser", "adduser", "rm", "tosingle"}).Draw(t, "op"),
				U:  rapid.IntRange(0, 2).Draw(t, "u"), P: rapid.IntRange(0, 3).Draw(t, "p"),
			}
		}))
		r.Edits = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 3).Draw(t, "edits")
		r.After = rapid.Bool().Draw(t, "after")
		r.Order = rapid.Permutation([]int{0, 1, 2}[:n]).Draw(t, "order")
		r.Cmd = rapid.SliceOfN(rapid.Bool(), n, n).Draw(t, "cmd")
		r.Yes = rapid.Bool().Draw(t, "yes")
		r.Pick = rapid.IntRange(0, 2).Draw(t, "pick")
		r.Late = rapid.Bool().Draw(t, "late")
		r.Decline = rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 2}).Draw(t, "decline")
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

type credRun struct {
	x                                  *Ctx
	h                                  *Home
	cur                                []ucred // what the user of each copy knows to be the credentials
	dead                               []bool  // the copy's user was renamed or removed
	passes                             []string
	seq                                int
	prompts, switched, declined, lates int
	said                               string // all that was said while synchronising
}

// opens lists all credentials that open a file, tried with everything ever used.
func (s *credRun) opens(b []byte) (out []ucred) {
	rf, err := refParse(b)
	if err != nil {
		return nil
	}
	for _, p := range s.passes {
		if rf.NUsers == 0 {
			if _, err := refDecrypt(b, nil, []byte(p)); err == nil {
				out = append(out, ucred{"", p})
			}
			continue
		}
		for _, n := range credNames {
			if _, err := refDecrypt(b, []byte(n), []byte(p)); err == nil {
				out = append(out, ucred{n, p})
			}
		}
	}
	return out
}

func hasCred(l []ucred, u ucred) bool {
	for _, c := range l {
		if c == u {
			return true
		}
	}
	return false
}

// isMulti tells if a file has users.
func isMulti(b []byte) bool {
	rf, err := refParse(b)
	return err == nil && rf.NUsers > 0
}

// pullLines are the answers that the user gives while the remote is read.
// accepted are the credentials entered; ok is false if the user has none.
func (s *credRun) pullLines(remote []byte, me ucred, pick int, decline bool) (lines []string, accepted *ucred, ok bool) {
	if remote == nil {
		return nil, nil, true
	}
	known := s.opens(remote)
	multi := isMulti(remote)
	user := me.user
	if multi && user == "" {
		if len(known) == 0 {
			return []string{"\x04"}, nil, false
		}
		user = known[pick%len(known)].user
		if decline {
			return []string{"\x04"}, nil, false
		}
		lines = append(lines, user)
	}
	u := []byte(user)
	if !multi {
		u = nil
	}
	if _, err := refDecrypt(remote, u, []byte(me.pass)); err == nil {
		if len(lines) > 0 {
			accepted = &ucred{user, me.pass}
		}
		return lines, accepted, true
	}
	for k := range known {
		if (!multi || known[k].user == user) && !decline {
			return append(lines, known[k].pass), &known[k], true
		}
	}
	return append(lines, "wrong!", ""), nil, false
}

func (s *credRun) file(i int) string { return fmt.Sprintf("c%d", i) }

// identity is who the user of copy i is to the program after opening it.
func (s *credRun) identity(i int) ucred {
	me := s.cur[i]
	if !isMulti(s.h.read(s.file(i))) {
		me.user = ""
	}
	return me
}

func (s *credRun) openLines(i int) []string {
	if isMulti(s.h.read(s.file(i))) {
		return []string{s.cur[i].user, s.cur[i].pass}
	}
	return []string{s.cur[i].pass}
}

func (s *credRun) read(i int) (*fstore, error) {
	var u []byte
	b := s.h.read(s.file(i))
	if isMulti(b) {
		u = []byte(s.cur[i].user)
	}
	return openFile(s.h.path(s.file(i)), u, []byte(s.cur[i].pass))
}

// settle finds out which of the credentials the user knows open the copy now.
func (s *credRun) settle(i int, cands ...ucred) error {
	b := s.h.read(s.file(i))
	o := s.opens(b)
	for _, c := range cands {
		if !isMulti(b) {
			c.user = ""
		}
		if hasCred(o, c) {
			s.cur[i] = c
			return nil
		}
	}
	return failf("copy %d opens with %q, but its user used, set or accepted only %q", i, o, cands)
}

func answer(lines []string) string {
	var b strings.Builder
	for _, l := range lines {
		b.WriteString(l)
		if l != "\x04" {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func (s *credRun) sync(i int, cmd, yes, decline bool, pick int) (ok bool, err error) {
	remote := s.h.read("r")
	me := s.identity(i)
	before := s.h.read(s.file(i))
	lines, acc, ok := s.pullLines(remote, me, pick, decline)
	s.prompts += len(lines)
	yn := "no"
	if yes {
		yn = "yes"
	}
	in := answer(lines)
	if ok {
		in += yn + "\n"
	}
	args := []string{"--no-clear-clip", "-f", s.file(i)}
	open := s.openLines(i)
	var steps []step
	end := "exit\n"
	if cmd {
		args = append(args, "--no-sync")
		steps = []step{{in: "sync\n" + in, what: "sync"}}
	} else if in != "" {
		// an end of input takes no line break
		open[len(open)-1] += "\n" + strings.TrimSuffix(in, "\n")
		if strings.HasSuffix(in, "\x04") {
			open = []string{strings.Join(open, "\n")}
		}
	}
	r, err := s.h.session(args, open, steps, end)
	if err != nil {
		return ok, failf("synchronising copy %d (as %q, answers %q): %v", i, me, lines, err)
	}
	s.x.Logf("sync copy %d as %q, answers %q (%v): %q", i, me, lines, ok, r.Out)
	s.said += r.Out
	if r.RC != 0 {
		return ok, failf("synchronising copy %d: %s", i, r.tail())
	}
	if !ok {
		if !bytes.Equal(s.h.read("r"), remote) {
			return ok, failf("the remote was changed by copy %d, which could not read it: %s", i, r.tail())
		}
		s.declined++
		if err := s.settle(i, me); err != nil {
			return ok, failf("after synchronising was refused: %v (%s)", err, r.tail())
		}
		f, err := s.read(i)
		if err != nil {
			return ok, err
		}
		old := s.oldLog(before, me)
		if d := sameLog(f.Log, old); d != "" {
			return ok, failf("synchronising was refused, but the history changed: %s", d)
		}
		return ok, nil
	}
	cands := []ucred{me}
	if acc != nil {
		cands = append([]ucred{*acc}, me)
	}
	if err := s.settle(i, cands...); err != nil {
		return ok, failf("after synchronising copy %d: %v (%s)", i, err, r.tail())
	}
	if s.cur[i] != me {
		s.switched++
	}
	if err := s.newerWins(before, remote, s.h.read(s.file(i)), me, acc, yes); err != nil {
		return ok, failf("after synchronising copy %d: %v (%s)", i, err, r.tail())
	}
	now := s.h.read("r")
	if now == nil {
		return ok, failf("the remote was not created: %s", r.tail())
	}
	if !bytes.Equal(now, remote) {
		o := s.opens(now)
		found := false
		for _, c := range cands {
			if !isMulti(now) {
				c.user = ""
			}
			found = found || hasCred(o, c)
		}
		if !found {
			return ok, failf("copy %d wrote a remote that opens with %q, but its user knows only %q", i, o, cands)
		}
	}
	return ok, nil
}

// newerWins checks which password a single-user copy has after reading a
// remote with another: that of the newer data, or what the user answered.
func (s *credRun) newerWins(local, remote, after []byte, me ucred, acc *ucred, yes bool) error {
	if remote == nil || isMulti(local) || isMulti(remote) || isMulti(after) {
		return nil
	}
	l, err := refParse(local)
	must(err)
	r, err := refParse(remote)
	must(err)
	a, err := refParse(after)
	if err != nil {
		return failf("the file is unreadable: %v", err)
	}
	rp := me
	if acc != nil {
		rp = *acc
	}
	if bytes.Equal(l.Salt, r.Salt) && rp == me {
		return nil
	}
	end := func(log []txlogs.Tx) int64 { return log[len(log)-1].Time }
	lt, rt := end(s.oldLog(local, me)), end(s.oldLog(remote, rp))
	want, what := l, "its own"
	if lt < rt || lt == rt && yes {
		want, what = r, "the remote's"
	}
	if !bytes.Equal(a.Salt, want.Salt) {
		return failf("the password is not %s (last change %d here, %d there, answer %v)", what, lt, rt, yes)
	}
	if rp == me {
		return nil
	}
	// and the remote has the same
	n, err := refParse(s.h.read("r"))
	if err != nil {
		return failf("the remote is unreadable: %v", err)
	}
	if n.NUsers == 0 && !bytes.Equal(n.Salt, want.Salt) {
		return failf("the copy's password is %s, the remote's is not (last change %d here, %d there, answer %v)", what, lt, rt, yes)
	}
	return nil
}

func (s *credRun) oldLog(b []byte, c ucred) []txlogs.Tx {
	var u []byte
	if isMulti(b) {
		u = []byte(c.user)
	}
	pt, err := refDecrypt(b, u, []byte(c.pass))
	must(err)
	st, err := parseStore(pt)
	must(err)
	return st.Log
}

// table is what copy i opens with.
func (s *credRun) table(i int) table {
	file := s.h.read(s.file(i))
	if !isMulti(file) {
		return table{pass: s.cur[i].pass}
	}
	t := table{multi: true, users: map[string]string{}}
	for _, u := range s.opens(file) {
		t.users[u.user] = u.pass
	}
	return t
}

// table is who can open what.
type table struct {
	multi bool
	pass  string
	users map[string]string
}

func (t table) clone() table {
	u := map[string]string{}
	for k, v := range t.users {
		u[k] = v
	}
	return table{t.multi, t.pass, u}
}

func (s *credRun) edit(i int) error {
	s.seq++
	name := fmt.Sprintf("e%d", s.seq)
	r, err := s.h.session([]string{"--no-clear-clip", "--no-sync", "-f", s.file(i)}, s.openLines(i), []step{
		{in: "add " + name + "\n\n\nm\nx\nx\n", what: "add"}, {in: "set base notes " + name + "\n", what: "set"}}, "exit\n")
	if err != nil {
		return err
	}
	if r.RC != 0 {
		return failf("editing copy %d: %s", i, r.tail())
	}
	return s.settle(i, s.cur[i])
}

// change makes the credential changes of a round on copy i.
// If the copy did not synchronise in the last round it does at the start of
// the session, after which its user has the credentials in then.
func (s *credRun) change(rd credRound, i int, old table, then *ucred) (table, bool, error) {
	t := old.clone()
	me := s.cur[i]
	all := false
	var steps []step
	if then != nil {
		lines, _, _ := s.pullLines(s.h.read("r"), s.identity(i), rd.Pick, false)
		yn := "no\n"
		if rd.Yes {
			yn = "yes\n"
		}
		steps = append(steps, step{in: "sync\n" + answer(lines) + yn, what: "sync"})
		me = *then
	}
	type later struct{ user, tag string }
	gen := map[string]string{}
	// A user entry that replaces a removed one is another entry, whoever was
	// logged in with the old one on another copy is gone.
	removed, single := map[string]bool{}, false
	for k, o := range rd.Ops {
		u := credNames[o.U%len(credNames)]
		p := credPasses[o.P%len(credPasses)]
		dlg := "m\n" + p + "\n" + p + "\n"
		put := func(in string, check func(string) error) {
			steps = append(steps, step{in: in, what: strings.SplitN(in, "\n", 2)[0], check: check})
		}
		switch o.Op {
		case "passwdself":
			put("passwd\n"+dlg, nil)
			me.pass = p
			if t.multi {
				t.users[me.user] = p
			} else {
				t.pass = p
			}
		case "rekeyself":
			put("rekey\n", nil)
		case "passwd", "rekey":
			if _, ok := t.users[u]; !t.multi || !ok || u == me.user {
				continue
			}
			put(o.Op+" "+u+"\n"+dlg, nil)
			t.users[u] = p
		case "adduser":
			if single || removed[u] {
				continue
			}
			if !t.multi {
				put("adduser "+u+"\n", nil)
				t.multi, me.user = true, u
				t.users = map[string]string{u: me.pass}
				continue
			}
			if _, ok := t.users[u]; ok {
				continue
			}
			put("adduser "+u+"\n"+dlg, nil)
			t.users[u] = p
		case "rm":
			if _, ok := t.users[u]; !t.multi || !ok || u == me.user {
				continue
			}
			put("rm user/"+u+"\nuser/"+u+"\n", nil)
			delete(t.users, u)
			removed[u] = true
		case "tosingle":
			if !t.multi {
				continue
			}
			single = true
			for _, n := range sortedKeys(t.users) {
				if n != me.user {
					put("rm user/"+n+"\nuser/"+n+"\n", nil)
				}
			}
			put("rm user/"+me.user+"\nuser/"+me.user+"\n", nil)
			t = table{pass: me.pass}
			me.user = ""
		case "rekeyall":
			if !t.multi {
				continue
			}
			all = true
			want := sortedKeys(t.users)
			for _, n := range want {
				t.users[n] = fmt.Sprintf("\x00gen%d:%s", k, n)
			}
			me.pass = t.users[me.user]
			put("rekeyall\nyes\n", func(seg string) error {
				for _, n := range want {
					for _, l := range strings.Split(seg, "\n") {
						if v, ok := strings.CutPrefix(strings.TrimLeft(l, " "), n+": "); ok {
							gen[fmt.Sprintf("\x00gen%d:%s", k, n)] = v
						}
					}
				}
				return nil
			})
		}
	}
	if len(steps) == 0 {
		return t, false, nil
	}
	args := []string{"--no-clear-clip", "-f", s.file(i)}
	end := "exit\n"
	open := s.openLines(i)
	remote := s.h.read("r")
	auto := rd.Auto && !all && then == nil && s.inStep(i)
	if auto {
		// at the end the remote is read with the new credentials
		lines, _, _ := s.pullLines(remote, me, 0, false)
		yn := "no"
		if rd.Yes {
			yn = "yes"
		}
		end += answer(lines) + yn + "\n"
	} else {
		args = append(args, "--no-sync")
	}
	was := s.cur[i]
	r, err := s.h.session(args, open, steps, end)
	if err != nil {
		return t, false, failf("changing credentials of copy %d: %v", i, err)
	}
	s.x.Logf("change on copy %d: %q", i, r.Out)
	if r.RC != 0 {
		return t, false, failf("changing credentials of copy %d: %s", i, r.tail())
	}
	sub := func(p string) string {
		if v, ok := gen[p]; ok {
			if v != "" {
				s.passes = append(s.passes, v)
			}
			return v
		}
		return p
	}
	for n, p := range t.users {
		t.users[n] = sub(p)
	}
	t.pass, me.pass = sub(t.pass), sub(me.pass)
	cands := []ucred{me}
	if auto {
		cands = append(cands, was) // entered to read the remote
	}
	if err := s.settle(i, cands...); err != nil {
		return t, auto, failf("after changing credentials of copy %d: %v (%s)", i, err, r.tail())
	}
	return t, auto, nil
}

// inStep tells that the copy and the remote have the same history and key.
func (s *credRun) inStep(i int) bool {
	a, b := s.h.read(s.file(i)), s.h.read("r")
	if b == nil || isMulti(a) != isMulti(b) {
		return false
	}
	ra, _ := refParse(a)
	rb, _ := refParse(b)
	if !bytes.Equal(ra.Salt, rb.Salt) || !hasCred(s.opens(b), s.cur[i]) {
		return false
	}
	return sameLog(s.oldLog(a, s.cur[i]), s.oldLog(b, s.cur[i])) == ""
}

func runM15(c m15, x *Ctx) error {
	h := newHome(x, "m15")
	defer h.done()
	s := &credRun{x: x, h: h, passes: append([]string{"start"}, credPasses...)}
	// the database in the beginning
	var us []refUser
	tab := table{pass: "start"}
	if c.Users > 0 {
		tab = table{multi: true, users: map[string]string{}}
		for i := 0; i < c.Users && i < 3; i++ {
			us = append(us, refUser{[]byte(credNames[i]), []byte(credPasses[i]), expand([]byte(fmt.Sprint("s", i)), 32), expand([]byte(fmt.Sprint("i", i)), 40)})
			tab.users[credNames[i]] = credPasses[i]
		}
	}
	log := multiLog(us, h, "c0")
	now := int64(1600001000e9)
	add := func(id string, kv ...string) {
		now += 10
		log = append(log, txlogs.Tx{Time: now, Kind: "add", UUID: id})
		for k := 0; k < len(kv); k += 2 {
			now++
			log = append(log, txlogs.Tx{Time: now, Kind: "setk", UUID: id, Key: kv[k], Value: kv[k+1]})
		}
	}
	add("00000000-0000-4000-8000-0000000000b0", "name", "base", "updated", "1")
	add("00000000-0000-4000-8000-0000000000b1", "name", "sync/file", "updated", "1", "sync", "true", "url", fileURL(h.path("r")))
	h.writeDB("c0", "start", us, storeJSON(log, len(log)))
	for i, w := range c.Copies {
		if i > 0 {
			must(os.WriteFile(h.path(s.file(i)), h.read("c0"), 0o600))
		}
		u := ucred{"", "start"}
		if c.Users > 0 {
			n := credNames[w%c.Users]
			u = ucred{n, tab.users[n]}
		}
		s.cur = append(s.cur, u)
		s.dead = append(s.dead, false)
	}
	// everybody starts in step
	for i := range c.Copies {
		if _, err := s.sync(i, false, true, false, 0); err != nil {
			return failf("in the beginning: %v", err)
		}
	}
	changes, late := 0, -1
	for n, rd := range c.Rounds {
		ctx := func(err error) error {
			if err == nil || isInfra(err) {
				return err
			}
			return failf("round %d: %v", n+1, err)
		}
		if len(rd.Order) != len(c.Copies) || len(rd.Cmd) != len(c.Copies) {
			return nil
		}
		a := rd.A % len(c.Copies)
		if s.dead[a] {
			late = -1
			continue
		}
		// the state that everybody agrees on
		old := s.table(a)
		edits := func() error {
			for _, e := range rd.Edits {
				if e < len(c.Copies) && !s.dead[e] {
					if err := s.edit(e); err != nil {
						return err
					}
				}
			}
			return nil
		}
		if !rd.After {
			if err := edits(); err != nil {
				return ctx(err)
			}
		}
		var then *ucred
		if late == a {
			late = -1
			// what it will find
			was := s.cur[a]
			fa, fr := h.read(s.file(a)), h.read("r")
			if ok, err := s.sync(a, true, rd.Yes, false, rd.Pick); err != nil {
				return ctx(err)
			} else if !ok {
				s.dead[a] = true
				continue
			}
			then = &ucred{s.cur[a].user, s.cur[a].pass}
			old = s.table(a)
			must(os.WriteFile(h.path(s.file(a)), fa, 0o600))
			must(os.WriteFile(h.path("r"), fr, 0o600))
			s.cur[a] = was
			s.lates++
		}
		t, auto, err := s.change(rd, a, old, then)
		if err != nil {
			return ctx(err)
		}
		changes++
		if rd.After {
			if err := edits(); err != nil {
				return ctx(err)
			}
		}
		aSynced := auto
		if n+1 < len(c.Rounds) && c.Rounds[n+1].Late {
			if l := c.Rounds[n+1].A % len(c.Copies); l != a && !s.dead[l] {
				late = l
			}
		}
		// who did not change keeps access everywhere, all the time
		keeps := func() error {
			if !old.multi || !t.multi {
				return nil
			}
			for _, u := range sortedKeys(old.users) {
				p := old.users[u]
				if t.users[u] != p {
					continue
				}
				for i := range c.Copies {
					if !s.dead[i] && i != late && !hasCred(s.opens(h.read(s.file(i))), ucred{u, p}) {
						return failf("the user %q, whose credentials did not change, cannot open copy %d any more", u, i)
					}
				}
				if !hasCred(s.opens(h.read("r")), ucred{u, p}) {
					return failf("the user %q, whose credentials did not change, cannot open the remote any more", u)
				}
			}
			return nil
		}
		if err := keeps(); err != nil {
			return ctx(err)
		}
		for pass := 0; pass < 3; pass++ {
			for k, i := range rd.Order {
				if s.dead[i] || i == late {
					continue
				}
				ok, err := s.sync(i, rd.Cmd[k], rd.Yes, pass == 0 && rd.Decline == i, rd.Pick)
				if err != nil {
					return ctx(err)
				}
				if !ok && !(pass == 0 && rd.Decline == i) {
					s.dead[i] = true // removed from the users
					continue
				}
				if ok && i == a {
					aSynced = true
				}
				if err := keeps(); err != nil {
					return ctx(failf("after copy %d synchronised: %v", i, err))
				}
				if !ok || !aSynced || !t.multi {
					continue
				}
				for _, u := range sortedKeys(t.users) {
					for _, f := range []string{s.file(i), "r"} {
						if !hasCred(s.opens(h.read(f)), ucred{u, t.users[u]}) {
							return ctx(failf("after copy %d synchronised, %s does not open for the user %q with the passphrase %q (but with %q)", i, f, u, t.users[u], s.opens(h.read(f))))
						}
					}
				}
			}
		}
		var first *fstore
		fi := -1
		for i := range c.Copies {
			if s.dead[i] || i == late {
				continue
			}
			f, err := s.read(i)
			if err != nil {
				return ctx(err)
			}
			if first == nil {
				first, fi = f, i
				continue
			}
			if d := sameLog(f.Log, first.Log); d != "" {
				return ctx(failf("the copies %d and %d differ: %s", i, fi, d))
			}
		}
		if first != nil {
			names, err := first.byName()
			if err != nil {
				return ctx(err)
			}
			{
				have := 0
				for n := range names {
					if strings.HasPrefix(n, "e") {
						have++
					}
				}
				lost := late >= 0
				for _, d := range s.dead {
					lost = lost || d
				}
				if !lost && have != s.seq {
					return ctx(failf("%d of %d added entries are left", have, s.seq))
				}
			}
			o := s.opens(h.read("r"))
			if len(o) == 0 {
				return ctx(failf("nobody can open the remote"))
			}
			if d := sameLog(s.oldLog(h.read("r"), o[0]), first.Log); d != "" {
				return ctx(failf("the remote and copy %d differ: %s", fi, d))
			}
		}
	}
	if changes > 0 && (s.prompts > 0 || s.switched > 0) {
		x.NonTrivial()
	}
	x.LabelIf(s.switched > 0, "credentials taken from the remote")
	x.LabelIf(s.lates > 0, "synchronised and changed in one session")
	x.LabelIf(s.declined > 0, "refused to give credentials")
	x.LabelIf(c.Users > 0, "multi-user")
	for _, d := range s.dead {
		x.LabelIf(d, "user removed")
	}
	return nil
}

// m22: several copies change credentials before they synchronise.
type m22 struct {
	Users int
	Who   []int
	Ops   [][]credOp
	Seq   []int // the order in which the copies make their changes
	Edits []int
	Order []int
	Cmd   []bool
	Yes   bool
	Pick  int
}

func genM22(t *rapid.T) m22 {
	c := m22{Users: rapid.SampledFrom([]int{1, 2, 2, 3, 3}).Draw(t, "users"), Yes: rapid.Bool().Draw(t, "yes"), Pick: rapid.IntRange(0, 2).Draw(t, "pick")}
	n := rapid.SampledFrom([]int{2, 2, 3}).Draw(t, "copies")
	kinds := []string{"passwd", "passwdself", "passwdself", "rekey", "rekeyself", "adduser"}
	if rapid.Bool().Draw(t, "rekeyall") {
		kinds = append(kinds, "rekeyall", "rekeyall")
	}
	for i := 0; i < n; i++ {
		c.Who = append(c.Who, rapid.IntRange(0, 2).Draw(t, "who"))
		c.Ops = append(c.Ops, genSlice(t, "ops", 1, 2, rapid.Custom(func(t *rapid.T) credOp {
			return credOp{
				Op: rapid.SampledFrom(kinds).Draw(t, "op"),
				U:  rapid.IntRange(0, 2).Draw(t, "u"), P: rapid.IntRange(0, 3).Draw(t, "p"),
			}
		})))
	}
	c.Seq = rapid.Permutation([]int{0, 1, 2}[:n]).Draw(t, "seq")
	c.Edits = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 3).Draw(t, "edits")
	c.Order = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 4).Draw(t, "order")
	c.Cmd = rapid.SliceOfN(rapid.Bool(), 12, 12).Draw(t, "cmd")
	return c
}

func runM22(c m22, x *Ctx) error {
	if c.Users < 1 || len(c.Ops) != len(c.Who) || len(c.Seq) != len(c.Who) {
		return nil
	}
	h := newHome(x, "m22")
	defer h.done()
	s := &credRun{x: x, h: h, passes: append([]string{"start"}, credPasses...)}
	var us []refUser
	old := table{multi: true, users: map[string]string{}}
	for i := 0; i < c.Users && i < 3; i++ {
		us = append(us, refUser{[]byte(credNames[i]), []byte(credPasses[i]), expand([]byte(fmt.Sprint("s", i)), 32), expand([]byte(fmt.Sprint("i", i)), 40)})
		old.users[credNames[i]] = credPasses[i]
	}
	log := multiLog(us, h, "c0")
	now := int64(1600001000e9)
	add := func(id string, kv ...string) {
		now += 10
		log = append(log, txlogs.Tx{Time: now, Kind: "add", UUID: id})
		for k := 0; k < len(kv); k += 2 {
			now++
			log = append(log, txlogs.Tx{Time: now, Kind: "setk", UUID: id, Key: kv[k], Value: kv[k+1]})
		}
	}
	add("00000000-0000-4000-8000-0000000000b0", "name", "base", "updated", "1")
	add("00000000-0000-4000-8000-0000000000b1", "name", "sync/file", "updated", "1", "sync", "true", "url", fileURL(h.path("r")))
	h.writeDB("c0", "", us, storeJSON(log, len(log)))
	for i, w := range c.Who {
		n := credNames[w%c.Users]
		s.cur = append(s.cur, ucred{n, old.users[n]})
		s.dead = append(s.dead, false)
		if i > 0 {
			must(os.WriteFile(h.path(s.file(i)), h.read("c0"), 0o600))
		}
	}
	must(os.WriteFile(h.path("r"), h.read("c0"), 0o600))

	tabs := make([]table, len(c.Who))
	want := old.clone().users // if nobody rekeys: the last change of each
	all := 0
	for _, i := range c.Seq {
		var ops []credOp
		me := s.cur[i].user
		hit := map[string]bool{}
		for _, o := range c.Ops[i] {
			switch u := credNames[o.U%len(credNames)]; o.Op {
			case "adduser":
				if i > 0 {
					continue
				}
			case "passwdself", "rekeyself":
				hit[me] = true
			case "passwd", "rekey":
				hit[u] = hit[u] || u != me
			case "rekeyall":
				all++
			}
			ops = append(ops, o)
		}
		t, _, err := s.change(credRound{Ops: ops}, i, old, nil)
		if err != nil {
			return err
		}
		tabs[i] = t
		for u := range want {
			if hit[u] {
				want[u] = t.users[u]
			}
		}
	}
	for _, e := range c.Edits {
		if err := s.edit(e % len(c.Who)); err != nil {
			return err
		}
	}
	order := append([]int{}, c.Order...)
	for k := 0; k < 2; k++ {
		for i := range c.Who {
			order = append(order, i)
		}
	}
	for k, i := range order {
		ok, err := s.sync(i, c.Cmd[k%len(c.Cmd)], c.Yes, false, c.Pick)
		if err != nil {
			return err
		}
		if !ok {
			return failf("copy %d (%v) cannot synchronise after %v; the remote opens with %q", i, s.cur[i], order[:k], s.opens(h.read("r")))
		}
		for _, u := range sortedKeys(old.users) {
			for _, f := range []string{s.file(i), "r"} {
				o := s.opens(h.read(f))
				found := hasCred(o, ucred{u, old.users[u]})
				for _, t := range tabs {
					found = found || hasCred(o, ucred{u, t.users[u]})
				}
				if !found {
					return failf("after copy %d synchronised, %q cannot open %s with any passphrase they ever had; it opens with %q", i, u, f, o)
				}
			}
		}
	}
	var first *fstore
	for i := range c.Who {
		f, err := s.read(i)
		if err != nil {
			return err
		}
		if first == nil {
			first = f
		} else if d := sameLog(f.Log, first.Log); d != "" {
			return failf("copy %d differs from copy 0: %s", i, d)
		}
	}
	names, err := first.byName()
	if err != nil {
		return err
	}
	for k := 1; k <= s.seq; k++ {
		if names[fmt.Sprintf("e%d", k)] == nil {
			return failf("the entry e%d is lost", k)
		}
	}
	o := s.opens(h.read("r"))
	if all == 0 {
		for u, p := range tabs[0].users {
			if w, ok := want[u]; ok {
				p = w
			}
			if !hasCred(o, ucred{u, p}) {
				return failf("%q cannot open the remote with %q, set last; it opens with %q", u, p, o)
			}
		}
	}
	for _, u := range sortedKeys(tabs[0].users) {
		if _, ok := old.users[u]; ok || hasCred(o, ucred{u, tabs[0].users[u]}) {
			continue
		}
		// added while all others got a new master key
		x.Label("user was not present for a rekey")
		if names["user/"+u] == nil {
			return failf("the user %q is gone", u)
		}
		if !strings.Contains(s.said, fmt.Sprintf("%q", "user/"+u)) {
			return failf("the user %q lost access, and nothing was said about it: %q", u, s.said)
		}
		p := credPasses[1]
		r, err := h.session([]string{"--no-clear-clip", "--no-sync", "-f", "c0"}, s.openLines(0), []step{{in: "rekey " + u + "\nm\n" + p + "\n" + p + "\n", what: "rekey"}}, "exit\n")
		if err != nil {
			return err
		}
		if err := s.settle(0, s.cur[0]); err != nil {
			return err
		}
		if _, err := s.sync(0, true, c.Yes, false, c.Pick); err != nil {
			return err
		}
		for _, f := range []string{"c0", "r"} {
			if !hasCred(s.opens(h.read(f)), ucred{u, p}) {
				return failf("the user %q was given a new password with rekey, but cannot open %s: %s", u, f, r.tail())
			}
		}
	}
	x.NonTrivial()
	x.LabelIf(s.switched > 0, "credentials taken from the remote")
	x.LabelIf(all > 0, "rekeyed")
	x.LabelIf(all > 1, "rekeyed twice")
	x.LabelIf(len(c.Who) > 2, "three copies")
	return nil
}

func init() {
	part("M15", "credentials", 600, 15000,
		"2..3 copies in step with a file remote, 1..3 rounds in which one copy makes 1..3 credential changes (passwd, rekey, rekeyall, adduser, removing users, becoming single-user) while others change data, then all synchronise twice in random order, giving the credentials asked for; every file is opened with everything ever used; non-trivial: credentials were asked for or taken over",
		genM15, runM15)
	part("M22", "concurrent", 700, 20000,
		"2..3 copies of a file with 1..3 users, all in step with a file remote, each make 1..2 credential changes (passwd, rekey, rekeyall, adduser), then data changes, then synchronise in a generated order until all have twice; non-trivial: all cases",
		genM22, runM22)
}
