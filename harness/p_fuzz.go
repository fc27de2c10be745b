package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M03: anything at the prompts

type m03 struct {
	Prefix []sop
	Lines  []B
	NoNL   bool // the last line is not ended
	End    string
	Creds  bool // commands that change how the file is opened are left in
	Sync   bool // without --no-sync
	RO     bool
	Multi  bool
}

var cmdWords = []string{"passwd", "adduser", "rekey", "rekeyall", "add", "add", "add", "mv", "rm", "rm", "rmk", "ls", "cd", "cd", "cp", "get", "get", "user", "pass", "email", "totp",
	"login", "set", "set", "set", "edit", "open", "label", "rmlabel", "labels", "show", "show", "sync", "addsync", "dump", "dumpall", "help", "frob"}
var fuzzArgs = []string{"a", "a", "a", "b", "b", "zz", "mail", "a/b", "user", "user/a", "user/", "/", "//", "é", "ÿ", "notes", "pass", "totp", "url", "labels", "name", "updated", "iv", "salt", "mkey", "sync", "knownhosts", "privkey",
	"0", "1", "-1", "2", "99", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "1e3", "", " ", "  ", "\t", ".", "y", "n", "%", "%!s", "%n", "file", "scp", "true", "x://y", "file://", "file:///", "scp://", "file://%zz", "scp://u@127.0.0.1:1/f",
	"JBSWY3DPEHPK3PXP", "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&digits=9&period=0", "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&period=-1", "otpauth://totp/%00?secret=JBSWY3DPEHPK3PXP", "sync", "users", "other", "/file", "remote", "db", "a,b", ",", "\"", "\\", "\u2028", "\ufeff", "=", "-", "--", "*"}
var fuzzAnswers = []string{"", "", ".", "y", "y", "y", "y", ".", "n", "Y", "yes", "no", "m", "c", "?", "u", "l", "n", "b", "e", "u 5", "l -3", "n 99999999999", "e 33", "b 32", "0", "1", "-1", "2", "3", "4", "7", "32", "64", "100000", "-99999", "x", "e@x", "file", "remote", "127.0.0.1", "a", "b", "r", "d", "R"}
var ctlSeqs = []string{"\x00", "\x01", "\x02", "\x04", "\x05", "\x06", "\x07", "\x08", "\t", "\x0b", "\x0c", "\r", "\x0e", "\x0f", "\x10", "\x11", "\x12", "\x13", "\x14", "\x15", "\x16", "\x17", "\x18", "\x19", "\x1b", "\x1c", "\x1d", "\x1e", "\x1f", "\x7f",
	"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "\x1b[3~", "\x1b[", "\x1b[1;5C", "\x1b[999999999C", "\x1bOA", "\x1bb", "\x1bf", "\x1bd", "\x1b\x7f", "\x1b\x08", "\x1bt", "\x1b\x1b", "\x12a", "\x13z", "\t\t", "\x03", "\u0300", "\u200d", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\u202e", "日", "😀", "\ufffd", "\U0010ffff"}

var fuzzChunks = []string{"set a notes VVV", "set b VVV v", "set b url VVV", "set a totp VVV", "rmk a VVV", "mv a VVV", "mv VVV b", "rm a\na", "rm VVV\na", "add VVV\ne\nu\nVVV\ny", "add n1\ne\nu\nm\nVVV\nVVV", "add user/x\n\n\ny",
	"label a\nVVV\nl2\n.", "rmlabel a VVV", "set a VVV\nl1\nl2\n.", "set a pass\nVVV\ny", "cd a", "cd", "cd VVV", "show a 1", "show b VVV", "addsync file\nremote\n", "addsync file\nVVV\n", "sync VVV", "edit a notes", "cp a pass", "totp a", "open a", "get VVV pass", "rekey", "login a\n\n\n"}

func genFuzzLine(t *rapid.T) B {
	arg := func() string {
		switch rapid.IntRange(0, 9).Draw(t, "argk") {
		case 0:
			return rapid.SampledFrom(nameParts).Draw(t, "arg")
		case 1:
			return genLine(t, "arg")
		}
		return rapid.SampledFrom(fuzzArgs).Draw(t, "arg")
	}
	var s string
	switch rapid.IntRange(0, 12).Draw(t, "kind") {
	case 10, 11, 12:
		s = rapid.SampledFrom(fuzzChunks).Draw(t, "chunk")
		if rapid.Bool().Draw(t, "chunkArg") {
			s = strings.Replace(s, "VVV", arg(), 1)
		}
	case 0, 1, 2, 3:
		s = rapid.SampledFrom(cmdWords).Draw(t, "cmd")
		for n := rapid.IntRange(0, 4).Draw(t, "args"); n > 0; n-- {
			s += rapid.SampledFrom([]string{" ", " ", " ", "  ", "\t"}).Draw(t, "sep") + arg()
		}
	case 4, 5, 6:
		s = rapid.SampledFrom(fuzzAnswers).Draw(t, "answer")
	case 7:
		s = genLine(t, "line")
	case 8:
		return rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes")
	default:
		s = rapid.SampledFrom(cmdWords).Draw(t, "cmd") + " " + arg()
	}
	if rapid.IntRange(0, 3).Draw(t, "ctl") == 0 {
		for n := rapid.IntRange(1, 4).Draw(t, "ctls"); n > 0; n-- {
			i := rapid.IntRange(0, len(s)).Draw(t, "at")
			s = s[:i] + rapid.SampledFrom(ctlSeqs).Draw(t, "seq") + s[i:]
		}
	}
	return B(s)
}

func genM03(t *rapid.T) m03 {
	pool := []string{"a", "b", "mail", "a/b", "é"}
	c := m03{Prefix: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sop { return genSop(t, pool) }), 0, 8).Draw(t, "prefix")}
	add := []sop{{Op: "add", N: "a", Lines: []string{"e@x", "u"}, End: "m", V: "secret"}, {Op: "add", N: "b", Lines: []string{"", ""}, End: "m"}}
	c.Prefix = append(add[:rapid.IntRange(0, 2).Draw(t, "adds")], c.Prefix...)
	c.Lines = genSlice(t, "lines", 1, 30, rapid.Custom(genFuzzLine))
	c.NoNL = rapid.IntRange(0, 3).Draw(t, "nonl") == 0
	c.End = rapid.SampledFrom([]string{"exit", "eof", "eof"}).Draw(t, "end")
	c.Creds = rapid.IntRange(0, 3).Draw(t, "creds") == 0
	c.Sync = rapid.IntRange(0, 2).Draw(t, "sync") == 0
	c.RO = rapid.IntRange(0, 15).Draw(t, "ro") == 0
	c.Multi = rapid.IntRange(0, 4).Draw(t, "multi") == 0
	return c
}

// fuzzInput is the garbage of a case, without what would reach beyond the
// session: suspending, contacting hosts by name.
func (c m03) fuzzInput() (in []byte, interrupts bool) {
	syncs := c.Sync
	for _, l := range c.Lines {
		syncs = syncs || bytes.Contains(l, []byte("sync"))
	}
	for i, l := range c.Lines {
		l = bytes.ReplaceAll(bytes.ReplaceAll(l, []byte("\x1a"), nil), []byte("⟦"), nil)
		if syncs {
			l = bytes.ReplaceAll(l, []byte("scp"), []byte("spc"))
		}
		if !c.Creds {
			for _, w := range []string{"passwd", "adduser", "rekeyall"} {
				l = bytes.ReplaceAll(l, []byte(w), []byte("show"))
			}
		}
		in = append(in, l...)
		if i < len(c.Lines)-1 || !c.NoNL {
			in = append(in, '\n')
		}
	}
	if !c.Creds {
		// put together by control characters all the same
		if plain := bytes.ReplaceAll(in, []byte{0}, nil); hasAny(string(plain), "asswd", "dduser", "ekey") {
			in = plain
		}
		for _, w := range []string{"asswd", "dduser", "ekey"} {
			in = bytes.ReplaceAll(in, []byte(w), []byte("xx"))
		}
	}
	return in, bytes.IndexByte(in, 3) >= 0
}

func runM03(c m03, x *Ctx) error {
	h := newHome(x, "m03")
	defer h.done()
	curGen = genVals{}
	pass, open := "the pass", []string{"the pass"}
	var users []refUser
	if c.Multi {
		users = []refUser{{[]byte("u0"), []byte(pass), expand([]byte("s0"), 32), expand([]byte("i0"), 40)}, {[]byte("u1"), []byte("other"), expand([]byte("s1"), 32), expand([]byte("i1"), 40)}}
		open = []string{"u0", pass}
	}
	log := multiLog(users, h, "db")
	h.writeDB("db", pass, users, storeJSON(log, len(log)))
	h.unprivileged()
	base, ok := refReplay(log)
	if !ok {
		return infra("bad log")
	}
	m, _ := stateModel(base)
	p := &planner{m: m, x: x, start: time.Now(), readOnly: c.RO}
	if !c.RO {
		for _, o := range c.Prefix {
			if o.Op == "cd" || o.V == "rekeyall" {
				continue
			}
			p.do(o)
		}
	}
	d := p.dumpStep()
	in, interrupts := c.fuzzInput()
	end := "exit\n"
	if c.End == "eof" {
		end = ""
	}
	args := []string{"-f", "db"}
	if !c.Sync {
		args = append(args, "--no-sync")
	}
	if c.RO {
		args = append(args, "-t", "2099-01-01 00:00:00")
	}
	before := h.read("db")
	r, err := h.session(args, open, p.steps, string(in)+end)
	if err != nil {
		if isInfra(err) {
			return err
		}
		return failf("%v\ninput after the first part: %q", err, in)
	}
	if r.RC != 0 && !interrupts {
		return failf("the session ended with a failure without an interrupt: %s\ninput: %q", r.tail(), in)
	}
	after := h.read("db")
	if r.RC != 0 || c.RO {
		if !bytes.Equal(before, after) {
			return failf("the session was interrupted or read-only, but the file changed\ninput: %q", in)
		}
		x.LabelIf(r.RC != 0, "interrupted")
		return nil
	}
	rf, err := refParse(after)
	if err != nil {
		return failf("the saved file is malformed: %v\ninput: %q", err, in)
	}
	var st *fstore
	if len(rf.Users) > 0 {
		// a user may have been renamed on the way
		for _, n := range []string{"u0", "a", "b"} {
			if st, err = openFile(h.path("db"), []byte(n), []byte(pass)); err == nil {
				break
			}
		}
	} else {
		st, err = openFile(h.path("db"), nil, []byte(pass))
	}
	switch {
	case err != nil && (c.Creds || len(rf.Users) > 0 || hasAny(r.Out, "re-encrypted with it on exit", "re-used your key")):
		x.Label("credentials changed")
	case err != nil:
		return failf("%v\ninput: %q", err, in)
	default:
		n := len(d.st.Log)
		if len(st.Log) < n || sameLog(st.Log[:n], d.st.Log) != "" {
			return failf("the history from before the odd input is not kept\ninput: %q", in)
		}
		if _, err := st.byName(); err != nil {
			return failf("%v\ninput: %q", err, in)
		}
		x.LabelIf(len(st.Log) > n, "odd input changed something")
	}
	if len(c.Lines) >= 3 {
		x.NonTrivial()
	}
	x.LabelIf(c.Creds, "credentials commands")
	x.LabelIf(strings.Contains(r.Out, "Aborted"), "aborted dialogue")
	x.LabelIf(strings.Contains(r.Out, "pull:"), "synced")
	x.LabelIf(h.User != 0, "unprivileged")
	return nil
}

// ---------------------------------------------------------------- M03: end of input in a dialogue

type m03cut struct {
	Prefix []sop
	Cmd    sop
	N      int  // lines typed before the end
	NoNL   bool // the last of them is not ended
	Multi  bool
}

// cutScripts are dialogues without effect unless they are completed.
var cutScripts = map[string][]string{
	"addsync file": {"", "", "/nonexistent/x"},
	"addsync scp":  {"", "u", "", "h.invalid", "x", "", "f", "7", "x", "0", "3", "10", "u 3", "m", "pw", "pw"},
	"passwd":       {"", "10", "u 3", "x", "m", "one", "two", "m", "new", "new"},
	"passwd u1":    {"", "10", "m", "new", "new"},
	"rekey u1":     {"", "10", "m", "new", "new"},
	"rekeyall":     {"", "maybe", "x", "yes"},
	"adduser u9":   {"", "10", "m", "new", "new"},
	"login a":      {"", "", ""},
	"rm a":         {"a"},
	"set a pass":   {"", "20", "n 2", "m", "one", "two", "m", "new", "new"},
	"add zz":       {"e@x", "us", "", "20", "m", "one", "two", "m", "new", "new"},
}

func genM03cut(t *rapid.T) m03cut {
	pool := []string{"a", "b", "mail", "a/b", "é"}
	c := m03cut{Prefix: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sop { return genSop(t, pool) }), 0, 8).Draw(t, "prefix")}
	c.Multi = rapid.Bool().Draw(t, "multi")
	c.NoNL = rapid.Bool().Draw(t, "nonl")
	if rapid.IntRange(0, 2).Draw(t, "own") > 0 {
		c.Cmd = sop{Op: "raw", V: rapid.SampledFrom(sortedKeys(cutScripts)).Draw(t, "cmd")}
		c.N = rapid.IntRange(0, len(cutScripts[c.Cmd.V])-1).Draw(t, "lines")
		return c
	}
	c.Cmd = genSopOf(t, pool, []string{"add", "add", "rm", "setml", "setml", "setpass", "setpass", "label", "label"})
	c.Cmd.End = "eof"
	switch c.Cmd.Op {
	case "add":
		c.Cmd.End = rapid.SampledFrom([]string{"eof", "eof1", "eof2"}).Draw(t, "end")
	case "rm":
		c.Cmd.V = "eof"
	}
	return c
}

func runM03cut(c m03cut, x *Ctx) error {
	h := newHome(x, "m03c")
	defer h.done()
	curGen = genVals{}
	pass, open := "the pass", []string{"the pass"}
	var users []refUser
	if c.Multi {
		users = []refUser{{[]byte("u0"), []byte(pass), expand([]byte("s0"), 32), expand([]byte("i0"), 40)}, {[]byte("u1"), []byte("other"), expand([]byte("s1"), 32), expand([]byte("i1"), 40)}}
		open = []string{"u0", pass}
	}
	log := multiLog(users, h, "db")
	h.writeDB("db", pass, users, storeJSON(log, len(log)))
	base, ok := refReplay(log)
	if !ok {
		return infra("bad log")
	}
	m, _ := stateModel(base)
	p := &planner{m: m, x: x, start: time.Now()}
	p.do(sop{Op: "add", N: "a", Lines: []string{"e", "u"}, End: "m", V: "pw"})
	for _, o := range c.Prefix {
		if o.V != "rekeyall" {
			p.do(o)
		}
	}
	planned := len(p.steps)
	if c.Cmd.Op == "raw" {
		if strings.HasSuffix(c.Cmd.V, " a") || strings.HasPrefix(c.Cmd.V, "set a") {
			p.do(sop{Op: "cd0"})
			if m.findOne("a") == nil {
				return nil
			}
		}
		in := c.Cmd.V + "\n"
		for _, l := range cutScripts[c.Cmd.V][:c.N] {
			in += l + "\n"
		}
		if in == "adduser u9\n" && !c.Multi || c.Cmd.V == "adduser u9" && !c.Multi {
			return nil // there's no dialogue
		}
		p.step(c.Cmd.V+" at the end of input", in, nil)
	} else {
		p.do(c.Cmd)
	}
	if len(p.steps) == planned {
		return nil // not possible here
	}
	last := &p.steps[len(p.steps)-1]
	dialogue := strings.HasSuffix(last.in, "\x04") || c.Cmd.Op == "raw"
	last.in = strings.TrimSuffix(last.in, "\x04")
	if c.NoNL && !strings.HasSuffix(last.in, "\n\n") {
		last.in = strings.TrimSuffix(last.in, "\n")
	}
	in := last.in
	last.in += eofMark
	r, err := h.session([]string{"--no-sync", "-f", "db"}, open, p.steps, "")
	if err != nil {
		return err
	}
	if r.RC != 0 {
		return failf("input ended after %q: %s", in, r.tail())
	}
	u := []byte(nil)
	if c.Multi {
		u = []byte("u0")
	}
	st, err := openFile(h.path("db"), u, []byte(pass))
	if err == nil {
		err = fillGen(p.m).compare(st)
	}
	if err == nil && c.Multi {
		_, err = openFile(h.path("db"), []byte("u1"), []byte("other"))
	}
	if err != nil {
		if isInfra(err) {
			return err
		}
		return failf("input ended after %q: %v", in, err)
	}
	if d := extraFiles(h, "db"); d != "" {
		return failf("input ended after %q: left %s behind", in, d)
	}
	if dialogue {
		x.NonTrivial()
	}
	x.Label(strings.Fields(in + " x")[0])
	return nil
}

// multiLog is the history that belongs to a multi-user file written by writeDB.
func multiLog(users []refUser, h *Home, name string) (log []txlogs.Tx) {
	now := int64(1600000000e9)
	for i, u := range users {
		id := fmt.Sprintf("aaaaaaaa-0000-4000-8000-%012x", i)
		now++
		log = append(log, txlogs.Tx{Time: now, Kind: "add", UUID: id})
		mk := refMKey(u, masterOf(name))
		for _, kv := range [][2]string{{"name", "user/" + string(u.Name)}, {"updated", fmt.Sprint(now)}, {"salt", fmt.Sprintf("%x", []byte(u.Salt))}, {"iv", fmt.Sprintf("%x", []byte(u.IV))}, {"mkey", fmt.Sprintf("%x", mk)}} {
			now++
			log = append(log, txlogs.Tx{Time: now, Kind: "setk", UUID: id, Key: kv[0], Value: kv[1]})
		}
	}
	return log
}

func init() {
	part("M03", "fuzz", 4000, 120000,
		"a generated session, then 1..30 lines of odd input (command words with any arguments, answers to any dialogue, control and escape sequences, arbitrary bytes) ended by exit or end of input, as an unprivileged user; the session must end normally, the file must open and hold the history from before the odd input; non-trivial: at least 3 odd lines",
		genM03, runM03)
	part("M03", "cut", 2500, 60000,
		"a generated session whose input ends in the middle of a dialogue (any dialogue, after any number of its answers); the completed commands are saved, the incomplete one has no effect except for texts that end with the input; non-trivial: a dialogue was cut",
		genM03cut, runM03cut)
}

var _ = os.Remove
