package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M12: the external editor

type edOp struct {
	Op  string // edit set
	E   int
	K   string
	V   string // set: the value
	Cd  bool   // from within the entry
	Run edRun
}

type m12 struct {
	Vals []string // fields of the entries in the beginning
	Ops  []edOp
	How  string // script unset missing notexec dir none notmp
	Un   string // unset: the editor that's found
}

var edKeys = []string{"notes", "notes", "user", "pass", "url", "k", "email", "labels", "totp", "name", "updated", "salt", "Name", "absent"}

func genEdVal(t *rapid.T, name string) string {
	switch rapid.IntRange(0, 7).Draw(t, name+"Kind") {
	case 0:
		return rapid.SampledFrom([]string{"\n", " ", "a\n", "a\r\nb\r\n", "\ta", "a\n\n\n", ".", "\x00", "a\x00b", "é", "日本\n", "exit\n", "\ufeffx", "x "}).Draw(t, name)
	case 1:
		return strings.ToValidUTF8(string(genBytes(t, name, 5000)), "?")
	case 2:
		return strings.Repeat(rapid.SampledFrom([]string{"a", "line\n", "é"}).Draw(t, name), rapid.SampledFrom([]int{4095, 4096, 4097, 32767, 65536, 70001}).Draw(t, name+"N"))
	case 3:
		return strings.Join(rapid.SliceOfN(rapid.StringMatching(`[ -~]{0,20}`), 1, 6).Draw(t, name), "\n")
	default:
		return rapid.StringMatching(`[ -~]{1,30}`).Draw(t, name)
	}
}

// txOf sets a field, or adds an entry.
func txOf(now int64, id, k, v string) txlogs.Tx {
	if k == "" {
		return txlogs.Tx{Time: now, Kind: "add", UUID: id}
	}
	return txlogs.Tx{Time: now, Kind: "setk", UUID: id, Key: k, Value: v}
}

func genM12(t *rapid.T) m12 {
	c := m12{
		Vals: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return genEdVal(t, "val") }), 1, 4).Draw(t, "vals"),
		How:  rapid.SampledFrom([]string{"script", "script", "script", "script", "script", "script", "script", "script", "unset", "missing", "notexec", "dir", "none", "notmp"}).Draw(t, "how"),
		Un:   rapid.SampledFrom([]string{"vim", "nano", "code"}).Draw(t, "un"),
	}
	c.Ops = genSlice(t, "ops", 1, 6, rapid.Custom(func(t *rapid.T) edOp {
		o := edOp{
			Op: rapid.SampledFrom([]string{"edit", "edit", "edit", "set"}).Draw(t, "op"),
			E:  rapid.IntRange(0, 3).Draw(t, "e"),
			K:  rapid.SampledFrom(edKeys).Draw(t, "k"),
			Cd: rapid.Bool().Draw(t, "cd"),
		}
		if o.Op == "set" {
			o.K = "k"
			o.V = rapid.StringMatching(`[a-z]{1,10}`).Draw(t, "v")
			return o
		}
		o.Run.Mode = rapid.SampledFrom([]string{"keep", "write", "write", "write", "append", "rename", "rename", "empty", "remove"}).Draw(t, "mode")
		o.Run.New = B(genEdVal(t, "new"))
		if rapid.IntRange(0, 9).Draw(t, "bytes") == 5 {
			// not text
			k := rapid.IntRange(0, len(o.Run.New)).Draw(t, "bytesAt")
			bad := rapid.SampledFrom([]string{"\xe9", "\xff", "\xc3", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\x80"}).Draw(t, "badBytes")
			o.Run.New = B(string(o.Run.New[:k]) + bad + string(o.Run.New[k:]))
		}
		switch rapid.IntRange(0, 5).Draw(t, "fails") {
		case 0:
			o.Run.RC = rapid.SampledFrom([]int{1, 2, 126, 127, 255}).Draw(t, "rc")
		case 1:
			o.Run.Kill = rapid.IntRange(0, 2).Draw(t, "kill") == 0
		}
		if o.Run.Mode == "empty" {
			o.Run.Mode, o.Run.New = rapid.SampledFrom([]string{"write", "rename"}).Draw(t, "emode"), nil
		}
		return o
	}))
	return c
}

func runM12(c m12, x *Ctx) error {
	h := newHome(x, "m12")
	defer h.done()
	log := multiLog(nil, h, "")
	now := int64(1600001000e9)
	model := &mstore{}
	put := func(id, k, v string) {
		now++
		log = append(log, txOf(now, id, k, v))
	}
	for i, v := range c.Vals {
		id := fmt.Sprintf("00000000-0000-4000-8000-00000000000%d", i)
		name := fmt.Sprintf("e%d", i)
		now++
		log = append(log, txOf(now, id, "", ""))
		put(id, "name", name)
		put(id, "updated", fmt.Sprint(now))
		m := model.add(name)
		for _, k := range []string{"notes", "pass"} {
			if v != "" {
				put(id, k, v)
				m.F[k] = v
			}
		}
		put(id, "user", "me")
		m.F["user"] = "me"
		put(id, "totp", "otpauth://totp/a:b?secret=JBSWY3DPEHPK3PXP")
		m.F["totp"] = "otpauth://totp/a:b?secret=JBSWY3DPEHPK3PXP"
	}
	h.writeDB("db", "pw", nil, storeJSON(log, len(log)))
	must(os.MkdirAll(h.path("bin"), 0o755))
	start, err := openFile(h.path("db"), nil, []byte("pw"))
	must(err)

	starts := c.How == "script" || c.How == "unset"
	var runs []edRun
	var wants []B    // what each editor is given
	var wipe []bool  // what it left has to be overwritten
	var steps []step // of the session
	in := ""
	edits := 0
	for _, o := range c.Ops {
		if len(c.Vals) == 0 {
			return nil
		}
		m := model.E[o.E%len(model.E)]
		if o.Cd && in != m.Name {
			steps = append(steps, step{in: "cd\ncd " + m.Name + "\n", what: "cd"})
			in = m.Name
		} else if !o.Cd && in != "" {
			steps = append(steps, step{in: "cd\n", what: "cd"})
			in = ""
		}
		q := ""
		if in == "" {
			q = m.Name + " "
		}
		if o.Op == "set" {
			steps = append(steps, step{in: "set " + q + o.K + " " + o.V + "\n", what: "set"})
			m.F[o.K] = o.V
			continue
		}
		steps = append(steps, step{in: "edit " + q + o.K + "\n", what: "edit " + o.K})
		edits++
		if !starts {
			continue
		}
		runs = append(runs, o.Run)
		old := m.F[o.K]
		switch o.K {
		case "name":
			old = m.Name
		case "updated":
			old = anyMark
		}
		wants = append(wants, B(old))
		wipe = append(wipe, o.Run.Mode != "remove")
		if o.Run.RC != 0 || o.Run.Kill || o.Run.Mode == "remove" {
			x.Label("editor fails")
			continue
		}
		left := old
		switch o.Run.Mode {
		case "write", "rename":
			left = string(o.Run.New)
		case "append":
			left = old + string(o.Run.New)
		}
		switch {
		case !utf8.ValidString(left):
			// it could not be stored
			x.Label("not text")
			steps[len(steps)-1].check = func(seg string) error {
				if strings.TrimSpace(seg) == "" {
					return failf("nothing is said about text that cannot be stored")
				}
				return nil
			}
		case left == "":
			if !isProtected(o.K) || o.K == "totp" {
				delete(m.F, o.K)
			}
			x.Label("emptied")
		case isProtected(o.K):
			x.Label("protected field")
		default:
			m.F[o.K] = left
			if left != old {
				x.NonTrivial()
			}
		}
	}
	var env []string
	cfg := map[string]fakeCfg{}
	switch c.How {
	case "script":
		cfg["ed-fake"] = fakeCfg{Eds: runs}
		env = append(env, "EDITOR="+[]string{"ed-fake", h.path("bin/ed-fake")}[len(c.Ops)%2])
	case "unset":
		cfg[c.Un] = fakeCfg{Eds: runs}
		env = append(env, "EDITOR=")
	case "missing":
		env = append(env, "EDITOR="+h.path("bin/nothing"))
	case "notexec":
		must(os.WriteFile(h.path("bin/notexec"), []byte("#!/bin/sh\nexit 0\n"), 0o600))
		env = append(env, "EDITOR="+h.path("bin/notexec"))
	case "dir":
		env = append(env, "EDITOR="+h.path("bin"))
	case "none":
		env = append(env, "EDITOR=")
	case "notmp":
		cfg["ed-fake"] = fakeCfg{}
		env = append(env, "EDITOR=ed-fake", "TMPDIR="+h.path("no/such/folder"))
	}
	h.fake(cfg)
	r, err := h.session([]string{"--no-sync", "--no-clear-clip", "-f", "db"}, []string{"pw"}, steps, "exit\n", env...)
	if err != nil {
		return err
	}
	x.Logf("%q", r.Out)
	if r.RC != 0 {
		return failf("exit status %d: %s", r.RC, r.tail())
	}
	// what the editor was given
	logs := h.fakeLogs()
	if len(logs) != len(runs) {
		return failf("the editor was run %d times for %d edits: %s", len(logs), len(runs), r.tail())
	}
	for i, l := range logs {
		if len(l.Args) != 1 {
			return failf("the editor was run with %q", l.Args)
		}
		if l.Note != fmt.Sprint(i) {
			return failf("the editor could not read the file: %s", l.Note)
		}
		if string(wants[i]) == anyMark {
			if len(l.In) == 0 {
				return failf("edit %d: the editor was given nothing", i)
			}
		} else if !bytes.Equal(l.In, wants[i]) {
			return failf("edit %d: the editor was given %.200q, but the value was %.200q", i, l.In, wants[i])
		}
		if l.Mode.Perm()&0o77 != 0 || !l.Mode.IsRegular() {
			return failf("edit %d: the file for the editor had the mode %v", i, l.Mode)
		}
		if wipe[i] {
			left := h.read(fmt.Sprintf("fake/left.%d", i))
			if n := len(bytes.Trim(left, "\x00")); n > 0 {
				return failf("edit %d: %d of %d bytes remained in the file that was removed: %.200q", i, n, len(left), left)
			}
		}
	}
	fs, err := os.ReadDir(h.path("tmp"))
	must(err)
	if len(fs) > 0 {
		return failf("%q remained in the folder for temporary files", fs[0].Name())
	}
	if f := extraFiles(h, "db", "fake"); f != "" {
		return failf("files remained: %s", f)
	}
	f, err := openFile(h.path("db"), nil, []byte("pw"))
	if err != nil {
		return err
	}
	if err := model.compare(f); err != nil {
		return failf("%v (%s)", err, r.tail())
	}
	if len(f.Log) < len(start.Log) || sameLog(f.Log[:len(start.Log)], start.Log) != "" {
		return failf("the history was changed")
	}
	x.LabelIf(edits > 1, "several edits")
	x.LabelIf(!starts, "not startable")
	if !starts {
		x.NonTrivial()
	}
	return nil
}

func init() {
	part("M12", "edit", 1500, 25000,
		"sessions of 1..6 edits and sets over 1..4 entries: stand-in editors that keep, rewrite, extend, replace, empty or remove the file and may fail or be killed, or cannot be started; text of up to 140 kB; non-trivial: an edit changed a value, or no editor could be started",
		genM12, runM12)
}
