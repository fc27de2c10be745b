package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M10: remotes that cannot be written

type m10push struct {
	Remotes []string // state of each: diverged behind ahead missing
	Mode    uint32   // of the existing remotes
	Link    bool     // the first remote is a symbolic link
	Multi   bool
	Pad     int // size of the changes
	How     string
	Edit    bool
	End     string
	Fault   string // none limit inject kill dir
	Limit   int
	Sys     string
	Err     string
	When    int
}

func genM10push(t *rapid.T) m10push {
	c := m10push{
		Remotes: rapid.SliceOfN(rapid.SampledFrom([]string{"diverged", "diverged", "behind", "ahead", "missing"}), 1, 2).Draw(t, "remotes"),
		Mode:    rapid.SampledFrom([]uint32{0o600, 0o600, 0o640, 0o644}).Draw(t, "mode"),
		Link:    rapid.IntRange(0, 4).Draw(t, "link") == 2,
		Multi:   rapid.IntRange(0, 4).Draw(t, "multi") == 2,
		Pad:     rapid.SampledFrom([]int{0, 10, 3000, 30000}).Draw(t, "pad"),
		How:     rapid.SampledFrom([]string{"auto", "auto", "cmd"}).Draw(t, "how"),
		Edit:    rapid.Bool().Draw(t, "edit"),
		End:     rapid.SampledFrom([]string{"exit\n", "exit\n", ""}).Draw(t, "end"),
		Fault:   rapid.SampledFrom([]string{"none", "limit", "limit", "limit", "inject", "kill", "kill", "dir", "dir"}).Draw(t, "fault"),
	}
	c.Link = c.Link && c.Remotes[0] != "missing"
	c.Limit = rapid.SampledFrom([]int{0, 1, 100, 500, 700, 900, 990, 1000, 1200, 3000}).Draw(t, "limit") + rapid.IntRange(0, 100).Draw(t, "limit2")
	switch c.Fault {
	case "inject":
		c.Sys = rapid.SampledFrom([]string{"fsync", "renameat", "fchmod"}).Draw(t, "sys")
		c.Err = rapid.SampledFrom([]string{"EIO", "ENOSPC", "EACCES", "EDQUOT", "EROFS"}).Draw(t, "err")
		// from a certain call on
		c.When = rapid.IntRange(1, 3).Draw(t, "when")
	case "kill":
		c.Sys = rapid.SampledFrom([]string{"openat", "write", "write", "fsync", "renameat", "fchmod", "close", "newfstatat", "unlinkat", "exit_group"}).Draw(t, "sys")
		n := map[string]int{"openat": 30, "write": 60, "fsync": 5, "renameat": 5, "fchmod": 5, "close": 30, "newfstatat": 40, "unlinkat": 2, "exit_group": 1}[c.Sys]
		c.When = rapid.IntRange(1, n).Draw(t, "when")
	}
	return c
}

func runM10push(c m10push, x *Ctx) error {
	h := newHome(x, "m10push")
	defer h.done()
	var users []refUser
	open, user, pass := "the pass\n", []byte(nil), []byte("the pass")
	if c.Multi {
		users = twoUsers()
		open, user = "u0\nthe pass\n", []byte("u0")
	}
	at := int64(1600000100e9)
	set := func(l *[]txlogs.Tx, kind, id, k, v string) {
		at++
		*l = append(*l, txlogs.Tx{Time: at, Kind: txlogs.TxKind(kind), UUID: id, Key: k, Value: v})
	}
	base := addTx(multiLog(users, h, "db"), 1, "first", 1600000050e9)
	var paths []string
	for i := range c.Remotes {
		d := fmt.Sprintf("r%d", i)
		must(os.Mkdir(h.path(d), 0o755))
		paths = append(paths, d+"/remote")
		id := mvUUID(i)
		set(&base, "add", id, "", "")
		set(&base, "setk", id, "updated", fmt.Sprint(at))
		set(&base, "setk", id, "name", fmt.Sprintf("sync/s%d", i))
		set(&base, "setk", id, "sync", "true")
		set(&base, "setk", id, "url", fileURL(h.path(paths[i])))
	}
	grow := func(l []txlogs.Tx, n int) []txlogs.Tx {
		l = addTx(l, 50+n, fmt.Sprintf("of %d", n), 1600050000e9+int64(n)*10)
		return append(l, txlogs.Tx{Time: 1600050000e9 + int64(n)*10 + 5, Kind: "setk", UUID: l[len(l)-1].UUID, Key: "notes", Value: strings.Repeat("x\n", c.Pad/2) + "."})
	}
	must(os.Mkdir(h.path("d"), 0o755))
	must(os.Mkdir(h.path("e"), 0o755))
	local := grow(base, 0)
	must(os.WriteFile(h.path("d/db"), sharedKeys(users, "db", local), 0o600))
	real := append([]string{}, paths...)
	if c.Link {
		real[0] = "e/other"
		must(os.Symlink("../e/other", h.path(paths[0])))
	}
	logs := make([][]txlogs.Tx, len(paths))
	old := make([][]byte, len(paths))
	oldDB := h.read("d/db")
	size := len(oldDB)
	for i, kind := range c.Remotes {
		switch kind {
		case "diverged":
			logs[i] = grow(base, i+1)
		case "behind":
			logs[i] = base
		case "ahead":
			logs[i] = grow(local, i+1)
		case "missing":
			continue
		}
		must(os.WriteFile(h.path(real[i]), sharedKeys(users, real[i], logs[i]), 0o600))
		must(os.Chmod(h.path(real[i]), os.FileMode(c.Mode)))
		old[i] = h.read(real[i])
		size = max(size, len(old[i]))
	}
	X := unionSorted(append([][]txlogs.Tx{local}, logs...)...)
	h.unprivileged()
	if c.Fault == "dir" {
		must(os.Chmod(filepath.Dir(h.path(real[0])), 0o555))
		defer os.Chmod(filepath.Dir(h.path(real[0])), 0o755)
	}

	args := []string{"--no-color", "--no-clear-clip", "-f", "d/db"}
	in := open
	if c.How == "cmd" {
		args = append(args, "--no-sync")
		in += "sync\n"
	}
	if c.Edit {
		in += "set first note edited\n"
	}
	in += c.End

	wrap := []string{"/bin/sh", "-c", `umask 0022; exec "$@"`, "sh"}
	size += 300
	limit := size * c.Limit / 1000
	fault := c.Fault
	trace := ""
	switch {
	case fault == "limit":
		wrap = append(wrap, "/usr/bin/prlimit", "--fsize="+strconv.Itoa(limit), "--")
	case (fault == "inject" || fault == "kill") && !canTrace():
		fault = "none"
		x.Label("no tracing")
	case fault == "inject":
		trace = filepath.Join(x.Tmp, "pushtrace")
		must(os.WriteFile(trace, nil, 0o666))
		must(os.Chmod(trace, 0o666))
		defer os.Remove(trace)
		wrap = append(wrap, "/usr/bin/strace", "-qq", "-f", "-o", trace, "-e", "trace="+c.Sys, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d+", c.Sys, c.Err, c.When))
	case fault == "kill":
		wrap = append(wrap, "/usr/bin/strace", "-qq", "-f", "-o", "/dev/null", "-e", "trace="+c.Sys, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", c.Sys, c.When))
		h.KillOK = true
	}
	h.Wrap = wrap
	r, err := h.run(args, strings.NewReader(in))
	h.Wrap = nil
	if err != nil {
		return err
	}
	what := fmt.Sprintf("fault %s", fault)
	switch fault {
	case "limit":
		what += fmt.Sprintf(" (%d bytes)", limit)
	case "inject":
		what += fmt.Sprintf(" (%s fails with %s from call %d on)", c.Sys, c.Err, c.When)
	case "kill":
		what += fmt.Sprintf(" (at call %d of %s)", c.When, c.Sys)
	}
	killed := fault == "kill" && r.Signal != ""
	if r.Hang || r.crashed() && !killed {
		return failf("%s: %s", what, r.tail())
	}
	x.Logf("%s: %q", what, r.Out)

	failed := 0
	seen := func(p string, before []byte, had []txlogs.Tx) (bool, []txlogs.Tx, error) {
		now := h.read(p)
		if bytes.Equal(now, before) && (now == nil) == (before == nil) {
			return false, had, nil
		}
		if now == nil {
			return false, nil, failf("%s: %s is gone; %s", what, p, r.tail())
		}
		st, err := openFile(h.path(p), user, pass)
		if err != nil {
			return false, nil, failf("%s: %s is neither the old nor a complete new one (%d bytes, %d before; exit status %d): %v; %s", what, p, len(now), len(before), r.RC, err, r.tail())
		}
		if miss := missingIn(had, st.Log); len(miss) > 0 {
			return false, nil, failf("%s: changes in %s are lost: %+v; %s", what, p, miss, r.tail())
		}
		if miss := missingIn(X, st.Log); len(miss) > 0 {
			return false, nil, failf("%s: %s was written without what the other files had: %+v; %s", what, p, miss, r.tail())
		}
		return true, st.Log, nil
	}
	saved, dbLog, err := seen("d/db", oldDB, local)
	if err != nil {
		return err
	}
	if !killed && saved != (r.RC == 0) {
		return failf("%s: exit status %d, but the database %s: %s", what, r.RC, map[bool]string{true: "was saved", false: "was not saved"}[saved], r.tail())
	}
	all := dbLog
	for i, p := range real {
		wrote, l, err := seen(p, old[i], logs[i])
		if err != nil {
			return err
		}
		all = unionSorted(all, l)
		if wrote {
			fi, err := os.Stat(h.path(p))
			must(err)
			want := os.FileMode(c.Mode)
			if old[i] == nil {
				want = 0o600
			}
			if fi.Mode().Perm() != want {
				return failf("%s: the remote %s has mode %v after it was written", what, p, fi.Mode())
			}
		}
		if !killed && !wrote && !(old[i] != nil && len(missingIn(X, logs[i])) == 0) {
			failed++
			if !strings.Contains(r.Out, fmt.Sprintf("error pushing to %q", fmt.Sprintf("sync/s%d", i))) {
				return failf("%s: the remote %s was not written, and that was not reported: %s", what, p, r.tail())
			}
		}
	}
	switch {
	case fault == "dir":
		if !saved || r.RC != 0 {
			return failf("%s: a remote that cannot be written kept the session from being saved: %s", what, r.tail())
		}
		if !bytes.Equal(h.read(real[0]), old[0]) {
			return failf("%s: the remote was written", what)
		}
	case fault == "none":
		if !saved || failed > 0 {
			return failf("%s: %d remotes were not written, exit status %d: %s", what, failed, r.RC, r.tail())
		}
	}
	if saved && !killed {
		if miss := missingIn(X, dbLog); len(miss) > 0 {
			return failf("%s: what the remotes had was not saved: %+v; %s", what, miss, r.tail())
		}
		st, err := openFile(h.path("d/db"), user, pass)
		must(err)
		by, err := st.byName()
		if err != nil {
			return err
		}
		if c.Edit && by["first"]["note"] != "edited" {
			return failf("%s: the change made in the session was not saved: %s", what, r.tail())
		}
	}
	if !killed {
		if d := extraFiles(h, append([]string{"d", "e", "r0", "r1"}, paths...)...); d != "" {
			return failf("%s: %s was left behind", what, d)
		}
	}
	for _, d := range []string{"d", "e", "r0", "r1"} {
		es, _ := os.ReadDir(h.path(d))
		for _, e := range es {
			p := d + "/" + e.Name()
			if p == "d/db" || p == paths[0] || p == real[0] || len(paths) > 1 && p == paths[1] {
				continue
			}
			if !killed {
				return failf("%s: %s was left behind", what, p)
			}
			fi, err := e.Info()
			if err == nil && c.Mode == 0o600 && fi.Mode().Perm()&0o077 != 0 {
				return failf("%s: others can read %s", what, p)
			}
			must(os.Remove(h.path(p)))
		}
	}

	// a later session brings all of them up to date
	if c.Fault == "dir" {
		must(os.Chmod(filepath.Dir(h.path(real[0])), 0o755))
	}
	r, err = h.run([]string{"--no-color", "--no-clear-clip", "-f", "d/db"}, strings.NewReader(open+"exit\n"))
	if err != nil {
		return err
	}
	if r.RC != 0 || r.Hang || r.crashed() {
		return failf("after %s, a later session: %s", what, r.tail())
	}
	for _, p := range append([]string{"d/db"}, real...) {
		st, err := openFile(h.path(p), user, pass)
		if err != nil {
			return failf("after %s, and a later session: %s: %v", what, p, err)
		}
		if d := sameUpToTies(st.Log, all); d != "" {
			return failf("after %s, and a later session, %s has %s: %s", what, p, d, r.tail())
		}
	}
	x.Label(c.Fault)
	x.LabelIf(killed, "killed")
	x.LabelIf(failed > 0, c.Fault+": not pushed")
	x.LabelIf(failed > 0 && saved, "saved, not pushed")
	x.LabelIf(failed < len(paths) && failed > 0, "one of two pushed")
	if failed > 0 || killed {
		x.NonTrivial()
	}
	return nil
}

func init() {
	part("M10", "push", 900, 20000,
		"a session that synchronises with one or two file remotes (diverged, behind, ahead, missing; symbolic links, file modes) while writing fails: file size limit, injected errors, unwritable directory, or the process is killed at a generated system call; then a session without fault; non-trivial: a remote could not be written, or the process was killed",
		genM10push, runM10push)
}
