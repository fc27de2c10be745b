package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M05: failing saves

type m05 struct {
	New    bool
	Multi  bool
	Mode   uint32 // of the existing file
	Umask  int
	Hist   []hop
	Sets   []string // values set in the session
	Import bool     // lpassimport instead of a session
	End    string
	Fault  string // none limit inject kill dir readonly nodir isdir link dangling
	Limit  int    // bytes, per mille of the expected size
	Sys    string
	Err    string
	When   int
	Abs    bool // absolute file name
}

var canTrace = sync.OnceValue(func() bool {
	return exec.Command("/usr/bin/strace", "-f", "-o", "/dev/null", "-e", "trace=none", "-e", "inject=sync:error=EIO", "/bin/true").Run() == nil
})

// saveCalls are the system calls in which the program is killed, with how often they occur at most.
var saveCalls = map[string]int{"openat": 16, "write": 40, "fsync": 2, "fdatasync": 1, "renameat": 2, "renameat2": 1, "rename": 1, "fchmod": 2, "fchmodat": 1, "close": 14, "newfstatat": 14, "fcntl": 14, "unlinkat": 1, "ftruncate": 1, "fstat": 2, "pwrite64": 1, "exit_group": 1}

func genM05(t *rapid.T) m05 {
	c := m05{New: rapid.IntRange(0, 2).Draw(t, "new") == 0, Multi: rapid.IntRange(0, 3).Draw(t, "multi") == 0, Abs: rapid.Bool().Draw(t, "abs"), Import: rapid.IntRange(0, 5).Draw(t, "imp") == 0}
	c.Mode = rapid.SampledFrom([]uint32{0o600, 0o600, 0o600, 0o640, 0o644, 0o400}).Draw(t, "mode")
	c.Umask = rapid.SampledFrom([]int{0o022, 0, 0o077, 0o002, 0o027}).Draw(t, "umask")
	c.Fault = rapid.SampledFrom([]string{"none", "none", "limit", "limit", "limit", "inject", "kill", "kill", "dir", "nodir", "isdir", "link", "dangling"}).Draw(t, "fault")
	c.Hist = genHops(t, rapid.SampledFrom([]int{0, 6, 30}).Draw(t, "hist"))
	c.Sets = genSlice(t, "sets", 2, 6, rapid.Custom(func(t *rapid.T) string {
		return strings.Repeat(rapid.SampledFrom([]string{"v", "ab ", "日本", "x\"\\"}).Draw(t, "c"), rapid.SampledFrom([]int{1, 10, 400, 3000}).Draw(t, "n")) + "."
	}))
	c.Limit = rapid.SampledFrom([]int{0, 1, 100, 500, 900, 990, 999, 1000, 1200, 3000}).Draw(t, "limit") + rapid.IntRange(0, 40).Draw(t, "limit2")
	switch c.Fault {
	case "inject":
		c.Sys = rapid.SampledFrom([]string{"fsync", "renameat", "fchmod"}).Draw(t, "sys")
		c.Err = rapid.SampledFrom([]string{"EIO", "ENOSPC", "EACCES", "EDQUOT", "EROFS"}).Draw(t, "err")
	case "kill":
		c.Sys = rapid.SampledFrom(sortedKeys(saveCalls)).Draw(t, "sys")
		c.When = rapid.IntRange(1, saveCalls[c.Sys]).Draw(t, "when")
	case "dangling", "nodir", "isdir":
		c.New = true
	case "link":
		c.New = false
	}
	if c.New {
		c.Hist, c.Multi = nil, false
	}
	c.End = rapid.SampledFrom([]string{"exit\n", ""}).Draw(t, "end")
	return c
}

func runM05(c m05, x *Ctx) error {
	h := newHome(x, "m05")
	defer h.done()
	must(os.Mkdir(h.path("d"), 0o755))
	must(os.Mkdir(h.path("e"), 0o755))
	real := "d/db"
	pass := "the pass"
	var user []byte
	var users []refUser
	if c.Multi {
		user = []byte("u0")
		users = []refUser{{[]byte("u0"), []byte(pass), expand([]byte("s0"), 32), expand([]byte("i0"), 40)}, {[]byte("u1"), []byte("other"), expand([]byte("s1"), 32), expand([]byte("i1"), 40)}}
	}
	switch c.Fault {
	case "link":
		real = "e/other"
		must(os.Symlink("../e/other", h.path("d/db")))
	case "dangling":
		real = "e/other"
		must(os.Symlink("../e/other", h.path("d/db")))
	case "isdir":
		must(os.Mkdir(h.path("d/db"), 0o755))
	case "nodir":
		must(os.Remove(h.path("d")))
	}
	log := multiLog(users, h, real)
	log = append(log, buildHist(append(append([]hop{}, c.Hist...), hop{Op: "add", V: "zz9q", Dt: 1}), 1600000000e9)...)
	if !c.New {
		h.writeDB(real, pass, users, storeJSON(log, len(log)))
		must(os.Chmod(h.path(real), os.FileMode(c.Mode)))
	}
	h.unprivileged()
	if c.Fault == "dir" {
		must(os.Chmod(h.path("d"), 0o555))
		defer os.Chmod(h.path("d"), 0o755)
	}
	var old []byte
	if !c.New {
		old = h.read(real)
	}

	file := "d/db"
	if c.Abs {
		file = h.path(file)
	}
	args := []string{"--no-color", "--no-sync", "--no-clear-clip", "-f", file}
	var in strings.Builder
	if c.Multi {
		in.WriteString("u0\n")
	}
	in.WriteString(pass + "\n")
	if c.New {
		in.WriteString(pass + "\n")
	}
	size := len(old)
	rec := "imported record"
	if c.Import {
		args = append(args, "lpassimport")
		if !c.New {
			in.WriteString("y\n")
		}
		out := "url,username,password,extra,name,grouping,fav\n"
		for i, v := range c.Sets {
			out += fmt.Sprintf("u%d,me,%q,,%s%d,,0\n", i, "p", "imp", i)
			size += 250
			_ = v
		}
		out += "http://x,me,pw,note," + rec + ",,0\n"
		size += 400
		h.fake(map[string]fakeCfg{"lpass": {Out: B(out)}})
		h.chown()
		if c.Fault == "dir" {
			must(os.Chmod(h.path("d"), 0o555))
		}
	} else {
		if c.New {
			in.WriteString("add zz9q\n\n\ny\n")
			size += 600
		}
		for _, v := range c.Sets {
			in.WriteString("set zz9q notes " + v + "\n")
			size += len(v) + 330
		}
		in.WriteString("set zz9q email last\n" + c.End)
		size += 330
	}

	// wrappers
	wrap := []string{"/bin/sh", "-c", "umask " + fmt.Sprintf("%04o", c.Umask) + `; exec "$@"`, "sh"}
	limit := size * c.Limit / 1000
	fault, trace := c.Fault, ""
	switch {
	case fault == "limit":
		wrap = append(wrap, "/usr/bin/prlimit", "--fsize="+strconv.Itoa(limit), "--")
	case (fault == "inject" || fault == "kill") && !canTrace():
		fault = "none"
		x.Label("no tracing")
	case fault == "inject":
		trace = filepath.Join(x.Tmp, "trace")
		must(os.WriteFile(trace, nil, 0o666))
		must(os.Chmod(trace, 0o666))
		defer os.Remove(trace)
		wrap = append(wrap, "/usr/bin/strace", "-qq", "-f", "-o", trace, "-e", "trace="+c.Sys, "-e", "inject="+c.Sys+":error="+c.Err)
	case fault == "kill":
		wrap = append(wrap, "/usr/bin/strace", "-qq", "-f", "-o", "/dev/null", "-e", "trace="+c.Sys, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", c.Sys, c.When))
		h.KillOK = true
	}
	h.Wrap = wrap
	r, err := h.run(args, strings.NewReader(in.String()))
	h.Wrap = nil
	if err != nil {
		return err
	}
	what := fmt.Sprintf("fault %s", fault)
	switch fault {
	case "limit":
		what += fmt.Sprintf(" (%d bytes)", limit)
	case "inject":
		what += fmt.Sprintf(" (%s fails with %s)", c.Sys, c.Err)
	case "kill":
		what += fmt.Sprintf(" (at call %d of %s)", c.When, c.Sys)
	}
	if c.New {
		what += ", new file"
	}
	if c.Import {
		what += ", import"
	}
	killed := fault == "kill" && r.Signal != ""
	if r.Hang || r.crashed() && !killed {
		return failf("%s: %s", what, r.tail())
	}

	// what is there now
	var now []byte
	if fi, err := os.Lstat(h.path("d/db")); c.Fault == "dangling" && err == nil && fi.Mode().IsRegular() {
		real = "d/db" // replaced instead of followed
	}
	fi, serr := os.Lstat(h.path(real))
	if serr == nil && fi.Mode().IsRegular() {
		now, err = os.ReadFile(h.path(real))
		must(err)
	}
	saved := false
	if now != nil && !bytes.Equal(now, old) {
		st, err := openFile(h.path(real), user, []byte(pass))
		if err != nil {
			return failf("%s: the file is neither the old nor a complete new one (%d bytes, %d before; exit status %d): %v\noutput: %s", what, len(now), len(old), r.RC, err, r.tail())
		}
		if !c.New && (len(st.Log) <= len(log) || sameLog(st.Log[:len(log)], log) != "") {
			return failf("%s: the saved history does not continue the old one", what)
		}
		by, err := st.byName()
		if err != nil {
			return failf("%s: %v", what, err)
		}
		e := by["zz9q"]
		if c.Import {
			e = by[strings.ReplaceAll(rec, " ", "_")]
		}
		if c.Import && e["notes"] != "note" || !c.Import && (e["notes"] != c.Sets[len(c.Sets)-1] || e["email"] != "last") {
			return failf("%s: the saved file lacks changes of the session: %.600q", what, e)
		}
		saved = true
		if c.New && fi.Mode().Perm() != 0o600 {
			return failf("%s, umask %04o: the created database has mode %v", what, c.Umask, fi.Mode())
		}
	}
	if now == nil && !c.New {
		return failf("%s: the file is gone; %s", what, r.tail())
	}
	if !killed {
		switch {
		case r.RC == 0 && !saved:
			return failf("%s: success was reported, but the file was not saved: %s", what, r.tail())
		case r.RC != 0 && saved:
			return failf("%s: a failure was reported, but the file was saved: %s", what, r.tail())
		case r.RC == 0 && c.Sys == "fsync" && injected(trace):
			return failf("%s: the data could not be written to the disk, but success was reported", what)
		case r.RC != 0 && len(strings.TrimSpace(r.Out+r.Err)) == 0:
			return failf("%s: the failure was not reported", what)
		case r.RC != 0 && fault == "none" || r.RC != 0 && fault == "limit" && limit > 3*size+4000:
			return failf("%s: saving failed: %s", what, r.tail())
		}
		// readable by others while it is written?
		var bad string
		filepath.Walk(h.Dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && p != h.path(real) && !strings.HasPrefix(p, h.path("fake")) && !strings.HasPrefix(p, h.path("bin")) {
				bad = p
			}
			return nil
		})
		if bad != "" {
			return failf("%s: %s was left behind", what, strings.TrimPrefix(bad, h.Dir))
		}
	} else {
		bad := ""
		filepath.Walk(h.Dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && p != h.path(real) && !strings.HasPrefix(p, h.path("fake")) && fi.Mode().Perm()&0o077 != 0 {
				if b, err := os.ReadFile(p); err == nil && bytes.HasPrefix(b, []byte("blobpass")) {
					bad = fmt.Sprintf("%s (%v)", strings.TrimPrefix(p, h.Dir), fi.Mode())
				}
			}
			return nil
		})
		if bad != "" && (c.New || c.Mode&0o077 == 0) {
			return failf("%s, umask %04o: others can read the data in %s", what, c.Umask, bad)
		}
	}
	x.Label(fault)
	if r.RC != 0 {
		x.NonTrivial()
		x.Label(fault + ": failed")
	}
	x.LabelIf(killed, "killed, "+map[bool]string{true: "saved", false: "not saved"}[saved])

	// a later session works
	if fault == "nodir" || fault == "isdir" || fault == "dir" || c.New && !saved {
		return nil
	}
	st, err := openFile(h.path(real), user, []byte(pass))
	must(err)
	open := []string{pass}
	if c.Multi {
		open = []string{"u0", pass}
	}
	r, err = h.session([]string{"--no-sync", "--no-clear-clip", "-f", file}, open, nil, "add later\n\n\ny\nexit\n")
	if err != nil {
		return err
	}
	st2, err := openFile(h.path(real), user, []byte(pass))
	if err != nil {
		return failf("%s: after a later session: %v", what, err)
	}
	if r.RC != 0 || len(st2.Log) <= len(st.Log) || sameLog(st2.Log[:len(st.Log)], st.Log) != "" {
		return failf("%s: a later session did not save: %s", what, r.tail())
	}
	return nil
}

// injected tells whether a fault happened.
func injected(trace string) bool {
	b, err := os.ReadFile(trace)
	return err == nil && bytes.Contains(b, []byte("(INJECTED)"))
}

func init() {
	part("M05", "faults", 900, 20000,
		"a session or an import that creates or changes a file (single- and multi-user, generated history, file mode, umask, symlinks) while saving fails: file size limit at generated bytes, injected errors of system calls, unwritable or missing directory, or the process is killed at a generated system call; then a session without fault; non-trivial: the run failed",
		genM05, runM05)
}
