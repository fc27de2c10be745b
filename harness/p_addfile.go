package main

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M21: setting up a file remote

type m21 struct {
	Dirs   []string // the directory of the remote, below the scratch directory
	Name   string
	Cwd    int
	Style  int
	There  string // what is at that path: "", db, link, directory, nowhere
	Mode   int
	Empty  int
	Before int // entries with the usual name
	Abort  bool
	Manual bool
	Again  int // the working directory of the later run
	AgainM bool
	Two    bool // a second remote, in the same session
}

var addFileDirs = []string{"work", "work/sub dir", "home"}

func genM21(t *rapid.T) m21 {
	seg := rapid.OneOf(
		rapid.SampledFrom([]string{"a", "b c", "%41", "100%", "q?x=1", "h#frag", "é日", "a+b", "a:b", "c;d&e", "[x]", "~", "...", "it's", `back\slash`, `"q"`, "u@h", "$HOME", "-x", "%", "%zz", "%2F", "file:", " x", "x ", "é\u0301", "a,b", "{}", "*", "db", ".bpass-1.tmp", "x\u00a0y"}),
		rapid.StringMatching("[ -.0-~éß日𝕏]{1,12}"),
	).Filter(func(s string) bool {
		return s != "." && s != ".." && strings.TrimSpace(s) != ""
	})
	c := m21{
		Dirs:   rapid.SliceOfN(seg, 0, 2).Draw(t, "dirs"),
		Name:   seg.Draw(t, "name"),
		Cwd:    rapid.IntRange(0, len(addFileDirs)-1).Draw(t, "cwd"),
		Style:  rapid.IntRange(0, 6).Draw(t, "style"),
		There:  rapid.SampledFrom([]string{"", "", "", "db", "db", "link", "directory", "nowhere"}).Draw(t, "there"),
		Mode:   rapid.SampledFrom([]int{0o600, 0o640, 0o644, 0o666, 0o400}).Draw(t, "mode"),
		Empty:  rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "empty"),
		Before: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "before"),
		Abort:  rapid.IntRange(0, 15).Draw(t, "abort") == 7,
		Manual: rapid.Bool().Draw(t, "manual"),
		Again:  rapid.IntRange(0, len(addFileDirs)-1).Draw(t, "again"),
		AgainM: rapid.Bool().Draw(t, "againm"),
		Two:    rapid.IntRange(0, 3).Draw(t, "two") == 2,
	}
	return c
}

// addTx is a log in which there is one more entry.
func addTx(l []txlogs.Tx, n int, name string, at int64) []txlogs.Tx {
	l = copyLog(l)
	for i, tx := range []txlogs.Tx{{Kind: "add"}, {Kind: "setk", Key: "updated", Value: fmt.Sprint(at + 1)}, {Kind: "setk", Key: "name", Value: name}} {
		tx.Time, tx.UUID = at+int64(i), fmt.Sprintf("00000000-0000-4000-8000-0000000001%02d", n)
		l = append(l, tx)
	}
	return l
}

func runM21(c m21, x *Ctx) error {
	h := newHome(x, "m21")
	defer h.done()
	for _, d := range append([]string{"home", "remotes", "real"}, addFileDirs...) {
		must(os.MkdirAll(h.path(d), 0o700))
	}
	dir := h.path(filepath.Join(append([]string{"remotes"}, c.Dirs...)...))
	if c.There != "nowhere" {
		must(os.MkdirAll(dir, 0o700))
	} else {
		dir = filepath.Join(dir, "nowhere")
	}
	abs := filepath.Join(dir, c.Name)
	cwd := h.path(addFileDirs[c.Cwd%len(addFileDirs)])
	rel, err := filepath.Rel(cwd, abs)
	must(err)
	typed := abs
	switch c.Style {
	case 1, 2:
		typed = rel
	case 3:
		typed = "./" + rel
	case 4:
		typed = dir + "//" + c.Name
	case 5:
		typed = dir + "/./x/../" + c.Name
	case 6: // in the working directory
		if c.There != "nowhere" && c.Name != "db" {
			abs = filepath.Join(cwd, c.Name)
			typed = c.Name
			if addFileDirs[c.Cwd%len(addFileDirs)] == "work" && c.Name == "sub dir" {
				return nil
			}
		}
	}
	second := h.path("remotes/second one")

	log := addTx(nil, 1, "first", 1600000000e9)
	name := "sync/file"
	for i := 0; i < c.Before; i++ {
		log = addTx(log, 10+i, name, 1600000001e9+int64(i)*1e9)
		name += "1"
	}
	h.writeDB("home/db", "the pass", nil, storeJSON(log, 0))
	target := abs
	theirs := addTx(log, 2, "theirs", 1600000100e9)
	switch c.There {
	case "link":
		target = h.path("real/one")
		must(os.Symlink(target, abs))
		fallthrough
	case "db":
		h.writeDB("tmpdb", "the pass", nil, storeJSON(theirs, 0))
		must(os.Rename(h.path("tmpdb"), target))
		must(os.Chmod(target, os.FileMode(c.Mode)))
	case "directory":
		must(os.Mkdir(abs, 0o700))
	}
	has := c.There == "db" || c.There == "link"
	bad := c.There == "directory" || c.There == "nowhere"

	in := "addsync file\n" + strings.Repeat("\n", c.Empty)
	if c.Abort {
		in += "\x04"
	} else {
		in += typed + "\n"
	}
	steps := []step{{what: "addsync", in: in, check: func(seg string) error {
		if c.Abort {
			return shows(seg, "Aborted")
		}
		return shows(seg, "added new sync entry: "+name)
	}}}
	name2 := name + "1"
	if c.Two && !c.Abort {
		steps = append(steps, step{what: "addsync the second", in: "addsync file\n" + second + "\n"})
	}
	args := []string{"--no-clear-clip", "-f", h.path("home/db")}
	if c.Manual {
		args = append(args, "--no-sync")
		if !c.Abort {
			steps = append(steps, step{what: "sync", in: "sync\n"})
		}
	}
	before := cliTree(h.Dir)
	run := func(cwd string, args []string, steps []step) (*runRes, error) {
		h.Cwd = cwd
		return h.session(args, []string{"the pass"}, steps, "exit\n")
	}
	r, err := run(cwd, args, steps)
	if err != nil {
		return err
	}
	x.Logf("%s", r.Out)
	what := fmt.Sprintf("typed %q in %q", typed, cwd)
	db := h.path("home/db")
	st, err := openFile(db, nil, []byte("the pass"))
	if err != nil {
		return failf("%s: the database cannot be opened: %v", what, err)
	}
	// changes compares all files
	changes := func(allowed ...string) error {
		after := cliTree(h.Dir)
	next:
		for _, d := range treeDiff(before, after) {
			for _, a := range allowed {
				r, err := filepath.Rel(h.Dir, a)
				must(err)
				if d == r+" changed" || d == r+" created" {
					continue next
				}
			}
			return failf("%s: %s: %s", what, d, r.tail())
		}
		return nil
	}
	if c.Abort {
		x.Label("aborted")
		if len(st.Log) != len(log) {
			return failf("the dialogue was aborted, but something is added: %s", r.tail())
		}
		return changes(db)
	}
	x.NonTrivial()
	x.LabelIf(typed != abs, "not typed as the clean absolute path")
	x.LabelIf(c.There == "", "new")
	x.LabelIf(has, "existing database")
	x.LabelIf(c.There == "link", "link")
	x.LabelIf(bad, "unusable")
	es, err := st.byName()
	if err != nil {
		return err
	}
	e := es[name]
	if e == nil || e["sync"] != "true" {
		return failf("%s: there is no automatic sync entry %s: %q", what, name, e)
	}
	if u, err := url.Parse(e["url"]); err != nil || u.Scheme != "file" || u.Path != abs {
		return failf("%s: the entry has the url %q: %v", what, e["url"], err)
	}
	if c.Two {
		if e = es[name2]; e == nil || e["url"] != urlOf(second) {
			return failf("%s: the second entry is %q", what, e)
		}
	}
	// upToDate compares a remote with the database
	upToDate := func(f string, mode int) error {
		fi, err := os.Lstat(f)
		if err != nil {
			return failf("%s: no file is where it should be: %v: %s", what, err, r.tail())
		}
		if !fi.Mode().IsRegular() || int(fi.Mode().Perm()) != mode {
			return failf("%s: the remote is %v", what, fi.Mode())
		}
		w, err := openFile(f, nil, []byte("the pass"))
		if err != nil {
			return failf("%s: the remote is unusable: %v", what, err)
		}
		if len(missingIn(w.Log, st.Log))+len(missingIn(st.Log, w.Log)) > 0 {
			return failf("%s: the remote is not up to date: %s", what, r.tail())
		}
		return nil
	}
	all := []string{db}
	mode := 0o600
	if has {
		mode = c.Mode
		if len(missingIn(theirs, st.Log)) > 0 {
			return failf("%s: the changes in the remote did not arrive: %s", what, r.tail())
		}
	}
	check := func() error {
		if !bad {
			if err := upToDate(target, mode); err != nil {
				return err
			}
		}
		if c.Two {
			if err := upToDate(second, 0o600); err != nil {
				return err
			}
		}
		return changes(all...)
	}
	if !bad {
		all = append(all, target)
	}
	if c.Two {
		all = append(all, second)
	}
	if err := check(); err != nil {
		return err
	}
	if r.RC != 0 {
		return failf("%s: status %d: %s", what, r.RC, r.tail())
	}
	if bad && !hasAny(r.Out+r.Err, "error pulling", "error pushing") {
		return failf("%s: nothing is said about the remote that cannot be used: %s", what, r.tail())
	}

	// another copy brings a change, then a run somewhere else
	if !bad {
		newer := addTx(st.Log, 3, "newer", st.Log[len(st.Log)-1].Time+1)
		h.writeDB("tmpdb", "the pass", nil, storeJSON(newer, 0))
		b := h.read("tmpdb")
		must(os.Remove(h.path("tmpdb")))
		must(os.WriteFile(target, b, 0o600))
		must(os.Chmod(target, os.FileMode(mode)))
	}
	before = cliTree(h.Dir)
	args = []string{"--no-clear-clip", "-f", db}
	steps = []step{{what: "nothing", in: "cd zzz\n"}}
	if c.AgainM {
		args = append(args, "--no-sync")
		steps = []step{{what: "sync", in: "sync " + name + "\n"}}
		if c.Two {
			steps = append(steps, step{what: "sync the second", in: "sync " + name2 + "\n"})
		}
	}
	cwd = h.path(addFileDirs[c.Again%len(addFileDirs)])
	what += fmt.Sprintf(", later used in %q", cwd)
	if r, err = run(cwd, args, steps); err != nil {
		return err
	}
	x.Logf("%s", r.Out)
	if st, err = openFile(db, nil, []byte("the pass")); err != nil {
		return failf("%s: the database cannot be opened: %v", what, err)
	}
	if es, err = st.byName(); err != nil {
		return err
	}
	if (es["newer"] != nil) == bad {
		return failf("%s: the change in the remote did not arrive: %s", what, r.tail())
	}
	if r.RC != 0 {
		return failf("%s: status %d: %s", what, r.RC, r.tail())
	}
	return check()
}

func init() {
	part("M21", "addfile", 3000, 60000,
		"the addsync file dialogue with a generated path (any characters, absolute or relative, to a new file, a database, a link, a directory, or in no directory) in one of three working directories, a synchronisation, a change by another copy, and a later run in another directory; non-trivial: the dialogue was finished",
		genM21, runM21)
}
