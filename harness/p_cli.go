package main

import (
	"encoding/csv"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M19: which file is used

type m19 struct {
	Exist []bool // which of cliFiles exist
	Flag  int    // file given by a flag, or -1
	Style int
	Abs   bool
	Env   int // file given by $BPASS, -1: not set, -2: empty
	EAbs  bool
	Home  bool // HOME is set
	Sub   string
	Perm  []int // order of the arguments
	Past  string
	Cwd   int
	Write bool
	Long  bool // flags are spelled out
	Clip  bool // --no-clear-clip
}

// cliFiles are relative to the scratch directory.
var cliFiles = []string{"home/.bpass", "work/db", "work/my db.bp", "work/sub/é日", "other/db", "work/export", "work/.bpass", "work/sub/ln", "home/db"}
var cliDirs = []string{"work", "work/sub", "home"}

func genM19(t *rapid.T) m19 {
	c := m19{
		Exist: rapid.SliceOfN(rapid.Bool(), len(cliFiles), len(cliFiles)).Draw(t, "exist"),
		Flag:  rapid.IntRange(-1, len(cliFiles)-1).Draw(t, "flag"),
		Style: rapid.IntRange(0, 3).Draw(t, "style"),
		Abs:   rapid.Bool().Draw(t, "abs"),
		Env:   rapid.IntRange(-2, len(cliFiles)-1).Draw(t, "env"),
		EAbs:  rapid.Bool().Draw(t, "eabs"),
		Home:  rapid.IntRange(0, 5).Draw(t, "home") != 3,
		Sub:   rapid.SampledFrom([]string{"", "", "", "", "export", "export", "lpassimport", "gen", "version", "help"}).Draw(t, "sub"),
		Perm:  rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "perm"),
		Past:  rapid.SampledFrom([]string{"", "", "", "", "2035-01-01 00:00:00", "2035-01-01", "yesterday", "2035-13-01 00:00:00"}).Draw(t, "past"),
		Cwd:   rapid.IntRange(0, len(cliDirs)-1).Draw(t, "cwd"),
		Write: rapid.Bool().Draw(t, "write"),
		Long:  rapid.Bool().Draw(t, "long"),
		Clip:  rapid.Bool().Draw(t, "clip"),
	}
	if rapid.Bool().Draw(t, "noflag") {
		c.Flag = -1
	}
	return c
}

// cliTree describes all files.
func cliTree(dir string) map[string]string {
	out := map[string]string{}
	must(filepath.Walk(dir, func(f string, fi os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(dir, f)
		switch {
		case rel == "bin" || rel == "fake":
			return filepath.SkipDir
		case fi.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(f)
			must(err)
			out[rel] = "link to " + l
		case fi.IsDir():
			out[rel] = "directory"
		default:
			b, err := os.ReadFile(f)
			must(err)
			out[rel] = "file " + string(b)
		}
		return nil
	}))
	return out
}

func treeDiff(a, b map[string]string) (out []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, k+" removed")
		} else if v != w {
			out = append(out, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k+" created")
		}
	}
	sort.Strings(out)
	return out
}

func runM19(c m19, x *Ctx) error {
	h := newHome(x, "m19")
	defer h.done()
	if len(c.Perm) != 5 || len(c.Exist) != len(cliFiles) {
		return nil
	}
	for _, d := range []string{"home", "work/sub", "other"} {
		must(os.MkdirAll(h.path(d), 0o700))
	}
	for i, f := range cliFiles {
		if !c.Exist[i] {
			continue
		}
		if f == "work/sub/ln" {
			if !c.Exist[4] {
				continue
			}
			must(os.Symlink("../../other/db", h.path(f)))
			continue
		}
		log := buildHist([]hop{{Op: "add", V: fmt.Sprintf("entry%d", i), Dt: 1}}, 1600000000e9)
		h.writeDB("db.tmp", fmt.Sprintf("pw%d", i), nil, storeJSON(log, len(log)))
		must(os.Rename(h.path("db.tmp"), h.path(f)))
	}
	cwd := cliDirs[c.Cwd%len(cliDirs)]
	name := func(i int, abs bool) string {
		if abs {
			return h.path(cliFiles[i])
		}
		r, err := filepath.Rel(h.path(cwd), h.path(cliFiles[i]))
		must(err)
		return r
	}
	env := []string{"HOME=" + h.path("home")}
	if !c.Home {
		env[0] = "HOME="
	}
	def := "home/.bpass"
	if !c.Home {
		def = cwd + "/.bpass"
	}
	chosen := def
	switch {
	case c.Env >= 0:
		chosen = cliFiles[c.Env]
		env = append(env, "BPASS="+name(c.Env, c.EAbs))
	case c.Env == -2:
		env = append(env, "BPASS=")
	}
	var groups [][]string
	if c.Flag >= 0 {
		if cliFiles[c.Flag] == def && c.Env >= 0 {
			return nil // $BPASS cannot be overridden with the default, which is known
		}
		chosen = cliFiles[c.Flag]
		f := name(c.Flag, c.Abs)
		switch c.Style {
		case 0:
			groups = append(groups, []string{"-f", f})
		case 1:
			groups = append(groups, []string{"--file", f})
		case 2:
			groups = append(groups, []string{"--file=" + f})
		default:
			groups = append(groups, []string{"-f=" + f})
		}
	}
	groups = append(groups, []string{"--no-color"})
	if c.Past != "" {
		groups = append(groups, []string{[]string{"-t", "--time"}[c.Perm[0]%2], c.Past})
	}
	if c.Clip {
		groups = append(groups, []string{"--no-clear-clip"})
	}
	outFile := ""
	if c.Sub == "help" {
		groups = append(groups, []string{[]string{"-h", "--help"}[c.Perm[1]%2]})
	}
	// the subcommand, with its argument, anywhere between the flags
	var args []string
	sub := []string{}
	switch c.Sub {
	case "export":
		outFile = "work/out.csv"
		o, err := filepath.Rel(h.path(cwd), h.path(outFile))
		must(err)
		sub = []string{"export", o}
	case "gen", "version", "lpassimport":
		sub = []string{c.Sub}
	}
	order := append([]int{}, c.Perm...)
	at := order[4] % (len(groups) + 1)
	at2 := at + order[3]%(len(groups)+1-at)
	for i := 0; i <= len(groups); i++ {
		if len(sub) > 0 && i == at {
			args = append(args, sub[0])
		}
		if len(sub) > 1 && i == at2 {
			args = append(args, sub[1])
		}
		if i < len(groups) {
			args = append(args, groups[i]...)
		}
	}
	h.fake(map[string]fakeCfg{"lpass": {Out: B("url,username,password,extra,name,grouping,fav\n,u,p,,imported,,0\n")}, "xclip": {}})
	// what is in the file
	target := chosen
	if target == "work/sub/ln" && c.Exist[7] && c.Exist[4] {
		target = "other/db"
	}
	idx := -1
	for i, f := range cliFiles {
		if f == target && c.Exist[i] {
			idx = i
		}
	}
	if target == "work/sub/ln" {
		idx = -1
	}
	exists := idx >= 0
	pass := "new pass"
	stdin := ""
	if exists {
		pass = fmt.Sprintf("pw%d", idx)
		stdin = pass + "\n"
	} else {
		stdin = pass + "\n" + pass + "\n"
	}
	badTime := c.Past != "" && c.Past != "2035-01-01 00:00:00"
	past := c.Past == "2035-01-01 00:00:00" && !badTime
	touches := false // whether the chosen file may be written
	switch {
	case c.Sub == "gen":
		stdin = "y\n"
	case c.Sub == "version" || c.Sub == "help" || badTime:
	case c.Sub == "lpassimport":
		stdin += "y\n"
		touches = !past
	case c.Sub == "export":
	default:
		stdin += "ls\n"
		if c.Write {
			stdin += "add fresh\n\n\ny\n"
		}
		stdin += "exit\n"
		touches = c.Write && !past
	}
	before := cliTree(h.Dir)
	r, err := h.runBin(bpassBin, func(cmd *exec.Cmd) { cmd.Dir = h.path(cwd) }, args, strings.NewReader(stdin), env...)
	if err != nil {
		return err
	}
	what := fmt.Sprintf("in %s, with %q and %q", cwd, env, args)
	if r.Hang || r.crashed() {
		return failf("%s: %s", what, r.tail())
	}
	after := cliTree(h.Dir)
	diff := treeDiff(before, after)
	opens := !badTime && c.Sub != "gen" && c.Sub != "version" && c.Sub != "help"
	rc := 0
	if badTime {
		rc = 1
	}
	// reading the past of a file that does not exist may be refused
	if past && !exists && opens {
		x.Label("no past")
		for _, d := range diff {
			if d != outFile+" created" {
				return failf("%s: read-only, but %s: %s", what, d, r.tail())
			}
		}
		return nil
	}
	if past && c.Sub == "lpassimport" {
		rc = 1
	}
	var rest []string // of the changes
	wrote := false
	for _, d := range diff {
		if d == target+" changed" && exists || d == target+" created" && !exists {
			wrote = true
		} else {
			rest = append(rest, d)
		}
	}
	var want []string
	if c.Sub == "export" && opens {
		want = append(want, outFile+" created")
	}
	if fmt.Sprint(rest) != fmt.Sprint(want) || wrote && (!opens || past) || !wrote && touches {
		return failf("%s: the file to use is %s, the changes are %q: %s", what, chosen, diff, r.tail())
	}
	if r.RC != rc && !(badTime && r.RC != 0) {
		return failf("%s: the file to use is %s: %s", what, chosen, r.tail())
	}
	switch {
	case badTime:
		if hasAny(r.Out+r.Err, "passphrase: ") {
			return failf("%s: asks for a passphrase though the command line cannot be understood: %s", what, r.tail())
		}
	case c.Sub == "version":
		if !strings.HasPrefix(r.Out, "bpass version ") {
			return failf("%s: %s", what, r.tail())
		}
	case c.Sub == "help":
		for _, w := range []string{"--file", "--time", "--no-sync", "--no-color", "--no-clear-clip"} {
			if !strings.Contains(r.Out+r.Err, w) {
				return failf("%s: the help has no %s: %s", what, w, r.tail())
			}
		}
	case c.Sub == "gen":
	case c.Sub == "export":
		b, err := os.ReadFile(h.path(outFile))
		must(err)
		recs, err := csv.NewReader(strings.NewReader(string(b))).ReadAll()
		if err != nil {
			return failf("%s: the export: %v", what, err)
		}
		if exists != strings.Contains(fmt.Sprint(recs), fmt.Sprintf("entry%d", idx)) {
			return failf("%s: the file to use is %s, exported was %q", what, chosen, recs)
		}
		x.Label("exported")
	default:
		if wrote {
			st, err := openFile(h.path(chosen), nil, []byte(pass))
			if err != nil {
				return failf("%s: %v", what, err)
			}
			es, err := st.byName()
			if err != nil {
				return err
			}
			add := "fresh"
			if c.Sub == "lpassimport" {
				add = "imported"
			}
			_, old := es[fmt.Sprintf("entry%d", idx)]
			if _, ok := es[add]; ok != touches || old != exists {
				return failf("%s: the file to use is %s, which has %q now: %s", what, chosen, st.State, r.tail())
			}
			x.Label("written")
		}
		if c.Sub == "" && exists && !strings.Contains(r.Out, fmt.Sprintf("entry%d\n", idx)) {
			return failf("%s: the file to use is %s, but it shows another: %s", what, chosen, r.tail())
		}
	}
	n := 0
	for _, e := range c.Exist {
		if e {
			n++
		}
	}
	if n >= 2 && (c.Flag >= 0 || c.Env >= 0) {
		x.NonTrivial()
	}
	x.LabelIf(c.Flag >= 0, "chosen by a flag")
	x.LabelIf(c.Flag < 0 && c.Env >= 0, "chosen by the environment")
	x.LabelIf(c.Flag < 0 && c.Env < 0, "the default")
	x.LabelIf(!exists, "new file")
	x.LabelIf(past, "read-only")
	x.LabelIf(badTime, "bad time")
	return nil
}

func init() {
	part("M19", "files", 3000, 80000,
		"one run (session, export, import, gen, version, help; read-only or not, with a bad time) in one of three directories, with several databases around (one of them behind a link), chosen by flag, environment or default, absolute or relative, with the arguments in any order; non-trivial: at least two databases exist and one is chosen by flag or environment",
		genM19, runM19)
}
