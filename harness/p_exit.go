package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M14: exit status and interruption

type m14int struct {
	New  bool
	Prep prepared
	Ops  []sop
	Mix  []string // other commands, at the end
	Cut  int      // permille of the input after which the interrupt comes
}

// commands with dialogues that the operations of M01 do not have
var mixCommands = []string{
	"passwd\nm\nnew\nnew\n", "passwd\nu\nl\n\nn 3\ny\n", "adduser zoe\nm\nz\nz\n", "adduser zed\ny\n", "rekey\n", "rekeyall\nyes\n", "rekeyall\nno\n",
	"addsync file\n/nowhere/x\n", "addsync scp\nme\nhost\n22\n/x\n3\nm\na\na\n", "addsync scp\nme\nhost\n22\n/x\n1\n", "set q notes\na\n\nb\n.\n", "login q\n\n\n\n", "add q\na\nb\nc\ny\n", "label q\na\nb\n\n", "rm q\nq\n",
}

func genM14int(t *rapid.T) m14int {
	c := m14int{
		New:  rapid.IntRange(0, 3).Draw(t, "new") == 0,
		Prep: genPrepared(t, 12),
		Cut:  1000 - rapid.IntRange(0, 1000).Draw(t, "cut"),
	}
	pool := append([]string{"q"}, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return genEntryName(t, "pool") }), 2, 4).Draw(t, "pool")...)
	c.Ops = genSlice(t, "ops", 0, 10, rapid.Custom(func(t *rapid.T) sop { return genSop(t, pool) }))
	c.Mix = rapid.SliceOfN(rapid.SampledFrom(mixCommands), 0, 4).Draw(t, "mix")
	return c
}

func runM14int(c m14int, x *Ctx) error {
	h := newHome(x, "m14")
	defer h.done()
	curGen = genVals{}
	m := &mstore{}
	open := []string{"pw", "pw"}
	if !c.New {
		_, pm, o := c.Prep.write(h, "db")
		m, open = pm, o.lines
	}
	p := &planner{m: m.clone(), x: x}
	for _, o := range c.Ops {
		p.do(o)
	}
	var b strings.Builder
	for _, l := range open {
		b.WriteString(l + "\n")
	}
	changes := b.Len()
	for _, s := range p.steps {
		if k := strings.Index(s.in, eofMark); k >= 0 {
			b.WriteString(s.in[:k])
			c.Mix = nil
			break
		}
		b.WriteString(s.in)
	}
	// after what the model knows, where no end of input is typed any more
	for _, m := range c.Mix {
		b.WriteString(m)
	}
	in := b.String()
	cut := len(in) * c.Cut / 1000
	if cut > len(in) {
		cut = len(in)
	}
	for cut > 0 && cut < len(in) && !utf8.RuneStart(in[cut]) {
		cut--
	}
	in = in[:cut] + "\x03"
	before := h.tree()
	r, err := h.run([]string{"--no-color", "--no-sync", "--no-clear-clip", "-f", "db"}, strings.NewReader(in))
	if err != nil {
		return err
	}
	x.Logf("%q: %d %q", in, r.RC, r.Out)
	if r.Hang || r.crashed() {
		return failf("interrupted after %.300q: %s", in, r.tail())
	}
	if r.RC == 0 {
		return failf("interrupted after %.2000q, but the exit status is 0: %s", in, r.tail())
	}
	if d := diffTree(before, h.tree()); d != "" {
		return failf("interrupted after %.2000q, but %s", in, d)
	}
	if p.changed > 0 && cut > changes {
		x.NonTrivial()
	}
	x.LabelIf(c.New, "new file")
	x.LabelIf(cut < changes, "while opening")
	x.LabelIf(cut > 0 && in[cut-1] != '\n', "within a line")
	return nil
}

// ---------------------------------------------------------------- outcomes

type m14out struct {
	What string
	Prep prepared
	Pos  int // what is damaged, permille
	Bit  int
	Junk B
	Pass string
	End  string // exit eof
	Add  bool   // the session would change something
}

var outcomes = []string{
	"fine", "fine", "env", "default", "wrong pass", "wrong pass", "wrong user", "no user", "end at user", "end at pass", "interrupt at pass",
	"truncated", "flipped", "flipped", "appended", "empty", "junk", "directory", "under a file", "unreadable",
	"create", "mismatch", "no pass", "end at new pass", "end at verify", "no folder", "locked folder",
	"import", "import declined", "import fails", "import junk", "import missing", "import wrong pass",
	"export", "export full", "export folder", "export format", "export wrong pass", "export no argument",
	"bad time", "time of nothing", "bad flag", "version", "help", "gen", "gen ends", "gen interrupted",
}

func genM14out(t *rapid.T) m14out {
	return m14out{
		What: rapid.SampledFrom(outcomes).Draw(t, "what"),
		Prep: genPrepared(t, 10),
		Pos:  rapid.IntRange(0, 999).Draw(t, "pos"),
		Bit:  rapid.IntRange(0, 7).Draw(t, "bit"),
		Junk: genBytes(t, "junk", 300),
		Pass: genPassText(t, "pass"),
		End:  rapid.SampledFrom([]string{"exit", "eof"}).Draw(t, "end"),
		Add:  rapid.Bool().Draw(t, "add"),
	}
}

func runM14out(c m14out, x *Ctx) error {
	h := newHome(x, "m14o")
	defer h.done()
	c.Pass = cleanText(c.Pass)
	if c.Pass == "" {
		c.Pass = "p"
	}
	log, m, o := c.Prep.write(h, "db")
	m = m.clone()
	h.fake(map[string]fakeCfg{"lpass": {Out: B("url,username,password,extra,name,grouping,fav\n,u,p,,imported,,0\n")}})
	body := ""
	if c.Add && m.byName("added") == nil {
		body = "add added\n\n\nm\nx\nx\n"
	}
	end := endInput(c.End)
	args := []string{"-f", "db"}
	opening := strings.Join(o.lines, "\n") + "\n"
	in := opening + body + end
	ok := false            // the exit status is zero
	saved := ""            // the file that is written
	pass := string(o.pass) // and its passphrase
	user := o.user         // and user
	var env []string       //
	out := ""              // the file that an export creates
	unread := false        // runs as another user
	cmd := []string(nil)   // subcommand
	wrong := strings.TrimSuffix(opening, string(o.pass)+"\n") + almost(string(o.pass), c.Bit) + "\n"
	file := h.read("db")
	damage := func(b []byte) { must(os.WriteFile(h.path("db"), b, 0o600)) }
	added := body != ""
	fresh := func(lines string) {
		args[1] = "new"
		in = lines
		m = &mstore{}
		log, user = nil, nil
		added = false
	}
	imported := func() {
		if e := m.byName("imported"); e == nil {
			e = m.add("imported")
			e.F = map[string]string{"user": "u", "pass": "p"}
		}
	}
	switch c.What {
	case "fine":
		ok, saved = true, "db"
	case "env":
		args = nil
		env = append(env, "BPASS="+h.path("db"))
		ok, saved = true, "db"
	case "default":
		must(os.Rename(h.path("db"), h.path(".bpass")))
		args = nil
		ok, saved = true, ".bpass"
	case "wrong pass":
		in = wrong + body + end
	case "wrong user", "no user", "end at user":
		if !c.Prep.Multi {
			return nil
		}
		l := strings.SplitN(opening, "\n", 2)
		switch c.What {
		case "wrong user":
			in = l[0] + "x\n" + l[1] + body + end
		case "no user":
			in = "\n" + l[1] + body + end
		default:
			in = ""
		}
	case "end at pass":
		in = strings.Join(o.lines[:len(o.lines)-1], "\n")
		if in != "" {
			in += "\n"
		}
	case "interrupt at pass":
		in = strings.Join(o.lines[:len(o.lines)-1], "\n")
		if in != "" {
			in += "\n"
		}
		in += "\x03"
	case "truncated":
		damage(file[:len(file)*c.Pos/1000])
		in = opening + opening + body + end
	case "flipped":
		b := bytes.Clone(file)
		b[len(b)*c.Pos/1000] ^= 1 << (c.Bit & 7)
		damage(b)
		in = opening + body + end
	case "appended":
		if len(c.Junk) == 0 {
			c.Junk = B{0}
		}
		damage(append(bytes.Clone(file), c.Junk...))
	case "empty":
		damage(nil)
	case "junk":
		damage(c.Junk)
	case "directory":
		must(os.Remove(h.path("db")))
		must(os.Mkdir(h.path("db"), 0o700))
	case "under a file":
		args[1] = "db/x"
		in = "pw\npw\n" + body + end
	case "unreadable":
		unread = true
		must(os.Chmod(h.path("db"), 0))
	case "create":
		fresh(c.Pass + "\n" + c.Pass + "\n" + body + end)
		added = body != ""
		ok, saved, pass = true, "new", c.Pass
	case "mismatch":
		fresh(c.Pass + "\n" + almost(c.Pass, c.Bit) + "\n" + body + end)
	case "no pass":
		fresh("\n\n" + body + end)
	case "end at new pass":
		fresh("")
	case "end at verify":
		fresh(c.Pass + "\n")
	case "no folder":
		fresh("pw\npw\n" + body + end)
		args[1] = "no/folder/db"
	case "locked folder":
		unread = true
		must(os.Mkdir(h.path("d"), 0o755))
		must(os.Rename(h.path("db"), h.path("d/db")))
		args[1] = "d/db"
	case "import":
		cmd = []string{"lpassimport"}
		in = opening + "y\n"
		imported()
		ok, saved = true, "db"
		if e := m.byName("imported"); e.F["pass"] != "p" || len(e.F) > 2 {
			return nil // was there already
		}
		added = false
	case "import declined":
		cmd = []string{"lpassimport"}
		in = opening + "n\n"
		ok, saved, added = true, "db", false
	case "import fails", "import junk", "import missing":
		cmd = []string{"lpassimport"}
		in = opening + "y\n"
		switch c.What {
		case "import fails":
			h.fake(map[string]fakeCfg{"lpass": {Out: B("url,username,password,extra,name,grouping,fav\n,u,p,,imported,,0\n"), RC: 1}})
		case "import junk":
			h.fake(map[string]fakeCfg{"lpass": {Out: append(B("url,x\n"), c.Junk...)}})
		default:
			must(os.Remove(h.path("bin/lpass")))
		}
	case "import wrong pass":
		cmd = []string{"lpassimport"}
		in = wrong + "y\n"
	case "export":
		out = "out.csv"
		cmd = []string{"export", h.path(out)}
		in = opening
		ok, saved, added = true, "db", false
	case "export full":
		cmd = []string{"export", "/dev/full"}
		in = opening
	case "export folder":
		must(os.Mkdir(h.path("folder"), 0o700))
		cmd = []string{"export", h.path("folder")}
		in = opening
	case "export format":
		cmd = []string{"export", "--format", "XML", h.path("x")}
		in = opening
	case "export wrong pass":
		cmd = []string{"export", h.path("x")}
		in = wrong
	case "export no argument":
		cmd = []string{"export"}
		in = opening
	case "bad time":
		args = append(args, "-t", []string{"yesterday", "2020-13-01 00:00:00", "2020-01-01", " "}[c.Bit&3])
	case "time of nothing":
		args = []string{"-f", "new", "-t", "2020-01-01 00:00:00"}
		in = "pw\npw\n" + body + end
	case "bad flag":
		args = append(args, "--frob")
	case "version":
		args, cmd, ok = nil, []string{"version"}, true
	case "help":
		args, ok = []string{"-h"}, true
	case "gen":
		args, cmd, ok, in = nil, []string{"gen"}, true, "\n\ny\n"
	case "gen ends":
		args, cmd, in = nil, []string{"gen"}, "\n"
	case "gen interrupted":
		args, cmd, in = nil, []string{"gen"}, "\n\x03"
	}
	all := append(append([]string{}, cmd...), append([]string{"--no-color", "--no-sync", "--no-clear-clip"}, args...)...)
	if unread {
		h.unprivileged()
		h.chown()
		if c.What == "unreadable" {
			must(os.Chmod(h.path("db"), 0))
		} else {
			must(os.Chmod(h.path("d"), 0o500))
		}
	}
	before := h.tree()
	r, err := h.run(all, strings.NewReader(in), env...)
	if err != nil {
		return err
	}
	x.Logf("%q %q: %d %q %q", all, in, r.RC, r.Out, r.Err)
	if r.Hang || r.crashed() {
		return failf("%s: %s", c.What, r.tail())
	}
	x.Label(c.What)
	if c.What == "time of nothing" {
		// either status: there's nothing to show
		ok = r.RC == 0
	}
	if ok != (r.RC == 0) {
		return failf("%s: the exit status is %d: %s", c.What, r.RC, r.tail())
	}
	after := h.tree()

	if saved == "" {
		if d := diffTree(before, after); d != "" {
			return failf("%s: %s (%s)", c.What, d, r.tail())
		}
		if !ok {
			x.NonTrivial()
		}
		return nil
	}
	delete(before, "./"+saved)
	delete(after, "./"+saved)
	if out != "" {
		if _, ok := after["./"+out]; !ok {
			return failf("%s: the output file does not exist: %s", c.What, r.tail())
		}
		delete(after, "./"+out)
	}
	if d := diffTree(before, after); d != "" {
		return failf("%s: %s (%s)", c.What, d, r.tail())
	}
	f, err := openFile(h.path(saved), user, []byte(pass))
	if err != nil {
		return failf("%s: %v (%s)", c.What, err, r.tail())
	}
	if added {
		e := m.add("added")
		e.F = map[string]string{"pass": "x"}
		x.NonTrivial()
	}
	if err := m.compare(f); err != nil {
		return failf("%s: %v (%s)", c.What, err, r.tail())
	}
	if len(f.Log) < len(log) || sameLog(f.Log[:len(log)], log) != "" {
		return failf("%s: the history was changed: %s", c.What, r.tail())
	}
	return nil
}

func init() {
	part("M14", "interrupt", 4000, 80000,
		"a generated session (up to 10 operations and 4 commands with dialogues) on a generated or a new file, interrupted at any character of its input; non-trivial: the session changed something before",
		genM14int, runM14int)
	part("M14", "outcomes", 6000, 100000,
		fmt.Sprintf("runs with %d ways to go on a generated file: opened, created, imported, exported, damaged, refused or ended at any step; non-trivial: the run fails, or the session saves a change", len(outcomes)),
		genM14out, runM14out)
}
