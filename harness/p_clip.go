package main

import (
	"crypto/sha1"
	"encoding/base32"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M13: the clipboard

type clipOp struct {
	Op   string // cp quick login get show set add ls
	E    int
	K    string
	Cd   bool
	Stop string // login: how it goes on: "" (enter), "end", "interrupt" after N copies; add: dialogue
	N    int
}

type clipEntry struct {
	Has [5]bool // user email pass totp notes
	V   []string
	Bad int // if not 0 the totp secret is one that gives no codes
}

type m13 struct {
	Ents   []clipEntry
	Ops    []clipOp
	How    string // xclip xsel wl termux failing none
	End    string
	Keep   bool // --no-clear-clip
	Past   bool // read-only
	Fail   string
	Secret B
}

// badTOTP are stored two factor settings (by another program, say) without codes
var badTOTP = []string{"!", "otpauth://totp/a:b", "otpauth://totp/a:b?secret=", "otpauth://totp/a:b?secret=1!", "otpauth://hotp/a:b?secret=JBSWY3DPEHPK3PXP", "JBSWY3DPEHPK3PXP", "%zz"}

var clipKeys = []string{"user", "email", "pass", "totp", "notes", "updated", "name", "absent"}

func genM13(t *rapid.T) m13 {
	c := m13{
		How:    rapid.SampledFrom([]string{"xclip", "xclip", "xclip", "xsel", "wl", "termux", "failing", "none"}).Draw(t, "how"),
		End:    rapid.SampledFrom([]string{"exit", "eof", "interrupt", "exit"}).Draw(t, "end"),
		Keep:   rapid.IntRange(0, 3).Draw(t, "keep") == 0,
		Past:   rapid.IntRange(0, 6).Draw(t, "past") == 0,
		Secret: rapid.SliceOfN(rapid.Byte(), 10, 20).Draw(t, "secret"),
	}
	if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
		c.Fail = rapid.SampledFrom([]string{"wrong pass", "end at pass", "interrupt at pass", "broken", "directory", "mismatch", "no pass", "import", "import fails", "export", "gen", "version", "folder gone", "no folder"}).Draw(t, "fail")
	}
	c.Ents = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) clipEntry {
		var e clipEntry
		for i := range e.Has {
			e.Has[i] = rapid.IntRange(0, 3).Draw(t, "has") > 0
			e.V = append(e.V, genEdVal(t, "v"))
		}
		if e.Has[3] && rapid.IntRange(0, 4).Draw(t, "unusable") == 2 {
			e.Bad = rapid.IntRange(1, len(badTOTP)).Draw(t, "bad")
		}
		return e
	}), 1, 3).Draw(t, "ents")
	c.Ops = genSlice(t, "ops", 0, 8, rapid.Custom(func(t *rapid.T) clipOp {
		o := clipOp{
			Op: rapid.SampledFrom([]string{"cp", "cp", "quick", "quick", "login", "login", "get", "show", "set", "add", "ls"}).Draw(t, "op"),
			E:  rapid.IntRange(0, 2).Draw(t, "e"),
			K:  rapid.SampledFrom(clipKeys).Draw(t, "k"),
			Cd: rapid.Bool().Draw(t, "cd"),
		}
		if o.Op == "login" {
			o.Stop = rapid.SampledFrom([]string{"", "", "", "", "end", "interrupt"}).Draw(t, "stop")
			o.N = rapid.IntRange(1, 3).Draw(t, "n")
		}
		if o.Op == "add" {
			o.N = rapid.IntRange(0, 3).Draw(t, "copies")
		}
		return o
	}))
	return c
}

func runM13(c m13, x *Ctx) error {
	h := newHome(x, "m13")
	defer h.done()
	if len(c.Ents) == 0 || len(c.Secret) == 0 {
		return nil
	}
	secret := base32.StdEncoding.WithPadding(base32.NoPadding).EncodeToString(c.Secret)
	log := multiLog(nil, h, "")
	now := int64(1600001000e9)
	type ent struct {
		name string
		f    map[string]string
		set  bool // updated is now

		noCode bool
	}
	var es []*ent
	for i, ce := range c.Ents {
		id := fmt.Sprintf("00000000-0000-4000-8000-00000000000%d", i)
		e := &ent{name: fmt.Sprintf("e%d", i), f: map[string]string{}}
		put := func(k, v string) {
			now++
			log = append(log, txOf(now, id, k, v))
			if k != "" {
				e.f[k] = v
			}
		}
		put("", "")
		put("name", e.name)
		put("updated", fmt.Sprint(now))
		for k, key := range clipKeys[:5] {
			if k < len(ce.V) && ce.Has[k] {
				if key == "totp" && ce.Bad > 0 {
					put(key, badTOTP[(ce.Bad-1)%len(badTOTP)])
					e.noCode = true
				} else if key == "totp" {
					put(key, "otpauth://totp/a:b?secret="+secret)
				} else {
					put(key, ce.V[k])
				}
			}
		}
		es = append(es, e)
	}
	h.writeDB("db", "pw", nil, storeJSON(log, len(log)))

	// want is what the clipboard is given: text, or a mark
	const code, shown = "\x00code", "\x00shown"
	var want []string
	var in strings.Builder
	in.WriteString("pw\n")
	cur, ended, added, nAdd := "", false, []string{}, 0
	tried := "" // key of the last copy
	for _, o := range c.Ops {
		if ended {
			break
		}
		e := es[o.E%len(es)]
		if o.Cd && cur != e.name {
			in.WriteString("cd\ncd " + e.name + "\n")
			cur = e.name
		} else if !o.Cd && cur != "" {
			in.WriteString("cd\n")
			cur = ""
		}
		q := ""
		if cur == "" {
			q = " " + e.name
		}
		val := func(k string) (string, bool) {
			v, ok := e.f[k]
			switch {
			case ok && k == "totp":
				v, ok = code, !e.noCode
				x.LabelIf(e.noCode, "no code")
			case ok && k == "updated":
				v = "\x00updated:" + v
				if e.set {
					v = "\x00updated:"
				}
			}
			return v, ok
		}
		tried = o.K
		switch o.Op {
		case "cp":
			in.WriteString("cp" + q + " " + o.K + "\n")
			if v, ok := val(o.K); ok {
				want = append(want, v)
			}
		case "quick":
			k := o.K
			if k != "user" && k != "pass" && k != "email" && k != "totp" {
				k = "pass"
			}
			in.WriteString(k + q + "\n")
			if v, ok := val(k); ok {
				want = append(want, v)
			}
		case "get":
			in.WriteString("get" + q + " " + o.K + "\n")
		case "show":
			in.WriteString("show" + q + "\n")
		case "ls":
			in.WriteString("ls\n")
		case "set":
			in.WriteString("set" + q + " k some value\n")
			e.set = e.set || !c.Past
		case "login":
			in.WriteString("login" + q + "\n")
			var vs []string
			for _, k := range []string{"user", "email", "pass", "totp"} {
				if v, ok := val(k); ok {
					vs = append(vs, v)
				}
			}
			if c.Past {
				continue // refused
			}
			stop := ""
			for i, v := range vs {
				want = append(want, v)
				if i == len(vs)-1 {
					break
				}
				if i+1 == o.N && o.Stop != "" {
					stop = o.Stop
					break
				}
				in.WriteString("\n")
			}
			if stop == "end" {
				in.WriteString("\x04")
			} else if stop == "interrupt" {
				in.WriteString("\x03")
				ended = true
			}
			if len(vs) > 1 {
				x.NonTrivial()
			}
		case "add":
			nAdd++
			name := fmt.Sprintf("n%d", nAdd)
			if c.Past {
				in.WriteString("add " + name + "\n")
				continue
			}
			in.WriteString("add " + name + "\nmail\nme\n")
			for i := 0; i < o.N%4; i++ {
				in.WriteString("c\n")
				want = append(want, shown+name)
			}
			in.WriteString("y\n")
			added = append(added, name)
		}
	}
	_ = tried
	args := []string{"--no-color", "--no-sync", "-f", "db"}
	var env []string
	tools := map[string]fakeCfg{}
	switch c.How {
	case "xclip":
		tools["xclip"] = fakeCfg{}
		tools["xsel"] = fakeCfg{}
	case "xsel":
		tools["xsel"] = fakeCfg{}
	case "wl":
		tools["wl-copy"], tools["wl-paste"], tools["xclip"] = fakeCfg{}, fakeCfg{}, fakeCfg{}
		env = append(env, "WAYLAND_DISPLAY=wayland-0")
	case "termux":
		tools["termux-clipboard-set"], tools["termux-clipboard-get"] = fakeCfg{}, fakeCfg{}
	case "failing":
		tools["xclip"] = fakeCfg{RC: 1}
	}
	stdin := in.String()
	saves := !ended
	if !ended {
		switch c.End {
		case "exit":
			stdin += "exit\n"
		case "interrupt":
			stdin += "\x03"
			saves = false
		}
	}
	fails := false
	cleared := true
	if c.Fail != "" {
		fails, want = true, nil
		c.Past = false
	}
	switch c.Fail {
	case "wrong pass":
		stdin = "wrong\n"
	case "end at pass":
		stdin = ""
	case "interrupt at pass":
		stdin = "\x03"
	case "broken":
		b := h.read("db")
		must(os.WriteFile(h.path("db"), b[:len(b)-1-int(c.Secret[0])%len(b)], 0o600))
	case "directory":
		must(os.Remove(h.path("db")))
		must(os.Mkdir(h.path("db"), 0o700))
	case "mismatch":
		args[3] = "new"
		stdin = "a\nb\n"
	case "no pass":
		args[3] = "new"
		stdin = "\n"
	case "import":
		args = append([]string{"lpassimport"}, args...)
		stdin = "pw\ny\n"
		tools["lpass"] = fakeCfg{Out: B("url,username,password,extra,name,grouping,fav\n,u,p,,x,,0\n")}
		args[4] = "new"
		stdin = "a\na\ny\n"
	case "import fails":
		args = append([]string{"lpassimport"}, args...)
		tools["lpass"] = fakeCfg{RC: 1}
		args[4] = "new"
		stdin = "a\na\ny\n"
	case "export":
		args = append([]string{"export"}, append(args, h.path("out.csv"))...)
		stdin = "pw\n"
	case "gen":
		args = []string{"gen", "--no-color"}
		stdin = "c\ny\n"
		cleared = false
	case "version":
		args = []string{"version"}
		stdin = ""
		cleared = false
	case "no folder":
		args[3] = "no/such/folder/db"
		stdin = "a\na\nset\nexit\n"
	case "folder gone":
		// the file cannot be written
		must(os.Mkdir(h.path("d"), 0o700))
		must(os.Rename(h.path("db"), h.path("d/db")))
		must(os.Chmod(h.path("d"), 0o500))
		args[3] = "d/db"
		h.unprivileged()
		stdin = "pw\nadd q\n\n\ny\nexit\n"
	}
	if c.Past {
		args = append(args, "-t", "2035-01-01 00:00:00")
	}
	if c.Keep && cleared {
		args = append(args, "--no-clear-clip")
		cleared = false
	}
	h.fake(tools)
	if c.Fail == "folder gone" {
		h.chown()
		must(os.Chmod(h.path("d"), 0o500))
	}
	r, err := h.run(args, strings.NewReader(stdin), env...)
	if err != nil {
		return err
	}
	x.Logf("%q\n%d %q %q", stdin, r.RC, r.Out, r.Err)
	if r.Hang || r.crashed() {
		return failf("%s", r.tail())
	}
	if cleared {
		want = append(want, "")
	}
	logs := h.fakeLogs()
	var got []string
	for _, l := range logs {
		switch l.Tool {
		case "lpass":
			continue
		case "xclip", "xsel", "wl-copy", "termux-clipboard-set":
		default:
			return failf("%s was run", l.Tool)
		}
		if l.Tool == "xclip" && (c.How == "xsel" || c.How == "wl") || l.Tool == "xsel" && c.How == "xclip" {
			return infra("unexpected clipboard program")
		}
		got = append(got, string(l.In))
	}
	if c.How == "none" {
		if len(got) > 0 {
			return infra("clipboard programs were run: %q", logs)
		}
		want = nil
	}
	if c.Fail == "gen" && c.How != "none" {
		lines := strings.Split(strings.TrimSpace(r.Out), "\n")
		want = []string{lines[len(lines)-1]}
		if strings.TrimSpace(lines[len(lines)-1]) != lines[len(lines)-1] || c.How == "none" {
			return nil
		}
	}
	what := func(l []string) string {
		s := fmt.Sprintf("%.100q", l)
		return s
	}
	if len(got) != len(want) {
		return failf("the clipboard was given %s, expected %s (%s)", what(got), what(want), r.tail())
	}
	var stored map[string]map[string]string
	if len(added) > 0 && saves && !fails {
		f, err := openFile(h.path("db"), nil, []byte("pw"))
		if err != nil {
			return err
		}
		if stored, err = f.byName(); err != nil {
			return err
		}
	}
	for i := range want {
		w := want[i]
		switch {
		case w == code:
			ok := false
			for at := r.Start.Add(-time.Second); !at.After(r.End.Add(time.Second)); at = at.Add(500 * time.Millisecond) {
				ok = ok || refTOTP(c.Secret, at, 30, 6, sha1.New) == got[i]
			}
			if !ok {
				return failf("copy %d: the clipboard was given %q, which is no current code", i, got[i])
			}
			continue
		case strings.HasPrefix(w, "\x00updated:"):
			at, err := time.Parse(time.RFC3339, got[i])
			if ns, err2 := strconv.ParseInt(w[len("\x00updated:"):], 10, 64); err != nil || err2 == nil && !at.Equal(time.Unix(ns/1e9, 0)) {
				return failf("copy %d: the clipboard was given %q as the time of the last change, at %d", i, got[i], ns)
			}
			continue
		case strings.HasPrefix(w, shown):
			if len(got[i]) != 32 {
				return failf("copy %d: the clipboard was given %q, expected the generated password", i, got[i])
			}
			if stored == nil {
				continue
			}
			w = stored[w[len(shown):]]["pass"]
		}
		if got[i] != w {
			return failf("copy %d: the clipboard was given %.200q, expected %.200q (%s)", i, got[i], w, r.tail())
		}
	}
	if len(want) > 1 || fails {
		x.NonTrivial()
	}
	x.LabelIf(!cleared, "not cleared")
	x.LabelIf(fails, "opening fails or other command")
	x.LabelIf(ended, "interrupted login")
	x.LabelIf(c.Past, "read-only")
	x.LabelIf(len(want) > 2, "several copies")
	return nil
}

func init() {
	part("M13", "clipboard", 2000, 40000,
		"sessions of up to 8 commands that copy, log in, show or change, ending in any way, and runs that fail to open, import, export or save; clipboard programs xclip, xsel, wl-copy, termux, a failing one or none; non-trivial: at least one copy, or a run that fails",
		genM13, runM13)
}
