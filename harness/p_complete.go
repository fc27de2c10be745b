package main

import (
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M20: tab completion

type tabOp struct {
	Op  string // tab add rm mv cd key cmd
	Cmd string
	E   int
	N   string
	Cut int // runes of the name that are typed
	Odd string
}

type m20 struct {
	Names []string
	Ops   []tabOp
}

var tabCmds = []string{"show", "get", "set", "cp", "edit", "open", "rm", "mv", "cd", "label", "rmlabel", "rmk", "pass", "user", "email", "totp"}

func genTabName(t *rapid.T) string {
	n := rapid.SampledFrom([]string{"a", "mail", "mail/", "mail/work", "Mail/", "é", "日本", "日本語", "web-", "x.y", "a/b/c", "sync/", "user"}).Draw(t, "pre")
	return n + rapid.StringOfN(rapid.SampledFrom([]rune("abcAB12/-_.é日")), 0, 6, -1).Draw(t, "rest")
}

func genM20(t *rapid.T) m20 {
	c := m20{Names: rapid.SliceOfN(rapid.Custom(genTabName), 1, 9).Draw(t, "names")}
	if rapid.IntRange(0, 11).Draw(t, "many") == 5 {
		c.Names = append(c.Names, rapid.SliceOfN(rapid.Custom(genTabName), 12, 40).Draw(t, "more")...)
	}
	c.Ops = genSlice(t, "ops", 1, 10, rapid.Custom(func(t *rapid.T) tabOp {
		o := tabOp{
			Op:  rapid.SampledFrom([]string{"tab", "tab", "tab", "tab", "tab", "add", "rm", "mv", "cd", "key", "cmd"}).Draw(t, "op"),
			Cmd: rapid.SampledFrom(tabCmds).Draw(t, "cmd"),
			E:   rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 60)).Draw(t, "e"),
			N:   genTabName(t),
			Cut: rapid.IntRange(0, 12).Draw(t, "cut"),
		}
		if rapid.IntRange(0, 7).Draw(t, "odd") == 3 {
			o.Odd = rapid.SampledFrom([]string{"z", "é", "/", "A", "日", "ma"}).Draw(t, "oddtext")
		}
		return o
	}))
	return c
}

// lcpRunes is the longest common prefix.
func lcpRunes(l []string) string {
	p := []rune(l[0])
	for _, s := range l[1:] {
		r := []rune(s)
		n := 0
		for n < len(p) && n < len(r) && p[n] == r[n] {
			n++
		}
		p = p[:n]
	}
	return string(p)
}

// completed is what a typed prefix becomes.
func completed(prefix string, all []string) (string, []string) {
	var l []string
	for _, n := range all {
		if strings.HasPrefix(n, prefix) {
			l = append(l, n+" ")
		}
	}
	if len(l) == 0 {
		return prefix, nil
	}
	return lcpRunes(l), l
}

func runM20(c m20, x *Ctx) error {
	h := newHome(x, "m20")
	defer h.done()
	var names []string
	has := func(n string) bool {
		for _, m := range names {
			if m == n {
				return true
			}
		}
		return false
	}
	var ops []hop
	for _, n := range c.Names {
		if n != "" && !has(n) {
			names = append(names, n)
			ops = append(ops, hop{Op: "add", V: n, Dt: 1})
		}
	}
	if len(names) == 0 {
		return nil
	}
	log := buildHist(ops, 1600000000e9)
	h.writeDB("db", "pw", nil, storeJSON(log, len(log)))
	p := h.startPty([]string{"-f", "db", "--no-sync", "--no-clear-clip"}, 250)
	defer p.kill()
	t := &secTalk{p: p}
	prompt := "db)> "
	if err := t.await("passphrase: "); err != nil {
		return err
	}
	if err := t.enter("pw"); err != nil {
		return err
	}
	say := func(prompt, line string) error {
		if err := t.await(prompt); err != nil {
			return err
		}
		return t.enter(line)
	}
	// press types a line and a tab, and gives up the line that it becomes.
	press := func(typed string) (line, shown string, err error) {
		if err := t.await(prompt); err != nil {
			return "", "", err
		}
		p.send(typed)
		p.settle(4*time.Millisecond, 100*time.Millisecond)
		off := len(p.text())
		// a line that does nothing, but is repeated when it's entered
		p.send("\t\x01#\r")
		for end := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
			s := p.text()[off:]
			if i := strings.Index(s, "unknown command"); i >= 0 {
				t.off = off + i
				j := strings.Index(s, "\n")
				for k := j; k >= 0 && k < i; {
					j = k
					n := strings.Index(s[k+1:], "\n")
					if n < 0 {
						break
					}
					k += n + 1
				}
				l := onScreen(s[:j], true)
				k := strings.LastIndex(l, prompt+"#")
				if k < 0 {
					return "", "", failf("the line is not shown: %q", s)
				}
				return l[k+len(prompt)+1:], onScreen(s[:i], true), nil
			}
			if p.exited() || time.Now().After(end) {
				return "", "", failf("no answer after %q and a tab: %q", typed, tailOf(p.text(), 800))
			}
		}
	}
	x.LabelIf(len(names) > 16, "many names")
	tabs := 0
	for _, o := range c.Ops {
		sort.Strings(names)
		var e string
		if len(names) > 0 {
			e = names[o.E%len(names)]
		}
		switch o.Op {
		case "add":
			if has(o.N) || o.N == "" {
				continue
			}
			for _, l := range [][2]string{{prompt, "add " + o.N}, {"email: ", ""}, {"user: ", ""}, {"u/l/n/b/e/y/c/m/enter/?> ", "y"}} {
				if err := say(l[0], l[1]); err != nil {
					return err
				}
			}
			names = append(names, o.N)
		case "rm":
			if e == "" {
				continue
			}
			if err := say(prompt, "rm "+e); err != nil {
				return err
			}
			if err := say("to proceed: ", e); err != nil {
				return err
			}
			for i, n := range names {
				if n == e {
					names = append(names[:i:i], names[i+1:]...)
					break
				}
			}
		case "mv":
			if e == "" || has(o.N) || o.N == "" {
				continue
			}
			if err := say(prompt, "mv "+e+" "+o.N); err != nil {
				return err
			}
			for i, n := range names {
				if n == e {
					names[i] = o.N
				}
			}
		case "tab", "cd":
			cmd := o.Cmd
			if o.Op == "cd" {
				cmd = "cd"
			}
			r := []rune(e)
			pre := string(r[:min(o.Cut, len(r))]) + o.Odd
			line, shown, err := press(cmd + " " + pre)
			if err != nil {
				return err
			}
			tabs++
			want, l := completed(pre, names)
			if line != cmd+" "+want {
				return failf("%q and a tab become %q, not %q; the entries are %q", cmd+" "+pre, line, cmd+" "+want, names)
			}
			if len(l) > 1 && want == pre {
				for _, n := range l {
					if !strings.Contains(shown, n) && !strings.Contains(shown, strings.TrimPrefix(n, pre)) {
						return failf("%q and a tab do not offer %q: %q", cmd+" "+pre, n, shown)
					}
				}
				x.Label("a choice")
			}
			x.LabelIf(len(l) == 1, "unique")
			x.LabelIf(len(l) == 0, "nothing to complete")
			x.LabelIf(len(l) > 1 && want != pre, "common beginning")
		case "key":
			if e == "" {
				continue
			}
			cmd := []string{"set", "get", "cp", "edit", "rmk"}[o.E%5]
			keys := []string{"email", "user", "pass", "totp", "notes"}
			k := keys[o.Cut%5]
			pre := k[:o.Cut%(len(k)+1)]
			line, _, err := press(cmd + " " + e + " " + pre)
			if err != nil {
				return err
			}
			tabs++
			want, _ := completed(pre, keys)
			if line != cmd+" "+e+" "+want {
				return failf("%q and a tab become %q, not %q", cmd+" "+e+" "+pre, line, cmd+" "+e+" "+want)
			}
		case "cmd":
			pre := o.Cmd[:min(o.Cut, len(o.Cmd))]
			if len(pre) < 2 {
				continue
			}
			line, _, err := press(pre)
			if err != nil {
				return err
			}
			tabs++
			if !strings.HasPrefix(line, pre) {
				return failf("%q and a tab become %q", pre, line)
			}
			if strings.HasSuffix(line, " ") && !hasAny(" passwd help exit add rm mv ls cd labels show set get cp edit open rmk label rmlabel pass user email totp sync addsync adduser rekey rekeyall login dump dumpall ", " "+line) {
				return failf("%q and a tab become %q, which is no command", pre, line)
			}
		}
		x.Label("op " + o.Op)
	}
	if err := say(prompt, "exit"); err != nil {
		return err
	}
	for end := time.Now().Add(sessionLimit); !p.exited(); time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			return failf("the session does not end: %q", tailOf(p.text(), 500))
		}
	}
	if tabs >= 2 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	part("M20", "tab", 2500, 60000,
		"a session on a terminal with up to 9 (sometimes 49) entries with common beginnings that are added, renamed and removed, with tabs after commands, beginnings of names (or other text) and of keys; the line must become what the names at that time determine; non-trivial: at least two tabs",
		genM20, runM20)
}
