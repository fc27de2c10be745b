package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/base32"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- password dialogue

// pwStep is one answer at the password prompt.
type pwStep struct {
	C      string // the choice typed
	P1, P2 string // for "m"
}

type pwSettings struct {
	Length int
	Min    [5]int // upper, lower, number, basic, extra
}

var pwClasses = [5]string{
	"ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz", "0123456789", "!@#$%^&*", "()_+-=<>,.{}[]\\|?/~\"'`",
}

// pwImpossible is when no password can satisfy the settings; huge lengths may be refused too.
func (s pwSettings) impossible() bool {
	if s.Length < 0 {
		return true
	}
	sum, on := 0, 0
	for _, m := range s.Min {
		if m >= 0 {
			on++
		}
		if m > s.Length {
			return true
		}
		if m > 0 {
			sum += m
		}
	}
	return sum > s.Length || on == 0 && s.Length > 0
}

// conforms tells how a password breaks the settings.
func (s pwSettings) conforms(p string) error {
	if len(p) != s.Length {
		return failf("generated password %q has %d characters, want %d", p, len(p), s.Length)
	}
	var n [5]int
chars:
	for i := 0; i < len(p); i++ {
		for c, a := range pwClasses {
			if strings.IndexByte(a, p[i]) >= 0 {
				n[c]++
				continue chars
			}
		}
		return failf("generated password %q has the character %q outside of the classes", p, p[i])
	}
	for c, m := range s.Min {
		if m < 0 && n[c] > 0 {
			return failf("generated password %q uses a class that is off (%s)", p, pwClasses[c])
		}
		if m > 0 && n[c] < m {
			return failf("generated password %q has %d characters of %s, want at least %d", p, n[c], pwClasses[c], m)
		}
	}
	return nil
}

// apply is one settings line of the dialogue; false: not a settings line.
func (s *pwSettings) apply(c string) {
	sp := strings.Fields(c)
	if len(sp) == 0 {
		return
	}
	for i, l := range []string{"u", "l", "n", "b", "e"} {
		if sp[0] != l {
			continue
		}
		if len(sp) == 1 {
			if s.Min[i] >= 0 {
				s.Min[i] = -1
			} else {
				s.Min[i] = 0
			}
		} else if n, err := strconv.Atoi(sp[1]); err == nil {
			s.Min[i] = n
		}
		return
	}
	if c == "?" || sp[0] == "c" {
		return
	}
	if n, err := strconv.Atoi(c); err == nil {
		s.Length = n
	}
}

// planPass renders a password dialogue. The result is the chosen password,
// where gen says that it is the last one shown (known from the output only).
type passPlan struct {
	lines string
	val   string
	gen   bool
	eof   bool
	set   pwSettings
}

// planPass renders the steps; end: "y" accept what is shown, "m" manual, "eof" end of dialogue.
func planPass(steps []pwStep, end string, manual string) passPlan {
	s := pwSettings{Length: 32}
	p := passPlan{}
	var b strings.Builder
	for _, st := range steps {
		if st.C == "y" || st.C == "m" && st.P1 == st.P2 {
			continue // only at the end
		}
		if strings.HasPrefix(strings.TrimSpace(st.C), "c") {
			continue // the clipboard is another check's business
		}
		b.WriteString(st.C + "\n")
		if st.C == "m" {
			b.WriteString(st.P1 + "\n" + st.P2 + "\n")
			continue
		}
		s.apply(st.C)
	}
	p.set = s
	if end == "y" && (s.impossible() || s.Length > 5000) {
		end = "m"
	}
	switch end {
	case "eof":
		b.WriteString("\x04")
		p.eof = true
	case "y":
		b.WriteString("y\n")
		p.gen = true
	default:
		b.WriteString("m\n" + manual + "\n" + manual + "\n")
		p.val = manual
	}
	p.lines = b.String()
	return p
}

// shownPass is the last password shown in a dialogue.
func shownPass(seg string) (string, bool) {
	i := strings.LastIndex(seg, "password: ")
	for i > 0 && seg[i-1] != '\n' {
		i = strings.LastIndex(seg[:i], "password: ")
	}
	if i < 0 {
		return "", false
	}
	l, _, ok := strings.Cut(seg[i+len("password: "):], "\n")
	return l, ok
}

func genPwSteps(t *rapid.T) []pwStep {
	n := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4}).Draw(t, "pwN")
	var out []pwStep
	for i := 0; i < n; i++ {
		c := rapid.OneOf(
			rapid.SampledFrom([]string{"u", "l", "n", "b", "e", "?", "", " ", "yy", "x", "-1", "0", "m", "65537", "99999999999999999999", "u x", "é"}),
			rapid.Custom(func(t *rapid.T) string {
				return fmt.Sprintf("%s %d", rapid.SampledFrom([]string{"u", "l", "n", "b", "e"}).Draw(t, "cl"), rapid.IntRange(-2, 20).Draw(t, "min"))
			}),
			rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(rapid.IntRange(0, 60).Draw(t, "len")) }),
		).Draw(t, "choice")
		s := pwStep{C: c}
		if c == "m" {
			v := rapid.SampledFrom([][2]string{{"one", "two"}, {"one", "One"}, {"one", "one "}, {" one", "one"}, {"one", "on"}, {"one", "oneone"}, {"one", ""}, {"", "one"}, {"ö", "o"}, {"one", "onf"}, {"\u00e9", "e\u0301"}}).Draw(t, "differ")
			s.P1, s.P2 = v[0], v[1]
		}
		out = append(out, s)
	}
	return out
}

// ---------------------------------------------------------------- two-factor secrets

// totpSecret is the secret of a stored otpauth URL.
func totpSecret(uri string) string {
	u, err := url.Parse(uri)
	if err != nil || u.Scheme != "otpauth" {
		return "?" + uri
	}
	return u.Query().Get("secret")
}

func sha1Code(secret string, at time.Time) string {
	key, err := base32.StdEncoding.DecodeString(secret)
	must(err)
	return refTOTP(key, at, 30, 6, sha1.New)
}

// isCode accepts the code of any time between the bounds.
func isCode(code, secret string, from, to time.Time) bool {
	for at := from; ; at = at.Add(30 * time.Second) {
		if at.After(to) {
			at = to
		}
		if sha1Code(secret, at) == code {
			return true
		}
		if at == to {
			return false
		}
	}
}

// ---------------------------------------------------------------- M01: commands

// sop is one command of a session.
type sop struct {
	Op    string
	N     string   // entry name or query
	N2    string   // new name
	K     string   // key
	V     string   // value, confirmation
	Lines []string // dialogue lines
	End   string   // how the dialogue ends
	Pw    []pwStep
	I     int
}

type mSession struct {
	Ops []sop
	End string // exit, eof, interrupt
}

type m01 struct {
	Pass     string
	Sessions []mSession
}

var nameParts = []string{"a", "b", "A", "ab", "ba", "é", "É", "mail", "Mail", "x-1", "日本", "a.b", "g\"h", "user", "%s"}

func genEntryName(t *rapid.T, label string) string {
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3}).Draw(t, label+"N")
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, rapid.SampledFrom(nameParts).Draw(t, label))
	}
	s := strings.Join(p, "/")
	if rapid.IntRange(0, 19).Draw(t, label+"Odd") == 7 {
		s = rapid.SampledFrom([]string{"/", "a/", "/a", "user/", "sync/file", "-", "--help", "a//b"}).Draw(t, label+"OddN")
	}
	return s
}

var fieldKeys = []string{"user", "email", "url", "notes", "labels", "pass", "pin", "Pin", "k.1", "é", "USER", "sync", "knownhosts", "key:", "updatedx"}
var protKeys = []string{"name", "updated", "iv", "salt", "mkey", "Name", "MKEY", "TOTP", "Updated"}

func genFieldKey(t *rapid.T) string {
	if rapid.IntRange(0, 9).Draw(t, "keyProt") == 3 {
		return rapid.SampledFrom(protKeys).Draw(t, "key")
	}
	return rapid.SampledFrom(fieldKeys).Draw(t, "key")
}

// genLine is printable text as it can be typed on a line.
func genLine(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(t, label+"Kind") {
	case 0:
		return rapid.SampledFrom([]string{"x", ".", "..", "a b", "a  b", " a", "a ", "100%", "%d%s", "\"q\"", "it's", "a,b", "a=b", "#!", "\\n", "exit", "y", "-1", "null", "{}", "<&>", "\u2028x", "\u00a0z", "é̂", "😀 ok", "using: a", "password: p"}).Draw(t, label)
	case 1:
		return string(rapid.SliceOfN(rapid.SampledFrom([]rune("ab cé日😀%\"\\,=:-ÿ")), 0, 60).Draw(t, label))
	case 2:
		n := rapid.SampledFrom([]int{100, 1000, 5000}).Draw(t, label+"Len")
		return strings.Repeat("ab é", n/5)
	default:
		return rapid.StringMatching(`[a-zA-Z0-9!-/:-@]{1,24}`).Draw(t, label)
	}
}

var goodURLs = []string{"https://a.example/x?y=1&z=%20#f", "http://u:p@h:80/", "ftp://a", "HTTPS://A", "scp://u@h:22/f", "x://日本/é"}
var badURLs = []string{"foo", "mailto:a@b", "://x", "http://[::1", "//a/b", "a/b", "http://a/%zz"}
var goodSecrets = []string{"JBSWY3DPEHPK3PXP", "GEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQ", "MFRGGZDFMZTWQ2LK"}
var badSecrets = []string{"!", "A", "1018", "otpauth://hotp/x?secret=JBSWY3DPEHPK3PXP", "otpauth://totp/x", "otpauth://totp/x?secret="}

var allOps = []string{
	"add", "add", "add", "add", "mv", "rm", "rmk", "rmk", "set", "set", "set", "set", "setml", "setml", "seturl", "settotp", "setpass", "setprot",
	"label", "label", "rmlabel", "cd", "cd0", "ls", "get", "get", "labels", "show", "show", "dump", "dumpall", "bad", "help",
}

var readOps = []string{"cd", "cd0", "ls", "get", "get", "get", "labels", "show", "show", "show", "dump", "dumpall"}

func genSop(t *rapid.T, pool []string) sop { return genSopOf(t, pool, allOps) }

func genSopOf(t *rapid.T, pool, ops []string) sop {
	o := sop{Op: rapid.SampledFrom(ops).Draw(t, "op")}
	pick := func(l string) string {
		if rapid.IntRange(0, 11).Draw(t, l+"Any") == 5 {
			return genEntryName(t, l)
		}
		return rapid.SampledFrom(pool).Draw(t, l)
	}
	query := func() string {
		n := pick("q")
		if rapid.IntRange(0, 3).Draw(t, "qp") == 0 {
			var p []string
			for _, c := range strings.Split(n, "/") {
				p = append(p, genPattern(t, "q", c))
			}
			if q := strings.TrimSpace(strings.Join(p, "/")); q != "" && !strings.ContainsAny(q, " ") {
				return q
			}
		}
		return n
	}
	dlgEnd := func(kinds ...string) string { return rapid.SampledFrom(kinds).Draw(t, "end") }
	switch o.Op {
	case "add":
		o.N = pick("name")
		o.Lines = []string{"", ""}
		for i := range o.Lines {
			if rapid.Bool().Draw(t, "has") {
				o.Lines[i] = genLine(t, "add")
			}
		}
		o.Pw = genPwSteps(t)
		o.V = genLine(t, "pw")
		if rapid.IntRange(0, 5).Draw(t, "emptypw") == 0 {
			o.V = ""
		}
		o.End = dlgEnd("y", "m", "m", "eof", "eof1", "eof2")
	case "mv":
		o.N, o.N2 = pick("name"), pick("new")
	case "rm":
		o.N = pick("name")
		o.V = rapid.SampledFrom([]string{"same", "same", "same", "", "y", "eof", "case", "space"}).Draw(t, "confirm")
	case "rmk":
		o.N, o.K = query(), genFieldKey(t)
		if rapid.IntRange(0, 5).Draw(t, "totp") == 0 {
			o.K = "totp"
		}
	case "set":
		o.N, o.K, o.V = query(), genFieldKey(t), genLine(t, "value")
	case "setml":
		o.N, o.K = query(), genFieldKey(t)
		o.Lines = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
			if rapid.IntRange(0, 3).Draw(t, "blank") == 0 {
				return ""
			}
			return genLine(t, "l")
		}), 0, 6).Draw(t, "lines")
		o.End = dlgEnd(".", "blank", "eof")
	case "seturl":
		o.N = query()
		o.V = rapid.SampledFrom(append(append([]string{}, goodURLs...), badURLs...)).Draw(t, "url")
	case "settotp":
		o.N = query()
		o.V = rapid.SampledFrom(append(append([]string{}, goodSecrets...), badSecrets...)).Draw(t, "secret")
	case "setpass":
		o.N = query()
		o.Pw = genPwSteps(t)
		o.V = genLine(t, "pw")
		o.End = dlgEnd("y", "y", "m", "eof")
	case "setprot":
		o.N, o.K, o.V = query(), rapid.SampledFrom(protKeys).Draw(t, "key"), genLine(t, "value")
	case "label":
		o.N = query()
		o.Lines = rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "é", "x-1", "a b", "Up", "long-label", "a", "É"}), 0, 5).Draw(t, "labels")
		o.End = dlgEnd(".", "blank", "eof")
	case "rmlabel":
		o.N, o.K = query(), rapid.SampledFrom([]string{"a", "b", "c", "é", "zz"}).Draw(t, "label")
	case "cd", "ls", "dump":
		o.N = query()
		if o.Op == "ls" && rapid.Bool().Draw(t, "all") {
			o.N = ""
		}
	case "get":
		o.N, o.K = query(), genFieldKey(t)
		if rapid.IntRange(0, 5).Draw(t, "totp") == 0 {
			o.K = "totp"
		}
		if rapid.IntRange(0, 7).Draw(t, "upd") == 3 {
			o.K = "updated"
		}
	case "labels":
		o.Lines = rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "é", "x-1", "zz"}), 1, 3).Draw(t, "labels")
	case "show":
		o.N = query()
		o.I = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 5, 9, 30, -1}).Draw(t, "version")
	case "bad":
		o.V = rapid.SampledFrom([]string{"mv a", "rm", "add", "labels", "cd a b c", "frob", "set", "get", "mv", "adduser", "addsync", "addsync foo", "dumpall x", "help x", "rmlabel", "rekeyall", "passwd nobody", "rekey nobody"}).Draw(t, "bad")
	}
	return o
}

func genPassText(t *rapid.T, label string) string {
	return rapid.OneOf(rapid.StringMatching(`[a-zA-Z0-9]{1,12}`), rapid.StringMatching(`[ -~]{1,20}`),
		rapid.SampledFrom([]string{"pässwörd", "日本語 の", " lead", "trail ", "  ", "%s%d", "a\u00a0b", "😀", strings.Repeat("long", 60)})).Draw(t, label)
}

func genM01(t *rapid.T) m01 {
	pool := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return genEntryName(t, "pool") }), 3, 8).Draw(t, "pool")
	c := m01{Pass: genPassText(t, "pass")}
	n := rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(t, "sessions")
	for i := 0; i < n; i++ {
		s := mSession{End: rapid.SampledFrom([]string{"exit", "exit", "exit", "exit", "exit", "exit", "eof", "eof", "interrupt"}).Draw(t, "end")}
		k := rapid.SampledFrom([]int{0, 3, 10, 20, 40}).Draw(t, "n")
		s.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sop { return genSop(t, pool) }), k/2, k).Draw(t, "ops")
		if i == 0 {
			var add []sop
			for _, n := range pool[:rapid.IntRange(0, len(pool)).Draw(t, "adds")] {
				add = append(add, sop{Op: "add", N: n, Lines: []string{"e@x", "u"}, End: "m", V: "secret"})
			}
			s.Ops = append(add, s.Ops...)
		}
		c.Sessions = append(c.Sessions, s)
	}
	return c
}

// planner turns commands into steps while it moves the model.
type planner struct {
	m        *mstore
	ctx      *ment
	steps    []step
	readOnly bool
	changed  int // commands that changed something
	reads    int
	prev     *lastDump
	start    time.Time
	atEOF    bool
	eofLast  bool // last dialogue may end with the input
	x        *Ctx
}

// lastDump is what the latest dumpall showed.
type lastDump struct{ st *fstore }

func (p *planner) step(what, in string, check func(seg string) error) {
	p.steps = append(p.steps, step{in: in, check: check, what: what})
}

// dumpStep issues dumpall and checks it against the model as it is now.
func (p *planner) dumpStep() *lastDump {
	d := &lastDump{}
	want := p.m.clone()
	p.step("dumpall", "dumpall\n", func(seg string) error {
		st, err := parseStoreAt([]byte(seg), p.readOnly)
		if err != nil {
			return err
		}
		d.st = st
		return fillGen(want).compare(st)
	})
	return d
}

// genVals holds passwords known only from the output, by placeholder.
type genVals map[string]string

func (g genVals) sub(s string) string {
	if strings.HasPrefix(s, "\x00gen:") {
		if v, ok := g[s]; ok {
			return v
		}
	}
	return s
}

var curGen genVals // values of the running case (cases run one at a time in a worker)

// fillGen replaces the placeholders by the values seen.
func fillGen(m *mstore) *mstore {
	n := m.clone()
	for _, e := range n.E {
		for k, v := range e.F {
			e.F[k] = curGen.sub(v)
		}
		e.Pass = curGen.sub(e.Pass)
	}
	return n
}

// find resolves a query the way commands with a context do: the argument is
// only there without a context.
func (p *planner) find(q string) (*ment, string) {
	if p.ctx != nil {
		return p.ctx, ""
	}
	return p.m.findOne(q), q + " "
}

// usingPrefix strips the note that a query selected another name.
func usingPrefix(seg, q, name string) string {
	if q != "" && q != name {
		return strings.TrimPrefix(seg, "using: "+name+"\n")
	}
	return seg
}

func dlgClose(lines []string, end string) string {
	s := strings.Join(lines, "\n")
	if len(lines) > 0 {
		s += "\n"
	}
	switch end {
	case ".":
		s += ".\n"
	case "blank":
		s += "\n"
	case "blank2":
		s += "\n\n"
	case "eof":
		s += "\x04"
	}
	return s
}

// multiline is what the multi-line dialogue makes of the lines: how many of
// them it consumes, and the text; ended if they end it.
func multiline(lines []string) (text string, used int, ended bool) {
	var out []string
	blank := false
	for i, l := range lines {
		if l == "." {
			return strings.Join(out, "\n"), i + 1, true
		}
		if l == "" {
			if blank {
				return strings.Join(out, "\n"), i + 1, true
			}
			blank = true
			continue
		}
		if blank {
			out = append(out, "")
			blank = false
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n"), len(lines), false
}

func cleanLines(ls []string) []string {
	var out []string
	for _, l := range ls {
		out = append(out, cleanText(l))
	}
	return out
}

// cleanText removes what cannot be typed (shrinking does not produce any, a hand-written case might).
func cleanText(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 0x20 || r == 0x7f || r == '⟦' || r == '⟧' || r == unicode.ReplacementChar {
			return -1
		}
		return r
	}, s)
}

// almost is another text than s that some comparison could take for the same.
func almost(s string, k int) string {
	o := s
	switch k % 8 {
	case 1:
		o = strings.ToUpper(s)
	case 2:
		o = strings.ToLower(s)
	case 3:
		o = s + " "
	case 4:
		o = " " + s
	case 5:
		_, n := utf8.DecodeLastRuneInString(s)
		o = s[:len(s)-n]
	case 6:
		o = strings.TrimSpace(s)
	case 7:
		o = s + s
	}
	if o == s {
		o = s + "x"
	}
	return o
}

func okName(n string) bool {
	return n != "" && cleanText(n) == n && len(strings.Fields(n)) == 1 && strings.TrimSpace(n) == n
}

// passValue registers the result of a password dialogue, to be read from the output.
func (p *planner) passValue(pp passPlan) (val string, check func(seg string) error) {
	if !pp.gen {
		return pp.val, nil
	}
	ph := fmt.Sprintf("\x00gen:%d", len(p.steps))
	ph += fmt.Sprintf(":%p", p)
	return ph, func(seg string) error {
		pw, ok := shownPass(seg)
		if !ok {
			return failf("no password was shown")
		}
		curGen[ph] = pw
		return pp.set.conforms(pw)
	}
}

func (p *planner) do(o sop) {
	m := p.m
	o.N, o.N2, o.K, o.V = cleanText(o.N), cleanText(o.N2), cleanText(o.K), cleanText(o.V)
	o.Lines = cleanLines(o.Lines)
	if o.N != "" && !okName(o.N) || o.K != "" && !okName(o.K) {
		return
	}
	ro := p.readOnly
	switch o.Op {
	case "add":
		if o.N == "" {
			return
		}
		in := "add " + o.N + "\n"
		if ro || m.byName(o.N) != nil {
			p.step(in, in, nil)
			return
		}
		email, user := "", ""
		if len(o.Lines) == 2 {
			email, user = o.Lines[0], o.Lines[1]
		}
		switch o.End {
		case "eof1":
			p.step(in+" aborted", in+"\x04", nil)
			return
		case "eof2":
			p.step(in+" aborted", in+email+"\n\x04", nil)
			return
		}
		pp := planPass(o.Pw, o.End, o.V)
		in += email + "\n" + user + "\n" + pp.lines
		if pp.eof {
			p.step("add "+o.N+" aborted", in, nil)
			return
		}
		v, chk := p.passValue(pp)
		p.step("add "+o.N, in, chk)
		e := m.add(o.N)
		if email != "" {
			e.F["email"] = email
		}
		if user != "" {
			e.F["user"] = user
		}
		if v != "" && !(pp.gen && pp.set.Length == 0) {
			e.F["pass"] = v
		}
		p.changed++
	case "mv":
		if o.N == "" || !okName(o.N2) {
			return
		}
		in := fmt.Sprintf("mv %s %s\n", o.N, o.N2)
		p.step(in, in, nil)
		e := m.byName(o.N)
		if !ro && e != nil && m.byName(o.N2) == nil {
			e.Name = o.N2
			p.changed++
		}
	case "rm":
		if o.N == "" {
			return
		}
		in := "rm " + o.N + "\n"
		e := m.byName(o.N)
		if ro || e == nil {
			p.step(in, in, nil)
			return
		}
		switch o.V {
		case "same":
			p.step(in, in+o.N+"\n", nil)
			m.drop(e)
			if p.ctx == e {
				p.ctx = nil
			}
			p.changed++
		case "eof":
			p.step(in+" refused", in+"\x04", nil)
		default:
			c := map[string]string{"": "", "y": "y", "case": o.N + "x", "space": o.N + " "}[o.V]
			p.step(in+" refused", in+c+"\n", nil)
		}
	case "rmk":
		e, q := p.find(o.N)
		if o.N == "" || o.K == "" {
			return
		}
		in := fmt.Sprintf("rmk %s%s\n", q, o.K)
		p.step(in, in, nil)
		if ro || e == nil {
			return
		}
		switch o.K {
		case "name", "updated", "iv", "salt", "mkey":
			return
		}
		if _, ok := e.F[o.K]; ok {
			delete(e.F, o.K)
			p.changed++
		}
	case "set", "setprot":
		if o.N == "" || o.K == "" {
			return
		}
		e, q := p.find(o.N)
		v := strings.TrimRightFunc(o.V, unicode.IsSpace)
		if v == "" || o.K == "totp" {
			return
		}
		in := fmt.Sprintf("set %s%s %s\n", q, o.K, v)
		p.step(in, in, nil)
		if ro || e == nil || isProtected(o.K) {
			return
		}
		if o.K == "url" && !urlOK(v) {
			return
		}
		e.F[o.K] = v
		p.changed++
	case "setml":
		if o.N == "" || o.K == "" || o.K == "totp" || o.K == "pass" || o.K == "url" {
			return
		}
		e, q := p.find(o.N)
		in := fmt.Sprintf("set %s%s\n", q, o.K)
		if ro || e == nil {
			p.step(in, in, nil)
			return
		}
		end := o.End
		text, used, ended := multiline(o.Lines)
		lines := o.Lines[:used]
		if ended {
			end = ""
		} else if end == "blank" {
			if len(lines) == 0 || lines[len(lines)-1] != "" {
				end = "blank2"
			}
		}
		in += dlgClose(lines, end)
		p.step(fmt.Sprintf("set %s%s (multi-line)", q, o.K), in, nil)
		if !isProtected(o.K) {
			e.F[o.K] = text
			p.changed++
		}
	case "seturl":
		if o.N == "" {
			return
		}
		e, q := p.find(o.N)
		in := strings.TrimRight(fmt.Sprintf("set %surl %s", q, o.V), " ") + "\n"
		p.step(in, in, nil)
		if !ro && e != nil && urlOK(o.V) {
			e.F["url"] = o.V
			p.changed++
		}
	case "settotp":
		if o.N == "" {
			return
		}
		e, q := p.find(o.N)
		good := false
		for _, s := range goodSecrets {
			good = good || s == o.V
		}
		bad := false
		for _, s := range badSecrets {
			bad = bad || s == o.V
		}
		if !good && !bad {
			return
		}
		in := fmt.Sprintf("set %stotp %s\n", q, o.V)
		p.step(in, in, nil)
		if !ro && e != nil && good {
			e.F["totp"] = totpMark + o.V
			p.changed++
		}
	case "setpass":
		if o.N == "" {
			return
		}
		e, q := p.find(o.N)
		in := fmt.Sprintf("set %spass\n", q)
		if ro || e == nil {
			p.step(in, in, nil)
			return
		}
		pp := planPass(o.Pw, o.End, o.V)
		v, chk := p.passValue(pp)
		p.step(fmt.Sprintf("set %spass (dialogue)", q), in+pp.lines, chk)
		if !pp.eof {
			e.F["pass"] = v
			p.changed++
		}
	case "label":
		if o.N == "" {
			return
		}
		e, q := p.find(o.N)
		in := "label " + q + "\n"
		if ro || e == nil {
			p.step(in, in, nil)
			return
		}
		have := labelsOf(e.F)
		var typed []string
		ended := false
		added := 0
	lines:
		for _, l := range o.Lines {
			if strings.Contains(l, ",") {
				continue
			}
			typed = append(typed, l)
			if l == "" || l == "." {
				ended = true
				break
			}
			for _, r := range l {
				if unicode.IsSpace(r) || unicode.IsUpper(r) {
					continue lines
				}
			}
			for _, h := range have {
				if h == l {
					continue lines
				}
			}
			have = append(have, l)
			added++
		}
		end := o.End
		if ended {
			end = ""
		}
		p.step("label "+q, in+dlgClose(typed, end), nil)
		if added > 0 {
			e.F["labels"] = strings.Join(have, ",")
			p.changed++
		}
	case "rmlabel":
		if o.N == "" || o.K == "" {
			return
		}
		e, q := p.find(o.N)
		in := fmt.Sprintf("rmlabel %s%s\n", q, o.K)
		p.step(in, in, nil)
		if ro || e == nil {
			return
		}
		ls := labelsOf(e.F)
		for i, l := range ls {
			if l == o.K {
				ls = append(ls[:i:i], ls[i+1:]...)
				if len(ls) == 0 {
					delete(e.F, "labels")
				} else {
					e.F["labels"] = strings.Join(ls, ",")
				}
				p.changed++
				break
			}
		}
	case "cd":
		if o.N == "" {
			return
		}
		in := "cd " + o.N + "\n"
		p.step(in, in, nil)
		if e := m.findOne(o.N); e != nil {
			p.ctx = e
		}
	case "cd0":
		p.step("cd", "cd\n", nil)
		p.ctx = nil
	case "ls":
		want := names(m.search(o.N))
		in := "ls " + o.N + "\n"
		p.reads++
		p.step(in, in, func(seg string) error { return wantNames(seg, want) })
	case "labels":
		var es []*ment
		for _, e := range m.E {
			if hasAll(labelsOf(e.F), o.Lines) {
				es = append(es, e)
			}
		}
		for _, l := range o.Lines {
			if !okName(l) {
				return
			}
		}
		if len(o.Lines) == 0 {
			return
		}
		want := names(es)
		in := "labels " + strings.Join(o.Lines, " ") + "\n"
		p.reads++
		p.step(in, in, func(seg string) error { return wantNames(seg, want) })
	case "get":
		if o.N == "" || o.K == "" {
			return
		}
		e, q := p.find(o.N)
		p.planGet(e, o.N, q, o.K)
	case "dump":
		if o.N == "" {
			return
		}
		e, q := p.find(o.N)
		p.planDump(e, o.N, q)
	case "show":
		if o.N == "" {
			return
		}
		e, q := p.find(o.N)
		p.planShow(e, o.N, q, o.I)
	case "dumpall":
		p.dumpStep()
		p.reads++
	case "help":
		p.step("help", "help\n", nil)
	case "bad":
		if o.V == "" {
			return
		}
		switch strings.Fields(o.V + " x")[0] {
		case "set", "get", "rmlabel", "label", "show", "dump":
			if len(strings.Fields(o.V)) > 1 {
				return
			}
		}
		if (o.V == "label" || o.V == "show" || o.V == "dump") && p.ctx != nil {
			return
		}
		p.step(o.V, o.V+"\n", nil)
	}
}

func wantNames(seg string, want []string) error {
	if len(want) == 0 {
		if strings.TrimSpace(seg) != "No entries found" {
			return failf("lists %q, want nothing", seg)
		}
		return nil
	}
	got := strings.Split(strings.TrimSuffix(seg, "\n"), "\n")
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return failf("lists %q, want %q", got, want)
	}
	return nil
}

func urlOK(v string) bool {
	u, err := url.Parse(v)
	return err == nil && u.Scheme != "" && u.Opaque == ""
}

// planGet plans reading one field.
func (p *planner) planGet(e *ment, name, q, key string) {
	in := fmt.Sprintf("get %s%s\n", q, key)
	p.reads++
	if e == nil {
		p.step(in, in, func(seg string) error {
			if !strings.HasPrefix(seg, "No matches for query") && !strings.HasPrefix(seg, "Multiple matches for query") {
				return failf("shows something for an entry that is not determined")
			}
			return nil
		})
		return
	}
	want, has := e.F[key]
	n := e.Name
	var updated string
	if key == "updated" {
		// dumpall tells what it has to be
		defer func() {
			d := p.dumpStep()
			last := &p.steps[len(p.steps)-1]
			check := last.check
			last.what = in + " then dumpall"
			last.check = func(seg string) error {
				if err := check(seg); err != nil {
					return err
				}
				return checkUpdated(updated, d.st, n)
			}
		}()
	}
	p.step(in, in, func(seg string) error {
		seg = usingPrefix(seg, q0(q), n)
		switch key {
		case "name":
			want, has = n, true
		case "updated":
			updated = strings.TrimSuffix(seg, "\n")
			return nil
		}
		if !has {
			if strings.TrimSuffix(seg, "\n") != n+"."+key+" is not set" && strings.TrimSuffix(seg, "\n") != key+" is not set for "+n {
				return failf("a field that is not set is shown as %q", seg)
			}
			return nil
		}
		if s, ok := strings.CutPrefix(want, totpMark); ok {
			if !isCode(strings.TrimSuffix(seg, "\n"), s, p.start, time.Now()) {
				return failf("code %q is not the current code of %s", seg, s)
			}
			return nil
		}
		if w := curGen.sub(want); seg != w+"\n" {
			return failf("shows %q, want %q", seg, w)
		}
		return nil
	})
}

// checkUpdated compares the time of the last change as it was printed with the entry's.
func checkUpdated(seen string, st *fstore, name string) error {
	es, err := st.byName()
	if err != nil {
		return err
	}
	u, ok := es[name]["updated"]
	if !ok {
		if seen != "updated is not set for "+name {
			return failf("updated, which is not set, is shown as %q", seen)
		}
		return nil
	}
	ns, err := strconv.ParseInt(u, 10, 64)
	if err != nil {
		return failf("entry %q has updated = %q", name, u)
	}
	if want := time.Unix(0, ns).UTC().Format(time.RFC3339); seen != want {
		return failf("updated is shown as %q, want %s", seen, want)
	}
	return nil
}

func q0(q string) string { return strings.TrimSuffix(q, " ") }

func (p *planner) planDump(e *ment, name, q string) {
	in := fmt.Sprintf("dump %s\n", q)
	p.reads++
	if e == nil {
		p.step(in, in, nil)
		return
	}
	f := (&mstore{E: []*ment{e}}).clone().E[0]
	p.step(in, in, func(seg string) error {
		seg = usingPrefix(seg, q0(q), f.Name)
		got := map[string]string{}
		for _, l := range strings.Split(strings.TrimSuffix(seg, "\n"), "\n") {
			i := strings.Index(l, ": \"")
			if j := strings.Index(l, ": `"); i < 0 || j >= 0 && j < i {
				i = j
			}
			if i < 0 {
				return failf("odd line %q", l)
			}
			v, err := strconv.Unquote(l[i+2:])
			if err != nil {
				return failf("odd value %q", l)
			}
			got[l[:i]] = v
		}
		want := map[string]string{"name": f.Name}
		for k, v := range f.F {
			want[k] = curGen.sub(v)
		}
		for k, v := range want {
			if !sameField(got[k], v) {
				return failf("dump shows %s = %q, want %q", k, got[k], v)
			}
		}
		if len(got) != len(want)+1 && !(p.m.cut && len(got) == len(want)) {
			return failf("dump shows the fields %q, want %q and updated", sortedKeys(got), sortedKeys(want))
		}
		return nil
	})
}

// planShow plans show, followed by dumpall for the log that explains old versions.
func (p *planner) planShow(e *ment, name, q string, version int) {
	in := fmt.Sprintf("show %s\n", q)
	if version != 0 {
		in = fmt.Sprintf("show %s%d\n", q, version)
	}
	p.reads++
	if e == nil {
		p.step(in, in, nil)
		return
	}
	n := e.Name
	var seen string
	p.step(in, in, func(seg string) error { seen = usingPrefix(seg, q0(q), n); return nil })
	d := p.dumpStep()
	last := &p.steps[len(p.steps)-1]
	check := last.check
	last.what = in + " then dumpall"
	from := p.start
	last.check = func(seg string) error {
		if err := check(seg); err != nil {
			return err
		}
		return checkShow(seen, d.st, n, version, from)
	}
}

// checkShow compares what show printed with the entry, version changes ago.
func checkShow(seen string, st *fstore, name string, version int, from time.Time) error {
	id := ""
	for u, e := range st.State {
		if e["name"] == name {
			id = u
		}
	}
	var own []int
	for i, tx := range st.Log {
		if tx.UUID == id {
			own = append(own, i)
		}
	}
	entry := st.State[id]
	if version != 0 {
		if version < 0 || version >= len(own) {
			if version == len(own) || version < 0 || version > len(own) {
				// nothing to show but a message
				if len(strings.Split(strings.TrimSpace(seen), "\n")) > 1 {
					return failf("show of version %d of %d prints %q", version, len(own), seen)
				}
				return nil
			}
		}
		s := rstate{}
		for _, i := range own[:len(own)-version] {
			refApply(s, st.Log[i])
		}
		entry = s[id]
	}
	if len(entry) == 0 {
		if strings.TrimSpace(seen) != "entry is empty" {
			return failf("show of an entry without fields prints %q", seen)
		}
		return nil
	}
	order := []string{"name", "user", "email", "pass", "totp", "labels", "notes"}
	var rest []string
	for k := range entry {
		known := k == "updated"
		for _, o := range order {
			known = known || o == k
		}
		if !known {
			rest = append(rest, k)
		}
	}
	sort.Strings(rest)
	order = append(order, rest...)
	s := seen
	eat := func(k string) (string, bool) {
		after, ok := strings.CutPrefix(s, "  "+k+":")
		if !ok {
			return "", false
		}
		l, r, _ := strings.Cut(after, "\n")
		s = r
		return l, true
	}
	for _, k := range order {
		v, ok := entry[k]
		if !ok || k == "totp" && v == "" {
			continue
		}
		if k == "labels" {
			v = strings.ReplaceAll(v, ",", ", ")
		}
		l, ok := eat(k)
		if !ok {
			return failf("show lacks the field %q (= %q); left: %q", k, v, s)
		}
		switch {
		case k == "totp":
			if !isCode(strings.TrimSpace(l), totpSecret(v), from, time.Now()) {
				return failf("show prints the code %q", l)
			}
		case strings.Contains(v, "\n") && k != "labels" && k != "pass":
			// two spaces of indentation more for each line, outer blanks dropped
			want := "    " + strings.TrimSpace(strings.ReplaceAll("    "+v, "\n", "\n    ")) + "\n"
			after, ok := strings.CutPrefix(s, want)
			if strings.TrimSpace(l) != "" || !ok {
				return failf("show prints %s = %q, want %q", k, l+"\n"+s, want)
			}
			s = after
		default:
			// what follows the padding; a value may itself begin with blanks or contain line breaks
			got := l
			for i := strings.Count(v, "\n"); i > 0; i-- {
				var x string
				x, s, _ = strings.Cut(s, "\n")
				got += "\n" + x
			}
			if !strings.HasSuffix(got, " "+v) || strings.Trim(got[:len(got)-len(v)], " ") != "" {
				return failf("show prints %s = %q, want %q", k, got, v)
			}
		}
	}
	if u, ok := entry["updated"]; ok {
		l, ok := eat("updated")
		ns, err := strconv.ParseInt(u, 10, 64)
		if !ok || err != nil || strings.TrimSpace(l) != time.Unix(0, ns).UTC().Format(time.RFC3339) {
			return failf("show prints updated = %q, want %s", l, u)
		}
	}
	if version == 0 {
		l, ok := eat("snaps")
		if !ok || strings.TrimSpace(l) != fmt.Sprint(len(own)) {
			return failf("show prints %q changes, want %d", l, len(own))
		}
	}
	if s != "" {
		return failf("show prints in addition %q", s)
	}
	return nil
}

func endInput(end string) string {
	switch end {
	case "exit":
		return "exit\n"
	case "interrupt":
		return "\x03"
	}
	return ""
}

func runM01(c m01, x *Ctx) error {
	c.Pass = cleanText(c.Pass)
	if c.Pass == "" {
		c.Pass = "p"
	}
	h := newHome(x, "m01")
	defer h.done()
	curGen = genVals{}
	m := &mstore{}
	exists := false
	changed, reads := 0, 0
	for i, s := range c.Sessions {
		before := h.read("db")
		var old *fstore
		if before != nil {
			var err error
			if old, err = openFile(h.path("db"), nil, []byte(c.Pass)); err != nil {
				return err
			}
		}
		p := &planner{m: m.clone(), x: x, start: time.Now()}
		for _, o := range s.Ops {
			p.do(o)
		}
		if i%2 == 0 {
			p.dumpStep()
		}
		open := []string{c.Pass}
		if !exists {
			open = []string{c.Pass, c.Pass}
		}
		r, err := h.session([]string{"--no-sync", "--no-clear-clip", "-f", "db"}, open, p.steps, endInput(s.End))
		if err != nil {
			if isInfra(err) {
				return err
			}
			return failf("session %d: %v", i+1, err)
		}
		after := h.read("db")
		if s.End == "interrupt" {
			if r.RC == 0 {
				return failf("session %d: interrupted, but the exit status is 0", i+1)
			}
			if !bytes.Equal(before, after) {
				return failf("session %d: interrupted, but the file changed", i+1)
			}
			x.Label("interrupted")
			continue
		}
		if r.RC != 0 {
			return failf("session %d: %s", i+1, r.tail())
		}
		st, err := openFile(h.path("db"), nil, []byte(c.Pass))
		if err != nil {
			return failf("after session %d: %v", i+1, err)
		}
		m = fillGen(p.m)
		if err := m.compare(st); err != nil {
			return failf("after session %d: %v", i+1, err)
		}
		if err := checkTimes(old, st, r); err != nil {
			return failf("after session %d: %v", i+1, err)
		}
		if old != nil {
			if len(st.Log) < len(old.Log) || sameLog(st.Log[:len(old.Log)], old.Log) != "" {
				return failf("session %d rewrote the history", i+1)
			}
			if p.changed == 0 && len(st.Log) != len(old.Log) {
				return failf("session %d changed nothing but the history grew", i+1)
			}
		}
		if d := extraFiles(h, "db"); d != "" {
			return failf("session %d left %s behind", i+1, d)
		}
		exists = true
		changed += p.changed
		reads += p.reads
	}
	if changed >= 3 {
		x.NonTrivial()
	}
	x.LabelIf(changed >= 10, "10 changes")
	x.LabelIf(reads >= 5, "5 reads")
	x.LabelIf(len(c.Sessions) > 1, "several sessions")
	return nil
}

// checkTimes: new changes carry the time of the session, every entry's updated
// time is that of the session if it was changed in it and as before otherwise.
func checkTimes(old, st *fstore, r *runRes) error {
	n := 0
	if old != nil {
		n = len(old.Log)
	}
	if n > len(st.Log) {
		n = len(st.Log)
	}
	touched := map[string]bool{}
	for _, tx := range st.Log[n:] {
		touched[tx.UUID] = true
		if tx.Time < r.Start.Add(-time.Second).UnixNano() || tx.Time > r.End.Add(time.Second).UnixNano() {
			return failf("a change made in the session has the time %v", time.Unix(0, tx.Time))
		}
	}
	for id, e := range st.State {
		if touched[id] {
			u, _ := strconv.ParseInt(e["updated"], 10, 64)
			if u < r.Start.Add(-time.Second).UnixNano() || u > r.End.Add(time.Second).UnixNano() {
				return failf("entry %q was changed but its updated time is %s", e["name"], e["updated"])
			}
		} else if old != nil && old.State[id]["updated"] != e["updated"] {
			return failf("entry %q was not changed but its updated time was", e["name"])
		}
	}
	return nil
}

// extraFiles lists files of the home directory that should not be there.
func extraFiles(h *Home, known ...string) string {
	var out []string
	for _, dir := range []string{".", "tmp"} {
		es, err := os.ReadDir(h.path(dir))
		must(err)
	files:
		for _, e := range es {
			for _, k := range append(known, "tmp", "bin") {
				if dir == "." && e.Name() == k {
					continue files
				}
			}
			out = append(out, dir+"/"+e.Name())
		}
	}
	return strings.Join(out, " ")
}

func isInfra(err error) bool {
	_, ok := err.(infraError)
	return ok
}

func init() {
	part("M01", "sessions", 2600, 60000,
		"1..3 sessions of 0..48 commands (all entry and key commands with their dialogues, refused and malformed ones, reads) over a small pool of names, ended by exit, end of input or interrupt; every command's output and the decrypted file are compared with a model; non-trivial: at least 3 commands changed something",
		genM01, runM01)
}

var _ = json.Marshal
