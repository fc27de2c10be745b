package main

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/aarondl/bpass/pinentry"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- P01: pinentry

// pinPlan is one run of a pinentry program: what is entered and how it is told.
type pinPlan struct {
	Pass   B
	Enc    []int // how bytes are encoded: 0 as they are, 1 %XX, 2 %xx
	Split  []int // lengths of the pieces (in bytes of the passphrase)
	Noise  []int // comments before replies
	Greet  string
	Chunk  int
	Fault  string // "" is a faultless run
	At     int    // the reply that is faulty
	With   string // what is sent instead
	Cancel bool
	RC     int
}

var pinNoise = []string{"", "# OK", "S PASSWORD_FROM_CACHE", "#", "S PINENTRY_LAUNCHED 123 tty"}

func genPinPass(t *rapid.T, name string) B {
	switch rapid.IntRange(0, 6).Draw(t, name+"Kind") {
	case 0:
		return B(rapid.SampledFrom([]string{"", "%", "%25", "%%", "100%", "a%0Ab", "a\nb", "\r\n", "\n", "+", "a+b c", " ", " x ", "OK", "D x", "ERR", "é日本", "%4", "%zz", "#", "\tx", "\x00a"}).Draw(t, name))
	case 1:
		return B(rapid.SliceOfN(rapid.SampledFrom([]byte("%250Aad\r\n+ #")), 0, 24).Draw(t, name))
	case 2:
		return genBytes(t, name, 3000)
	case 3:
		return genBytesN(t, name, rapid.IntRange(1, 40).Draw(t, name+"N"))
	default:
		return B(rapid.StringMatching(`[ -~]{1,24}`).Draw(t, name))
	}
}

var pinGarbage = []string{"", "ERR 83886142 Timeout <Pinentry>", "ERR 536871187 Unknown IPC command <User defined source 1>", "HELLO", "OKAY", "ok", " OK", "\x00\xff", "INQUIRE X", "END", "D", "Operation cancelled", "B OK"}

func genPinPlan(t *rapid.T, faults bool) pinPlan {
	p := pinPlan{
		Pass:  genPinPass(t, "pass"),
		Enc:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2}), 1, 6).Draw(t, "enc"),
		Split: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 7, 20, 300, 100000}), 1, 4).Draw(t, "split"),
		Noise: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}), 1, 6).Draw(t, "noise"),
		Greet: rapid.SampledFrom([]string{"OK Pleased to meet you", "OK", "OK Pleased to meet you, process 4711", "OK Your orders please"}).Draw(t, "greet"),
		Chunk: rapid.SampledFrom([]int{0, 0, 1, 5, 100}).Draw(t, "chunk"),
	}
	if !faults {
		return p
	}
	switch rapid.IntRange(0, 9).Draw(t, "what") {
	case 0, 1:
	case 2:
		p.Cancel = true
	case 3, 4:
		p.Fault = "die"
		p.At = rapid.IntRange(0, 9).Draw(t, "at")
		p.RC = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "rc")
	case 5, 6:
		p.Fault = "reply"
		p.At = rapid.IntRange(0, 8).Draw(t, "at")
		p.With = rapid.SampledFrom(pinGarbage).Draw(t, "with")
		if rapid.IntRange(0, 3).Draw(t, "random") == 0 {
			p.With = strings.Map(func(r rune) rune {
				if r == '\n' {
					return 'n'
				}
				return r
			}, string(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")))
			if p.With == "OK" || strings.HasPrefix(p.With, "OK ") || strings.HasPrefix(p.With, "#") || strings.HasPrefix(p.With, "S ") || strings.HasPrefix(p.With, "D ") || p.With == "OK\r" {
				p.With = "?" + p.With
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			p.With = strings.Repeat("x", 70000)
		}
	case 7:
		p.Fault = "escape"
		p.With = rapid.SampledFrom([]string{"%", "%4", "%zz", "%G0", "%0g", "% 1", "%%41"}).Draw(t, "with")
	case 8:
		p.Fault = "after data"
		p.With = rapid.SampledFrom(append([]string{"\x00EOF"}, pinGarbage...)).Draw(t, "with")
	case 9:
		p.Fault = "status"
		p.RC = rapid.SampledFrom([]int{1, 2, 77}).Draw(t, "rc")
	}
	return p
}

// data encodes the passphrase as data lines.
func (p pinPlan) data() (lines []string) {
	var cur strings.Builder
	k, left := 0, p.Split[0]
	for i, b := range p.Pass {
		for left == 0 {
			lines = append(lines, "D "+cur.String())
			cur.Reset()
			k++
			left = p.Split[k%len(p.Split)]
			if left == 0 {
				left = 1
			}
		}
		left--
		switch e := p.Enc[i%len(p.Enc)]; {
		case e == 2:
			fmt.Fprintf(&cur, "%%%02x", b)
		case e == 1 || b == '%' || b == '\r' || b == '\n':
			fmt.Fprintf(&cur, "%%%02X", b)
		default:
			cur.WriteByte(b)
		}
	}
	if cur.Len() > 0 {
		lines = append(lines, "D "+cur.String())
	}
	return lines
}

// run builds the script; commands is the number of commands before the passphrase is asked for.
func (p pinPlan) run(commands int) (r pinRun) {
	r.Die, r.End, r.RC, r.Chunk = -1, -1, 0, p.Chunk
	k := 0
	line := func(s string) string {
		n := pinNoise[p.Noise[k%len(p.Noise)]]
		k++
		if n != "" {
			n += "\n"
		}
		return n + s + "\n"
	}
	faulty := func(n int, s string) string {
		if p.Fault == "reply" && p.At == n {
			return p.With
		}
		return s
	}
	r.Greet = B(line(faulty(0, p.Greet)))
	for i := 1; i <= commands; i++ {
		r.Replies = append(r.Replies, B(line(faulty(i, "OK"))))
	}
	var b strings.Builder
	n := commands + 1
	switch {
	case p.Cancel:
		b.WriteString(line("ERR 83886179 Operation cancelled <Pinentry>"))
	case p.Fault == "reply" && p.At >= n:
		b.WriteString(line(p.With))
	default:
		for _, l := range p.data() {
			b.WriteString(line(l))
		}
		if p.Fault == "escape" {
			b.WriteString(line("D " + p.With))
		}
		if p.Fault == "after data" {
			b.WriteString(line("D x"))
			if p.With == "\x00EOF" {
				r.End = n
			} else {
				b.WriteString(line(p.With))
			}
		} else {
			b.WriteString(line("OK"))
		}
	}
	r.Replies = append(r.Replies, B(b.String()))
	if p.Fault == "die" {
		r.Die, r.RC = p.At, p.RC
	}
	if p.Fault == "status" {
		r.RC = p.RC
	}
	return r
}

// outcome is what has to come of it: fail, cancel or exactly the passphrase.
func (p pinPlan) outcome(commands int) string {
	switch {
	case p.Cancel:
		return "cancel"
	case p.Fault == "":
		return "pass"
	case p.Fault == "die" && p.At > commands+1 && p.RC == 0:
		return "pass" // it has said everything by then
	}
	return "fail"
}

type p01 struct {
	Plan   pinPlan
	Prompt string
	Term   string
	Disp   string
	How    string // script missing notexec dir none
}

func genPrompt(t *rapid.T) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "passphrase: ", "100% passphrase: ", "a\nb", "a\r\nb", "%0A", "%", "é", "x\nGETPIN"}),
		rapid.StringMatching(`[ -~]{0,40}`),
		rapid.StringMatching("[a%\r\n0-9é]{0,12}"),
	).Draw(t, "prompt")
}

func genP01(t *rapid.T) p01 {
	return p01{
		Plan:   genPinPlan(t, true),
		Prompt: genPrompt(t),
		Term:   rapid.SampledFrom([]string{"", "xterm", "vt100"}).Draw(t, "term"),
		Disp:   rapid.SampledFrom([]string{"", ":0"}).Draw(t, "display"),
		How:    rapid.SampledFrom([]string{"script", "script", "script", "script", "script", "script", "script", "script", "script", "path", "missing", "notexec", "dir", "none", "nothing"}).Draw(t, "how"),
	}
}

func setEnv(k, v string) {
	if v == "" {
		os.Unsetenv(k)
	} else {
		os.Setenv(k, v)
	}
}

// reapPins ends the stand-ins that nobody waited for, so that they do not pile up.
func reapPins(dir string) {
	fs, err := filepath.Glob(filepath.Join(dir, "pin.*"))
	must(err)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		os.Remove(f)
		pid, err := strconv.Atoi(string(b))
		if err != nil {
			continue
		}
		var st syscall.WaitStatus
		if n, err := syscall.Wait4(pid, &st, syscall.WNOHANG, nil); err == nil && n == 0 {
			syscall.Kill(pid, syscall.SIGKILL)
			syscall.Wait4(pid, &st, 0, nil)
		}
	}
}

// checkPinTalk checks what the program said to the pinentry program.
func checkPinTalk(lines []B, prompt string) error {
	titles, descs, pins := 0, 0, 0
	for _, l := range lines {
		s := strings.TrimSuffix(string(l), "\n")
		switch {
		case strings.HasPrefix(s, "SETDESC "):
			d, err := url.PathUnescape(s[8:])
			if short, ok := strings.CutPrefix(prompt, "…"); err != nil || d != prompt && !(ok && strings.HasSuffix(d, short)) {
				return failf("the prompt %q was sent as %q", prompt, s)
			}
			if pins > 0 {
				return failf("the description came after asking: %q", lines)
			}
			descs++
		case strings.HasPrefix(s, "SETTITLE "):
			titles++
		case s == "GETPIN":
			pins++
		case strings.HasPrefix(s, "OPTION "), s == "BYE":
		default:
			return failf("unexpected command %q", s)
		}
	}
	if pins > 1 || pins == 1 && descs != 1 {
		return failf("the conversation was %q", lines)
	}
	return nil
}

func runP01(c p01, x *Ctx) error {
	h := newHome(x, "pin")
	defer h.done()
	if len(c.Plan.Enc) == 0 || len(c.Plan.Split) == 0 || len(c.Plan.Noise) == 0 {
		return nil
	}
	h.fake(nil)
	name := "pin-fake"
	if c.How == "path" {
		name = "pinentry-curses"
	}
	commands := 3
	if c.Term != "" {
		commands++
	}
	if c.Disp != "" {
		commands++
	}
	h.fake(map[string]fakeCfg{name: {Pins: []pinRun{c.Plan.run(commands)}}})
	setEnv("BPV_FAKE", h.path("fake"))
	setEnv("TERM", c.Term)
	setEnv("DISPLAY", c.Disp)
	oldPath := os.Getenv("PATH")
	defer func() {
		setEnv("BPV_FAKE", "")
		setEnv("PATH", oldPath)
		reapPins(h.path("fake"))
	}()
	want := c.Plan.outcome(commands)
	prog := h.path("bin/" + name)
	switch c.How {
	case "path":
		setEnv("PATH", h.path("bin"))
		prog = ""
	case "missing":
		prog = h.path("bin/nothing-there")
		want = "fail"
	case "notexec":
		prog = h.path("bin/notexec")
		must(os.WriteFile(prog, []byte("#!/bin/sh\necho OK\n"), 0o600))
		want = "fail"
	case "dir":
		prog = h.path("bin")
		want = "fail"
	case "none":
		prog = []string{"none", "NONE", "None"}[len(c.Plan.Pass)%3]
		want = "notfound"
	case "nothing":
		return nil
	}
	setEnv("PINENTRY", prog)
	var got string
	var err error
	done := make(chan error, 1)
	go func() {
		done <- guard("Password", func() { got, err = pinentry.Password(c.Prompt) })
	}()
	select {
	case e := <-done:
		if e != nil {
			return e
		}
	case <-time.After(20 * time.Second):
		return failf("no answer after 20 s")
	}
	x.Logf("%s: %q, %v", want, got, err)
	if err != nil && got != "" {
		return failf("error %v, but also the passphrase %q", err, got)
	}
	switch want {
	case "notfound":
		if err != pinentry.ErrNotFound {
			return failf("PINENTRY=%s: error %v", prog, err)
		}
		return nil
	case "fail":
		if err == nil {
			return failf("the pinentry program failed, but %q was taken from it", got)
		}
		if err == pinentry.ErrNotFound {
			return failf("the pinentry program failed, but was reported as absent (so the passphrase is asked for elsewhere)")
		}
	case "cancel":
		if err != nil || got != "" {
			return failf("cancelled, but the result is %q, %v", got, err)
		}
	case "pass":
		if err != nil {
			return failf("entered %q, received error %v", c.Plan.Pass, err)
		}
		if got != string(c.Plan.Pass) {
			return failf("entered %q, received %q", c.Plan.Pass, got)
		}
		logs := h.fakeLogs()
		if len(logs) != 1 {
			return failf("pinentry was run %d times", len(logs))
		}
		if err := checkPinTalk(logs[0].Lines, c.Prompt); err != nil {
			return err
		}
	}
	x.Label(want)
	if want != "pass" || bytes.ContainsAny(c.Plan.Pass, "%\r\n") || len(c.Plan.data()) > 1 {
		x.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- the program with a pinentry program

type p01prog struct {
	Kind string // create open passwd add
	A, B pinPlan
	Same bool // the second passphrase is the first one
	File string
}

func genP01Prog(t *rapid.T) p01prog {
	c := p01prog{
		Kind: rapid.SampledFrom([]string{"create", "create", "open", "open", "passwd", "passwd", "add"}).Draw(t, "kind"),
		A:    genPinPlan(t, rapid.IntRange(0, 3).Draw(t, "afaults") == 0),
		B:    genPinPlan(t, rapid.IntRange(0, 3).Draw(t, "bfaults") == 0),
		Same: rapid.IntRange(0, 4).Draw(t, "same") > 0,
		File: rapid.SampledFrom([]string{"db", "db", "100% sure", "50%41", "ä b"}).Draw(t, "file"),
	}
	if c.Kind == "add" {
		s := strings.ToValidUTF8(string(c.A.Pass), "?")
		c.A.Pass = B(s)
	}
	for _, p := range []*pinPlan{&c.A, &c.B} {
		if n := len(p.Pass); n > 0 && p.Pass[n-1] == 0 {
			p.Pass[n-1] = 'z'
		}
	}
	if c.Same {
		c.B.Pass = c.A.Pass
	}
	return c
}

func runP01Prog(c p01prog, x *Ctx) error {
	h := newHome(x, "pinprog")
	defer h.done()
	if len(c.A.Enc) == 0 || len(c.A.Split) == 0 || len(c.A.Noise) == 0 || len(c.B.Enc) == 0 || len(c.B.Split) == 0 || len(c.B.Noise) == 0 {
		return nil
	}
	const commands = 3
	a, b := c.A.run(commands), c.B.run(commands)
	oa, ob := c.A.outcome(commands), c.B.outcome(commands)
	pa, pb := string(c.A.Pass), string(c.B.Pass)
	if oa == "cancel" {
		pa = ""
	}
	if ob == "cancel" {
		pb = ""
	}
	okA, okB := oa != "fail", ob != "fail"
	plain := pinPlan{Pass: B("start"), Enc: []int{0}, Split: []int{100}, Noise: []int{0}, Greet: "OK"}
	var pins []pinRun
	var in, want string
	switch c.Kind {
	case "create":
		pins = []pinRun{a, b}
		in = "ls\nexit\n"
	case "open":
		pins = []pinRun{a}
		in = "ls\nexit\n"
	case "passwd":
		pins = []pinRun{plain.run(commands), a, b}
		in = "passwd\nm\ny\nexit\n" // y: accept a generated one, when they differ
	case "add":
		pins = []pinRun{plain.run(commands), a, b}
		in = "add new\nmail\nme\nm\ny\nexit\n"
	}
	h.fake(map[string]fakeCfg{"pin-fake": {Pins: pins}})
	filePass := "start"
	if c.Kind == "open" && c.Same {
		filePass = pb
		if filePass == "" {
			filePass = "start"
		}
	}
	log := multiLog(nil, h, "")
	if c.Kind != "create" {
		h.writeDB(c.File, filePass, nil, storeJSON(log, len(log)))
	}
	before := h.read(c.File)
	r, err := h.run([]string{"--no-color", "--no-sync", "--no-clear-clip", "-f", c.File}, strings.NewReader(in), "PINENTRY="+h.path("bin/pin-fake"), "TERM=", "DISPLAY=")
	if err != nil {
		return err
	}
	if r.Hang || r.crashed() {
		return failf("%s", r.tail())
	}
	x.Logf("%s: %d %q %q", c.Kind, r.RC, r.Out, r.Err)
	after := h.read(c.File)
	unchanged := func(why string) error {
		if !bytes.Equal(before, after) {
			return failf("%s, but the file was written: %s", why, r.tail())
		}
		if r.RC == 0 {
			return failf("%s, but the exit status is 0: %s", why, r.tail())
		}
		return nil
	}
	opens := func(p string) error {
		if _, err := refDecrypt(after, nil, []byte(p)); err != nil {
			return failf("the file does not open with the passphrase %q that was entered: %v (%s)", p, err, r.tail())
		}
		if r.RC != 0 {
			return failf("the exit status is %d: %s", r.RC, r.tail())
		}
		return nil
	}
	runs := h.fakeLogs()
	short := "…/" + c.File // with the directories shortened
	prompts := []string{}
	switch c.Kind {
	case "create":
		prompts = []string{"passphrase: ", "verify passphrase: "}
		switch {
		case !okA:
			err = unchanged("the pinentry program failed")
		case pa == "":
			err = unchanged("the passphrase is empty")
		case !okB:
			err = unchanged("the pinentry program failed the second time")
		case pa != pb:
			err = unchanged("the passphrases differ")
		default:
			err = opens(pa)
			x.NonTrivial()
		}
	case "open":
		prompts = []string{short + " passphrase: "}
		switch {
		case !okA:
			err = unchanged("the pinentry program failed")
		case pa != filePass:
			err = unchanged("the passphrase is wrong")
		default:
			if r.RC != 0 {
				return failf("the passphrase %q was entered, but the file did not open: %s", pa, r.tail())
			}
			x.NonTrivial()
		}
	case "passwd", "add":
		prompts = []string{short + " passphrase: ", "enter new password: ", "verify password: "}
		switch {
		case !okA || !okB && (okA):
			// the command fails, nothing is taken over
			if _, err := refDecrypt(after, nil, []byte("start")); err != nil {
				return failf("the pinentry program failed, but the passphrase changed: %s", r.tail())
			}
		case pa != pb:
			want = "generated"
		case c.Kind == "passwd":
			if pa != "" {
				err = opens(pa)
				x.NonTrivial()
			}
		default:
			f, e := openFile(h.path(c.File), nil, []byte("start"))
			if e != nil {
				return failf("%v: %s", e, r.tail())
			}
			names, e := f.byName()
			if e != nil {
				return e
			}
			if got := names["new"]["pass"]; got != pa {
				return failf("the password %q was entered, but %q stored: %s", pa, got, r.tail())
			}
			x.NonTrivial()
		}
		if want == "generated" {
			for _, p := range []string{pa, pb} {
				if _, err := refDecrypt(after, nil, []byte(p)); p != "start" && c.Kind == "passwd" && err == nil {
					return failf("the passphrases %q and %q differ, but %q was set", pa, pb, p)
				}
			}
		}
	}
	if err != nil {
		return err
	}
	for _, l := range runs {
		i, _ := strconv.Atoi(l.Note)
		if i < len(prompts) {
			if err := checkPinTalk(l.Lines, prompts[i]); err != nil {
				return err
			}
		}
	}
	x.Label(c.Kind)
	return nil
}

func init() {
	part("P01", "protocol", 2500, 60000,
		"passphrases of any bytes, encoded and split into data lines in any permitted way, with comments and status lines, fragmented writes, and a fault at any reply (garbage, error, end, broken escape, exit status) or an unusable program; non-trivial: escapes or several data lines, or a fault or cancellation",
		genP01, runP01)
	part("P01", "program", 1200, 20000,
		"the program creating, opening, re-keying or adding to a file with passphrases from pinentry runs as above; non-trivial: a passphrase was taken over",
		genP01Prog, runP01Prog)
}
