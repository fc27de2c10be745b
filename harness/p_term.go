package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- sessions on a terminal

type ptyRun struct {
	m    *os.File
	mu   sync.Mutex
	out  bytes.Buffer
	last time.Time
	c    *exec.Cmd
	done chan struct{}
	eof  chan struct{}
}

func ioctl(fd uintptr, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

// startPty runs the program on a new terminal of the given width.
func (h *Home) startPty(args []string, width int, env ...string) *ptyRun {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	var n uint32
	var zero int32
	must(ioctl(m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&zero)))
	must(ioctl(m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)))
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	ws := struct{ r, c, x, y uint16 }{24, uint16(width), 0, 0}
	must(ioctl(m.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws)))
	p := &ptyRun{m: m, done: make(chan struct{}), eof: make(chan struct{}), last: time.Now()}
	if !h.Color {
		args = append([]string{"--no-color"}, args...)
	}
	c := exec.CommandContext(context.Background(), bpassBin, args...)
	c.Dir, c.Env = h.Dir, append(append([]string{"TERM=xterm"}, h.Env...), env...)
	c.Stdin, c.Stdout, c.Stderr = s, s, s
	c.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if h.User != 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(h.User), Gid: uint32(h.User)}
	}
	must(c.Start())
	s.Close()
	p.c = c
	go func() {
		defer close(p.eof)
		b := make([]byte, 4096)
		for {
			n, err := m.Read(b)
			if n > 0 {
				p.mu.Lock()
				if p.out.Len() < 4<<20 {
					p.out.Write(b[:n])
				}
				p.last = time.Now()
				p.mu.Unlock()
			}
			if err != nil {
				return
			}
		}
	}()
	go func() { c.Wait(); close(p.done) }()
	return p
}

func (p *ptyRun) text() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// settle waits until the output has been quiet for a while.
func (p *ptyRun) settle(quiet, max time.Duration) {
	for end := time.Now().Add(max); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		p.mu.Lock()
		q := time.Since(p.last)
		p.mu.Unlock()
		if q > quiet || p.exited() {
			return
		}
	}
}

func (p *ptyRun) send(s string) {
	p.m.Write([]byte(s))
	p.mu.Lock()
	p.last = time.Now()
	p.mu.Unlock()
}

// expect waits for text.
func (p *ptyRun) expect(s string) bool {
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if strings.Contains(p.text(), s) {
			return true
		}
		if p.exited() {
			<-p.eof
			return strings.Contains(p.text(), s)
		}
	}
	return false
}

func (p *ptyRun) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *ptyRun) kill() {
	syscall.Kill(-p.c.Process.Pid, syscall.SIGKILL)
	<-p.done
	p.m.Close()
	<-p.eof
}

type m03term struct {
	Names []string
	Width int
	Keys  []B // each is typed at once
	Multi bool
}

var termKeys = []string{"\t", "\t\t", "\t\t\t", "\t\t\x01", "\t\t\x05", "\t\t\x1b[B", "\t\t\x1b[A", "\t\t\x06\r", "\t\t\r", "\t\t\x02", "\t\x7f", "\t\t\x7f", "\t\t\x07", "\tx", "\t\tx", "\x12", "\x12a", "\x12a\x12", "\x12a\x7f", "\x12\x07", "\x12a\r",
	"\x1b[A", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[D\x1b[D", "\x1b[H", "\x1b[F", "\x1b[3~", "\x01", "\x02", "\x05", "\x06", "\x08", "\x0b", "\x0c", "\x0e", "\x10", "\x14", "\x15", "\x17", "\x19", "\x7f", "\x1bb", "\x1bf", "\x1bd", "\x1b\x7f", "\r", "\r", "\n", "a", "b ", "set ", "get ", "cd ", "rm ", "show ", "s", "é", "日", "😀", "\u0300", "\xff", ".\r", "y\r", "ls\r", "set a notes x\r", "set a notes ", "label a\r", "cd a\r", "cd\r", "show a\r", "\x04"}

func genM03term(t *rapid.T) m03term {
	c := m03term{Width: rapid.SampledFrom([]int{80, 80, 80, 132, 40, 20, 10, 0}).Draw(t, "width")}
	c.Names = rapid.SliceOfN(rapid.SampledFrom([]string{"b", "ab", "mail/a", "mail/b", "mail/c", "é/日本", "日本語/テスト", strings.Repeat("long", 30), strings.Repeat("long", 30) + "er", "x/" + strings.Repeat("日", 50), "abc", "abd"}), 0, 8).Draw(t, "names")
	c.Keys = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) B {
		switch rapid.IntRange(0, 7).Draw(t, "k") {
		case 0:
			l := genFuzzLine(t)
			l = l[:min(len(l), 200)]
			if rapid.Bool().Draw(t, "enter") {
				l = append(append(B{}, l...), '\r')
			}
			return l
		case 1, 2:
			if rapid.Bool().Draw(t, "complete") {
				return B(rapid.SampledFrom([]string{"", "set ", "get ", "rm ", "set mail/", "get 日", "cd é/", "show l", "s"}).Draw(t, "pre") + "\t\t" +
					rapid.StringOfN(rapid.SampledFrom([]rune("\t\t\x01\x05\x06\x02\x10\x0e\x0b\x7f\x07\x14 aw日\r")), 0, 8, -1).Draw(t, "sel"))
			}
			s := rapid.SampledFrom([]string{"set ", "get ", "cd ", "rm ", "", "s", "show m", "add"}).Draw(t, "pre")
			return B(s + rapid.SampledFrom(termKeys).Draw(t, "key"))
		}
		return B(rapid.SampledFrom(termKeys).Draw(t, "key"))
	}), 1, 24).Draw(t, "keys")
	return c
}

// typable leaves out what is handled by the terminal, and what fuzzInput leaves out.
func (c m03term) typable() [][]byte {
	f := m03{Lines: c.Keys, Sync: true}
	var out [][]byte
	for i := range f.Lines {
		in, _ := m03{Lines: f.Lines[i : i+1], Sync: true, NoNL: true}.fuzzInput()
		in = bytes.Map(func(r rune) rune {
			switch r {
			case 0x03, 0x1a, 0x1c, 0x11, 0x13, 0x0f, 0x16, 0x12 + 0x100:
				return -1
			}
			return r
		}, in)
		out = append(out, in)
	}
	return out
}

func runM03term(c m03term, x *Ctx) error {
	h := newHome(x, "m03t")
	defer h.done()
	ops := []hop{{Op: "add", V: "a", Dt: 1}}
	for _, n := range c.Names {
		ops = append(ops, hop{Op: "add", V: n, Dt: 1})
	}
	log := buildHist(ops, 1600000000e9)
	h.writeDB("db", "the pass", nil, storeJSON(log, len(log)))
	h.unprivileged()
	p := h.startPty([]string{"-f", "db", "--no-sync", "--no-clear-clip"}, c.Width)
	defer p.kill()
	if !p.expect("passphrase: ") {
		return infra("no prompt: %q", p.text())
	}
	p.settle(5*time.Millisecond, 200*time.Millisecond)
	p.send("the pass\r")
	if !p.expect("db)> ") {
		return infra("no prompt: %q", p.text())
	}
	p.settle(5*time.Millisecond, 200*time.Millisecond)
	p.send("set a notes before\r")
	if !p.expect("set notes = before") {
		return failf("width %d: the session does not get to its second command: %.1500q", c.Width, p.text())
	}
	p.settle(10*time.Millisecond, 300*time.Millisecond)
	for _, k := range c.typable() {
		if p.exited() {
			break
		}
		p.send(string(k))
		p.settle(8*time.Millisecond, 120*time.Millisecond)
	}
	end := time.Now().Add(sessionLimit)
	for i := 0; !p.exited(); i++ {
		if time.Now().After(end) {
			return failf("width %d: the session does not end after %q; output ends in %q", c.Width, c.Keys, tailOf(p.text(), 600))
		}
		p.send([]string{"\r", "\x04"}[i%2])
		p.settle(15*time.Millisecond, 200*time.Millisecond)
	}
	<-p.eof
	out := p.text()
	if rc := p.c.ProcessState.ExitCode(); rc != 0 {
		i := strings.Index(out, "panic: ")
		if i < 0 {
			i = strings.Index(out, "goroutine ")
		}
		if i < 0 {
			i = max(0, len(out)-800)
		}
		return failf("width %d: the session ended with status %d after %q; output: %.1500q", c.Width, rc, c.Keys, out[i:])
	}
	st, err := openFile(h.path("db"), nil, []byte("the pass"))
	if err != nil && hasAny(out, "adduser", "passwd", "rekey") {
		// completed to one of these commands, so the credentials are unknown
		x.Label("credentials may have changed")
		return nil
	}
	if err != nil {
		return failf("after %q: %v", c.Keys, err)
	}
	n := len(log)
	kept := false
	for _, tx := range st.Log[min(n, len(st.Log)):min(n+2, len(st.Log))] {
		kept = kept || tx == (txlogs.Tx{Time: tx.Time, UUID: log[0].UUID, Kind: "setk", Key: "notes", Value: "before"})
	}
	if !kept || sameLog(st.Log[:n], log) != "" {
		return failf("the history from before the odd input is not kept; keys: %q", c.Keys)
	}
	if _, err := st.byName(); err != nil {
		return failf("%v\nkeys: %q", err, c.Keys)
	}
	if len(c.Keys) >= 3 {
		x.NonTrivial()
	}
	x.LabelIf(strings.Contains(out, "i-search:"), "searched the history")
	x.LabelIf(strings.Contains(out, "\x1b[30;47m"), "chose a completion")
	return nil
}

func hasAny(s string, subs ...string) bool {
	for _, t := range subs {
		if strings.Contains(s, t) {
			return true
		}
	}
	return false
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func init() {
	part("M03", "term", 400, 12000,
		"a session on a terminal of a generated width: a command, then 1..24 bursts of keys (editing, completion, history and search keys, command lines, arbitrary text), then end of input; the program must end normally and the file must hold the history from before; non-trivial: at least 3 bursts",
		genM03term, runM03term)
}
