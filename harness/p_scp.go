package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/aarondl/bpass/scpsync"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- S01, S02: scp

// frag says how the server splits and delays what it writes.
type frag struct {
	Sizes, Waits   []int // of the pieces of the program's output
	TSizes, TWaits []int // of the pieces on the wire
}

func genFrag(t *rapid.T) (f frag) {
	if rapid.Bool().Draw(t, "split") {
		f.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 5, 17, 100, 4096, 40000}), 1, 6).Draw(t, "sizes")
	}
	if rapid.IntRange(0, 4).Draw(t, "wait") == 0 {
		f.Waits = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 100, 1000, 5000}), 1, 5).Draw(t, "waits")
	}
	if rapid.IntRange(0, 3).Draw(t, "tsplit") == 0 {
		f.TSizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 4, 9, 33, 300, 2000}), 1, 5).Draw(t, "tsizes")
	}
	if rapid.IntRange(0, 5).Draw(t, "twait") == 0 {
		f.TWaits = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 100, 1000, 3000}), 1, 5).Draw(t, "twaits")
	}
	return f
}

// blob is contents of any size.
type blob struct {
	Data B
	N    int // if not zero: that many bytes made from Data
}

func (b blob) bytes() []byte {
	if b.N == 0 {
		return b.Data
	}
	return expand(b.Data, b.N)
}

var bigSizes = []int{4095, 4096, 32767, 32768, 32769, 65535, 65536, 70000, 2<<20 - 1, 2 << 20, 2<<20 + 1, 3 << 20, 5 << 20, 17 << 20}

func genBlob(t *rapid.T, name string) blob {
	switch rapid.IntRange(0, 11).Draw(t, name+"Size") {
	case 0:
		return blob{Data: B{}}
	case 1:
		return blob{Data: B("x"), N: rapid.SampledFrom(bigSizes).Draw(t, name+"N")}
	case 2:
		return blob{Data: B("y"), N: rapid.IntRange(1, 200000).Draw(t, name+"N")}
	case 3: // what looks like the protocol
		return blob{Data: B(rapid.SampledFrom([]string{"\x00", "\x00\x00\x00", "\x01scp: no\n", "\x02\n", "C0644 5 x\nhello\x00", "E\n", "\n", "D0755 0 d\n", "x\x00", "\x00x"}).Draw(t, name))}
	default:
		return blob{Data: genBytes(t, name, 6000)}
	}
}

func genScpName(t *rapid.T, plain bool) string {
	if plain {
		return rapid.StringMatching(`[a-zA-Z0-9_][a-zA-Z0-9._\-]{0,20}`).Draw(t, "name")
	}
	n := rapid.StringMatching(`(/|\./|\.\./)?([a-zA-Z0-9_é日.+=@%~][a-zA-Z0-9._\-é +=:,%]{0,8}/){0,3}[a-zA-Z0-9_é日+=@%][a-zA-Z0-9._\-é日 :,+=%]{0,12}`).Draw(t, "name")
	return strings.TrimRight(n, " ")
}

// limited runs a transfer and says whether it ended.
func limited(what string, f func() error) (err, bad error) {
	done := make(chan bool)
	go func() {
		defer close(done)
		bad = guard(what, func() { err = f() })
	}()
	select {
	case <-done:
		return err, bad
	case <-time.After(60 * time.Second):
		return nil, failf("%s does not end", what)
	}
}

func anyHost() *ssh.ClientConfig {
	return &ssh.ClientConfig{User: "me", Auth: []ssh.AuthMethod{ssh.Password("secret")},
		HostKeyCallback: func(string, net.Addr, ssh.PublicKey) error { return nil }}
}

// ---------------------------------------------------------------- S01

type s01 struct {
	Kind   string // send, recv, both
	Real   bool   // against OpenSSH's scp
	C      blob
	Name   string
	Mode   int
	Old    bool // the file exists
	OldC   blob
	Late   bool // the server confirms when it has everything
	Pause  int  // before reading, in µs
	F      frag
	Header string // the mode in the server's announcement
}

func genS01(real bool) func(t *rapid.T) s01 {
	return func(t *rapid.T) s01 {
		c := s01{
			Kind: rapid.SampledFrom([]string{"send", "recv", "both"}).Draw(t, "kind"),
			Real: real,
			C:    genBlob(t, "c"),
			Name: genScpName(t, real),
			Mode: rapid.SampledFrom([]int{0o600, 0o644, 0o777, 0o400, 0o440, 0o755, 0o001, 0o010, 0o070, 0o007, 0, 0o666}).Draw(t, "mode"),
			Old:  rapid.Bool().Draw(t, "old"),
			Late: rapid.Bool().Draw(t, "late"),
			F:    genFrag(t),
		}
		if rapid.IntRange(0, 2).Draw(t, "anyMode") == 0 {
			c.Mode = rapid.IntRange(0, 0o777).Draw(t, "modeN")
		}
		if c.Old {
			c.OldC = genBlob(t, "oldc")
		}
		if rapid.IntRange(0, 4).Draw(t, "pause") == 0 {
			c.Pause = rapid.IntRange(0, 4000).Draw(t, "pauseN")
		}
		c.Header = rapid.SampledFrom([]string{"0644", "0600", "0777", "0000", "4755"}).Draw(t, "header")
		return c
	}
}

func runS01(c s01, x *Ctx) error {
	data := c.C.bytes()
	x.NonTrivial()
	x.Label(c.Kind)
	x.LabelIf(len(data) == 0, "empty")
	x.LabelIf(len(data) > 32768, "several packets")
	x.LabelIf(len(data) >= 2<<20, "over the window")
	x.LabelIf(len(c.F.Sizes) > 0 || len(c.F.TSizes) > 0, "split")
	x.LabelIf(c.Real, "OpenSSH")
	s := newSSHD("")
	s.key = func(int) ssh.Signer { return hostKey(0) }
	s.wrap = func(n int, t net.Conn) net.Conn {
		return &pieceConn{Conn: t, Sizes: c.F.TSizes, Waits: c.F.TWaits}
	}
	type file struct {
		data []byte
		mode string
	}
	var stored *file
	if c.Old || c.Kind == "recv" {
		stored = &file{c.OldC.bytes(), "0640"}
		if c.Kind == "recv" {
			stored.data = data
		}
	}
	dir := ""
	if c.Real {
		var err error
		dir, err = os.MkdirTemp(x.Tmp, "scp")
		must(err)
		defer os.RemoveAll(dir)
		must(os.Chown(dir, 65534, 65534))
		reachable(dir)
		if stored != nil {
			must(os.WriteFile(filepath.Join(dir, c.Name), stored.data, 0o600))
			must(os.Chmod(filepath.Join(dir, c.Name), 0o640))
			must(os.Chown(filepath.Join(dir, c.Name), 65534, 65534))
		}
	}
	var fault error // of the client, as the server sees it
	bad := func(f string, a ...any) {
		if fault == nil {
			fault = fmt.Errorf(f, a...)
		}
	}
	var cmds []string
	s.exec = func(n int, cmd string, sc *scpConn) {
		cmds = append(cmds, cmd)
		sc.Sizes, sc.Waits = c.F.Sizes, c.F.Waits
		what, ok := "", false
		for _, w := range []string{"scp -qf ", "scp -qt "} {
			if strings.HasPrefix(cmd, w) {
				what, ok = w, true
			}
		}
		if !ok || cmd[len(what):] != c.Name {
			bad("the command is %q", cmd)
			sc.exit(1)
			return
		}
		time.Sleep(time.Duration(c.Pause) * time.Microsecond)
		if c.Real {
			sc.runReal(dir, []string{what[4:7], c.Name})
			return
		}
		if what == "scp -qf " {
			if err := sc.ack(); err != nil {
				bad("before the announcement: %v", err)
			}
			fmt.Fprintf(sc, "C%s %d %s\n", c.Header, len(stored.data), path.Base(c.Name))
			if err := sc.ack(); err != nil {
				bad("after the announcement: %v", err)
			}
			sc.Write(append(bytes.Clone(stored.data), 0))
			if err := sc.ack(); err != nil {
				bad("after the data: %v", err)
			}
			if rest, _ := io.ReadAll(io.LimitReader(sc.in, 100)); len(rest) > 0 {
				bad("the client sends %q at the end", rest)
			}
			return
		}
		owed := 0
		confirm := func(last bool) {
			owed++
			for ; owed > 0 && (last || !c.Late); owed-- {
				sc.Write([]byte{0})
			}
		}
		confirm(false)
		mode, ln, name, err := sc.header()
		if err != nil {
			bad("%v", err)
			return
		}
		if name != path.Base(c.Name) {
			bad("the announcement is for %q", name)
		}
		confirm(false)
		buf := make([]byte, ln)
		if n, err := io.ReadFull(sc.in, buf); err != nil {
			bad("data ends after %d of %d bytes: %v", n, ln, err)
			return
		}
		if err := sc.ack(); err != nil {
			bad("after the data: %v", err)
		}
		if stored != nil {
			mode = stored.mode
		}
		stored = &file{buf, mode}
		confirm(true)
		if rest, _ := io.ReadAll(io.LimitReader(sc.in, 100)); len(rest) > 0 {
			bad("the client sends %q at the end", rest)
		}
	}
	s.start()
	var got []byte
	err, crash := limited(c.Kind, func() error {
		if c.Kind != "recv" {
			keep := bytes.Clone(data)
			if err := scpsync.Send(s.Addr, anyHost(), c.Name, c.Mode, data); err != nil {
				return fmt.Errorf("send: %w", err)
			}
			if !bytes.Equal(keep, data) {
				return errors.New("send changed what it was given")
			}
		}
		if c.Kind == "recv" || c.Kind == "both" && (!c.Real || c.Mode&0o400 != 0 || c.Old) {
			var err error
			if got, err = scpsync.Recv(s.Addr, anyHost(), c.Name); err != nil {
				return fmt.Errorf("receive: %w", err)
			}
			if !bytes.Equal(got, data) {
				return fmt.Errorf("received %d bytes, wanted %d: %s", len(got), len(data), firstDiff(got, data))
			}
		}
		return nil
	})
	if crash != nil {
		return crash
	}
	recs := s.close()
	if fault != nil {
		return failf("%v (%v)", fault, err)
	}
	if err != nil {
		return failf("%v", err)
	}
	for _, r := range recs {
		if len(r.Cmds) != 1 {
			return failf("commands in one connection: %q", r.Cmds)
		}
	}
	if c.Kind == "recv" {
		return nil
	}
	want := fmt.Sprintf("%04o", c.Mode)
	if c.Old {
		want = "0640"
	}
	if c.Real {
		f := filepath.Join(dir, c.Name)
		b, err := os.ReadFile(f)
		if err != nil {
			return failf("the file did not get there: %v", err)
		}
		st, err := os.Stat(f)
		must(err)
		stored = &file{b, fmt.Sprintf("%04o", st.Mode().Perm())}
		if es, _ := os.ReadDir(dir); len(es) != 1 {
			return failf("%d files in the server's folder", len(es))
		}
	}
	if stored == nil {
		return failf("the file did not get there")
	}
	if !bytes.Equal(stored.data, data) {
		return failf("the server has %d bytes, wanted %d: %s", len(stored.data), len(data), firstDiff(stored.data, data))
	}
	if stored.mode != want {
		return failf("permissions are %s, wanted %s", stored.mode, want)
	}
	return nil
}

func firstDiff(a, b []byte) string {
	for i := range min(len(a), len(b)) {
		if a[i] != b[i] {
			return fmt.Sprintf("different from byte %d on", i)
		}
	}
	return "one is longer"
}

// ---------------------------------------------------------------- S02

type s02 struct {
	Kind  string // send, recv
	C     blob
	Name  string
	F     frag
	Fault string // "" is none
	At    string // start header data end status
	K     int    // bytes of the data before
	With  B
	RC    int
	Drain bool // the server goes on reading after the fault
}

var scpMessages = []string{"scp: NAME: No such file or directory", "scp: NAME: No such file or directory", "NAME: no such file or directory", "scp: NAME: Permission denied", "scp: NAME: not a regular file", "scp: no such file or directory: Permission denied",
	"scp: NAME: Is a directory", "", "scp: NAME: No space left on device", "scp: protocol error: bad mode", "No such file", "file or directory", "scp: NAME: Input/output error", "\xff\xfe", "No such file or directory (not)", "scp: NAME: Not a directory", "scp: NAME: Disc quota exceeded"}

var badHeaders = []string{"", "D0755 0 x", "T1 0 1 0", "E", "0644 N x", "c0644 N x", "X0644 N x", "C0648 N x", "C N x", "C-644 N x", "Cabcd N x", "C0x1f N x", "C0644", "C0644 N", "C", "C0644 -1 x", "C0644  x", "C0644 abc x", "C0644 0xff x", "C0644 1e3 x", "C0644 99999999999999999999 x",
	"C0644 18446744073709551616 x", "C0644 9223372036854775808 x", "C77777777777777777 N x", "C0644 N.0 x", "C0644\tN\tx", " C0644 N x", "C0644  N x", "SSH-2.0-x", "\xff\xff", "Password:"}

var bigHeaders = []string{"C0644 9223372036854775807 x", "C0644 4611686018427387904 x", "C0644 99999999999 x"}

func genS02(t *rapid.T) s02 {
	c := s02{
		Kind: rapid.SampledFrom([]string{"recv", "recv", "send"}).Draw(t, "kind"),
		C:    genBlob(t, "c"),
		Name: genScpName(t, false),
		F:    genFrag(t),
		At:   rapid.SampledFrom([]string{"start", "header", "header", "data", "end", "end", "status"}).Draw(t, "at"),
		RC:   rapid.SampledFrom([]int{0, 0, 1, 1, 2, 127, 255}).Draw(t, "rc"),
	}
	if c.C.N > 300000 {
		c.C.N = 300000 + c.C.N%7
	}
	c.Drain = rapid.Bool().Draw(t, "drain")
	n := len(c.C.bytes())
	c.K = rapid.IntRange(0, max(0, n-1)).Draw(t, "k")
	var kinds []string
	switch {
	case c.At == "status" && c.Kind == "send":
		kinds = []string{"eof", "vanish", "drop", "signal", "err", "err", "errcut", "garbage"}
	case c.At == "status":
		kinds = []string{"eof", "vanish", "drop", "signal"}
	case c.At == "data" && c.Kind == "recv":
		kinds = []string{"eof", "vanish", "drop", "signal"}
	case c.At == "header" && c.Kind == "recv":
		kinds = []string{"err", "err", "err", "errcut", "header", "header", "header", "bigheader", "longer", "shorter", "eof", "vanish", "drop", "signal", "long", "stderr", "garbage"}
	case c.At == "start":
		kinds = []string{"err", "err", "errcut", "eof", "vanish", "drop", "signal", "deny channel", "deny exec", "stderr", "long"}
	default:
		kinds = []string{"err", "err", "errcut", "eof", "vanish", "drop", "signal", "garbage", "long"}
	}
	c.Fault = rapid.SampledFrom(append(kinds, "")).Draw(t, "fault")
	switch c.Fault {
	case "err", "errcut":
		m := rapid.SampledFrom(scpMessages).Draw(t, "msg")
		if rapid.IntRange(0, 5).Draw(t, "anyMsg") == 0 {
			m = strings.ReplaceAll(string(genBytes(t, "msgB", 80)), "\n", "?")
		}
		c.With = append(B{byte(rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "code"))}, strings.ReplaceAll(m, "NAME", c.Name)...)
	case "header":
		c.With = B(regexp.MustCompile(`\bN\b`).ReplaceAllString(rapid.SampledFrom(badHeaders).Draw(t, "line"), fmt.Sprint(n)))
	case "bigheader":
		c.With = B(rapid.SampledFrom(bigHeaders).Draw(t, "line"))
	case "garbage":
		c.With = append(B{byte(rapid.IntRange(3, 255).Draw(t, "byte"))}, genBytes(t, "garbage", 30)...)
		if c.With[0] == 'C' {
			c.With[0] = 'c'
		}
	case "stderr":
		c.With = B(rapid.SampledFrom([]string{"bash: scp: command not found\n", "scp: No such file or directory\n", "usage: scp\n", "sh: /usr/bin/scp: No such file or directory\n"}).Draw(t, "stderr"))
	case "eof":
		if c.At == "status" && c.RC == 0 {
			c.RC = 1
		}
	}
	return c
}

// notThere is what a server says when a file is missing.
func notThere(msg string) bool {
	return strings.HasSuffix(strings.ToLower(strings.TrimSpace(msg)), "no such file or directory")
}

func runS02(c s02, x *Ctx) error {
	data := c.C.bytes()
	x.Label(c.Kind)
	x.LabelIf(c.Fault != "", c.Kind+" "+c.Fault+" at "+c.At)
	if c.Fault != "" {
		x.NonTrivial()
	}
	s := newSSHD("")
	s.key = func(int) ssh.Signer { return hostKey(0) }
	s.wrap = func(n int, t net.Conn) net.Conn {
		return &pieceConn{Conn: t, Sizes: c.F.TSizes, Waits: c.F.TWaits}
	}
	if d, ok := strings.CutPrefix(c.Fault, "deny "); ok {
		s.deny = d
	}
	s.exec = func(n int, cmd string, sc *scpConn) { c.play(sc, data, nil) }
	if c.Fault == "shorter" && len(data) > 0 && c.K+1 <= len(data) {
		data = bytes.Clone(data)
	}
	s.start()
	var got []byte
	err, crash := limited(c.Kind, func() (err error) {
		if c.Kind == "recv" {
			got, err = scpsync.Recv(s.Addr, anyHost(), c.Name)
		} else {
			err = scpsync.Send(s.Addr, anyHost(), c.Name, 0o600, data)
		}
		return err
	})
	if crash != nil {
		return crash
	}
	s.close()
	if c.Fault == "" {
		if err != nil {
			return failf("%s fails: %v", c.Kind, err)
		}
		if c.Kind == "recv" && !bytes.Equal(got, data) {
			return failf("received something else")
		}
		return nil
	}
	if err == nil {
		return failf("%s succeeds although the server fails (%s at %s), %d bytes", c.Kind, c.Fault, c.At, len(got))
	}
	if len(got) > 0 {
		return failf("%d bytes received together with the error %v", len(got), err)
	}
	text := err.Error()
	isNot := scpsync.IsNotFoundErr(err)
	if c.Fault == "err" || c.Fault == "errcut" {
		msg := strings.TrimSpace(string(c.With[1:]))
		if !strings.Contains(text, msg) {
			return failf("the message %q is lost: %q", msg, text)
		}
		atStart := c.Kind == "recv" && (c.At == "start" || c.At == "header")
		switch {
		case c.Fault == "err" && atStart && c.With[0] == 1 && notThere(msg):
			x.Label("not found")
			if !isNot {
				return failf("%q is not taken as 'not found'", text)
			}
		case !notThere(msg) && isNot:
			return failf("%q is taken as 'not found'", text)
		}
		return nil
	}
	if isNot {
		return failf("%q is taken as 'not found'", text)
	}
	return nil
}

// play is the server's side of the exchange, which sends data or stores what it gets.
func (c *s02) play(sc *scpConn, data []byte, store func([]byte)) {
	sc.Sizes, sc.Waits = c.F.Sizes, c.F.Waits
	drain := func() {
		if c.Drain {
			io.Copy(io.Discard, sc.in)
		}
	}
	// fault does what is to go wrong here, and ends the command.
	fault := func(at string) bool {
		if at != c.At {
			return false
		}
		switch c.Fault {
		case "":
			return false
		case "err":
			sc.Write(append(bytes.Clone(c.With), '\n'))
			drain()
		case "errcut":
			sc.Write(c.With)
		case "garbage":
			sc.Write(append(bytes.Clone(c.With), '\n'))
			drain()
		case "long":
			sc.Write(bytes.Repeat([]byte{1, 'x'}, 60000))
			drain()
		case "stderr":
			sc.ch.Stderr().Write(c.With)
			sc.exit(127)
		case "vanish":
			sc.vanish()
		case "drop":
			sc.drop()
		case "signal":
			sc.signalled("KILL")
		case "eof":
		case "header", "bigheader":
			sc.Write(append(bytes.Clone(c.With), '\n'))
			sc.Write(data)
			sc.Write([]byte{0})
			if c.Fault == "header" {
				drain()
			}
		default:
			return false
		}
		sc.exit(c.RC)
		return true
	}
	if c.Kind == "recv" {
		if fault("start") || sc.ack() != nil || fault("header") {
			return
		}
		n := len(data)
		switch c.Fault {
		case "longer":
			n += 1 + c.K
		case "shorter":
			n -= 1 + c.K
		}
		if n < 0 {
			n = len(data) + 1
		}
		fmt.Fprintf(sc, "C0600 %d %s\n", n, path.Base(c.Name))
		if sc.ack() != nil {
			return
		}
		if c.Fault == "shorter" && n < len(data) && data[n] == 0 {
			data[n] = 'x'
		}
		k := min(c.K, len(data))
		sc.Write(data[:k])
		if fault("data") {
			return
		}
		sc.Write(data[k:])
		if fault("end") {
			return
		}
		sc.Write([]byte{0})
		if n != len(data) || sc.ack() != nil || fault("status") {
			return
		}
		io.Copy(io.Discard, sc.in)
		return
	}
	if fault("start") {
		return
	}
	sc.Write([]byte{0})
	_, ln, _, err := sc.header()
	if err != nil || fault("header") {
		return
	}
	sc.Write([]byte{0})
	got := make([]byte, ln)
	k := min(int64(c.K), ln)
	io.ReadFull(sc.in, got[:k])
	if fault("data") {
		return
	}
	if _, err := io.ReadFull(sc.in, got[k:]); err != nil || sc.ack() != nil || fault("end") {
		return
	}
	if store != nil {
		store(got)
	}
	sc.Write([]byte{0})
	if fault("status") {
		return
	}
	io.Copy(io.Discard, sc.in)
}

// ---------------------------------------------------------------- the connection ends anywhere

type s02cut struct {
	Kind string
	C    blob
	Cut  int
	F    frag
}

func genS02cut(t *rapid.T) s02cut {
	c := s02cut{
		Kind: rapid.SampledFrom([]string{"recv", "send"}).Draw(t, "kind"),
		C:    blob{Data: genBytes(t, "c", 5000)},
		F:    genFrag(t),
	}
	c.Cut = rapid.IntRange(1, 3500+len(c.C.Data)).Draw(t, "cut")
	return c
}

func runS02cut(c s02cut, x *Ctx) error {
	data := c.C.bytes()
	s := newSSHD("")
	s.key = func(int) ssh.Signer { return hostKey(0) }
	s.wrap = func(n int, t net.Conn) net.Conn {
		return &pieceConn{Conn: t, Sizes: c.F.TSizes, Waits: c.F.TWaits, CutAt: c.Cut}
	}
	complete := false
	var stored []byte
	s.exec = func(n int, cmd string, sc *scpConn) {
		if c.Kind == "recv" {
			if sc.ack() != nil {
				return
			}
			fmt.Fprintf(sc, "C0600 %d x\n", len(data))
			if sc.ack() != nil {
				return
			}
			sc.Write(append(bytes.Clone(data), 0))
			complete = sc.ack() == nil
			io.Copy(io.Discard, sc.in)
			return
		}
		sc.Write([]byte{0})
		_, ln, _, err := sc.header()
		if err != nil {
			return
		}
		sc.Write([]byte{0})
		stored = make([]byte, ln)
		if _, err := io.ReadFull(sc.in, stored); err != nil {
			return
		}
		complete = sc.ack() == nil
		sc.Write([]byte{0})
		io.Copy(io.Discard, sc.in)
	}
	s.start()
	var got []byte
	err, crash := limited(c.Kind, func() (err error) {
		if c.Kind == "recv" {
			got, err = scpsync.Recv(s.Addr, anyHost(), "x")
		} else {
			err = scpsync.Send(s.Addr, anyHost(), "x", 0o600, data)
		}
		return err
	})
	if crash != nil {
		return crash
	}
	s.close()
	if err != nil {
		x.NonTrivial()
		if scpsync.IsNotFoundErr(err) {
			return failf("%v is taken as 'not found'", err)
		}
		if len(got) > 0 {
			return failf("%d bytes received together with the error %v", len(got), err)
		}
		return nil
	}
	x.Label("complete")
	if !complete {
		return failf("%s succeeds before the server is done", c.Kind)
	}
	if c.Kind == "recv" && !bytes.Equal(got, data) {
		return failf("received something else")
	}
	if c.Kind == "send" && !bytes.Equal(stored, data) {
		return failf("the server got something else")
	}
	return nil
}

// ---------------------------------------------------------------- faults of OpenSSH's scp

type s02real struct {
	Kind  string
	Fault string
	C     blob
	Name  string
}

func genS02real(t *rapid.T) s02real {
	c := s02real{
		Kind: rapid.SampledFrom([]string{"recv", "send"}).Draw(t, "kind"),
		C:    genBlob(t, "c"),
		Name: genScpName(t, true),
	}
	if c.Kind == "recv" {
		c.Fault = rapid.SampledFrom([]string{"missing", "missing folder", "folder", "unreadable", "locked", "not a folder"}).Draw(t, "fault")
	} else {
		c.Fault = rapid.SampledFrom([]string{"missing folder", "read-only", "locked", "not a folder", "too big"}).Draw(t, "fault")
	}
	return c
}

func runS02real(c s02real, x *Ctx) error {
	data := c.C.bytes()
	dir, err := os.MkdirTemp(x.Tmp, "scp")
	must(err)
	defer os.RemoveAll(dir)
	must(os.Chown(dir, 65534, 65534))
	reachable(dir)
	name, put := c.Name, c.Name
	switch c.Fault {
	case "missing folder":
		name = "nodir/" + c.Name
		put = ""
	case "missing":
		put = ""
	case "locked":
		name = "locked/" + c.Name
		put = name
		must(os.Mkdir(filepath.Join(dir, "locked"), 0o700))
	case "not a folder":
		put, name = "plain", "plain/"+c.Name
	case "folder":
		must(os.Mkdir(filepath.Join(dir, name), 0o755))
		put = ""
	case "too big":
		if len(data) < 1025 {
			data = append(bytes.Clone(data), make([]byte, 1025)...)
		}
		put = ""
	}
	if put != "" {
		must(os.WriteFile(filepath.Join(dir, put), []byte("old contents"), 0o600))
		if c.Fault == "read-only" {
			must(os.Chmod(filepath.Join(dir, put), 0o444))
		}
	}
	s := newSSHD("")
	s.key = func(int) ssh.Signer { return hostKey(0) }
	s.exec = func(n int, cmd string, sc *scpConn) {
		args := strings.Fields(cmd)
		if len(args) < 3 {
			return
		}
		if c.Fault == "too big" {
			// the limit is 1 or 2 blocks of 512 or 1024 bytes
			sc.runRealLimited(dir, args[1:])
			return
		}
		sc.runReal(dir, args[1:])
	}
	s.start()
	x.NonTrivial()
	x.Label(c.Kind + " " + c.Fault)
	var got []byte
	err, crash := limited(c.Kind, func() (err error) {
		if c.Kind == "recv" {
			got, err = scpsync.Recv(s.Addr, anyHost(), name)
		} else {
			err = scpsync.Send(s.Addr, anyHost(), name, 0o600, data)
		}
		return err
	})
	if crash != nil {
		return crash
	}
	s.close()
	if err == nil {
		return failf("%s succeeds (%s), %d bytes", c.Kind, c.Fault, len(got))
	}
	if len(got) > 0 {
		return failf("%d bytes received together with the error %v", len(got), err)
	}
	if c.Kind == "recv" {
		want := strings.HasPrefix(c.Fault, "missing")
		if is := scpsync.IsNotFoundErr(err); is != want {
			return failf("%q: 'not found' is %v", err, is)
		}
	}
	reason := map[string]syscall.Errno{"missing": syscall.ENOENT, "missing folder": syscall.ENOENT, "locked": syscall.EACCES, "not a folder": syscall.ENOTDIR, "unreadable": syscall.EACCES, "read-only": syscall.EACCES}[c.Fault]
	if reason != 0 && !strings.Contains(strings.ToLower(err.Error()), reason.Error()) {
		return failf("the server's reason (%v) is lost: %v", reason, err)
	}
	return nil
}

func init() {
	part("S01", "exact", 3000, 60000, "a transfer", genS01(false), runS01)
	part("S02", "faults", 6000, 120000, "the server fails", genS02, runS02)
	part("S02", "cut", 1500, 40000, "the connection ends too early", genS02cut, runS02cut)
	if realSCP() {
		part("S01", "openssh", 600, 8000, "a transfer", genS01(true), runS01)
		part("S02", "openssh", 400, 6000, "OpenSSH's scp fails", genS02real, runS02real)
	}
}
