package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/aarondl/bpass/txlogs"
)

// ---------------------------------------------------------------- running bpass

// Home is a scratch home directory with one place for everything a session touches.
type Home struct {
	Dir  string
	Env  []string
	User int // run as this unprivileged user, if not 0

	Wrap   []string // start the program with this command
	KillOK bool     // it may be killed
	Color  bool     // on terminals
	Cwd    string   // the working directory, if not Dir
}

func newHome(x *Ctx, name string) *Home {
	d := filepath.Join(x.Tmp, name)
	must(os.RemoveAll(d))
	must(os.MkdirAll(filepath.Join(d, "tmp"), 0o700))
	h := &Home{Dir: d}
	h.Env = []string{"HOME=" + d, "TMPDIR=" + filepath.Join(d, "tmp"), "PATH=" + filepath.Join(d, "bin"), "TZ=UTC", "LANG=C.UTF-8", "PINENTRY=none", "GOMAXPROCS=2"}
	return h
}

func (h *Home) path(n string) string { return filepath.Join(h.Dir, n) }
func (h *Home) done()                { os.RemoveAll(h.Dir) }

// tool makes this binary available under the given name on the session's PATH.
func (h *Home) tool(names ...string) {
	must(os.MkdirAll(h.path("bin"), 0o755))
	self, err := os.Executable()
	must(err)
	for _, n := range names {
		p := filepath.Join(h.Dir, "bin", n)
		os.Remove(p)
		must(os.Symlink(self, p))
	}
}

// unprivileged makes sessions run as a user who can do nothing outside of the home directory.
func (h *Home) unprivileged() {
	if os.Geteuid() != 0 {
		return
	}
	h.User = 65534
	h.chown()
	reachable(h.Dir)
}

// reachable lets other users get to a scratch directory.
func reachable(dir string) {
	for d := filepath.Dir(dir); len(d) > 4; d = filepath.Dir(d) {
		if fi, err := os.Stat(d); err == nil && fi.Mode().Perm()&0o055 != 0o055 {
			must(os.Chmod(d, fi.Mode().Perm()|0o055))
		}
	}
}

// chown gives everything in the home directory to the unprivileged user.
func (h *Home) chown() {
	if h.User == 0 {
		return
	}
	must(filepath.Walk(h.Dir, func(p string, _ os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(p, h.User, h.User)
	}))
}

func (h *Home) read(n string) []byte {
	b, err := os.ReadFile(h.path(n))
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	must(err)
	return b
}

// runRes is what a run of the program showed.
type runRes struct {
	Out, Err   string
	RC         int
	Hang       bool
	Signal     string
	Start, End time.Time
}

func (r *runRes) tail() string {
	t := func(s string) string {
		if len(s) > 700 {
			s = "..." + s[len(s)-700:]
		}
		return s
	}
	return fmt.Sprintf("exit status %d %s; end of output: %q; stderr: %q", r.RC, r.Signal, t(r.Out), t(r.Err))
}

// crashed tells whether the program died of a Go panic, a fatal error or a signal.
func (r *runRes) crashed() bool {
	return r.Signal != "" || r.RC == 2 && (strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:"))
}

const sessionLimit = 25 * time.Second

var bpassBin = os.Getenv("BPASS_BIN")

// run starts the program. The caller's args include everything.
func (h *Home) run(args []string, in io.Reader, env ...string) (*runRes, error) {
	return h.runBin(bpassBin, nil, args, in, env...)
}

func (h *Home) runBin(bin string, attr func(*exec.Cmd), args []string, in io.Reader, env ...string) (*runRes, error) {
	ctx, cancel := context.WithTimeout(context.Background(), sessionLimit)
	defer cancel()
	if len(h.Wrap) > 0 {
		args = append(append(append([]string{}, h.Wrap[1:]...), bin), args...)
		bin = h.Wrap[0]
	}
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = h.Dir
	if h.Cwd != "" {
		c.Dir = h.Cwd
	}
	c.Env = append(append([]string{}, h.Env...), env...)
	c.Stdin = in
	so, se := &limitBuf{max: 16 << 20}, &limitBuf{max: 1 << 20}
	c.Stdout, c.Stderr = so, se
	setGroup(c)
	c.Cancel = func() error { killGroup(c); return nil }
	c.WaitDelay = 5 * time.Second
	if attr != nil {
		attr(c)
	}
	if h.User != 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(h.User), Gid: uint32(h.User)}
	}
	r := &runRes{Start: time.Now()}
	err := c.Run()
	r.End = time.Now()
	r.Out, r.Err = so.String(), se.String()
	if c.ProcessState == nil {
		return nil, infra("cannot start %s: %v", bin, err)
	}
	r.RC = c.ProcessState.ExitCode()
	if ctx.Err() != nil {
		r.Hang = true
	} else if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.Signal = ws.Signal().String()
		if ws.Signal() == syscall.SIGKILL && !h.KillOK {
			return nil, infra("the program was killed (out of memory?)")
		}
	}
	return r, nil
}

// ---------------------------------------------------------------- scripted sessions

// step is a piece of stdin and what its output has to be.
type step struct {
	in    string
	check func(seg string) error
	what  string
}

func marker(i int) string { return fmt.Sprintf("⟦%d⟧", i) }
func markerOut(i int) string {
	return fmt.Sprintf("No matches for query (%q)\n", marker(i))
}

// script renders steps with a marker command after each.
func script(open []string, steps []step, end string) string {
	var b strings.Builder
	for _, l := range open {
		b.WriteString(l + "\n")
	}
	b.WriteString("cd " + marker(0) + "\n")
	for i, s := range steps {
		b.WriteString(s.in)
		if !strings.HasSuffix(s.in, eofMark) {
			b.WriteString("cd " + marker(i+1) + "\n")
		}
	}
	b.WriteString(end)
	return b.String()
}

// eofMark ends the stdin of a step in the middle of a dialogue at the end of the input.
const eofMark = "\x00EOF"

// session runs steps after the opening lines. It verifies that every step was
// reached and hands the output between the markers to the checks. A step
// ending in eofMark must be the last one.
func (h *Home) session(args, open []string, steps []step, end string, env ...string) (*runRes, error) {
	in := script(open, steps, end)
	if i := strings.Index(in, eofMark); i >= 0 {
		in = in[:i]
	}
	args = append([]string{"--no-color"}, args...)
	r, err := h.run(args, strings.NewReader(in), env...)
	if err != nil {
		return nil, err
	}
	if r.Hang {
		return r, failf("the session does not end: %s", r.tail())
	}
	if r.crashed() {
		return r, failf("the session crashes: %s", r.tail())
	}
	rest := r.Out
	cut := func(i int) (string, bool) {
		seg, after, ok := strings.Cut(rest, markerOut(i))
		if ok {
			rest = after
		}
		return seg, ok
	}
	if _, ok := cut(0); !ok {
		return r, failf("the session does not start: %s", r.tail())
	}
	for i, s := range steps {
		var seg string
		if strings.HasSuffix(s.in, eofMark) {
			seg, rest = strings.TrimSuffix(rest, "failed to clear the clipboard\n"), ""
		} else {
			var ok bool
			if seg, ok = cut(i + 1); !ok {
				return r, failf("after %s: the session did not get to the next command: %s", s.what, r.tail())
			}
		}
		if s.check != nil {
			if err := s.check(seg); err != nil {
				return r, failf("%s: %v\noutput: %.1500q", s.what, err, seg)
			}
		}
	}
	return r, nil
}

// ---------------------------------------------------------------- stores in files

// fstore is the decrypted contents of a database file.
type fstore struct {
	Version  uint
	Snapshot map[string]map[string]string
	Log      []txlogs.Tx
	State    rstate // replay of Log
}

func parseStore(pt []byte) (*fstore, error) { return parseStoreAt(pt, false) }

// parseStoreAt leaves out entries without a name if the history was cut off.
func parseStoreAt(pt []byte, cut bool) (*fstore, error) {
	var f fstore
	if len(pt) > 0 {
		if err := json.Unmarshal(pt, &f); err != nil {
			return nil, failf("the store is not valid JSON: %v", err)
		}
	}
	st, ok := refReplay(f.Log)
	if !ok {
		return nil, failf("the stored log cannot be replayed")
	}
	if cut {
		for id, e := range st {
			if _, ok := e["name"]; !ok {
				delete(st, id)
				delete(f.Snapshot, id)
			}
		}
	}
	f.State = st
	if f.Version == uint(len(f.Log)) {
		got := map[string]txlogs.Entry{}
		for k, v := range f.Snapshot {
			got[k] = v
		}
		if d := sameState(got, st); d != "" {
			return nil, failf("the stored snapshot is not the replay of the log: %s", d)
		}
	}
	return &f, nil
}

func openFile(path string, user, pass []byte) (*fstore, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, failf("cannot read the database: %v", err)
	}
	pt, err := refDecrypt(b, user, pass)
	if err != nil {
		return nil, failf("the database does not open with the passphrase %q (user %q): %v", pass, user, err)
	}
	return parseStore(pt)
}

// byName maps names to fields, failing when a name occurs twice or is missing.
func (f *fstore) byName() (map[string]map[string]string, error) {
	out := map[string]map[string]string{}
	for id, e := range f.State {
		n, ok := e["name"]
		if !ok {
			return nil, failf("entry %s has no name: %q", id, e)
		}
		if _, dup := out[n]; dup {
			return nil, failf("two entries are called %q", n)
		}
		out[n] = e
	}
	return out, nil
}

// ---------------------------------------------------------------- model of a session

type ment struct {
	Name string
	F    map[string]string // without name and updated
	Pass string            // of a user: the passphrase
	Gen  int               // of a user: the master key generation it belongs to (0: no user)
}

type mstore struct {
	E   []*ment
	cut bool // the history may end in the middle of a command
}

func (m *mstore) clone() *mstore {
	n := &mstore{cut: m.cut}
	for _, e := range m.E {
		f := map[string]string{}
		for k, v := range e.F {
			f[k] = v
		}
		n.E = append(n.E, &ment{Name: e.Name, F: f, Pass: e.Pass, Gen: e.Gen})
	}
	return n
}

func (m *mstore) byName(n string) *ment {
	for _, e := range m.E {
		if e.Name == n {
			return e
		}
	}
	return nil
}

func (m *mstore) add(n string) *ment {
	e := &ment{Name: n, F: map[string]string{}}
	m.E = append(m.E, e)
	return e
}

func (m *mstore) drop(d *ment) {
	for i, e := range m.E {
		if e == d {
			m.E = append(m.E[:i:i], m.E[i+1:]...)
			return
		}
	}
}

func refQuery(name, q string) bool {
	if q == "" {
		return true
	}
	qs := strings.Split(q, "/")
	if len(qs) == 1 {
		return refMatch(name, q)
	}
	ns := strings.Split(name, "/")
	if len(ns) < len(qs) {
		return false
	}
	for i := range qs {
		if !refMatch(ns[i], qs[i]) {
			return false
		}
	}
	return true
}

func (m *mstore) search(q string) []*ment {
	var out []*ment
	for _, e := range m.E {
		if refQuery(e.Name, q) {
			out = append(out, e)
		}
	}
	return out
}

// findOne is the documented choice of an entry by a query.
func (m *mstore) findOne(q string) *ment {
	s := m.search(q)
	if len(s) == 1 {
		return s[0]
	}
	return m.byName(q)
}

func names(es []*ment) []string {
	var n []string
	for _, e := range es {
		n = append(n, e.Name)
	}
	sort.Strings(n)
	return n
}

func labelsOf(e map[string]string) []string {
	if e["labels"] == "" {
		return nil
	}
	return strings.Split(e["labels"], ",")
}

// totpMark: a model value standing for a two-factor secret.
const totpMark = "\x00totp:"

// compare tells how the file's entries differ from the model's.
func (m *mstore) compare(f *fstore) error {
	got, err := f.byName()
	if err != nil {
		return err
	}
	for n := range got {
		if m.byName(n) == nil {
			return failf("the file has an entry %q that should not exist: %q", n, got[n])
		}
	}
	for _, e := range m.E {
		g, ok := got[e.Name]
		if !ok {
			return failf("the file has no entry %q (it has %q)", e.Name, sortedKeys(got))
		}
		for k, v := range g {
			if k == "name" || k == "updated" {
				continue
			}
			w, ok := e.F[k]
			if !ok {
				return failf("entry %q has a field %q = %q that should not exist", e.Name, k, v)
			}
			if !sameField(v, w) {
				return failf("entry %q has %s = %q, want %q", e.Name, k, v, w)
			}
		}
		for k := range e.F {
			if _, ok := g[k]; !ok {
				return failf("entry %q has lost its field %q (= %q)", e.Name, k, e.F[k])
			}
		}
		if _, ok := g["updated"]; !ok && m.cut {
			continue
		}
		if _, err := strconv.ParseInt(g["updated"], 10, 64); err != nil {
			return failf("entry %q has updated = %q", e.Name, g["updated"])
		}
	}
	return nil
}

// anyMark: a model value standing for any non-empty value.
const anyMark = "\x00any"

func sameField(got, want string) bool {
	if want == anyMark {
		return got != ""
	}
	if s, ok := strings.CutPrefix(want, totpMark); ok {
		return totpSecret(got) == s
	}
	return got == want
}
