package main

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M09: copies that synchronise through files

type syncAct struct {
	Kind    string // edit: no synchronisation; auto: at start and end; cmd: edits, then the sync command; post: the sync command, then edits; named: sync one remote
	C       int
	Ops     []sop
	Restore bool // how conflicts are answered
	End     string
	R       int
}

type m09 struct {
	Base    prepared
	Pass    string
	Copies  []string // copy, fresh
	Remotes []string // file names
	Manual  int      // this remote is not synchronised automatically (-1: none)
	Acts    []syncAct
	Final   []int // order of the final rounds
	Restore bool
}

var remoteNames = []string{"r0", "r1", "dir/r", "r é", "r%20x", "r#y?z", "./r0", "dir/../r2", "a;b"}
var syncEditOps = []string{"add", "add", "mv", "rm", "rm", "rmk", "set", "set", "set", "set", "label", "rmlabel", "setml"}

func genSyncEdits(t *rapid.T, pool []string, max int) []sop {
	return genSlice(t, "edits", 0, max, rapid.Custom(func(t *rapid.T) sop {
		o := genSopOf(t, pool, syncEditOps)
		o.Pw = nil
		if o.Op == "add" {
			o.End = "m"
		}
		if o.Op == "rm" {
			o.V = "same"
		}
		// any entry: see pickEntry
		o.I = rapid.IntRange(0, 9).Draw(t, "pick")
		return o
	}))
}

func genM09(t *rapid.T) m09 {
	pool := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return genEntryName(t, "pool") }), 2, 4).Draw(t, "pool")
	c := m09{Base: genPrepared(t, 8), Pass: "the pass", Manual: -1}
	n := rapid.IntRange(2, 3).Draw(t, "copies")
	for i := 0; i < n; i++ {
		k := "copy"
		if i > 0 && !c.Base.Multi && rapid.IntRange(0, 5).Draw(t, "fresh") == 0 {
			k = "fresh"
		}
		c.Copies = append(c.Copies, k)
	}
	c.Remotes = rapid.SliceOfN(rapid.SampledFrom(remoteNames), 1, 2).Draw(t, "remotes")
	if len(c.Remotes) > 1 && rapid.IntRange(0, 3).Draw(t, "manual") == 0 {
		c.Manual = 1
	}
	c.Acts = genSlice(t, "acts", 2, 9, rapid.Custom(func(t *rapid.T) syncAct {
		a := syncAct{Kind: rapid.SampledFrom([]string{"edit", "edit", "edit", "auto", "auto", "auto", "cmd", "post", "named"}).Draw(t, "kind"), C: rapid.IntRange(0, 2).Draw(t, "copy")}
		a.Ops = genSyncEdits(t, pool, 4)
		a.Restore = rapid.Bool().Draw(t, "restore")
		a.End = rapid.SampledFrom([]string{"exit", "exit", "exit", "eof", "interrupt"}).Draw(t, "end")
		a.R = rapid.IntRange(0, 1).Draw(t, "r")
		return a
	}))
	c.Final = rapid.Permutation([]int{0, 1, 2}).Draw(t, "final")
	c.Restore = rapid.Bool().Draw(t, "restoreF")
	return c
}

// resolve merges histories the way the documentation says, answering every
// conflict the same way.
func resolve(restore bool, logs ...[]txlogs.Tx) (out []txlogs.Tx, conflicts int) {
	u := unionSorted(logs...)
	ans := map[txlogs.Tx]string{}
	for {
		o, conf := refMerge(u, ans)
		if len(conf) == 0 {
			return o, conflicts
		}
		for d := range conf {
			conflicts++
			ans[d] = "delete"
			if restore {
				ans[d] = "restore"
			}
		}
	}
}

func dupNames(st rstate) map[string]bool {
	n, dup := map[string]bool{}, map[string]bool{}
	for _, e := range st {
		if n[e["name"]] {
			dup[e["name"]] = true
		}
		n[e["name"]] = true
	}
	return dup
}

// inLog tells which changes of a are missing in b.
func missingIn(a, b []txlogs.Tx) []txlogs.Tx {
	has := map[txlogs.Tx]bool{}
	for _, t := range b {
		has[t] = true
	}
	var out []txlogs.Tx
	for _, t := range a {
		if !has[t] {
			out = append(out, t)
		}
	}
	return out
}

type syncRun struct {
	c     m09
	x     *Ctx
	h     *Home
	paths []string // distinct remote files
	by    []int    // index of c.Remotes -> paths
	diverged,
	conflicts, renames, roots int
}

func (s *syncRun) cfile(i int) string { return fmt.Sprintf("c%d", i) }

func (s *syncRun) creds(i int) openArgs {
	if s.c.Base.Multi {
		u := twoUsers()[i%2]
		return openArgs{lines: []string{string(u.Name), string(u.Pass)}, user: u.Name, pass: u.Pass}
	}
	return openArgs{lines: []string{s.c.Pass}, pass: []byte(s.c.Pass)}
}

func (s *syncRun) log(file string, i int) (*fstore, error) {
	o := s.creds(i)
	return openFile(s.h.path(file), o.user, o.pass)
}

// remote reads a remote, nil if it does not exist.
func (s *syncRun) remote(p int) ([]byte, *fstore, error) {
	b := s.h.read(s.paths[p])
	if b == nil {
		return nil, nil, nil
	}
	o := s.creds(0)
	st, err := openFile(s.h.path(s.paths[p]), o.user, o.pass)
	return b, st, err
}

// fixEdits turns the entries picked by number into names of the store.
func fixEdits(ops []sop, m *mstore) []sop {
	var ns []string
	for _, n := range names(m.E) {
		if !strings.HasPrefix(n, "sync/") && !strings.HasPrefix(n, "user/") && okName(n) {
			ns = append(ns, n)
		}
	}
	var out []sop
	for _, o := range ops {
		if o.Op != "add" && o.I < 7 && len(ns) > 0 {
			o.N = ns[o.I%len(ns)]
		}
		if strings.HasPrefix(o.N, "sync") || strings.HasPrefix(o.N2, "sync") || strings.HasPrefix(o.N, "user/") || strings.HasPrefix(o.N2, "user/") || o.K == "sync" {
			continue
		}
		out = append(out, o)
	}
	return out
}

// autos are the remotes (indexes of paths) that the state says to synchronise.
func (s *syncRun) autos(st rstate, only string) map[int]bool {
	out := map[int]bool{}
	for _, e := range st {
		if !strings.HasPrefix(e["name"], "sync/") || e["url"] == "" || only == "" && e["sync"] != "true" || only != "" && e["name"] != only {
			continue
		}
		for p := range s.paths {
			if e["url"] == fileURL(s.h.path(s.paths[p])) {
				out[p] = true
			}
		}
	}
	return out
}

func (s *syncRun) act(a syncAct) error {
	i := a.C % len(s.c.Copies)
	h, file := s.h, s.cfile(i)
	L, err := s.log(file, i)
	if err != nil {
		return err
	}
	before := h.read(file)
	o := s.creds(i)
	only := ""
	if a.Kind == "named" {
		var ns []string
		for _, e := range L.State {
			if strings.HasPrefix(e["name"], "sync/") && e["url"] != "" && okName(e["name"]) {
				ns = append(ns, e["name"])
			}
		}
		if len(ns) == 0 {
			return nil
		}
		sortStrings(ns)
		only = ns[a.R%len(ns)]
	}
	var targets map[int]bool
	if a.Kind != "edit" {
		targets = s.autos(L.State, only)
	}
	var rb [][]byte
	logs := [][]txlogs.Tx{L.Log}
	roots, remotes, absent := 0, 0, 0
	// files of a single user with other salts have other credentials; which of
	// them are used from then on is asked if their data is the same
	creds := false
	for p := range s.paths {
		b, st, err := s.remote(p)
		if err != nil {
			return err
		}
		rb = append(rb, b)
		if !targets[p] {
			continue
		}
		if st == nil {
			absent++
			continue
		}
		remotes++
		creds = creds || !bytes.Equal(singleSalt(b), singleSalt(before))
		logs = append(logs, st.Log)
		if len(st.Log) > 0 && len(L.Log) > 0 && st.Log[0] != L.Log[0] {
			roots++
		}
		if len(missingIn(st.Log, L.Log)) > 0 && (len(missingIn(L.Log, st.Log)) > 0 || len(a.Ops) > 0) {
			s.diverged++
		}
	}
	X, conf := resolve(a.Restore, logs...)
	if a.Kind == "edit" {
		X = L.Log
	}
	stX, ok := refReplay(X)
	if !ok {
		return infra("the merged history cannot be replayed")
	}
	late := false // the merge brings in sync entries that are used at the end of the session
	if a.Kind == "auto" {
		for p := range s.autos(stX, "") {
			if !targets[p] {
				late, targets[p] = true, true
				b, st, err := s.remote(p)
				if err != nil {
					return err
				}
				if st != nil {
					remotes++
					creds = creds || !bytes.Equal(singleSalt(b), singleSalt(before))
					logs = append(logs, st.Log)
				}
			}
		}
		if late {
			a.Ops, a.End = nil, "exit"
			X, conf = resolve(a.Restore, logs...)
			if stX, ok = refReplay(X); !ok {
				return infra("the merged history cannot be replayed")
			}
		}
	}
	dups := dupNames(stX)
	m, _ := stateModel(stX)
	preEdits := a.Kind == "cmd" || a.Kind == "named"
	if preEdits {
		m, _ = stateModel(L.State)
	}
	ops := fixEdits(a.Ops, m)
	if len(dups) > 0 && !preEdits {
		ops = nil
	}
	curGen = genVals{}
	p := &planner{m: m, x: s.x, start: time.Now()}
	for _, op := range ops {
		p.do(op)
	}
	dels := 0
	for _, t := range unionSorted(logs...) {
		if t.Kind == txlogs.TxDelete {
			dels++
		}
	}
	// prompts accept only what is meant for them, commands called so do not exist
	answers := ""
	if conf > 0 || roots > 0 || late || creds || preEdits && remotes > 0 {
		for _, op := range ops {
			if op.Op == "rm" {
				dels++
			}
		}
		w := "D"
		if a.Restore {
			w = "R"
		}
		answers = strings.Repeat("yes\n"+w+"\n", (remotes+1)*(dels+2))
	}
	args := []string{"--no-clear-clip", "-f", file}
	open := o.lines
	steps := p.steps
	end := endInput(a.End)
	sync := step{in: strings.TrimSpace("sync "+only) + "\n" + answers, what: "sync"}
	switch a.Kind {
	case "auto":
		if late {
			end += answers
		}
		if answers != "" {
			open = append(append([]string{}, open...), strings.Split(strings.TrimSuffix(answers, "\n"), "\n")...)
		}
	case "edit":
		args = append(args, "--no-sync")
	case "post":
		args = append(args, "--no-sync")
		steps = append([]step{sync}, steps...)
	default:
		args = append(args, "--no-sync")
		steps = append(append([]step{}, steps...), sync)
	}
	r, err := h.session(args, open, steps, end)
	if err != nil {
		return err
	}
	if (r.RC != 0) != (a.End == "interrupt") {
		return failf("exit status: %s", r.tail())
	}
	s.x.Logf("%s copy %d, %d changes, remotes %v: %q", a.Kind, i, len(L.Log), targets, r.Out)
	asked := strings.Contains(r.Out, "conflicts occurred")
	if asked && conf == 0 && roots == 0 && !preEdits && !late {
		return failf("conflicts are reported where there are none: %s", r.tail())
	}
	if !asked && conf+roots > 0 && !preEdits && !late {
		return failf("conflicts are not reported: %s", r.tail())
	}
	s.conflicts += conf
	s.roots += roots
	after := h.read(file)
	if a.End == "interrupt" {
		if !bytes.Equal(before, after) {
			return failf("the session was interrupted but the file changed")
		}
	}
	// the history of this copy: the merged one and what was done in the session
	check := func(got []txlogs.Tx) error {
		E := missingIn(got, unionSorted(logs...))
		for _, t := range E {
			if t.Time < r.Start.UnixNano() || t.Time > r.End.UnixNano() {
				return failf("a change was invented: %+v", t)
			}
		}
		if len(ops) == 0 {
			dupOK := map[string]bool{}
			for id, e := range stX {
				if dups[e["name"]] {
					dupOK[id] = true
				}
			}
			for _, t := range E {
				if !dupOK[t.UUID] && !late || t.Kind != txlogs.TxSetKey || t.Key != "name" && t.Key != "updated" {
					return failf("a session without edits made the change %+v", t)
				}
			}
		}
		want, _ := resolve(a.Restore, append(append([][]txlogs.Tx{}, logs...), E)...)
		return wrapErr(sameUpToTies(got, want))
	}
	var got *fstore
	if a.End != "interrupt" {
		if got, err = s.log(file, i); err != nil {
			return err
		}
		if _, err := got.byName(); err != nil {
			return err
		}
		if err := check(got.Log); err != nil {
			return failf("history of the copy: %v", err)
		}
		if len(dups) == 0 && !preEdits && !late {
			if err := fillGen(p.m).compare(got); err != nil {
				return failf("entries of the copy: %v", err)
			}
		}
		s.renames += len(dups)
		if late {
			s.renames++
		}
	}
	for q := range s.paths {
		b, st, err := s.remote(q)
		if err != nil {
			return failf("remote %q: %v", s.paths[q], err)
		}
		if !targets[q] {
			if !bytes.Equal(b, rb[q]) {
				return failf("the remote %q was changed, though it was not to be synchronised", s.paths[q])
			}
			continue
		}
		if st == nil {
			return failf("the missing remote %q was not created: %s", s.paths[q], r.tail())
		}
		if rb[q] == nil {
			if fi, err := os.Stat(h.path(s.paths[q])); err != nil || fi.Mode().Perm() != 0o600 {
				return failf("the remote %q was created with mode %v", s.paths[q], fi.Mode())
			}
		}
		if err := check(st.Log); err != nil {
			return failf("history of the remote %q: %v", s.paths[q], err)
		}
		if got == nil {
			continue
		}
		if a.Kind == "post" {
			if len(st.Log) > len(got.Log) || sameLog(st.Log, got.Log[:len(st.Log)]) != "" {
				return failf("the remote %q is not what the copy was when it synchronised", s.paths[q])
			}
		} else if d := sameLog(st.Log, got.Log); d != "" {
			return failf("the remote %q and the copy differ after synchronising: %s\n%s", s.paths[q], d, r.tail())
		}
	}
	if d := s.stray(); d != "" {
		return failf("the session left %s behind", d)
	}
	return nil
}

// singleSalt is the salt of a file without users.
func singleSalt(b []byte) []byte {
	if len(b) < 48 || string(b[12:16]) != "0000" {
		return nil
	}
	return b[16:48]
}

func wrapErr(d string) error {
	if d == "" {
		return nil
	}
	return failf("%s", d)
}

func (s *syncRun) stray() string {
	known := []string{"dir"}
	for i := range s.c.Copies {
		known = append(known, s.cfile(i))
	}
	for _, p := range s.paths {
		known = append(known, p)
	}
	if d := extraFiles(s.h, known...); d != "" {
		return d
	}
	es, err := os.ReadDir(s.h.path("dir"))
	must(err)
	for _, e := range es {
		if e.Name() != "r" {
			return "dir/" + e.Name()
		}
	}
	return ""
}

// addSync adds a sync entry by the command.
func (s *syncRun) addSync(i, r int) []step {
	var st []step
	p := s.c.Remotes[r]
	st = append(st, step{in: "addsync file\n" + p + "\n", what: "addsync " + p, check: func(seg string) error { return shows(seg, "added new sync entry") }})
	if r == s.c.Manual {
		st = append(st, step{in: "set sync/file1 sync false\n", what: "set sync false"})
	}
	return st
}

func fileURL(abs string) string {
	u := urlOf(abs)
	return u
}

func runM09(c m09, x *Ctx) error {
	h := newHome(x, "m09")
	defer h.done()
	must(os.Mkdir(h.path("dir"), 0o700))
	if len(c.Remotes) == 0 || len(c.Copies) == 0 || c.Copies[0] != "copy" {
		return nil
	}
	s := &syncRun{c: c, x: x, h: h}
	for _, r := range c.Remotes {
		p := filepath.Clean(r)
		if strings.HasPrefix(p, "..") || filepath.IsAbs(p) || p == "." {
			return nil
		}
		k := -1
		for j := range s.paths {
			if s.paths[j] == p {
				k = j
			}
		}
		if k < 0 {
			k = len(s.paths)
			s.paths = append(s.paths, p)
		}
		s.by = append(s.by, k)
	}
	var hist []hop
	for _, o := range c.Base.Hist {
		if o.Op != "add" && o.Op != "mv" || !strings.HasPrefix(o.V, "sync") && !strings.HasPrefix(o.V, "user") {
			hist = append(hist, o)
		}
	}
	s.c.Base.Hist = hist
	_, m, o := s.c.Base.write(h, s.cfile(0))
	_ = m
	// the sync entries
	var st []step
	for r := range c.Remotes {
		st = append(st, s.addSync(0, r)...)
	}
	r, err := h.session([]string{"--no-sync", "--no-clear-clip", "-f", s.cfile(0)}, o.lines, st, "exit\n")
	if err != nil {
		return err
	}
	if r.RC != 0 {
		return failf("adding sync entries: %s", r.tail())
	}
	base, err := s.log(s.cfile(0), 0)
	if err != nil {
		return err
	}
	n := 0
	for _, e := range base.State {
		if !strings.HasPrefix(e["name"], "sync/") {
			continue
		}
		n++
		ok := false
		for p := range s.paths {
			ok = ok || e["url"] == fileURL(h.path(s.paths[p]))
		}
		if !ok {
			return failf("the sync entry for one of %q has the url %q", c.Remotes, e["url"])
		}
	}
	if n != len(c.Remotes) {
		return failf("%d sync entries were added instead of %d", n, len(c.Remotes))
	}
	for i := 1; i < len(c.Copies); i++ {
		if c.Copies[i] == "copy" {
			must(os.WriteFile(h.path(s.cfile(i)), h.read(s.cfile(0)), 0o600))
			continue
		}
		st := append([]step{{in: fmt.Sprintf("add fresh%d\n\n\ny\n", i), what: "add"}}, s.addSync(i, 0)...)
		r, err := h.session([]string{"--no-sync", "--no-clear-clip", "-f", s.cfile(i)}, []string{c.Pass, c.Pass}, st, "exit\n")
		if err != nil {
			return err
		}
		if r.RC != 0 {
			return failf("creating another file: %s", r.tail())
		}
	}
	for k, a := range c.Acts {
		if err := s.act(a); err != nil {
			if isInfra(err) {
				return err
			}
			return failf("step %d (%s, copy %d): %v", k+1, a.Kind, a.C%len(c.Copies), err)
		}
	}
	// everybody synchronises until all have everything
	var all [][]txlogs.Tx
	for i := range c.Copies {
		f, err := s.log(s.cfile(i), i)
		if err != nil {
			return err
		}
		all = append(all, f.Log)
	}
	auto := map[int]bool{}
	for i := range c.Copies {
		f, _ := s.log(s.cfile(i), i)
		for p := range s.autos(f.State, "") {
			auto[p] = true
		}
	}
	for p := range s.paths {
		_, f, err := s.remote(p)
		if err != nil {
			return err
		}
		if f != nil && auto[p] {
			all = append(all, f.Log)
		}
	}
	for round := 0; round < 3; round++ {
		for _, i := range c.Final {
			if i >= len(c.Copies) {
				continue
			}
			if err := s.act(syncAct{Kind: "auto", C: i, Restore: c.Restore, End: "exit"}); err != nil {
				if isInfra(err) {
					return err
				}
				return failf("final round %d, copy %d: %v", round+1, i, err)
			}
		}
	}
	want, _ := resolve(c.Restore, all...)
	stW, _ := refReplay(want)
	f0, err := s.log(s.cfile(0), 0)
	if err != nil {
		return err
	}
	// entries of the same name may have been renamed on the way
	E := missingIn(f0.Log, unionSorted(all...))
	for _, t := range E {
		if t.Kind != txlogs.TxSetKey || t.Key != "name" && t.Key != "updated" {
			return failf("synchronising made the change %+v", t)
		}
	}
	if len(E) > 0 && len(dupNames(stW)) == 0 && s.renames == 0 {
		return failf("synchronising made the changes %+v", E)
	}
	want, _ = resolve(c.Restore, append(all, E)...)
	if d := sameUpToTies(f0.Log, want); d != "" {
		return failf("in the end the history is not the union of all copies' changes: %s", d)
	}
	for i := 1; i < len(c.Copies); i++ {
		f, err := s.log(s.cfile(i), i)
		if err != nil {
			return err
		}
		if d := sameLog(f.Log, f0.Log); d != "" {
			return failf("in the end the copies 0 and %d differ: %s", i, d)
		}
	}
	for p := range s.paths {
		if !auto[p] {
			continue
		}
		_, f, err := s.remote(p)
		if err != nil {
			return err
		}
		if d := sameLog(f.Log, f0.Log); d != "" {
			return failf("in the end the remote %q differs from the copies: %s", s.paths[p], d)
		}
	}
	if s.diverged > 0 {
		x.NonTrivial()
	}
	x.LabelIf(s.conflicts > 0, "conflicts")
	x.LabelIf(s.renames > 0, "renamed duplicates")
	x.LabelIf(s.roots > 0, "unrelated histories merged")
	x.LabelIf(len(s.paths) > 1, "several remotes")
	x.LabelIf(len(s.paths) < len(c.Remotes), "one remote twice")
	x.LabelIf(c.Base.Multi, "multi-user")
	return nil
}

func init() {
	part("M09", "copies", 700, 12000,
		"2..3 copies (or files made separately) of a generated database with 1..2 file remotes, 2..9 sessions with edits and synchronisation at start and end, by command, or not at all, then rounds of synchronisation; every history is decrypted and compared with a reference merge; non-trivial: some copy and a remote both had changes the other lacked",
		genM09, runM09)
}

func urlOf(abs string) string {
	u := url.URL{Scheme: "file", Path: abs}
	return u.String()
}

func sortStrings(s []string) { sort.Strings(s) }
