package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M09: remotes that other copies move, switch off or remove

type mvChange struct {
	S  int    // the sync entry
	To string // what another copy made of it
	N  int
}

type m09mv struct {
	Changes []mvChange
	There   []string // what is at the new places: db, missing, junk, otherpass, behind
	Split   bool     // the changes come from two remotes
	How     string   // auto, cmd
	Edit    bool
	End     string
	Multi   bool
}

func genM09mv(t *rapid.T) m09mv {
	c := m09mv{
		Changes: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mvChange {
			return mvChange{
				S:  rapid.IntRange(0, 1).Draw(t, "s"),
				To: rapid.SampledFrom([]string{"new", "new", "new", "other remote", "no url", "removed", "off", "renamed", "field", "bad url", "back"}).Draw(t, "to"),
				N:  rapid.IntRange(0, 5).Draw(t, "n"),
			}
		}), 1, 3).Draw(t, "changes"),
		There: rapid.SliceOfN(rapid.SampledFrom([]string{"db", "db", "db", "missing", "junk", "otherpass", "behind"}), 2, 2).Draw(t, "there"),
		Split: rapid.Bool().Draw(t, "split"),
		How:   rapid.SampledFrom([]string{"auto", "auto", "cmd"}).Draw(t, "how"),
		Edit:  rapid.Bool().Draw(t, "edit"),
		End:   rapid.SampledFrom([]string{"exit", "exit", "eof"}).Draw(t, "end"),
		Multi: rapid.IntRange(0, 4).Draw(t, "multi") == 2,
	}
	return c
}

func mvUUID(i int) string { return fmt.Sprintf("00000000-0000-4000-8000-0000000003%02d", i) }

func runM09mv(c m09mv, x *Ctx) error {
	h := newHome(x, "m09mv")
	defer h.done()
	var users []refUser
	open, user := []string{"the pass"}, []byte(nil)
	if c.Multi {
		users = twoUsers()
		open, user = []string{"u0", "the pass"}, []byte("u0")
	}
	base := addTx(multiLog(users, h, "db"), 1, "first", 1600000050e9)
	at := int64(1600000100e9)
	set := func(l *[]txlogs.Tx, kind, id, k, v string) {
		at++
		*l = append(*l, txlogs.Tx{Time: at, Kind: txlogs.TxKind(kind), UUID: id, Key: k, Value: v})
	}
	// two remotes, and a third that brings news of the others
	places := []string{"r0", "r1", "news", "n0", "n1"}
	for i, p := range places[:3] {
		id := mvUUID(i)
		set(&base, "add", id, "", "")
		set(&base, "setk", id, "updated", fmt.Sprint(at))
		set(&base, "setk", id, "name", "sync/s"+fmt.Sprint(i))
		set(&base, "setk", id, "sync", "true")
		set(&base, "setk", id, "url", fileURL(h.path(p)))
	}
	at += 1000e9
	logs := map[string][]txlogs.Tx{}
	for i, p := range []string{"db", "r0", "r1", "news", "n0", "n1"} {
		logs[p] = addTx(base, 50+i, "of "+p, 1600050000e9+int64(i)*10)
	}
	at += 100000e9
	now := map[int]string{0: "r0", 1: "r1", 2: "news"} // where the entries lead in the end
	gone := map[int]bool{}
	moved := 0
	for i, ch := range c.Changes {
		s := ch.S & 1
		if gone[s] {
			continue
		}
		l := logs["news"]
		if c.Split && i%2 == 1 {
			l = logs["r"+fmt.Sprint(1-s)] // the other remote knows
		}
		id := mvUUID(s)
		to := ""
		switch ch.To {
		case "new":
			to = "n" + fmt.Sprint(ch.N%2)
			moved++
		case "other remote":
			to = []string{"r0", "r1"}[1-s]
			moved++
		case "back":
			to = []string{"r0", "r1"}[s]
		case "no url":
			set(&l, "delk", id, "url", "")
			now[s] = ""
		case "bad url":
			set(&l, "setk", id, "url", []string{"", "::", "gopher://x/y", "file:", "x", "%"}[ch.N%6])
			now[s] = ""
		case "removed":
			set(&l, "del", id, "", "")
			now[s] = ""
			gone[s] = true
		case "off":
			set(&l, "setk", id, "sync", "false")
			now[s] = ""
		case "renamed":
			set(&l, "setk", id, "name", fmt.Sprintf("sync/elsewhere%d", i))
		case "field":
			set(&l, "setk", id, []string{"notes", "user", "labels", "pass", "knownhosts", "email"}[ch.N%6], "changed")
		}
		if to != "" {
			set(&l, "setk", id, "url", fileURL(h.path(to)))
			if now[s] == "" {
				set(&l, "setk", id, "sync", "true")
			}
			now[s] = to
		}
		if c.Split && i%2 == 1 {
			logs["r"+fmt.Sprint(1-s)] = l
		} else {
			logs["news"] = l
		}
	}
	there := map[string]string{"db": "db", "r0": "db", "r1": "db", "news": "db", "n0": c.There[0], "n1": c.There[1]}
	for p, kind := range there {
		switch kind {
		case "db":
			must(os.WriteFile(h.path(p), sharedKeys(users, p, logs[p]), 0o600))
		case "behind":
			logs[p] = base
			must(os.WriteFile(h.path(p), sharedKeys(users, p, base), 0o600))
		case "junk":
			must(os.WriteFile(h.path(p), expand([]byte(p), 77), 0o600))
		case "otherpass":
			h.writeDB(p, "another", nil, storeJSON(logs[p], 0))
		}
		if kind != "db" && kind != "behind" {
			delete(logs, p)
		}
	}
	before := map[string][]byte{}
	for p := range there {
		before[p] = h.read(p)
	}
	logOf := func(p string) ([]txlogs.Tx, error) {
		st, err := openFile(h.path(p), user, []byte("the pass"))
		if err != nil {
			return nil, fmt.Errorf("%s: %w", p, err)
		}
		return st.Log, nil
	}
	// nothing is lost anywhere
	kept := func(r *runRes, what string) error {
		if r.RC != 0 {
			return failf("%s does not end normally: %s", what, r.tail())
		}
		for p, kind := range there {
			if kind == "junk" || kind == "otherpass" {
				if !bytes.Equal(h.read(p), before[p]) {
					return failf("%s: %s, which could not be read, is overwritten: %s", what, p, r.tail())
				}
				continue
			}
			if logs[p] == nil && h.read(p) == nil {
				continue
			}
			l, err := logOf(p)
			if err != nil {
				return err
			}
			if miss := missingIn(logs[p], l); len(miss) > 0 {
				return failf("%s: changes in %s are lost: %+v (%s)", what, p, miss, r.tail())
			}
			logs[p] = l
		}
		return nil
	}
	X := unionSorted(logs["db"], logs["r0"], logs["r1"], logs["news"])

	// a dialogue for each file of another passphrase
	ask := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += "wrong\n\n"
		}
		return s
	}
	closed := func() (n int) {
		for _, p := range now {
			if there[p] == "otherpass" {
				n++
			}
		}
		return n // surplus answers are commands that do not exist
	}
	end := endInput(c.End)
	args := []string{"--no-clear-clip", "-f", "db"}
	var steps []step
	if c.How == "cmd" {
		args = append(args, "--no-sync")
		steps = append(steps, step{in: "sync\n", what: "sync"})
	}
	if c.Edit {
		steps = append(steps, step{in: "set first note edited\n", what: "set"})
		if c.How == "auto" {
			if n := closed(); n > 0 {
				end = "exit\n" + ask(n)
			}
		}
	}
	r, err := h.session(args, open, steps, end)
	if err != nil {
		return err
	}
	if err := kept(r, "the first synchronisation"); err != nil {
		return err
	}
	if miss := missingIn(X, logs["db"]); len(miss) > 0 {
		return failf("the first synchronisation did not bring everything: %+v (%s)", miss, r.tail())
	}
	if c.How == "auto" {
		if d := sameLog(logs["news"], logs["db"]); d != "" {
			return failf("the remote that is where it was did not get everything: %s (%s)", d, r.tail())
		}
	}

	// now the remotes are where they have been moved
	X = logs["db"]
	for _, p := range now {
		X = unionSorted(X, logs[p])
	}
	r, err = h.session([]string{"--no-clear-clip", "--no-sync", "-f", "db"}, open, []step{{in: "sync\n" + ask(closed()), what: "sync"}}, "exit\n")
	if err != nil {
		return err
	}
	if err := kept(r, "the second synchronisation"); err != nil {
		return err
	}
	if d := sameUpToTies(logs["db"], X); d != "" {
		return failf("the second synchronisation made %s (%s)", d, r.tail())
	}
	for s, p := range now {
		if p == "" || there[p] == "junk" || there[p] == "otherpass" {
			continue
		}
		if d := sameLog(logs[p], logs["db"]); d != "" {
			return failf("the remote %d, now %s, is not up to date: %s (%s)", s, p, d, r.tail())
		}
	}
	if moved > 0 {
		x.NonTrivial()
	}
	for _, ch := range c.Changes {
		x.Label(ch.To)
	}
	return nil
}

func init() {
	part("M09", "moved", 1200, 20000,
		"a copy with three file remotes synchronises; what it pulls moves the other remotes to new places or to each other's, changes, switches off or removes them, where there may be databases with changes of their own, junk or nothing; no file loses anything, and a second synchronisation makes all of them equal; non-trivial: some remote is moved",
		genM09mv, runM09mv)
}
