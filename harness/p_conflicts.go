package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M09: every conflict is resolved as it was answered

type cfOp struct {
	Side int // 0 here, 1 in the remote
	E    int
	Kind string // del, set, new, delk; clash: deleted here, set on the other side
	N    int
	V    int // kind of the value
}

// cfVals are values that a conflict is shown with
var cfVals = []string{"v%d", "v%d", "http://u:p@h/%d", "::%d", "%%zz%d", "http://[%d", "a\nb %d", "", "é\x1b[3%dm", "http://@/%d", "%%!s(%%d)%d", "\x7f%d", "otpauth://x:y@z/%d"}

func (o cfOp) value(i int) string {
	f := cfVals[o.V%len(cfVals)]
	if !strings.Contains(f, "%") {
		return f
	}
	return fmt.Sprintf(f, i)
}

type m09cf struct {
	Entries int
	Ops     []cfOp   // in the order of time
	Answers []string // one after another
	Cmd     bool
	Multi   bool
	After   int // a copy that has only the beginning synchronises, too, or the one that the remote came from
}

func genM09cf(t *rapid.T) m09cf {
	c := m09cf{Entries: rapid.IntRange(1, 6).Draw(t, "entries"), Cmd: rapid.Bool().Draw(t, "cmd"), Multi: rapid.IntRange(0, 5).Draw(t, "multi") == 3, After: rapid.IntRange(0, 2).Draw(t, "after")}
	c.Ops = genSlice(t, "ops", 2, 24, rapid.Custom(func(t *rapid.T) cfOp {
		return cfOp{Side: rapid.IntRange(0, 1).Draw(t, "side"), E: rapid.IntRange(0, c.Entries-1).Draw(t, "e"), Kind: rapid.SampledFrom([]string{"clash", "clash", "clash", "del", "set", "set", "new", "delk"}).Draw(t, "kind"), N: rapid.IntRange(0, 3).Draw(t, "n"), V: rapid.IntRange(0, len(cfVals)-1).Draw(t, "v")}
	}))
	c.Answers = rapid.SliceOfN(rapid.SampledFrom([]string{"r", "r", "R", "d", "d", "D", "x", "rd", "", "restore", "no"}), 0, 24).Draw(t, "answers")
	return c
}

var deletedAt = regexp.MustCompile(`(?m)entry "([^"]*)" was deleted at`)

func runM09cf(c m09cf, x *Ctx) error {
	h := newHome(x, "m09cf")
	defer h.done()
	var users []refUser
	open, user := []string{"the pass"}, []byte(nil)
	if c.Multi {
		users = twoUsers()
		open, user = []string{"u0", "the pass"}, []byte("u0")
	}
	at := int64(1600000100e9)
	base := multiLog(users, h, "db")
	put := func(l *[]txlogs.Tx, kind, id, k, v string) {
		at += 1e9 + 1
		*l = append(*l, txlogs.Tx{Time: at, Kind: txlogs.TxKind(kind), UUID: id, Key: k, Value: v})
	}
	entry := func(id string, kv ...string) {
		put(&base, "add", id, "", "")
		put(&base, "setk", id, "updated", fmt.Sprint(at))
		for i := 0; i < len(kv); i += 2 {
			put(&base, "setk", id, kv[i], kv[i+1])
		}
	}
	entry(mvUUID(90), "name", "sync/file", "sync", "true", "url", fileURL(h.path("r")))
	for i := 0; i < c.Entries; i++ {
		entry(mvUUID(i), "name", fmt.Sprintf("e%d", i), "a", "1", "pass", "p", "url", "http://e/")
	}
	logs := [2][]txlogs.Tx{copyLog(base), copyLog(base)}
	dead := [2]map[string]bool{{}, {}}
	has := func(l []txlogs.Tx, id, k string) bool {
		_, ok := refState(l)[id][k]
		return ok
	}
	for i, o := range c.Ops {
		s, id := o.Side&1, mvUUID(o.E)
		if dead[s][id] {
			continue
		}
		key := []string{"a", "pass", "url", "labels"}[o.N&3]
		switch o.Kind {
		case "clash":
			if dead[1-s][id] {
				continue
			}
			put(&logs[s], "del", id, "", "")
			dead[s][id] = true
			put(&logs[1-s], "setk", id, key, o.value(i))
		case "del":
			put(&logs[s], "del", id, "", "")
			dead[s][id] = true
		case "set":
			put(&logs[s], "setk", id, key, o.value(i))
		case "new":
			put(&logs[s], "setk", id, fmt.Sprintf("k%d", i), "new")
		case "delk":
			if has(logs[s], id, key) {
				put(&logs[s], "delk", id, key, "")
			}
		}
	}
	files := map[string][]txlogs.Tx{"db": logs[0], "r": logs[1], "third": base}
	if c.After == 2 {
		files["third"] = logs[1]
	}
	for p, l := range files {
		must(os.WriteFile(h.path(p), sharedKeys(users, p, l), 0o600))
	}
	// afterwards everything is restored
	answers := append(append([]string{}, c.Answers...), repeated("r", 2*len(c.Ops)+2)...)
	in := strings.Join(answers, "\n") + "\n"
	args := []string{"--no-clear-clip", "-f", "db"}
	var steps []step
	if c.Cmd {
		args = append(args, "--no-sync")
		steps = []step{{in: "sync\n" + in, what: "sync"}}
	} else {
		open = append(append([]string{}, open...), answers...)
	}
	// answers that are left over are no commands
	r, err := h.session(args, open, steps, "exit\n")
	if err != nil {
		return err
	}
	if r.RC != 0 {
		return failf("the session does not end normally: %s", r.tail())
	}
	// what was asked, in rounds, and what the answers mean
	asked := deletedAt.FindAllStringSubmatch(r.Out, -1)
	u := unionSorted(logs[:]...)
	said := map[txlogs.Tx]string{}
	var want []txlogs.Tx
	n := 0
	kinds := map[string]bool{}
	for round := 0; ; round++ {
		o, conf := refMerge(u, said)
		if len(conf) == 0 {
			want = o
			break
		}
		if len(asked) < len(conf) {
			return failf("round %d: %d conflicts, %d are put to the user: %s", round, len(conf), len(asked), r.tail())
		}
		for _, m := range asked[:len(conf)] {
			var d txlogs.Tx
			for tx := range conf {
				if tx.UUID == m[1] {
					d = tx
				}
			}
			if d.UUID == "" {
				return failf("round %d: a conflict of %s is put to the user; there are %v", round, m[1], conf)
			}
			if said[d] != "" {
				return failf("round %d: the conflict of %s is put to the user twice", round, m[1])
			}
			for said[d] == "" {
				switch answers[n] {
				case "r", "R":
					said[d] = "restore"
				case "d", "D":
					said[d] = "delete"
				}
				n++
			}
			kinds[said[d]] = true
		}
		asked = asked[len(conf):]
	}
	if len(asked) > 0 {
		return failf("%d more conflicts are put to the user: %v", len(asked), asked)
	}
	check := func(p string, r *runRes) error {
		st, err := openFile(h.path(p), user, []byte("the pass"))
		if err != nil {
			return failf("%s: %v (%s)", p, err, r.tail())
		}
		if d := sameUpToTies(st.Log, want); d != "" {
			return failf("%s, after the answers %q: %s (%s)", p, answers[:n], d, r.tail())
		}
		return nil
	}
	if err := check("db", r); err != nil {
		return err
	}
	if err := check("r", r); err != nil {
		return err
	}
	// it is settled for all copies that have nothing of their own
	who := "db"
	if c.After == 1 {
		who = "third"
	}
	if c.After < 2 {
		op := []string{"the pass"}
		if c.Multi {
			op = []string{"u0", "the pass"}
		}
		r, err := h.session([]string{"--no-clear-clip", "-f", who}, op, nil, "exit\n")
		if err != nil {
			return err
		}
		if r.RC != 0 || len(deletedAt.FindAllString(r.Out, -1)) != 0 {
			return failf("%s, synchronised afterwards: %s", who, r.tail())
		}
		if err := check(who, r); err != nil {
			return err
		}
		if err := check("r", r); err != nil {
			return err
		}
	}
	if len(said) > 1 {
		x.NonTrivial()
	}
	x.LabelIf(len(kinds) > 1, "different answers")
	x.LabelIf(len(said) == 0, "no conflict")
	return nil
}

// sharedKeys encrypts a copy that has the keys of the others.
func sharedKeys(users []refUser, iv string, l []txlogs.Tx) []byte {
	if len(users) > 0 {
		return refEncryptMulti(users, masterOf("db"), expand([]byte("iv"+iv), 40), storeJSON(l, 0))
	}
	return refEncryptSingle([]byte("the pass"), expand([]byte("saltdb"), 32), expand([]byte("iv"+iv), 40), storeJSON(l, 0))
}

func repeated(s string, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = s
	}
	return out
}

func init() {
	part("M09", "conflicts", 1500, 25000,
		"a copy and a remote delete and change 1..6 entries in a generated order; every conflict gets an answer of its own (restore, delete, or words that are neither); the histories of both are the reference merge under exactly these answers, and nothing is asked again; non-trivial: at least two conflicts",
		genM09cf, runM09cf)
}
