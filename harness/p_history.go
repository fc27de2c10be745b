package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- prepared databases

// hop is one change of a prepared history.
type hop struct {
	Op string // add set rmk rm mv
	E  int
	K  string
	V  string
	Dt int64 // nanoseconds since the change before
}

func genHops(t *rapid.T, max int) []hop {
	return genSlice(t, "hist", min(4, max), max, rapid.Custom(func(t *rapid.T) hop {
		o := hop{Op: rapid.SampledFrom([]string{"add", "add", "set", "set", "set", "set", "rmk", "rm", "mv"}).Draw(t, "hop")}
		o.E = rapid.IntRange(0, 7).Draw(t, "e")
		o.K = rapid.SampledFrom([]string{"user", "email", "url", "notes", "labels", "pass", "pin", "é", "k.1", "sync"}).Draw(t, "k")
		o.V = genLine(t, "v")
		switch rapid.IntRange(0, 5).Draw(t, "vkind") {
		case 0:
			o.V = rapid.SampledFrom([]string{"l1\nl2", "a,b,c", "a\n\n b\n", ",", "a\"b\nc,d", "\n", " x", "", "A,b", "\u2028"}).Draw(t, "vs")
		}
		if o.Op == "add" || o.Op == "mv" {
			o.V = genEntryName(t, "n")
		}
		o.Dt = rapid.SampledFrom([]int64{1, 1000, 400_000_000, 1_000_000_000, 1_000_000_000, 61_000_000_000, 3_600_000_000_000, 86_400_000_000_000}).Draw(t, "dt")
		return o
	}))
}

// buildHist turns the changes into a log. Every change also sets the updated time, as the program does.
func buildHist(ops []hop, start int64) []txlogs.Tx {
	var log []txlogs.Tx
	now := start
	tx := func(id string, kind txlogs.TxKind, k, v string) {
		now++
		log = append(log, txlogs.Tx{Time: now, Kind: kind, UUID: id, Key: k, Value: v})
	}
	st := rstate{}
	apply := func(n int) {
		for _, t := range log[n:] {
			if !refApply(st, t) {
				panic(infraError{"buildHist: bad log"})
			}
		}
	}
	var live []string
	taken := func(n string) bool {
		for _, e := range st {
			if e["name"] == n {
				return true
			}
		}
		return false
	}
	for i, o := range ops {
		now += o.Dt
		n := len(log)
		if o.Op == "add" {
			if !okName(o.V) || taken(o.V) {
				continue
			}
			id := fmt.Sprintf("%08x-0000-4000-8000-%012x", i*2654435761%0xffffffff, i)
			tx(id, "add", "", "")
			tx(id, "setk", "name", o.V)
			tx(id, "setk", "updated", fmt.Sprint(now))
			live = append(live, id)
			apply(n)
			continue
		}
		if len(live) == 0 {
			continue
		}
		x := o.E % len(live)
		id := live[x]
		switch o.Op {
		case "set":
			if o.K == "sync" && o.V == "true" {
				continue
			}
			tx(id, "setk", o.K, o.V)
		case "rmk":
			if _, ok := st[id][o.K]; !ok {
				continue
			}
			tx(id, "delk", o.K, "")
		case "mv":
			if !okName(o.V) || taken(o.V) {
				continue
			}
			tx(id, "setk", "name", o.V)
		case "rm":
			tx(id, "del", "", "")
			live = append(live[:x:x], live[x+1:]...)
		}
		if o.Op != "rm" {
			tx(id, "setk", "updated", fmt.Sprint(now))
		}
		apply(n)
	}
	return log
}

// storeJSON serialises a log with a snapshot of its first version changes.
func storeJSON(log []txlogs.Tx, version int) []byte {
	st, ok := refReplay(log[:version])
	if !ok {
		panic(infraError{"storeJSON: bad log"})
	}
	if len(log) == 0 {
		return []byte("{}")
	}
	o := map[string]any{"log": log}
	if version > 0 {
		o["version"] = version
		o["snapshot"] = st
	}
	b, err := json.Marshal(o)
	must(err)
	return b
}

// stateModel is a model of the entries in a state; ok is false if some have no name.
func stateModel(st rstate) (m *mstore, ok bool) {
	m, ok = &mstore{}, true
	for _, id := range sortedKeys(st) {
		e := st[id]
		n, has := e["name"]
		if !has {
			ok = false
			continue
		}
		x := m.add(n)
		for k, v := range e {
			if k != "name" && k != "updated" {
				x.F[k] = v
			}
		}
	}
	return m, ok
}

func masterOf(name string) []byte { return expand([]byte("master"+name), 80) }

// writeDB writes an encrypted database.
func (h *Home) writeDB(name string, pass string, users []refUser, pt []byte) {
	salt, iv := expand([]byte("salt"+name), 32), expand([]byte("iv"+name), 40)
	f := refEncryptSingle([]byte(pass), salt, iv, pt)
	if len(users) > 0 {
		f = refEncryptMulti(users, masterOf(name), iv, pt)
	}
	must(os.WriteFile(h.path(name), f, 0o600))
}

// tree is everything in the home directory except the stand-ins' files.
func (h *Home) tree(skip ...string) map[string]string {
	out := map[string]string{}
	var walk func(d string)
	walk = func(d string) {
		es, err := os.ReadDir(h.path(d))
		must(err)
	next:
		for _, e := range es {
			p := d + "/" + e.Name()
			for _, s := range append(skip, "bin", "fake") {
				if p == "./"+s {
					continue next
				}
			}
			fi, err := os.Lstat(h.path(p))
			must(err)
			if e.IsDir() {
				out[p] = "dir"
				walk(p)
				continue
			}
			b, err := os.ReadFile(h.path(p))
			must(err)
			out[p] = fmt.Sprintf("%v %v %x", fi.Mode(), fi.ModTime().UnixNano(), h64(b))
		}
	}
	walk(".")
	return out
}

func diffTree(a, b map[string]string) string {
	for _, p := range sortedKeys(a) {
		if _, ok := b[p]; !ok {
			return p + " was removed"
		}
		if a[p] != b[p] {
			return p + " was changed"
		}
	}
	for _, p := range sortedKeys(b) {
		if _, ok := a[p]; !ok {
			return p + " was created"
		}
	}
	return ""
}

// ---------------------------------------------------------------- M04

type m04 struct {
	Hist    []hop
	Start   int64 // seconds
	Frac    int64 // nanoseconds
	Snap    int   // how much of the log the stored snapshot covers (percent)
	At      int   // which change
	Off     int64 // seconds around it
	Users   int
	Ops     []sop
	Sync    bool // a sync entry is in the store
	NoSync  bool
	Remote  bool
	End     string
	Missing bool
}

var writeCmds = []string{"adduser x", "passwd", "rekey", "rekeyall", "sync", "sync s", "addsync file", "addsync scp", "edit %s notes", "login %s", "rmlabel %s a", "passwd u0", "rm %s", "mv %s zz9", "set %s notes v", "set %s notes", "set %s pass", "label %s", "add nn"}

func genM04(t *rapid.T) m04 {
	c := m04{Hist: genHops(t, 24)}
	c.Start = rapid.SampledFrom([]int64{1577836799, 1600000000, 4102444800, 86400, 951782400}).Draw(t, "start")
	c.Frac = rapid.SampledFrom([]int64{0, 1, 500_000_000, 999_999_999, 999_999_990}).Draw(t, "frac")
	c.Snap = rapid.SampledFrom([]int{0, 50, 100, 100}).Draw(t, "snap")
	c.At = rapid.IntRange(0, 90).Draw(t, "at")
	c.Off = rapid.SampledFrom([]int64{0, 0, 0, 1, -1, 2, 3600, -3600, 86400 * 400, -86400 * 400}).Draw(t, "off")
	c.Users = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "users")
	var pool []string
	for _, o := range c.Hist {
		if o.Op == "add" || o.Op == "mv" {
			pool = append(pool, o.V)
		}
	}
	pool = append(pool, "a", "mail")
	c.Ops = genSlice(t, "ops", 2, 20, rapid.Custom(func(t *rapid.T) sop {
		switch rapid.IntRange(0, 5).Draw(t, "w") {
		case 0, 1, 2:
			return genSopOf(t, pool, readOps)
		case 3:
			s := rapid.SampledFrom(writeCmds).Draw(t, "wcmd")
			if strings.Contains(s, "%s") {
				s = fmt.Sprintf(s, rapid.SampledFrom(pool).Draw(t, "wname"))
			}
			return sop{Op: "raw", V: s}
		}
		return genSop(t, pool)
	}))
	c.Sync = rapid.Bool().Draw(t, "sync")
	c.NoSync = rapid.Bool().Draw(t, "nosync")
	c.Remote = rapid.Bool().Draw(t, "remote")
	c.End = rapid.SampledFrom([]string{"exit", "exit", "eof", "interrupt"}).Draw(t, "end")
	c.Missing = rapid.IntRange(0, 19).Draw(t, "missing") == 0
	return c
}

func runM04(c m04, x *Ctx) error {
	h := newHome(x, "m04")
	defer h.done()
	curGen = genVals{}
	log := buildHist(c.Hist, c.Start*1e9+c.Frac)
	if c.Sync {
		now := c.Start*1e9 - 10
		id := "ffffffff-0000-4000-8000-000000000000"
		pre := []txlogs.Tx{{Time: now, Kind: "add", UUID: id}}
		for _, kv := range [][2]string{{"name", "s"}, {"url", "file://" + h.path("remote")}, {"sync", "true"}} {
			now++
			pre = append(pre, txlogs.Tx{Time: now, Kind: "setk", UUID: id, Key: kv[0], Value: kv[1]})
		}
		names := map[string]bool{}
		for _, tx := range log {
			if tx.Key == "name" {
				names[tx.Value] = true
			}
		}
		if !names["s"] {
			log = append(pre, log...)
		}
	}
	var users []refUser
	open := []string{"the pass"}
	for i := 0; i < c.Users; i++ {
		n := fmt.Sprintf("u%d", i)
		users = append(users, refUser{[]byte(n), []byte("pass " + n), expand([]byte("s"+n), 32), expand([]byte("i"+n), 40)})
		open = []string{n, "pass " + n}
	}
	h.writeDB("db", "the pass", users, storeJSON(log, len(log)*c.Snap/100))
	if c.Remote {
		h.writeDB("remote", "the pass", users, storeJSON(log, 0))
	}
	at := time.Unix(c.Start+c.Off, 0).UTC()
	if len(log) > 0 {
		at = time.Unix(log[c.At%len(log)].Time/1e9+c.Off, 0).UTC()
	}
	if at.Year() < 1970 || at.Year() > 9000 {
		return nil
	}
	n := 0
	for n < len(log) && log[n].Time <= at.UnixNano() {
		n++
	}
	want, ok := refReplay(log[:n])
	if !ok {
		return infra("bad log")
	}
	m, named := stateModel(want) // entries are there as soon as they have a name
	m.cut = true
	file := "db"
	if c.Missing {
		file, m, want, n, named = "nodb", &mstore{}, rstate{}, 0, true
		open = []string{"q", "q"}
	}
	for id, e := range want {
		if _, ok := e["name"]; !ok {
			delete(want, id)
		}
	}
	p := &planner{m: m, x: x, start: time.Now(), readOnly: true}
	exact := func(seg string) error {
		st, err := parseStoreAt([]byte(seg), true)
		if err != nil {
			return err
		}
		if d := sameLog(st.Log, log[:n]); d != "" {
			return failf("the history at %v: %s", at, d)
		}
		got := map[string]txlogs.Entry{}
		for k, v := range st.Snapshot {
			got[k] = v
		}
		if d := sameState(got, want); d != "" {
			return failf("the state at %v: %s", at, d)
		}
		return nil
	}
	p.step("dumpall", "dumpall\n", exact)
	x.LabelIf(!named, "an entry has no name yet")
	{
		for _, o := range c.Ops {
			if o.Op == "raw" {
				if p.ctx == nil {
					p.step(o.V, cleanText(o.V)+"\n", nil)
				}
				continue
			}
			p.do(o)
		}
	}
	p.step("dumpall", "dumpall\n", exact)
	before := h.tree()
	args := []string{"-f", file, "-t", at.Format("2006-01-02 15:04:05")}
	if c.NoSync {
		args = append(args, "--no-sync")
	}
	r, err := h.session(args, open, p.steps, endInput(c.End), "EDITOR=true")
	if err != nil {
		if isInfra(err) {
			return err
		}
		return failf("opened at %v (%d of %d changes): %v", at, n, len(log), err)
	}
	if (r.RC == 0) != (c.End != "interrupt") {
		return failf("ended by %s: %s", c.End, r.tail())
	}
	if d := diffTree(before, h.tree()); d != "" {
		return failf("a session at a point in time is read-only, but %s", d)
	}
	if n > 0 && n < len(log) {
		x.NonTrivial()
	}
	x.LabelIf(c.Sync && !c.NoSync, "with a sync entry")
	x.LabelIf(p.reads > 3, "more than 3 reads")
	x.LabelIf(c.Users > 0, "multi-user")
	x.LabelIf(c.Missing, "no such file")
	return nil
}

func init() {
	part("M04", "timetravel", 3000, 80000,
		"a generated history of up to 24 changes (entries added, changed, renamed, deleted; times from nanoseconds to days apart; any stored snapshot; single- and multi-user; sync entries), opened at the second of one of its changes or around it, with up to 14 reading and writing commands; dumpall must be exactly the replay of the changes up to that time, all files stay byte for byte the same; non-trivial: the time is inside the history",
		genM04, runM04)
}

var _ = bytes.Equal
var _ = strconv.Itoa
