package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- reference replay

type rstate map[string]map[string]string

func (s rstate) clone() rstate {
	o := rstate{}
	for u, e := range s {
		m := map[string]string{}
		for k, v := range e {
			m[k] = v
		}
		o[u] = m
	}
	return o
}

// refApply replays one change on a plain map; false if it cannot be replayed.
func refApply(s rstate, tx txlogs.Tx) bool {
	e, live := s[tx.UUID]
	switch tx.Kind {
	case "add":
		if live {
			return false
		}
		s[tx.UUID] = map[string]string{}
	case "del":
		if !live {
			return false
		}
		delete(s, tx.UUID)
	case "setk":
		if !live {
			return false
		}
		e[tx.Key] = tx.Value
	case "delk":
		if !live {
			return false
		}
		delete(e, tx.Key)
	}
	return true
}

func refReplay(log []txlogs.Tx) (rstate, bool) {
	s := rstate{}
	for _, tx := range log {
		if !refApply(s, tx) {
			return s, false
		}
	}
	return s, true
}

func sameState(got map[string]txlogs.Entry, want rstate) string {
	for u, e := range want {
		g, ok := got[u]
		if !ok {
			return fmt.Sprintf("entry %s is missing", u)
		}
		for k, v := range e {
			if gv, ok := g[k]; !ok || gv != v {
				return fmt.Sprintf("entry %s key %q: %q (present %v), want %q", u, k, gv, ok, v)
			}
		}
		for k := range g {
			if _, ok := e[k]; !ok {
				return fmt.Sprintf("entry %s has the extra key %q", u, k)
			}
		}
	}
	for u := range got {
		if _, ok := want[u]; !ok {
			return fmt.Sprintf("extra entry %s", u)
		}
	}
	return ""
}

func copyLog(l []txlogs.Tx) []txlogs.Tx { return append([]txlogs.Tx{}, l...) }

func sameLog(a, b []txlogs.Tx) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("change %d is %+v, want %+v", i, a[i], b[i])
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d changes, want %d", len(a), len(b))
	}
	return ""
}

// ---------------------------------------------------------------- texts

var keyPool = []string{"user", "pass", "name", "labels", "a", "B", "", "url", "updated", "ключ", "k\"ey", "sync"}

func genKey(t *rapid.T, name string) string {
	if rapid.IntRange(0, 3).Draw(t, name+"Kind") == 0 {
		return genText(t, name, 30)
	}
	return rapid.SampledFrom(keyPool).Draw(t, name)
}

var specials = []string{"\u2028", "\u2029", "<script>&", "\x00", "\\", "\"", "\u007f", "\t", "\r\n", "😀", "\ufffd", "\ufeff", "\U0010ffff", "e\u0301", "%25", "'", ",", "/", ";"}

// genText draws valid UTF-8.
func genText(t *rapid.T, name string, max int) string {
	switch rapid.IntRange(0, 6).Draw(t, name+"K") {
	case 0:
		return ""
	case 1:
		var b strings.Builder
		for _, s := range rapid.SliceOfN(rapid.SampledFrom(specials), 1, 6).Draw(t, name) {
			b.WriteString(s)
		}
		return b.String()
	case 2:
		return rapid.StringN(0, max, -1).Draw(t, name)
	case 3:
		n := rapid.IntRange(1, max*40).Draw(t, name+"N")
		return strings.Repeat(rapid.SampledFrom([]string{"x", "ab ", "é", "line\n", "\"", "😀"}).Draw(t, name), n)
	default:
		return rapid.StringMatching(`[a-zA-Z0-9 ]{0,12}`).Draw(t, name)
	}
}

// ---------------------------------------------------------------- store histories (T01..T04)

type dbOp struct {
	Op string
	E  int
	K  string
	V  string
	N  int
}

var dbOpsPlain = []string{"add", "add", "set", "set", "set", "set", "set", "delkey", "delkey", "delete", "update", "update", "rollbackN", "reset", "reload", "bad"}
var dbOpsTxn = []string{"add", "set", "set", "set", "delkey", "delete", "update", "update", "begin", "begin", "begin", "commit", "rollback", "rollback", "rollbackN", "do", "do", "doerr", "doerr", "save", "reset"}

func genDBOps(names []string, max int) func(t *rapid.T) []dbOp {
	return func(t *rapid.T) []dbOp {
		return genSlice(t, "ops", 1, max, rapid.Custom(func(t *rapid.T) dbOp {
			o := dbOp{Op: rapid.SampledFrom(names).Draw(t, "op")}
			switch o.Op {
			case "set":
				o.K, o.V = genKey(t, "k"), genText(t, "v", 12)
				o.E = rapid.IntRange(0, 7).Draw(t, "e")
			case "delkey":
				o.K = genKey(t, "k")
				o.E = rapid.IntRange(0, 7).Draw(t, "e")
			case "delete":
				o.E = rapid.IntRange(0, 7).Draw(t, "e")
			case "rollbackN":
				o.N = rapid.IntRange(0, 6).Draw(t, "n")
			case "bad":
				o.N = rapid.IntRange(0, 2).Draw(t, "n")
			case "do", "doerr":
				o.N = rapid.IntRange(0, 9).Draw(t, "n")
				o.E = rapid.IntRange(0, 7).Draw(t, "e")
				o.K = genKey(t, "k")
			}
			return o
		}))
	}
}

type dbRun struct {
	x      *Ctx
	s      *txlogs.DB
	log    []txlogs.Tx // what the log must be
	begin  int         // length at begin, -1 if no transaction
	bState []txlogs.Tx
	stats  map[string]int
}

func newDBRun(x *Ctx) *dbRun {
	return &dbRun{x: x, s: new(txlogs.DB), begin: -1, stats: map[string]int{}}
}

func (r *dbRun) live() []string {
	// in the order they were added, so that the choice is deterministic
	st := map[string]bool{}
	var order []string
	for _, tx := range r.log {
		switch tx.Kind {
		case txlogs.TxAdd:
			if !st[tx.UUID] {
				st[tx.UUID] = true
				order = append(order, tx.UUID)
			}
		case txlogs.TxDelete:
			st[tx.UUID] = false
		}
	}
	var out []string
	for _, u := range order {
		if st[u] {
			out = append(out, u)
		}
	}
	return out
}

// appended checks that exactly one change was appended and that it is tx (but for the time).
func (r *dbRun) appended(tx txlogs.Tx, before time.Time) error {
	if len(r.s.Log) != len(r.log)+1 {
		return failf("log has %d changes after appending one to %d", len(r.s.Log), len(r.log))
	}
	got := r.s.Log[len(r.s.Log)-1]
	tx.Time = got.Time
	if got != tx {
		return failf("appended %+v, want %+v", got, tx)
	}
	if got.Time < before.UnixNano() || got.Time > time.Now().UnixNano() {
		return failf("time of a change is %d, not the time it was made (%d)", got.Time, before.UnixNano())
	}
	r.log = append(copyLog(r.log), got)
	return nil
}

func (r *dbRun) edit(op string, e int, k, v string) error {
	before := time.Now()
	if op == "add" {
		u, err := r.s.Add()
		if err != nil {
			return failf("Add: %v", err)
		}
		for _, tx := range r.log {
			if tx.UUID == u {
				return failf("Add returned an id already used: %s", u)
			}
		}
		if u == "" {
			return failf("Add returned an empty id")
		}
		return r.appended(txlogs.Tx{Kind: txlogs.TxAdd, UUID: u}, before)
	}
	live := r.live()
	if len(live) == 0 {
		return nil
	}
	u := live[e%len(live)]
	switch op {
	case "set":
		r.s.Set(u, k, v)
		return r.appended(txlogs.Tx{Kind: txlogs.TxSetKey, UUID: u, Key: k, Value: v}, before)
	case "delkey":
		r.s.DeleteKey(u, k)
		return r.appended(txlogs.Tx{Kind: txlogs.TxDeleteKey, UUID: u, Key: k}, before)
	case "delete":
		r.s.Delete(u)
		return r.appended(txlogs.Tx{Kind: txlogs.TxDelete, UUID: u}, before)
	}
	return nil
}

// update refreshes and compares with the reference replay.
func (r *dbRun) update() error {
	want, ok := refReplay(r.log)
	err := r.s.UpdateSnapshot()
	if !ok {
		if err == nil {
			return failf("refreshing a log that cannot be replayed succeeded")
		}
		return nil
	}
	if err != nil {
		return failf("refresh failed: %v", err)
	}
	if d := sameState(r.s.Snapshot, want); d != "" {
		return failf("refreshed state differs from the replay of the log: %s", d)
	}
	return nil
}

// consistent: the log is what it must be, and whatever state is cached is that of a prefix of the log.
func (r *dbRun) consistent() error {
	if d := sameLog(r.s.Log, r.log); d != "" {
		return failf("log: %s", d)
	}
	if r.s.Version > uint(len(r.log)) {
		return failf("cached state claims version %d of %d changes", r.s.Version, len(r.log))
	}
	want, _ := refReplay(r.log[:r.s.Version])
	if d := sameState(r.s.Snapshot, want); d != "" {
		return failf("cached state of version %d of %d is not the replay of that prefix: %s", r.s.Version, len(r.log), d)
	}
	return nil
}

func (r *dbRun) step(o dbOp) error {
	r.stats[o.Op]++
	switch o.Op {
	case "add", "set", "delkey", "delete":
		return r.edit(o.Op, o.E, o.K, o.V)
	case "bad": // changes of an entry that does not exist
		if r.begin >= 0 {
			return nil
		}
		before := time.Now()
		switch o.N {
		case 0:
			r.s.Set("no-such-entry", "k", "v")
			return r.appended(txlogs.Tx{Kind: txlogs.TxSetKey, UUID: "no-such-entry", Key: "k", Value: "v"}, before)
		case 1:
			r.s.Delete("no-such-entry")
			return r.appended(txlogs.Tx{Kind: txlogs.TxDelete, UUID: "no-such-entry"}, before)
		default:
			r.s.DeleteKey("no-such-entry", "k")
			return r.appended(txlogs.Tx{Kind: txlogs.TxDeleteKey, UUID: "no-such-entry", Key: "k"}, before)
		}
	case "update":
		return r.update()
	case "reset":
		r.s.ResetSnapshot()
	case "reload", "save":
		b, err := r.s.Save()
		if r.begin >= 0 {
			if err == nil || len(b) != 0 {
				return failf("the store was serialised while a transaction was open")
			}
			return nil
		}
		if err != nil {
			return failf("Save: %v", err)
		}
		s, err := txlogs.New(b)
		if err != nil {
			return failf("New: %v", err)
		}
		if s == nil {
			return failf("New returned no store")
		}
		r.s = s
	case "begin":
		if r.begin < 0 {
			r.s.Begin()
			r.begin = len(r.log)
		}
	case "commit":
		if r.begin >= 0 {
			r.s.Commit()
			r.begin = -1
		}
	case "rollback":
		if r.begin >= 0 {
			r.s.Rollback()
			r.log = r.log[:r.begin]
			r.begin = -1
		}
	case "rollbackN":
		if r.begin >= 0 {
			return nil
		}
		n := o.N
		if n == 6 {
			n = len(r.log) + 1
		} else if n == 5 {
			n = len(r.log)
		}
		err := r.s.RollbackN(uint(n))
		if n > len(r.log) {
			if err == nil {
				return failf("undoing %d of %d changes was accepted", n, len(r.log))
			}
			return nil
		}
		if err != nil {
			return failf("undoing %d of %d changes: %v", n, len(r.log), err)
		}
		r.log = r.log[:len(r.log)-n]
	case "do", "doerr":
		if r.begin >= 0 {
			return nil
		}
		start := r.log
		var inner error
		boom := errors.New("boom")
		err := r.s.Do(func() error {
			for i := 0; i < o.N && inner == nil; i++ {
				switch (o.E + i*3) % 6 {
				case 0:
					inner = r.edit("add", 0, "", "")
				case 1, 2:
					inner = r.edit("set", o.E+i, o.K, fmt.Sprint(i))
				case 3:
					inner = r.edit("delkey", o.E+i, o.K, "")
				case 4:
					inner = r.update()
				case 5:
					inner = r.edit("delete", o.E+i, "", "")
				}
			}
			if o.Op == "doerr" {
				return boom
			}
			return nil
		})
		if inner != nil {
			return inner
		}
		if o.Op == "doerr" {
			if err != boom {
				return failf("Do returned %v instead of the error of its function", err)
			}
			r.log = start
		} else if err != nil {
			return failf("Do failed: %v", err)
		}
		r.stats["update in txn"]++
	}
	return nil
}

func (r *dbRun) guardStep(o dbOp) error {
	var e error
	if err := guard(o.Op, func() { e = r.step(o) }); err != nil {
		return err
	}
	return e
}

type tOps struct{ Ops []dbOp }

func init() {
	runOps := func(strict bool) func(c tOps, x *Ctx) error {
		return func(c tOps, x *Ctx) error {
			r := newDBRun(x)
			edits := 0
			for i, o := range c.Ops {
				l := len(r.log)
				if err := r.guardStep(o); err != nil {
					return failf("step %d (%s): %v", i, o.Op, err)
				}
				if len(r.log) != l {
					edits++
				}
				if err := r.consistent(); err != nil {
					return failf("after step %d (%s): %v", i, o.Op, err)
				}
			}
			if r.begin >= 0 {
				if err := r.guardStep(dbOp{Op: "rollback"}); err != nil {
					return err
				}
				if err := r.consistent(); err != nil {
					return failf("after the final rollback: %v", err)
				}
			}
			if err := r.update(); err != nil {
				return failf("at the end: %v", err)
			}
			// from scratch, in one go
			f := &txlogs.DB{Log: copyLog(r.log)}
			err := f.UpdateSnapshot()
			want, ok := refReplay(r.log)
			if ok != (err == nil) {
				return failf("replaying from scratch: %v", err)
			}
			if ok {
				if d := sameState(f.Snapshot, want); d != "" {
					return failf("replaying from scratch: %s", d)
				}
			}
			for _, l := range sortedKeys(r.stats) {
				x.Label(l)
			}
			if strict {
				if (r.stats["rollback"] > 0 || r.stats["doerr"] > 0 || r.stats["rollbackN"] > 0) && edits >= 3 {
					x.NonTrivial()
				}
			} else if edits >= 3 && r.stats["update"] > 0 {
				x.NonTrivial()
			}
			return nil
		}
	}
	part("T01", "replay", 240000, 2000000,
		"sequences of 1..60 operations (add, set, delete key, delete entry, refresh, undo n, drop the cached state, save and load, change of a missing entry) compared after every step with a plain-map replay of a model log; non-trivial: at least 3 changes and a refresh in between",
		func(t *rapid.T) tOps { return tOps{genDBOps(dbOpsPlain, 60)(t)} }, runOps(false))
	part("T02", "transactions", 240000, 2000000,
		"sequences of 1..60 operations with open/commit/rollback, transactions run as functions that succeed or fail with 0..9 changes and refreshes inside, undo n, and serialisation attempts; model: log at begin is restored; non-trivial: at least 3 changes and a rollback, failed transaction or undo",
		func(t *rapid.T) tOps { return tOps{genDBOps(dbOpsTxn, 60)(t)} }, runOps(true))

	// ---------------------------------------------------------------- T03
	type t03 struct {
		Ops    []dbOp
		Update bool
		After  []dbOp
	}
	part("T03", "roundtrip", 160000, 1000000,
		"a store built by up to 40 operations with arbitrary Unicode keys and values, refreshed or not, serialised and loaded, compared, then the same further operations on both; non-trivial: at least 3 changes",
		func(t *rapid.T) t03 {
			ops := []string{"add", "set", "set", "set", "set", "delkey", "delete", "update"}
			return t03{genDBOps(ops, 40)(t), rapid.Bool().Draw(t, "update"), genDBOps(append(ops, "rollbackN", "reset"), 8)(t)}
		},
		func(c t03, x *Ctx) error {
			r := newDBRun(x)
			for i, o := range c.Ops {
				if err := r.guardStep(o); err != nil {
					return failf("step %d (%s): %v", i, o.Op, err)
				}
			}
			if c.Update {
				x.Label("refreshed before saving")
				if err := r.update(); err != nil {
					return err
				}
			}
			if len(r.log) >= 3 {
				x.NonTrivial()
			}
			b, err := r.s.Save()
			if err != nil {
				return failf("Save: %v", err)
			}
			if !json.Valid(b) {
				return failf("the serialised store is not JSON")
			}
			b2, err := r.s.Save()
			if err != nil || !bytes.Equal(b, b2) {
				return failf("serialising twice gives different data (%v)", err)
			}
			l, err := txlogs.NewLog(clone(b))
			if err != nil {
				return failf("NewLog: %v", err)
			}
			if d := sameLog(l, r.log); d != "" {
				return failf("reading only the log: %s", d)
			}
			s, err := txlogs.New(clone(b))
			if err != nil || s == nil {
				return failf("New: %v", err)
			}
			q := &dbRun{x: x, s: s, log: copyLog(r.log), begin: -1, stats: map[string]int{}}
			if err := q.consistent(); err != nil {
				return failf("loaded store: %v", err)
			}
			if s.Version != r.s.Version {
				if d := sameState(s.Snapshot, rstate{}); d != "" || s.Version != 0 {
					return failf("loaded store has version %d, the original %d", s.Version, r.s.Version)
				}
			}
			for i, o := range c.After {
				if err := q.guardStep(o); err != nil {
					return failf("after loading, step %d (%s): %v", i, o.Op, err)
				}
				if err := q.consistent(); err != nil {
					return failf("after loading, step %d (%s): %v", i, o.Op, err)
				}
			}
			if err := q.update(); err != nil {
				return failf("after loading: %v", err)
			}
			return r.consistent()
		})
	type t03m struct {
		Data string
		Ops  []dbOp
		Muts []struct {
			Pos, N int
			S      string
		}
	}
	jsonBits := []string{"null", "[]", "{}", "0", "-1", "1e99", "\"x\"", "true", "{\"log\":null}", "{\"log\":[null]}", "{\"log\":{}}", "{\"log\":[{\"time\":\"x\"}]}", "{\"version\":-1}", "{\"version\":1.5}",
		"{\"snapshot\":[]}", "{\"snapshot\":{\"a\":null}}", "{\"snapshot\":{\"a\":{\"b\":1}}}", "{\"log\":[{\"kind\":\"zap\",\"uuid\":\"u\"}]}", "{\"log\":[[]]}", "", " ", "{", "}", "\x00", ",", ":", "\"", "[", "]", "\xff", "\\u12"}
	part("T03", "malformed", 240000, 2000000,
		"JSON fragments, serialised stores with 1..4 random cuts and insertions, and random text: an error exactly when the text is not JSON of the store's shape, never a crash; non-trivial: longer than 2 bytes",
		func(t *rapid.T) t03m {
			var c t03m
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				c.Data = rapid.SampledFrom(jsonBits).Draw(t, "bit")
			case 1:
				for _, s := range rapid.SliceOfN(rapid.SampledFrom(jsonBits), 1, 6).Draw(t, "bits") {
					c.Data += s
				}
			default:
				c.Ops = genDBOps([]string{"add", "set", "delkey", "update"}, 8)(t)
			}
			n := rapid.IntRange(0, 4).Draw(t, "nmut")
			for i := 0; i < n; i++ {
				c.Muts = append(c.Muts, struct {
					Pos, N int
					S      string
				}{rapid.IntRange(0, 2000).Draw(t, "pos"), rapid.IntRange(0, 12).Draw(t, "n"), rapid.SampledFrom(jsonBits).Draw(t, "s")})
			}
			return c
		},
		func(c t03m, x *Ctx) error {
			data := []byte(c.Data)
			if len(c.Ops) > 0 {
				r := newDBRun(x)
				for _, o := range c.Ops {
					if err := r.guardStep(o); err != nil {
						return err
					}
				}
				b, err := r.s.Save()
				if err != nil {
					return err
				}
				data = b
			}
			for _, m := range c.Muts {
				if len(data) == 0 {
					data = append(data, m.S...)
					continue
				}
				p := m.Pos % len(data)
				e := min(len(data), p+m.N)
				data = append(append(append([]byte{}, data[:p]...), m.S...), data[e:]...)
			}
			if len(data) > 2 {
				x.NonTrivial()
			}
			var shape struct {
				Version  uint                         `json:"version"`
				Snapshot map[string]map[string]string `json:"snapshot"`
				Log      []struct {
					Time                   int64
					Kind, UUID, Key, Value string
				} `json:"log"`
			}
			var shapeLog struct {
				Log []struct {
					Time                   int64
					Kind, UUID, Key, Value string
				} `json:"log"`
			}
			bad := json.Unmarshal(data, &shape) != nil
			badLog := json.Unmarshal(data, &shapeLog) != nil
			x.Label(fmt.Sprintf("malformed=%v", bad))
			var s *txlogs.DB
			var l []txlogs.Tx
			var err, lerr error
			if e := guard("New", func() { s, err = txlogs.New(clone(data)) }); e != nil {
				return e
			}
			if e := guard("NewLog", func() { l, lerr = txlogs.NewLog(clone(data)) }); e != nil {
				return e
			}
			if bad && err == nil {
				return failf("malformed data was loaded")
			}
			if badLog && lerr == nil {
				return failf("malformed data was loaded as a log")
			}
			if !bad && err == nil && s != nil {
				if len(s.Log) != len(shape.Log) {
					return failf("loaded %d changes of %d", len(s.Log), len(shape.Log))
				}
				// using it must not crash either
				if e := guard("UpdateSnapshot", func() { s.UpdateSnapshot() }); e != nil {
					// a snapshot with null entries or an impossible version is data nobody wrote
					if s.Version == 0 && len(s.Snapshot) == 0 {
						return e
					}
				}
			}
			_ = l
			return nil
		})

	// ---------------------------------------------------------------- T04
	type t04 struct {
		Ops    []dbOp
		Update int
		Qs     []int
	}
	part("T04", "history", 60000, 400000,
		"a history of up to 40 changes, then every 'n versions ago' from -3 to 3 beyond the length, for the store, every entry and unknown ids, with extreme numbers; model: replay of the prefix; non-trivial: an entry with at least 2 versions that is not the newest",
		func(t *rapid.T) t04 {
			ops := []string{"add", "add", "set", "set", "set", "set", "delkey", "delete", "update", "rollbackN"}
			return t04{genDBOps(ops, 40)(t), rapid.IntRange(0, 2).Draw(t, "update"),
				rapid.SliceOfN(rapid.SampledFrom([]int{-1 << 63, -1 << 31, -1000, 1000, 1 << 31, 1<<63 - 1, 1<<63 - 2}), 0, 3).Draw(t, "qs")}
		},
		func(c t04, x *Ctx) error {
			r := newDBRun(x)
			for i, o := range c.Ops {
				if err := r.guardStep(o); err != nil {
					return failf("step %d (%s): %v", i, o.Op, err)
				}
			}
			if c.Update == 1 {
				if err := r.update(); err != nil {
					return err
				}
			} else if c.Update == 2 {
				r.s.ResetSnapshot()
			}
			ver := r.s.Version
			ids := map[string]bool{"": true, "unknown": true}
			for _, tx := range r.log {
				ids[tx.UUID] = true
			}
			var qs []int
			for n := -3; n <= len(r.log)+3; n++ {
				qs = append(qs, n)
			}
			qs = append(qs, c.Qs...)
			for _, n := range qs {
				var got map[string]txlogs.Entry
				var err error
				if e := guard(fmt.Sprintf("SnapshotAt(%d)", n), func() { got, err = r.s.SnapshotAt(n) }); e != nil {
					return e
				}
				if n < 0 || n > len(r.log) {
					if err == nil {
						return failf("SnapshotAt(%d) of %d changes succeeded", n, len(r.log))
					}
				} else {
					if err != nil {
						return failf("SnapshotAt(%d) of %d changes: %v", n, len(r.log), err)
					}
					want, _ := refReplay(r.log[:len(r.log)-n])
					if d := sameState(got, want); d != "" {
						return failf("SnapshotAt(%d) of %d changes: %s", n, len(r.log), d)
					}
				}
			}
			for _, u := range sortedKeys(ids) {
				var mine []txlogs.Tx
				for _, tx := range r.log {
					if tx.UUID == u {
						mine = append(mine, tx)
					}
				}
				if len(mine) >= 2 && r.log[len(r.log)-1].UUID != u {
					x.NonTrivial()
				}
				if got := r.s.NVersions(u); got != len(mine) {
					return failf("NVersions(%q) = %d, want %d", u, got, len(mine))
				}
				last := int64(-1)
				if len(mine) > 0 {
					last = mine[len(mine)-1].Time
				}
				if got := r.s.LastUpdated(u); got != last {
					return failf("LastUpdated(%q) = %d, want %d", u, got, last)
				}
				for _, n := range qs {
					var got txlogs.Entry
					var err error
					if e := guard(fmt.Sprintf("EntrySnapshotAt(%d)", n), func() { got, err = r.s.EntrySnapshotAt(u, n) }); e != nil {
						return e
					}
					var want map[string]string
					if n >= 0 && n <= len(mine) {
						st, _ := refReplay(mine[:len(mine)-n])
						want = st[u]
					}
					if want == nil {
						if err == nil {
							return failf("EntrySnapshotAt(%d) of an entry with %d changes succeeded although it does not exist then", n, len(mine))
						}
						continue
					}
					if err != nil {
						return failf("EntrySnapshotAt(%d) of an entry with %d changes: %v", n, len(mine), err)
					}
					if d := sameState(map[string]txlogs.Entry{u: got}, rstate{u: want}); d != "" {
						return failf("EntrySnapshotAt(%d): %s", n, d)
					}
				}
			}
			if r.s.Version != ver {
				return failf("history queries changed the version")
			}
			return r.consistent()
		})
}

// ---------------------------------------------------------------- replicas (T05..T07)

type repEv struct {
	R    int    // replica
	Op   string // add set delkey delete sync
	E    int
	K, V string
	Dt   int
}

type repSim struct {
	logs [][]txlogs.Tx
	all  []txlogs.Tx
	nid  int
}

func genReps(minR, maxR, maxEv int, ops []string) func(t *rapid.T) (int, []repEv) {
	return func(t *rapid.T) (int, []repEv) {
		n := rapid.IntRange(minR, maxR).Draw(t, "replicas")
		evs := genSlice(t, "events", 0, maxEv, rapid.Custom(func(t *rapid.T) repEv {
			e := repEv{R: rapid.IntRange(0, n-1).Draw(t, "r"), Op: rapid.SampledFrom(ops).Draw(t, "op")}
			e.E = rapid.IntRange(0, 5).Draw(t, "e")
			switch e.Op {
			case "set":
				e.K, e.V = rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "k"), rapid.SampledFrom([]string{"1", "2", "3", ""}).Draw(t, "v")
			case "delkey":
				e.K = rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "k")
			}
			if e.Op != "sync" && e.Op != "pull" {
				e.Dt = rapid.IntRange(0, 3).Draw(t, "dt")
			}
			return e
		}))
		return n, evs
	}
}

func liveOf(log []txlogs.Tx) []string {
	st := map[string]int{}
	var order []string
	for _, tx := range log {
		switch tx.Kind {
		case txlogs.TxAdd:
			order = append(order, tx.UUID)
			st[tx.UUID] = 1
		case txlogs.TxDelete:
			st[tx.UUID] = 0
		}
	}
	var out []string
	for _, u := range order {
		if st[u] == 1 {
			out = append(out, u)
		}
	}
	sort.Strings(out)
	return out
}

// change appends one change to a replica's log. Times grow strictly on a copy
// and beyond everything the copy has seen, but may coincide between copies.
// The same entry is never both deleted and otherwise changed at the very same
// time: which of the two comes first is nobody's business.
func (s *repSim) change(e repEv) bool {
	log := s.logs[e.R]
	tx := txlogs.Tx{Time: 1}
	if len(log) > 0 {
		tx.Time = log[len(log)-1].Time + 1
	}
	tx.Time += int64(e.Dt)
	if e.Op == "add" {
		s.nid++
		tx.Kind = txlogs.TxAdd
		tx.UUID = fmt.Sprintf("%04x-%d", h64([]byte(fmt.Sprint(s.nid)))%65536, s.nid)
	} else {
		live := liveOf(log)
		if len(live) == 0 {
			return false
		}
		tx.UUID = live[e.E%len(live)]
		switch e.Op {
		case "set":
			tx.Kind, tx.Key, tx.Value = txlogs.TxSetKey, e.K, e.V
		case "delkey":
			tx.Kind, tx.Key = txlogs.TxDeleteKey, e.K
		case "delete":
			tx.Kind = txlogs.TxDelete
		}
	}
	for {
		clash := false
		for _, o := range s.all {
			if o.Time == tx.Time && o.UUID == tx.UUID && (o.Kind == txlogs.TxDelete || tx.Kind == txlogs.TxDelete || o == tx) {
				clash = true
			}
		}
		if !clash {
			break
		}
		tx.Time++
	}
	s.logs[e.R] = append(copyLog(log), tx)
	s.all = append(s.all, tx)
	return true
}

// canon orders changes by time and entry.
func canonLess(a, b txlogs.Tx) bool {
	if a.Time != b.Time {
		return a.Time < b.Time
	}
	return a.UUID < b.UUID
}

func unionSorted(ls ...[]txlogs.Tx) []txlogs.Tx {
	seen := map[txlogs.Tx]bool{}
	var u []txlogs.Tx
	for _, l := range ls {
		for _, tx := range l {
			if !seen[tx] {
				seen[tx] = true
				u = append(u, tx)
			}
		}
	}
	sort.SliceStable(u, func(i, j int) bool { return canonLess(u[i], u[j]) })
	return u
}

// refMerge is the reference for merging under given answers: walk the ordered
// union; deletions answered 'restore' vanish; changes of a deleted entry vanish
// if its deletion was answered 'delete', and conflict otherwise.
func refMerge(u []txlogs.Tx, answers map[txlogs.Tx]string) (out []txlogs.Tx, conflicts map[txlogs.Tx]bool) {
	conflicts = map[txlogs.Tx]bool{}
	del := map[string]txlogs.Tx{}
	for _, tx := range u {
		if d, ok := del[tx.UUID]; ok {
			if answers[d] != "delete" {
				conflicts[d] = true
			}
			continue
		}
		if tx.Kind == txlogs.TxDelete {
			if answers[tx] == "restore" {
				continue
			}
			del[tx.UUID] = tx
		}
		out = append(out, tx)
	}
	return out, conflicts
}

// sameMulti compares two histories up to the order of changes of equal time and entry.
func sameUpToTies(got, want []txlogs.Tx) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d changes, want %d%s", len(got), len(want), diffSet(got, want))
	}
	cnt := map[txlogs.Tx]int{}
	for i := range got {
		cnt[got[i]]++
		cnt[want[i]]--
		if got[i].Time != want[i].Time || got[i].UUID != want[i].UUID {
			return fmt.Sprintf("change %d is %+v, want %+v", i, got[i], want[i])
		}
	}
	for tx, n := range cnt {
		if n != 0 {
			return fmt.Sprintf("change %+v occurs %+d times too often", tx, n)
		}
	}
	return ""
}

func diffSet(got, want []txlogs.Tx) string {
	cnt := map[txlogs.Tx]int{}
	for _, t := range got {
		cnt[t]++
	}
	for _, t := range want {
		cnt[t]--
	}
	s := ""
	for t, n := range cnt {
		if n != 0 {
			s += fmt.Sprintf("; %+d of %+v", n, t)
		}
	}
	return s
}

func subsequence(sub, of []txlogs.Tx) bool {
	i := 0
	for _, tx := range of {
		if i < len(sub) && sub[i] == tx {
			i++
		}
	}
	return i == len(sub)
}

// mergeCall calls Merge on copies with spare room and checks that inputs stay as they were.
func mergeCall(a, b []txlogs.Tx, res []txlogs.Conflict) (c []txlogs.Tx, conf []txlogs.Conflict, err error) {
	mk := func(l []txlogs.Tx) []txlogs.Tx {
		o := make([]txlogs.Tx, len(l)+4)
		copy(o, l)
		for i := len(l); i < len(o); i++ {
			o[i] = txlogs.Tx{Key: "canary"}
		}
		return o
	}
	fa, fb := mk(a), mk(b)
	if err = guard("Merge", func() { c, conf = txlogs.Merge(fa[:len(a)], fb[:len(b)], res) }); err != nil {
		return
	}
	for i, f := range [][]txlogs.Tx{fa, fb} {
		l := [][]txlogs.Tx{a, b}[i]
		if d := sameLog(f, mk(l)); d != "" {
			err = failf("Merge modified its input %d: %s", i, d)
			return
		}
	}
	return
}

// mergeAll merges with a policy, accumulating the answers. choose gets the conflict.
func mergeAll(a, b []txlogs.Tx, choose func(txlogs.Conflict) string) (c []txlogs.Tx, answers map[txlogs.Tx]string, rounds int, err error) {
	var resolved []txlogs.Conflict
	answers = map[txlogs.Tx]string{}
	limit := len(a) + len(b) + 3
	for {
		var conf []txlogs.Conflict
		c, conf, err = mergeCall(a, b, resolved)
		if err != nil {
			return
		}
		if len(conf) == 0 {
			return
		}
		if c != nil {
			err = failf("conflicts and a merged history were returned together")
			return
		}
		rounds++
		if rounds > limit {
			err = failf("conflicts are not used up after %d rounds of answers", rounds)
			return
		}
		for _, k := range conf {
			if k.Kind == txlogs.ConflictKindRoot {
				if _, ok := answers[txlogs.Tx{Key: "root"}]; ok {
					err = failf("the missing common beginning is reported again after it was accepted")
					return
				}
				answers[txlogs.Tx{Key: "root"}] = "force"
				k.Force()
			} else {
				if _, ok := answers[k.Initial]; ok {
					err = failf("a conflict is reported again after it was answered: %+v", k.Initial)
					return
				}
				w := choose(k)
				answers[k.Initial] = w
				if w == "restore" {
					k.DiscardInitial()
				} else {
					k.DiscardConflict()
				}
			}
			resolved = append(resolved, k)
		}
	}
}

type t05 struct {
	N   int
	Evs []repEv
	Ans []bool // restore?
	F   int
}

// runSim plays the events; sync merges replica R with E under the policy.
func runSim(c t05, choose func(txlogs.Conflict) string) (*repSim, error) {
	s := &repSim{logs: make([][]txlogs.Tx, c.N)}
	// a common beginning
	s.change(repEv{Op: "add"})
	s.change(repEv{Op: "set", K: "a", V: "0"})
	for i := range s.logs {
		s.logs[i] = copyLog(s.logs[0])
	}
	for _, e := range c.Evs {
		if e.Op == "bcast" {
			// one copy makes a change later than all others' and every other one gets its history
			max := int64(0)
			for _, tx := range s.all {
				if tx.Time > max {
					max = tx.Time
				}
			}
			l := s.logs[e.R]
			if !s.change(repEv{R: e.R, Op: "set", E: e.E, K: "b", V: "bcast", Dt: int(max - l[len(l)-1].Time)}) {
				continue
			}
			for o := range s.logs {
				if o == e.R {
					continue
				}
				m, _, _, err := mergeAll(s.logs[o], s.logs[e.R], choose)
				if err != nil {
					return nil, err
				}
				s.logs[o] = m
			}
			continue
		}
		if e.Op != "sync" && e.Op != "pull" {
			s.change(e)
			continue
		}
		o := e.E % c.N
		if o == e.R {
			continue
		}
		m, _, _, err := mergeAll(s.logs[e.R], s.logs[o], choose)
		if err != nil {
			return nil, err
		}
		s.logs[e.R] = m
		if e.Op == "sync" {
			s.logs[o] = copyLog(m)
		}
	}
	return s, nil
}

func init() {
	// sync: both sides get the merge; pull: only one does
	addOps := []string{"add", "set", "set", "set", "delkey", "sync", "pull", "bcast"}
	delOps := []string{"add", "set", "set", "set", "delkey", "delete", "delete", "sync", "pull", "bcast"}
	chooseBy := func(ans []bool) func(txlogs.Conflict) string {
		// the answer depends only on the conflict itself
		return func(k txlogs.Conflict) string {
			h := h64([]byte(fmt.Sprintf("%v", k.Initial)))
			if len(ans) > 0 && ans[h%uint64(len(ans))] {
				return "restore"
			}
			return "delete"
		}
	}
	genT := func(minR, maxR, maxEv int, ops []string) func(t *rapid.T) t05 {
		return func(t *rapid.T) t05 {
			n, ev := genReps(minR, maxR, maxEv, ops)(t)
			return t05{n, ev, rapid.SliceOfN(rapid.Bool(), 1, 4).Draw(t, "answers"), rapid.IntRange(0, 5).Draw(t, "f")}
		}
	}
	forked := func(a, b []txlogs.Tx) bool {
		return !subsequence(a, b) && !subsequence(b, a)
	}

	part("T05", "union", 160000, 1000000,
		"2..4 copies with a common beginning, up to 40 additions, changes and pairwise merges, with coinciding timestamps between copies; then every pair is merged both ways and compared with the ordered union; also with itself, with prefixes and with empty histories; non-trivial: some pair diverged",
		genT(2, 4, 40, addOps),
		func(c t05, x *Ctx) error {
			s, err := runSim(c, func(k txlogs.Conflict) string { return "delete" })
			if err != nil {
				return err
			}
			for i := range s.logs {
				for j := range s.logs {
					a, b := s.logs[i], s.logs[j]
					if i != j && forked(a, b) {
						x.NonTrivial()
						times := map[int64]bool{}
						for _, tx := range a {
							times[tx.Time] = true
						}
						for _, tx := range b {
							if times[tx.Time] && !subsequence([]txlogs.Tx{tx}, a) {
								x.Label("coinciding times")
							}
						}
						x.LabelIf(len(a) == len(b), "equal lengths")
						x.LabelIf(a[len(a)-1] == b[len(b)-1], "common end")
					}
					m, conf, err := mergeCall(a, b, nil)
					if err != nil {
						return err
					}
					if len(conf) > 0 {
						return failf("conflict without any deletion: %+v", conf)
					}
					if d := sameUpToTies(m, unionSorted(a, b)); d != "" {
						return failf("merge is not the ordered union: %s", d)
					}
					if !subsequence(a, m) || !subsequence(b, m) {
						return failf("merge does not keep the order of a side")
					}
					r, _, err := mergeCall(b, a, nil)
					if err != nil {
						return err
					}
					if d := sameLog(r, m); d != "" {
						return failf("merge depends on the order of the sides: %s", d)
					}
					if _, ok := refReplay(m); !ok {
						return failf("the merged history cannot be replayed")
					}
					db := &txlogs.DB{Log: m}
					if err := db.UpdateSnapshot(); err != nil {
						return failf("the merged history cannot be replayed: %v", err)
					}
					if w, _ := refReplay(m); sameState(db.Snapshot, w) != "" {
						return failf("the merged history replays to another state")
					}
				}
				// itself, prefixes, empty
				a := s.logs[i]
				for _, n := range []int{len(a), len(a) - 1, len(a) / 2, 1, 0} {
					for k := 0; k < 2; k++ {
						p, q := a, a[:n]
						if k == 1 {
							p, q = q, p
						}
						if n == 0 && c.F%2 == 0 {
							if k == 0 {
								q = nil
							} else {
								p = nil
							}
						}
						m, conf, err := mergeCall(p, q, nil)
						if err != nil {
							return err
						}
						if len(conf) > 0 {
							return failf("merging with an older version (%d of %d changes) conflicts", n, len(a))
						}
						if d := sameLog(m, a); d != "" {
							return failf("merging with an older version (%d of %d changes): %s", n, len(a), d)
						}
					}
				}
			}
			m, conf, err := mergeCall(nil, []txlogs.Tx{}, nil)
			if err != nil || len(m) != 0 || len(conf) != 0 {
				return failf("merging two empty histories: %v %v %v", m, conf, err)
			}
			return nil
		})

	type t05s struct {
		Ops []dbOp
		N   int
	}
	part("T05", "store", 80000, 500000,
		"histories made by a real store (real timestamps), merged with themselves and with any prefix; non-trivial: at least 3 changes",
		func(t *rapid.T) t05s {
			return t05s{genDBOps([]string{"add", "set", "set", "delkey", "delete"}, 20)(t), rapid.IntRange(0, 20).Draw(t, "n")}
		},
		func(c t05s, x *Ctx) error {
			r := newDBRun(x)
			for _, o := range c.Ops {
				if err := r.guardStep(o); err != nil {
					return err
				}
			}
			if len(r.log) >= 3 {
				x.NonTrivial()
			}
			n := min(c.N, len(r.log))
			for k, pr := range [][2][]txlogs.Tx{{r.log, r.log}, {r.log, r.log[:n]}, {r.log[:n], r.log}} {
				m, conf, err := mergeCall(pr[0], pr[1], nil)
				if err != nil {
					return err
				}
				if len(conf) > 0 {
					return failf("pair %d: conflict %+v", k, conf)
				}
				if d := sameLog(m, r.log); d != "" {
					return failf("pair %d: %s", k, d)
				}
			}
			return nil
		})

	part("T06", "conflicts", 160000, 1000000,
		"2..4 copies with deletions (and now and then no common beginning), up to 40 events; every pair is merged both ways, conflicts compared with a reference that walks the ordered union, answered per conflict (restore or delete, by hash), accumulating answers until the merge completes; unanswered lists are handed back; non-trivial: at least one conflict",
		genT(2, 4, 40, delOps),
		func(c t05, x *Ctx) error {
			choose := chooseBy(c.Ans)
			s, err := runSim(c, choose)
			if err != nil {
				return err
			}
			logs := s.logs
			if c.F == 0 {
				// an unrelated history
				o := &repSim{logs: make([][]txlogs.Tx, 1), nid: 1000}
				o.change(repEv{Op: "add", Dt: len(c.Evs) % 5})
				for i, e := range c.Evs {
					if i > 8 {
						break
					}
					if e.Op != "sync" && e.Op != "pull" && e.Op != "bcast" {
						e.R = 0
						o.change(e)
					}
				}
				logs = append(append([][]txlogs.Tx{}, logs...), o.logs[0])
				x.Label("unrelated history")
			}
			if c.F == 1 {
				// one that differs in the beginning only
				l := logs[len(logs)-1]
				first := txlogs.Tx{Time: l[0].Time - 1 - int64(len(c.Evs)%3), Kind: txlogs.TxAdd, UUID: "00000000-0000-4000-8000-00000000ffff"}
				logs = append(append([][]txlogs.Tx{}, logs...), append([]txlogs.Tx{first}, l...))
				x.Label("another beginning")
			}
			for i := range logs {
				for j := range logs {
					if i == j {
						continue
					}
					a, b := logs[i], logs[j]
					u := unionSorted(a, b)
					_, want := refMerge(u, nil)
					root := a[0] != b[0]
					m, conf, err := mergeCall(a, b, nil)
					if err != nil {
						return err
					}
					got := map[txlogs.Tx]bool{}
					gotRoot := false
					for _, k := range conf {
						switch k.Kind {
						case txlogs.ConflictKindRoot:
							if gotRoot {
								return failf("two root conflicts")
							}
							gotRoot = true
						case txlogs.ConflictKindDeleteSet:
							if got[k.Initial] {
								return failf("the same deletion is reported twice: %+v", k.Initial)
							}
							got[k.Initial] = true
							if k.Initial.Kind != txlogs.TxDelete || k.Conflict.UUID != k.Initial.UUID || k.Conflict == k.Initial {
								return failf("conflict %+v does not name a deletion and a change of the same entry", k)
							}
							pi, pc := -1, -1
							for p, tx := range u {
								if tx == k.Initial {
									pi = p
								}
								if tx == k.Conflict {
									pc = p
								}
							}
							if pi < 0 || pc < pi {
								return failf("conflict %+v: the change is not after the deletion", k)
							}
						default:
							return failf("conflict of unknown kind %d", k.Kind)
						}
					}
					if gotRoot != root {
						return failf("histories with a common beginning=%v: root conflict reported=%v", !root, gotRoot)
					}
					if !reflect.DeepEqual(got, want) {
						return failf("conflicting deletions reported %v, want %v", got, want)
					}
					if len(conf) > 0 && m != nil {
						return failf("a merged history was returned together with conflicts")
					}
					if len(conf) > 0 {
						x.NonTrivial()
						x.LabelIf(len(conf) > 1, "several conflicts")
						x.LabelIf(root, "root conflict")
						// unresolved conflicts are handed back
						part := append([]txlogs.Conflict{}, conf...)
						for k := range part {
							if k%2 == 1 {
								part[k].DiscardInitial()
							}
						}
						m2, back, err := mergeCall(a, b, part)
						if err != nil {
							return err
						}
						if m2 != nil || !reflect.DeepEqual(back, part) {
							return failf("unresolved conflicts are not handed back unchanged: %v", back)
						}
					}
					for _, uni := range []string{"", "restore", "delete"} {
						ch := choose
						if uni != "" {
							ch = func(txlogs.Conflict) string { return uni }
						}
						m, answers, rounds, err := mergeAll(a, b, ch)
						if err != nil {
							return err
						}
						x.LabelIf(rounds > 1, "several rounds")
						final, left := refMerge(u, answers)
						if len(left) > 0 {
							return failf("the merge completed although deletions %v conflict", left)
						}
						if d := sameUpToTies(m, final); d != "" {
							return failf("resolved merge (answers %v): %s", answers, d)
						}
						if _, ok := refReplay(m); !ok {
							return failf("the resolved history cannot be replayed")
						}
						for tx, w := range answers {
							if w == "restore" {
								x.Label("restored")
							} else if w == "delete" {
								x.Label("deleted")
							}
							_ = tx
						}
						r, _, _, err := mergeAll(b, a, ch)
						if err != nil {
							return err
						}
						if d := sameLog(r, m); d != "" {
							return failf("resolved merge depends on the order of the sides: %s", d)
						}
					}
				}
			}
			return nil
		})

	type t07 struct {
		T      t05
		Policy int
		Orders [][]int
	}
	genOrders := func(t *rapid.T) [][]int {
		return rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 30), 0, 12), 2, 3).Draw(t, "orders")
	}
	run07 := func(c t07, x *Ctx) error {
		pol := "restore"
		if c.Policy == 1 {
			pol = "delete"
		}
		conflicts := 0
		choose := func(txlogs.Conflict) string { conflicts++; return pol }
		s, err := runSim(c.T, choose)
		if err != nil {
			return err
		}
		u := unionSorted(s.all)
		var want []txlogs.Tx
		firstDel := map[string]int{}
		last := map[string]int{}
		for i, tx := range u {
			last[tx.UUID] = i
			if _, ok := firstDel[tx.UUID]; !ok && tx.Kind == txlogs.TxDelete {
				firstDel[tx.UUID] = i
			}
		}
		for i, tx := range u {
			if pol == "restore" {
				if tx.Kind == txlogs.TxDelete && last[tx.UUID] != i {
					continue
				}
			} else if d, ok := firstDel[tx.UUID]; ok && i > d {
				continue
			}
			want = append(want, tx)
		}
		x.LabelIf(conflicts > 0, "conflicts along the way")
		diverged := false
		for i := range s.logs {
			if sameLog(s.logs[i], s.logs[0]) != "" {
				diverged = true
			}
		}
		if diverged && c.T.N > 2 {
			x.NonTrivial()
		}
		var first []txlogs.Tx
		for oi, order := range c.Orders {
			logs := make([][]txlogs.Tx, c.T.N)
			for i := range logs {
				logs[i] = copyLog(s.logs[i])
			}
			sync := func(i, j int) error {
				if i == j {
					return nil
				}
				m, _, _, err := mergeAll(logs[i], logs[j], choose)
				if err != nil {
					return err
				}
				logs[i], logs[j] = m, copyLog(m)
				return nil
			}
			for _, o := range order {
				if err := sync(o%c.T.N, (o/5)%c.T.N); err != nil {
					return err
				}
			}
			hub := oi % c.T.N
			for k := 0; k < 2; k++ {
				for i := range logs {
					if err := sync(i, hub); err != nil {
						return err
					}
				}
			}
			for i := range logs {
				if d := sameLog(logs[i], logs[hub]); d != "" {
					return failf("copies %d and %d differ after everyone merged: %s", i, hub, d)
				}
			}
			if d := sameUpToTies(logs[0], want); d != "" {
				return failf("the common history is not every change that was made and not discarded (%s): %s", pol, d)
			}
			if first == nil {
				first = logs[0]
			} else if d := sameLog(logs[0], first); d != "" {
				return failf("another order of merging gives another history: %s", d)
			}
			for i := range logs {
				db := &txlogs.DB{Log: logs[i]}
				if err := db.UpdateSnapshot(); err != nil {
					return failf("the common history cannot be replayed: %v", err)
				}
			}
		}
		return nil
	}
	part("T07", "converge", 100000, 600000,
		"2..5 copies without deletions, up to 50 changes and pairwise merges, then full exchange in 2..3 different orders; all histories must be equal and contain every change; non-trivial: three or more copies that had diverged",
		func(t *rapid.T) t07 { return t07{genT(2, 5, 50, addOps)(t), 0, genOrders(t)} }, run07)
	part("T07", "converge-deletes", 100000, 600000,
		"the same with deletions, conflicts always answered alike (restore or delete); the result is computed from all changes ever made; non-trivial: three or more copies that had diverged",
		func(t *rapid.T) t07 {
			return t07{genT(2, 5, 50, delOps)(t), rapid.IntRange(0, 1).Draw(t, "policy"), genOrders(t)}
		}, run07)
}
