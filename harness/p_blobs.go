package main

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base32"
	"encoding/binary"
	"fmt"
	"hash"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/aarondl/bpass/blobformat"
	"github.com/aarondl/bpass/fuzzy"
	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

func newBlobs() blobformat.Blobs { return blobformat.Blobs{DB: new(txlogs.DB)} }

// bstore is a store under test next to a plain model of its entries.
type bstore struct {
	b    blobformat.Blobs
	m    map[string]map[string]string // by uuid, without "updated"
	last map[string]time.Time         // last change
	ids  []string                     // live, in order of creation
}

func newBstore() *bstore {
	return &bstore{b: newBlobs(), m: map[string]map[string]string{}, last: map[string]time.Time{}}
}

func (s *bstore) pick(i int) string {
	if len(s.ids) == 0 {
		return ""
	}
	return s.ids[i%len(s.ids)]
}

func (s *bstore) drop(id string) {
	delete(s.m, id)
	for i, u := range s.ids {
		if u == id {
			s.ids = append(append([]string{}, s.ids[:i]...), s.ids[i+1:]...)
			return
		}
	}
}

func (s *bstore) byName(n string) string {
	for id, e := range s.m {
		if e["name"] == n {
			return id
		}
	}
	return ""
}

func (s *bstore) log() []txlogs.Tx { return copyLog(s.b.Log) }

// check compares the whole store with the model; "updated" must parse.
func (s *bstore) check() error {
	if err := s.b.UpdateSnapshot(); err != nil {
		return failf("refreshing fails: %v", err)
	}
	got := map[string]txlogs.Entry{}
	for id, e := range s.b.Snapshot {
		c := txlogs.Entry{}
		for k, v := range e {
			if k != "updated" {
				c[k] = v
			}
		}
		got[id] = c
	}
	want := rstate{}
	for id, e := range s.m {
		want[id] = e
	}
	if d := sameState(got, want); d != "" {
		return failf("store differs from the model: %s", d)
	}
	return nil
}

// timed runs a change of an entry and checks its updated time afterwards if it succeeded.
func (s *bstore) timed(what, id string, f func() error) (error, error) {
	old := map[string]string{}
	if bl, e := s.b.Find(id); e == nil {
		for k, v := range bl {
			old[k] = v
		}
	}
	t0 := time.Now()
	var err error
	if e := guard(what, func() { err = f() }); e != nil {
		return nil, e
	}
	if err != nil {
		return err, nil
	}
	t1 := time.Now()
	bl, e := s.b.Find(id)
	if e != nil || bl == nil {
		return nil, failf("%s: entry not found afterwards: %v", what, e)
	}
	up, e := bl.Updated()
	if e != nil {
		return nil, failf("%s: updated cannot be read: %v", what, e)
	}
	same := len(bl) == len(old)
	for k, v := range bl {
		if k != "updated" && v != old[k] {
			same = false
		}
	}
	if same && bl["updated"] == old["updated"] {
		return nil, nil // what is there already need not count as a change
	}
	if up.Before(t0.Round(0).Add(-time.Millisecond)) || up.After(t1.Round(0).Add(time.Millisecond)) {
		return nil, failf("%s: updated is %v, the change was made between %v and %v", what, up, t0, t1)
	}
	if bl["updated"] == old["updated"] && up.Before(t0.Round(0)) {
		return nil, failf("%s: the entry changes, updated does not", what)
	}
	if up.Before(s.last[id]) {
		return nil, failf("%s: updated moved backwards", what)
	}
	s.last[id] = up
	return nil, nil
}

// ------------------------------------------------------------------ B01

type nameOp struct {
	Op   string
	E    int
	Name string
}
type b01names struct{ Ops []nameOp }
type b01dups struct {
	Names  []string
	Extra  []int // indices of entries with more fields
	Reload bool
}

var namePool = []string{"a", "b", "a1", "a11", "mail/work", "mail", "user/", "user/ann", "user/bob", "user/ann1", "User/ann",
	"sync/file", "sync/file1", "sync/scp", "x/user/ann", "", " ", "ann", "日本", "A"}
var userPool = []string{"ann", "bob", "ann1", "", "a/b", "Ann", "user/ann"}
var kindPool = []string{"file", "scp", "file1", ""}

func genNameOps(t *rapid.T) b01names {
	op := rapid.Custom(func(t *rapid.T) nameOp {
		o := nameOp{Op: rapid.SampledFrom([]string{"new", "new", "new", "newuser", "newuser", "newsync", "rename", "rename", "rename", "delete", "set", "reload", "refresh"}).Draw(t, "op")}
		switch o.Op {
		case "new":
			o.Name = rapid.SampledFrom(namePool).Draw(t, "n")
		case "rename":
			o.E = rapid.IntRange(0, 12).Draw(t, "e")
			o.Name = rapid.SampledFrom(namePool).Draw(t, "n")
		case "newuser":
			o.Name = rapid.SampledFrom(userPool).Draw(t, "n")
		case "newsync":
			o.Name = rapid.SampledFrom(kindPool).Draw(t, "n")
		case "delete", "set":
			o.E = rapid.IntRange(0, 12).Draw(t, "e")
		}
		return o
	})
	return b01names{genSlice(t, "ops", 1, 40, op)}
}

func (s *bstore) checkNames() error {
	if err := s.check(); err != nil {
		return err
	}
	seen := map[string]string{}
	for id, e := range s.m {
		if o, ok := seen[e["name"]]; ok {
			return failf("entries %s and %s share the name %q", o, id, e["name"])
		}
		seen[e["name"]] = id
	}
	var e error
	pool := append(append([]string{}, namePool...), "nobody", "user", "USER/ann")
	for n := range seen {
		pool = append(pool, n)
	}
	err := guard("lookup", func() {
		for _, n := range pool {
			id, bl, err := s.b.FindByName(n)
			if err != nil {
				e = failf("FindByName(%q): %v", n, err)
				return
			}
			if id != seen[n] || (bl != nil) != (id != "") || (bl != nil && bl.Name() != n) {
				e = failf("FindByName(%q) = %q %v, want %q", n, id, bl, seen[n])
				return
			}
		}
		for _, n := range append(append([]string{}, userPool...), "nobody") {
			id, bl, err := s.b.FindUser(n)
			if err != nil || id != seen["user/"+n] || (bl != nil) != (id != "") {
				e = failf("FindUser(%q) = %q %v %v, want %q", n, id, bl, err, seen["user/"+n])
				return
			}
			if id != "" {
				id2, _, err := s.b.MustFindUser(n)
				if err != nil || id2 != id {
					e = failf("MustFindUser(%q) = %q %v, want %q", n, id2, err, id)
					return
				}
			}
		}
		for id, m := range s.m {
			bl, err := s.b.Find(id)
			if err != nil || bl == nil || bl.Name() != m["name"] {
				e = failf("Find(%s) = %v %v, want the entry %q", id, bl, err, m["name"])
				return
			}
		}
		if bl, err := s.b.Find("00000000-0000-0000-0000-000000000000"); bl != nil || err != nil {
			e = failf("Find of an unknown id = %v %v", bl, err)
			return
		}
		us, err := s.b.Users()
		if err != nil {
			e = failf("Users: %v", err)
			return
		}
		want := map[string]string{}
		for n, id := range seen {
			if strings.HasPrefix(n, "user/") {
				want[id] = n
			}
		}
		if fmt.Sprint(map[string]string(us)) != fmt.Sprint(want) && len(us)+len(want) > 0 {
			e = failf("Users() = %v, want %v", us, want)
			return
		}
		for n := range seen {
			isU := strings.HasPrefix(n, "user/")
			if blobformat.IsUserEntry(n) != isU {
				e = failf("IsUserEntry(%q) = %v", n, !isU)
				return
			}
			want := ""
			if isU {
				want = n[len("user/"):]
			}
			if got := blobformat.SplitUsername(n); got != want {
				e = failf("SplitUsername(%q) = %q, want %q", n, got, want)
				return
			}
		}
	})
	if err != nil {
		return err
	}
	return e
}

func runNames(c b01names, x *Ctx) error {
	s := newBstore()
	refused, renamed := 0, 0
	for i, o := range c.Ops {
		before := s.log()
		var err error
		var id string
		want := ""   // name it would get
		taken := ""  // holder of that name
		unique := "" // operation that must find a fresh name itself
		switch o.Op {
		case "new", "newuser":
			want = o.Name
			if o.Op == "newuser" {
				want = "user/" + o.Name
			}
			taken = s.byName(want)
			e := guard(o.Op, func() {
				if o.Op == "new" {
					id, err = s.b.New(o.Name)
				} else {
					id, err = s.b.NewUser(o.Name)
				}
			})
			if e != nil {
				return e
			}
		case "newsync":
			unique = "sync/" + o.Name
			for s.byName(unique) != "" {
				unique += "1"
			}
			if e := guard(o.Op, func() { id, err = s.b.NewSync(o.Name) }); e != nil {
				return e
			}
		case "rename":
			u := s.pick(o.E)
			if u == "" {
				u = "no-such-id"
			}
			h := s.byName(o.Name)
			var er error
			if u == "no-such-id" {
				if e := guard("Rename", func() { er = s.b.Rename(u, o.Name) }); e != nil {
					return e
				}
				if er == nil {
					return failf("op %d: renaming an unknown entry succeeds", i)
				}
			} else {
				var e error
				er, e = s.timed("Rename", u, func() error { return s.b.Rename(u, o.Name) })
				if e != nil {
					return e
				}
			}
			switch {
			case er == nil && h != "" && h != u:
				return failf("op %d: renaming to the taken name %q succeeds", i, o.Name)
			case er == nil:
				s.m[u]["name"] = o.Name
				renamed++
			case u != "no-such-id" && h == "":
				return failf("op %d: renaming to the free name %q: %v", i, o.Name, er)
			default:
				refused++
				if d := sameLog(s.log(), before); d != "" {
					return failf("op %d: a refused rename changes the store: %s", i, d)
				}
			}
		case "delete":
			if u := s.pick(o.E); u != "" {
				s.b.Delete(u)
				s.drop(u)
			}
		case "set":
			if u := s.pick(o.E); u != "" {
				er, e := s.timed("Set", u, func() error { return s.b.Set(u, "note", fmt.Sprint(i)) })
				if e != nil || er != nil {
					return failf("op %d: Set: %v %v", i, e, er)
				}
				s.m[u]["note"] = fmt.Sprint(i)
			}
		case "refresh":
			if err := s.b.UpdateSnapshot(); err != nil {
				return failf("op %d: refresh: %v", i, err)
			}
		case "reload":
			raw, err := s.b.Save()
			if err != nil {
				return failf("op %d: save: %v", i, err)
			}
			db, err := txlogs.New(raw)
			if err != nil {
				return failf("op %d: load: %v", i, err)
			}
			s.b = blobformat.Blobs{DB: db}
		}
		if want != "" || unique != "" || o.Op == "new" || o.Op == "newuser" {
			switch {
			case unique != "":
				if err != nil {
					return failf("op %d: NewSync(%q): %v", i, o.Name, err)
				}
				bl, e := s.b.Find(id)
				if e != nil || bl == nil {
					return failf("op %d: new sync entry not found: %v", i, e)
				}
				// which fresh name it gets is up to the program, within reason
				if !strings.HasPrefix(bl.Name(), "sync/"+o.Name) || s.byName(bl.Name()) != "" {
					return failf("op %d: NewSync(%q) made the entry %q", i, o.Name, bl.Name())
				}
				s.m[id] = map[string]string{"name": bl.Name()}
				s.ids = append(s.ids, id)
			case taken != "":
				refused++
				if err == nil {
					return failf("op %d: %s(%q) succeeds although the name is taken", i, o.Op, o.Name)
				}
				if d := sameLog(s.log(), before); d != "" {
					return failf("op %d: a refused %s changes the store: %s", i, o.Op, d)
				}
			case err != nil:
				return failf("op %d: %s(%q): %v", i, o.Op, o.Name, err)
			default:
				if id == "" || s.m[id] != nil {
					return failf("op %d: %s(%q) returns the id %q", i, o.Op, o.Name, id)
				}
				s.m[id] = map[string]string{"name": want}
				s.ids = append(s.ids, id)
				bl, e := s.b.Find(id)
				if e != nil || bl == nil {
					return failf("op %d: new entry not found: %v", i, e)
				}
				if _, e := bl.Updated(); e != nil || bl["updated"] == "" {
					return failf("op %d: new entry has no updated time (%v)", i, e)
				}
			}
		}
		if err := s.checkNames(); err != nil {
			return failf("after op %d (%s %q): %v", i, o.Op, o.Name, err)
		}
	}
	if refused > 0 {
		x.NonTrivial()
	}
	x.LabelIf(refused > 0, "refused")
	x.LabelIf(renamed > 0, "renamed")
	return nil
}

func runDups(c b01dups, x *Ctx) error {
	b := newBlobs()
	m := map[string]map[string]string{}
	count := map[string]int{}
	for i, n := range c.Names {
		id, err := b.Add()
		must(err)
		b.DB.Set(id, "name", n)
		b.DB.Set(id, "updated", "1000")
		m[id] = map[string]string{"name": n, "updated": "1000"}
		for _, e := range c.Extra {
			if e == i {
				b.DB.Set(id, "user", fmt.Sprint("u", i))
				m[id]["user"] = fmt.Sprint("u", i)
			}
		}
		count[n]++
	}
	if c.Reload {
		raw, err := b.Save()
		must(err)
		db, err := txlogs.New(raw)
		must(err)
		b = blobformat.Blobs{DB: db}
	}
	before := copyLog(b.Log)
	var ren map[string]string
	var err error
	if e := guard("RenameDuplicates", func() { ren, err = b.RenameDuplicates() }); e != nil {
		return e
	}
	if err != nil {
		return failf("RenameDuplicates: %v", err)
	}
	if err := b.UpdateSnapshot(); err != nil {
		return failf("refresh afterwards: %v", err)
	}
	dups := 0
	for _, k := range count {
		if k > 1 {
			dups++
		}
	}
	if dups == 0 {
		if d := sameLog(b.Log, before); d != "" || len(ren) != 0 {
			return failf("without duplicates something is renamed: %v %s", ren, d)
		}
		return nil
	}
	x.NonTrivial()
	if len(b.Snapshot) != len(m) {
		return failf("%d entries became %d", len(m), len(b.Snapshot))
	}
	names := map[string]string{}
	kept := map[string]int{}
	newOf := map[string]map[string]bool{}
	for id, e := range b.Snapshot {
		old := m[id]
		if old == nil {
			return failf("unknown entry %s", id)
		}
		if o, ok := names[e["name"]]; ok {
			return failf("%s and %s still share the name %q (names were %q)", o, id, e["name"], c.Names)
		}
		names[e["name"]] = id
		for k, v := range old {
			if k != "name" && k != "updated" && e[k] != v {
				return failf("field %s of an entry changed from %q to %q", k, v, e[k])
			}
		}
		if len(e) != len(old) {
			return failf("an entry's fields changed from %v to %v", old, e)
		}
		if e["name"] == old["name"] {
			kept[old["name"]]++
			if e["updated"] != old["updated"] {
				return failf("an entry that was not renamed was changed: %v", e)
			}
		} else {
			if count[old["name"]] == 1 {
				return failf("%q was renamed to %q although it was unique (names were %q)", old["name"], e["name"], c.Names)
			}
			if e["updated"] == old["updated"] {
				return failf("a renamed entry's updated time was not changed")
			}
			if newOf[old["name"]] == nil {
				newOf[old["name"]] = map[string]bool{}
			}
			newOf[old["name"]][e["name"]] = true
		}
	}
	for n, k := range count {
		if kept[n] != 1 {
			return failf("%d entries keep the name %q (%d had it)", kept[n], n, k)
		}
		if k > 1 {
			if !newOf[n][ren[n]] {
				return failf("renames of %q are reported as %q, entries are now called %v", n, ren[n], newOf[n])
			}
		}
	}
	for n := range ren {
		if count[n] < 2 {
			return failf("a rename of %q is reported", n)
		}
	}
	// a second run has nothing left to do
	log := copyLog(b.Log)
	ren, err = b.RenameDuplicates()
	if err != nil || len(ren) != 0 || sameLog(b.Log, log) != "" {
		return failf("a second run renames again: %v %v", ren, err)
	}
	return nil
}

// ------------------------------------------------------------------ B02

type setOp struct {
	Op, Key, Val string
	E            int
}
type b02 struct {
	N   int
	Ops []setOp
}

var protected = []string{"name", "updated", "totp", "iv", "salt", "mkey"}

func caseVariant(t *rapid.T, s string) string {
	b := []byte(s)
	for i := range b {
		if rapid.Bool().Draw(t, "up") && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func isProtected(k string) bool {
	for _, p := range protected {
		if strings.ToLower(k) == p {
			return true
		}
	}
	return false
}

func genSetOps(t *rapid.T) b02 {
	op := rapid.Custom(func(t *rapid.T) setOp {
		o := setOp{Op: rapid.SampledFrom([]string{"set", "set", "set", "del", "del", "rename", "totp", "addlabel", "rmlabel", "dbset"}).Draw(t, "op"),
			E: rapid.IntRange(0, 3).Draw(t, "e")}
		switch rapid.IntRange(0, 3).Draw(t, "kk") {
		case 0:
			o.Key = rapid.SampledFrom(protected).Draw(t, "k")
		case 1:
			o.Key = caseVariant(t, rapid.SampledFrom(protected).Draw(t, "k"))
		case 2:
			o.Key = rapid.SampledFrom([]string{"user", "email", "url", "notes", "pass", "labels", "privkey", "knownhosts", "sync", "name ", "names", "iv2", "salty", "", "mke", "totp\x00", "名前"}).Draw(t, "k")
		default:
			o.Key = genKey(t, "k")
			if len(o.Key) > 20 {
				o.Key = "long" + fmt.Sprint(len(o.Key)%5)
			}
		}
		o.Val = genText(t, "v", 60)
		return o
	})
	return b02{rapid.IntRange(1, 3).Draw(t, "n"), genSlice(t, "ops", 1, 30, op)}
}

func runSet(c b02, x *Ctx) error {
	s := newBstore()
	for i := 0; i < c.N; i++ {
		id, err := s.b.New(fmt.Sprint("e", i))
		if err != nil {
			return failf("New: %v", err)
		}
		s.m[id] = map[string]string{"name": fmt.Sprint("e", i)}
		s.ids = append(s.ids, id)
	}
	for _, k := range []string{"iv", "salt", "mkey"} {
		s.b.DB.Set(s.ids[0], k, "abcd")
		s.m[s.ids[0]][k] = "abcd"
	}
	prot := false
	for i, o := range c.Ops {
		id := s.pick(o.E)
		before := s.log()
		fold := isProtected(o.Key)
		// keys that fold to a protected one in other ways are nobody's business
		if !fold {
			skip := false
			for _, p := range protected {
				skip = skip || strings.EqualFold(o.Key, p)
			}
			if skip {
				continue
			}
		}
		var er, e error
		must := "" // must succeed with this effect / "refuse"
		switch o.Op {
		case "set":
			er, e = s.timed("Set", id, func() error { return s.b.Set(id, o.Key, o.Val) })
			if fold {
				must = "refuse"
			} else {
				must = "ok"
				s.m[id][o.Key] = o.Val
			}
		case "del":
			er, e = s.timed("DeleteKey", id, func() error { return s.b.DeleteKey(id, o.Key) })
			if o.Key != "totp" && o.Key == strings.ToLower(o.Key) && fold {
				must = "refuse"
			} else if fold && o.Key != "totp" {
				must = "either" // another spelling of a protected field; no field has it
			} else {
				must = "ok"
				delete(s.m[id], o.Key)
			}
		case "rename":
			n := "r" + fmt.Sprint(i)
			er, e = s.timed("Rename", id, func() error { return s.b.Rename(id, n) })
			must = "ok"
			s.m[id]["name"] = n
		case "totp":
			uri := "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&n=" + fmt.Sprint(i)
			er, e = s.timed("SetTwofactor", id, func() error { return s.b.SetTwofactor(id, uri) })
			must = "ok"
			s.m[id]["totp"] = uri
		case "addlabel":
			l := "l" + fmt.Sprint(i)
			er, e = s.timed("AddLabel", id, func() error { return s.b.AddLabel(id, l) })
			must = "ok"
			if s.m[id]["labels"] == "" {
				s.m[id]["labels"] = l
			} else {
				s.m[id]["labels"] += "," + l
			}
		case "rmlabel":
			ls := strings.Split(s.m[id]["labels"], ",")
			if s.m[id]["labels"] == "" {
				continue
			}
			k := i % len(ls)
			er, e = s.timed("RemoveLabel", id, func() error { return s.b.RemoveLabel(id, k) })
			must = "ok"
			ls = append(append([]string{}, ls[:k]...), ls[k+1:]...)
			if len(ls) == 0 {
				delete(s.m[id], "labels")
			} else {
				s.m[id]["labels"] = strings.Join(ls, ",")
			}
		case "dbset": // some other field, set through the database as other copies do
			s.b.DB.Set(id, "raw", o.Val)
			s.m[id]["raw"] = o.Val
			must = "raw"
		}
		if e != nil {
			return failf("op %d: %s %q: %v", i, o.Op, o.Key, e)
		}
		switch must {
		case "ok":
			if er != nil {
				return failf("op %d: %s(%q, %q) is refused: %v", i, o.Op, o.Key, o.Val, er)
			}
		case "refuse":
			prot = true
			if er == nil {
				return failf("op %d: %s(%q) of a protected field succeeds", i, o.Op, o.Key)
			}
			if !blobformat.IsKeyNotAllowed(er) {
				return failf("op %d: %s(%q) of a protected field gives another error: %v", i, o.Op, o.Key, er)
			}
		}
		if er != nil {
			if d := sameLog(s.log(), before); d != "" {
				return failf("op %d: refused %s(%q) changes the store: %s", i, o.Op, o.Key, d)
			}
		}
		if err := s.check(); err != nil {
			return failf("op %d: %s(%q,%q): %v", i, o.Op, o.Key, o.Val, err)
		}
		for _, id := range s.ids {
			bl, _ := s.b.Find(id)
			if up, err := bl.Updated(); err != nil || up.IsZero() {
				return failf("op %d: updated of an entry: %v %v", i, up, err)
			}
			if up, _ := bl.Updated(); !s.last[id].IsZero() && !up.Equal(s.last[id]) {
				return failf("op %d: %s changed the updated time of another entry", i, o.Op)
			}
		}
	}
	if prot {
		x.NonTrivial()
	}
	x.LabelIf(prot, "refused")
	return nil
}

// ------------------------------------------------------------------ B03

type labOp struct {
	Op    string
	E     int
	Label string
	Index int
}
type b03 struct {
	N       int
	Ops     []labOp
	Queries [][]string
}

var labelPool = []string{"work", "home", "wor", "work1", "fav", "x", "ümläut", "a b", " work", "Work"}

func genLabels(t *rapid.T) b03 {
	op := rapid.Custom(func(t *rapid.T) labOp {
		o := labOp{Op: rapid.SampledFrom([]string{"add", "add", "add", "rm", "rm", "bad"}).Draw(t, "op"), E: rapid.IntRange(0, 3).Draw(t, "e")}
		switch o.Op {
		case "add":
			o.Label = rapid.SampledFrom(labelPool).Draw(t, "l")
		case "rm":
			o.Index = rapid.IntRange(0, 7).Draw(t, "i")
		default:
			o.Index = rapid.SampledFrom([]int{-1, -2, -1 << 31, 1 << 31, 0, 1, 2, 3, 1 << 62, -1 << 62}).Draw(t, "i")
		}
		return o
	})
	q := rapid.Custom(func(t *rapid.T) []string {
		return rapid.SliceOfN(rapid.SampledFrom(append([]string{"none", ""}, labelPool...)), 1, 4).Draw(t, "q")
	})
	return b03{rapid.IntRange(1, 4).Draw(t, "n"), genSlice(t, "ops", 1, 30, op), rapid.SliceOfN(q, 1, 5).Draw(t, "queries")}
}

func runLabels(c b03, x *Ctx) error {
	s := newBstore()
	lists := map[string][]string{}
	for i := 0; i < c.N; i++ {
		id, err := s.b.New(fmt.Sprint("e", i))
		if err != nil {
			return failf("New: %v", err)
		}
		s.m[id] = map[string]string{"name": fmt.Sprint("e", i)}
		s.ids = append(s.ids, id)
	}
	rm, bad := 0, 0
	for i, o := range c.Ops {
		id := s.pick(o.E)
		l := lists[id]
		before := s.log()
		switch o.Op {
		case "add":
			er, e := s.timed("AddLabel", id, func() error { return s.b.AddLabel(id, o.Label) })
			if e != nil || er != nil {
				return failf("op %d: AddLabel(%q): %v %v", i, o.Label, e, er)
			}
			lists[id] = append(append([]string{}, l...), o.Label)
		case "rm":
			if len(l) == 0 {
				continue
			}
			k := o.Index % len(l)
			er, e := s.timed("RemoveLabel", id, func() error { return s.b.RemoveLabel(id, k) })
			if e != nil || er != nil {
				return failf("op %d: RemoveLabel(%d) of %q: %v %v", i, k, l, e, er)
			}
			rm++
			lists[id] = append(append([]string{}, l[:k]...), l[k+1:]...)
		case "bad":
			if o.Index >= 0 && o.Index < len(l) {
				continue
			}
			var er error
			if e := guard("RemoveLabel", func() { er = s.b.RemoveLabel(id, o.Index) }); e != nil {
				return failf("op %d: RemoveLabel(%d) of %q: %v", i, o.Index, l, e)
			}
			bad++
			if er == nil {
				return failf("op %d: RemoveLabel(%d) of %q succeeds", i, o.Index, l)
			}
			if d := sameLog(s.log(), before); d != "" {
				return failf("op %d: refused RemoveLabel changes the store: %s", i, d)
			}
		}
		for _, id := range s.ids {
			bl, err := s.b.Find(id)
			if err != nil || bl == nil {
				return failf("op %d: Find: %v", i, err)
			}
			if fmt.Sprintf("%q", bl.Labels()) != fmt.Sprintf("%q", lists[id]) && len(bl.Labels())+len(lists[id]) > 0 {
				return failf("op %d (%s): labels %q, want %q", i, o.Op, bl.Labels(), lists[id])
			}
			if bl.Name() != s.m[id]["name"] || bl.Get("user") != "" {
				return failf("op %d: another field changed: %v", i, bl)
			}
		}
	}
	hits := 0
	for _, q := range c.Queries {
		if e := labelQuery(s, lists, q); e != nil {
			return e
		}
		for _, id := range s.ids {
			if hasAll(lists[id], q) {
				hits++
			}
		}
	}
	if hits > 0 {
		x.Label("label found")
	}
	if rm > 0 && hits > 0 {
		x.NonTrivial()
	}
	x.LabelIf(bad > 0, "bad index")
	return nil
}

func hasAll(have, want []string) bool {
	m := map[string]bool{}
	for _, h := range have {
		m[h] = true
	}
	for _, w := range want {
		if !m[w] {
			return false
		}
	}
	return true
}

func labelQuery(s *bstore, lists map[string][]string, q []string) error {
	want := map[string]string{}
	for _, id := range s.ids {
		if hasAll(lists[id], q) {
			want[id] = s.m[id]["name"]
		}
	}
	var got blobformat.SearchResults
	var err error
	if e := guard("SearchLabels", func() { got, err = s.b.SearchLabels(q...) }); e != nil {
		return e
	}
	if err != nil {
		return failf("SearchLabels(%q): %v", q, err)
	}
	if len(got)+len(want) > 0 && fmt.Sprint(map[string]string(got)) != fmt.Sprint(want) {
		return failf("SearchLabels(%q) over %q = %v, want %v", q, lists, got, want)
	}
	return nil
}

// ------------------------------------------------------------------ B04, B05

// cleanRunes have simple one to one case pairs, whatever way one folds them;
// some pairs have encodings of different length.
var cleanRunes = []rune("aAbBcC1-_. éÉäÄßжЖ日本ȺⱥȾⱦ\u00ff\u0178\U00010400\U00010428\u2c6f\u0250")

func refMatchRunes(s, p []rune, eq func(c, p rune) bool) bool {
	i := 0
	for _, c := range s {
		if i < len(p) && eq(c, p[i]) {
			i++
		}
	}
	return i == len(p)
}

func eqMatch(c, p rune) bool { return c == p || unicode.ToLower(c) == p }
func eqFold(c, p rune) bool  { return unicode.ToLower(c) == unicode.ToLower(p) }
func refMatch(s, p string) bool {
	return refMatchRunes([]rune(s), []rune(p), eqMatch)
}

func genClean(t *rapid.T, name string, max int) string {
	pool := cleanRunes
	if rapid.IntRange(0, 2).Draw(t, name+"Small") == 0 {
		pool = []rune("aAbⱥȺ")
	}
	return string(rapid.SliceOfN(rapid.SampledFrom(pool), 0, max).Draw(t, name))
}

// genPattern derives a pattern from a text: some of its characters, some in the other case.
func genPattern(t *rapid.T, name, s string) string {
	var out []rune
	for _, r := range s {
		switch rapid.IntRange(0, 5).Draw(t, name+"P") {
		case 0, 1:
		case 2:
			out = append(out, unicode.ToLower(r))
		case 3:
			out = append(out, unicode.ToUpper(r))
		default:
			out = append(out, r)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, name+"X") == 0 && len(out) > 0 {
		i := rapid.IntRange(0, len(out)-1).Draw(t, name+"XI")
		out[i] = rapid.SampledFrom(cleanRunes).Draw(t, name+"XR")
	}
	return string(out)
}

type b05 struct {
	S, P, Ext string
}
type b05raw struct{ S, P, Ext B }

func match(s, p string) (bool, error) {
	var r bool
	e := guard(fmt.Sprintf("Match(%q,%q)", s, p), func() { r = fuzzy.Match(s, p) })
	return r, e
}
func matchFold(s, p string) (bool, error) {
	var r bool
	e := guard(fmt.Sprintf("MatchFold(%q,%q)", s, p), func() { r = fuzzy.MatchFold(s, p) })
	return r, e
}

func fuzzyLaws(s, p, ext string) error {
	m, e := match(s, p)
	if e != nil {
		return e
	}
	f, e := matchFold(s, p)
	if e != nil {
		return e
	}
	for _, k := range []struct {
		s, p string
		why  string
	}{{s, s, "itself"}, {s, "", "the empty pattern"}} {
		if r, e := match(k.s, k.p); e != nil || !r {
			return failf("%q does not match %s: %v", k.s, k.why, e)
		}
		if r, e := matchFold(k.s, k.p); e != nil || !r {
			return failf("%q does not match %s (fold): %v", k.s, k.why, e)
		}
	}
	// prefixes at character boundaries, where cutting does not change the characters
	for i := range s {
		if !utf8.ValidString(s) {
			break
		}
		if r, e := match(s, s[:i]); e != nil || !r {
			return failf("%q does not match its prefix %q: %v", s, s[:i], e)
		}
		if r, e := matchFold(s, s[:i]); e != nil || !r {
			return failf("%q does not match its prefix %q (fold): %v", s, s[:i], e)
		}
	}
	if utf8.ValidString(s) && utf8.ValidString(ext) {
		for _, l := range []string{s + ext, ext + s} {
			r, e := match(l, p)
			if e != nil || m && !r {
				return failf("%q matches %q but the longer %q does not: %v", s, p, l, e)
			}
			r, e = matchFold(l, p)
			if e != nil || f && !r {
				return failf("%q matches %q (fold) but the longer %q does not: %v", s, p, l, e)
			}
		}
	}
	return nil
}

type b04 struct {
	Names   []string
	Queries []string
}

func genSearch(t *rapid.T) b04 {
	comp := rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 3).Draw(t, "word") > 0 {
			return rapid.SampledFrom([]string{"mail", "work", "Mail", "home", "bank", "", "ma", "w", "user", "Ⱥ", "ⱥx", "日本"}).Draw(t, "w")
		}
		return genClean(t, "c", 6)
	})
	name := rapid.Custom(func(t *rapid.T) string {
		return strings.Join(rapid.SliceOfN(comp, 1, 4).Draw(t, "comps"), "/")
	})
	names := rapid.SliceOfNDistinct(name, 0, 10, func(s string) string { return s }).Draw(t, "names")
	q := rapid.Custom(func(t *rapid.T) string {
		if len(names) > 0 && rapid.IntRange(0, 3).Draw(t, "from") > 0 {
			n := rapid.SampledFrom(names).Draw(t, "of")
			parts := strings.Split(n, "/")
			k := rapid.IntRange(1, len(parts)).Draw(t, "k")
			for i := range parts {
				parts[i] = genPattern(t, "pat", parts[i])
			}
			if rapid.IntRange(0, 4).Draw(t, "flat") == 0 {
				return strings.Join(parts[:k], "")
			}
			return strings.Join(parts[:k], "/")
		}
		return name.Draw(t, "q")
	})
	return b04{names, rapid.SliceOfN(q, 1, 6).Draw(t, "queries")}
}

func runSearch(c b04, x *Ctx) error {
	b := newBlobs()
	ids := map[string]string{}
	for _, n := range c.Names {
		id, err := b.New(n)
		if err != nil {
			return failf("New(%q): %v", n, err)
		}
		ids[id] = n
	}
	qs := append(append([]string{""}, c.Queries...), c.Names...)
	some, frag := false, false
	for qi, q := range qs {
		want := map[string]string{}
		for id, n := range ids {
			ok := true
			if strings.Contains(q, "/") {
				qp, np := strings.Split(q, "/"), strings.Split(n, "/")
				ok = len(np) >= len(qp)
				for i := 0; ok && i < len(qp); i++ {
					ok = refMatch(np[i], qp[i])
				}
			} else {
				ok = refMatch(n, q)
			}
			if ok {
				want[id] = n
			}
		}
		var got blobformat.SearchResults
		var err error
		if e := guard("Search", func() { got, err = b.Search(q) }); e != nil {
			return failf("Search(%q): %v", q, e)
		}
		if err != nil {
			return failf("Search(%q): %v", q, err)
		}
		if len(got)+len(want) > 0 && fmt.Sprint(map[string]string(got)) != fmt.Sprint(want) {
			return failf("Search(%q) over %q = %v, want %v", q, c.Names, got.Names(), want)
		}
		if len(want) > 0 && len(want) < len(ids) && qi > 0 {
			some = true
			frag = frag || strings.Contains(q, "/")
		}
		// helpers
		ns, us := got.Names(), got.UUIDs()
		sort.Strings(ns)
		sort.Strings(us)
		var wn, wu []string
		for u, n := range want {
			wn, wu = append(wn, n), append(wu, u)
		}
		sort.Strings(wn)
		sort.Strings(wu)
		if fmt.Sprintf("%q %q", ns, us) != fmt.Sprintf("%q %q", wn, wu) {
			return failf("Names/UUIDs of the result differ from it: %q %q", ns, us)
		}
	}
	if some {
		x.NonTrivial()
	}
	x.LabelIf(frag, "path query")
	return nil
}

// ------------------------------------------------------------------ B06

func refTOTP(key []byte, at time.Time, period int64, digits int, h func() hash.Hash) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(at.Unix()/period))
	m := hmac.New(h, key)
	m.Write(b[:])
	s := m.Sum(nil)
	o := s[len(s)-1] & 15
	v := binary.BigEndian.Uint32(s[o:o+4]) & 0x7fffffff
	mod := uint32(1)
	for i := 0; i < digits; i++ {
		mod *= 10
	}
	return fmt.Sprintf("%0*d", digits, v%mod)
}

type b06 struct {
	Key     B
	Lower   bool
	Padded  bool
	URL     bool
	Period  int // 0: not given
	Digits  int
	Alg     string
	Issuer  string
	Account string
	Prior   bool
	Reload  bool
}
type b06bad struct {
	Val   string
	Prior bool
}

func init() {
	part("B01", "names", 40000, 1000000,
		"sequences of up to 40 creations, renames, deletions, user/sync additions, reloads over a small pool of names; non-trivial: a request was refused for its name",
		genNameOps, runNames)
	part("B01", "duplicates", 40000, 1000000,
		"stores of up to 9 entries with colliding names made at database level; non-trivial: some names collide",
		func(t *rapid.T) b01dups {
			pool := rapid.SampledFrom([]string{"a", "a1", "a11", "b", "user/x", "", "1", "11"})
			return b01dups{genSlice(t, "names", 1, 9, pool), rapid.SliceOfN(rapid.IntRange(0, 8), 0, 3).Draw(t, "extra"), rapid.Bool().Draw(t, "reload")}
		}, runDups)
	part("B02", "setters", 40000, 1000000,
		"sequences of up to 30 sets, deletions and special setters on up to 3 entries, over protected names in any case, common and odd field names; non-trivial: a protected field was refused",
		genSetOps, runSet)
	part("B03", "labels", 40000, 1000000,
		"sequences of up to 30 label additions, removals and removals outside the list on up to 4 entries, then label searches; non-trivial: a label was removed and a search found something",
		genLabels, runLabels)
	part("B04", "search", 30000, 800000,
		"stores of up to 10 names of up to 4 components and queries derived from them; non-trivial: a query matched some but not all",
		genSearch, runSearch)
	part("B05", "match", 200000, 4000000,
		"texts over characters with simple case pairs (some of different encoded length) and patterns derived from them; non-trivial: non-empty pattern that matches",
		func(t *rapid.T) b05 {
			s := genClean(t, "s", 16)
			p := ""
			if rapid.IntRange(0, 4).Draw(t, "rnd") == 0 {
				p = genClean(t, "p", 6)
			} else {
				p = genPattern(t, "p", s)
			}
			return b05{s, p, genClean(t, "ext", 4)}
		},
		func(c b05, x *Ctx) error {
			want := refMatch(c.S, c.P)
			got, e := match(c.S, c.P)
			if e != nil {
				return e
			}
			if got != want {
				return failf("Match(%q, %q) = %v", c.S, c.P, got)
			}
			wantF := refMatchRunes([]rune(c.S), []rune(c.P), eqFold)
			gotF, e := matchFold(c.S, c.P)
			if e != nil {
				return e
			}
			if gotF != wantF {
				return failf("MatchFold(%q, %q) = %v", c.S, c.P, gotF)
			}
			if want && c.P != "" {
				x.NonTrivial()
			}
			x.LabelIf(wantF && !want, "matches only when folded")
			x.LabelIf(!wantF, "no match")
			return fuzzyLaws(c.S, c.P, c.Ext)
		})
	part("B05", "bytes", 200000, 4000000,
		"arbitrary byte strings as text and pattern (invalid UTF-8 included), many patterns cut out of the text; non-trivial: text or pattern is not valid UTF-8",
		func(t *rapid.T) b05raw {
			frag := rapid.Custom(func(t *rapid.T) []byte {
				switch rapid.IntRange(0, 4).Draw(t, "k") {
				case 0:
					return []byte{rapid.Byte().Draw(t, "b")}
				case 1:
					return []byte(rapid.SampledFrom([]string{"\xff", "\xe2\x82", "\xf0\x9f\x98", "\xc3", "\xed\xa0\x80", "\ufffd", "İ", "ſ", "K", "ǅ", "ς", "\x00", "\xc0\x80"}).Draw(t, "s"))
				default:
					return []byte(genClean(t, "c", 3))
				}
			})
			s := []byte{}
			for _, f := range rapid.SliceOfN(frag, 0, 8).Draw(t, "s") {
				s = append(s, f...)
			}
			p := []byte{}
			if rapid.Bool().Draw(t, "sub") {
				for _, b := range s {
					if rapid.IntRange(0, 2).Draw(t, "keep") > 0 {
						p = append(p, b)
					}
				}
			} else {
				for _, f := range rapid.SliceOfN(frag, 0, 4).Draw(t, "p") {
					p = append(p, f...)
				}
			}
			return b05raw{s, p, rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "ext")}
		},
		func(c b05raw, x *Ctx) error {
			if !utf8.Valid(c.S) || !utf8.Valid(c.P) {
				x.NonTrivial()
			}
			return fuzzyLaws(string(c.S), string(c.P), string(c.Ext))
		})
	part("B06", "codes", 40000, 1000000,
		"secrets of 1..64 bytes, bare or in otpauth URLs with all period/digits/algorithm choices; non-trivial: given as URL or with parameters",
		func(t *rapid.T) b06 {
			c := b06{Key: rapid.SliceOfN(rapid.Byte(), 1, 64).Draw(t, "key"), Lower: rapid.Bool().Draw(t, "lower"), Padded: rapid.Bool().Draw(t, "padded"),
				URL: rapid.IntRange(0, 2).Draw(t, "url") > 0, Prior: rapid.Bool().Draw(t, "prior"), Reload: rapid.Bool().Draw(t, "reload")}
			if c.URL {
				c.Period = rapid.SampledFrom([]int{0, 0, 30, 60, 15, 90, 1000000}).Draw(t, "period")
				c.Digits = rapid.SampledFrom([]int{0, 0, 6, 7, 8}).Draw(t, "digits")
				c.Alg = rapid.SampledFrom([]string{"", "", "SHA1", "SHA256", "SHA512"}).Draw(t, "alg")
				c.Issuer = rapid.SampledFrom([]string{"", "Example", "Ex ample", "a&b=c", "ü"}).Draw(t, "issuer")
				c.Account = rapid.SampledFrom([]string{"", "alice@example.com", "Example:alice", "a b/c?d", "%41"}).Draw(t, "account")
			}
			return c
		}, runTOTP)
	part("B06", "refusal", 40000, 1000000,
		"arbitrary text, malformed and unusual otpauth URLs as secret: stored means codes can be produced, refused means unchanged; non-trivial: looks like a URL or a plausible secret",
		func(t *rapid.T) b06bad {
			v := ""
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				v = genText(t, "v", 40)
			case 1:
				v = rapid.StringMatching(`[A-Z2-7a-z018=\- ]{0,34}`).Draw(t, "v")
			case 2:
				v = rapid.SampledFrom([]string{"", " ", "=", "========", "otpauth://", "otpauth://totp", "otpauth://totp/x", "otpauth://totp/x?secret=", "otpauth://hotp/x?secret=JBSWY3DPEHPK3PXP&counter=1",
					"OTPAUTH://totp/x?secret=JBSWY3DPEHPK3PXP", "otpauth://totp/x?Secret=JBSWY3DPEHPK3PXP", "otpauth://totp/%zz?secret=JBSWY3DPEHPK3PXP", "otpauth://totp/x?secret=%zz", "otpauth://totp:99/x?secret=JBSWY3DPEHPK3PXP",
					"otpauth://TOTP/x?secret=JBSWY3DPEHPK3PXP", "otpauth://totp/x?secret=0189", "otpauth://totp\n/x?secret=JBSWY3DPEHPK3PXP", "https://totp/?secret=JBSWY3DPEHPK3PXP", " otpauth://totp/x?secret=JBSWY3DPEHPK3PXP", "otpauth://totp/x?secret=+", "otpauth://totp/x?secret=%20%20"}).Draw(t, "v")
			case 3:
				v = rapid.SampledFrom([]string{"JBSWY3DPEHPK3PXP", "jbswy3dpehpk3pxp", "GEZDGNBV", "GEZDGNBVGY3TQOJQGEZDGNBVGY3TQOJQ", "JBSWY3DPEE"}).Draw(t, "bare")
				if rapid.Bool().Draw(t, "dirty") {
					v += rapid.SampledFrom([]string{"&digits=8", "&period=60", "&x=y", "%41", "%41A", "#x", "+", "++", "&", ";", "?digits=8", "&algorithm=SHA512", "&secret=GEZDGNBV", "=", "======", "%3D", "\n", " ", " GEZD", "-GEZD"}).Draw(t, "suffix")
				}
				if rapid.IntRange(0, 4).Draw(t, "lead") == 2 {
					v = rapid.SampledFrom([]string{"secret=", "&", "totp:", " ", "%4A", "x?secret=", "+"}).Draw(t, "prefix") + v
				}
			default:
				secret := rapid.SampledFrom([]string{"JBSWY3DPEHPK3PXP", "", "1", "A", "JBSWY3DPEHPK3PX", "jbswy3dp ehpk3pxp", "%00", "JBSWY3DPEHPK3PXP=", "ÄÖ"}).Draw(t, "secret")
				v = "otpauth://" + rapid.SampledFrom([]string{"totp", "totp", "totp", "hotp", "", "x", "totp@totp"}).Draw(t, "host") + "/x?secret=" + secret
				for _, k := range []string{"period", "digits", "algorithm"} {
					if rapid.IntRange(0, 2).Draw(t, k) == 0 {
						v += "&" + k + "=" + rapid.SampledFrom([]string{"", "0", "-1", "30", "8", "5", "9", "10", "20", "x", "99999999999999999999", "SHA1", "sha256", "MD5", "1e3", "06", "4294967296"}).Draw(t, k+"V")
					}
				}
			}
			return b06bad{v, rapid.Bool().Draw(t, "prior")}
		}, runTOTPBad)
}

func runTOTP(c b06, x *Ctx) error {
	if c.URL {
		x.NonTrivial()
	}
	sec := base32.StdEncoding.EncodeToString(c.Key)
	if !c.Padded {
		sec = strings.TrimRight(sec, "=")
	}
	if c.Lower {
		sec = strings.ToLower(sec)
	}
	val := sec
	period, digits, h := int64(30), 6, sha1.New
	if c.URL {
		q := url.Values{}
		q.Set("secret", sec)
		if c.Period > 0 {
			q.Set("period", fmt.Sprint(c.Period))
			period = int64(c.Period)
		}
		if c.Digits > 0 {
			q.Set("digits", fmt.Sprint(c.Digits))
			digits = c.Digits
		}
		if c.Alg != "" {
			q.Set("algorithm", c.Alg)
			switch c.Alg {
			case "SHA256":
				h = sha256.New
			case "SHA512":
				h = sha512.New
			}
		}
		if c.Issuer != "" {
			q.Set("issuer", c.Issuer)
		}
		val = "otpauth://totp/" + url.PathEscape(c.Account) + "?" + q.Encode()
	}
	x.LabelIf(c.Period+c.Digits > 0 || c.Alg != "", "with parameters")
	s := newBstore()
	id, err := s.b.New("e")
	if err != nil {
		return failf("New: %v", err)
	}
	bl, _ := s.b.Find(id)
	if code, err := bl.TwoFactor(); code != "" || err != nil {
		return failf("an entry without secret gives %q, %v", code, err)
	}
	if c.Prior {
		if err := s.b.SetTwofactor(id, "GEZDGNBVGY3TQOJQ"); err != nil {
			return failf("SetTwofactor(GEZDGNBVGY3TQOJQ): %v", err)
		}
	}
	er, e := s.timed("SetTwofactor", id, func() error { return s.b.SetTwofactor(id, val) })
	if e != nil {
		return e
	}
	if er != nil {
		return failf("SetTwofactor(%q) is refused: %v", val, er)
	}
	if c.Reload {
		raw, err := s.b.Save()
		if err != nil {
			return failf("save: %v", err)
		}
		db, err := txlogs.New(raw)
		if err != nil {
			return failf("load: %v", err)
		}
		s.b = blobformat.Blobs{DB: db}
	}
	bl, err = s.b.Find(id)
	if err != nil || bl == nil {
		return failf("Find: %v", err)
	}
	t0 := time.Now()
	var code string
	if e := guard("TwoFactor", func() { code, err = bl.TwoFactor() }); e != nil {
		return e
	}
	t1 := time.Now()
	if err != nil {
		return failf("TwoFactor for %q: %v", val, err)
	}
	w0, w1 := refTOTP(c.Key, t0, period, digits, h), refTOTP(c.Key, t1, period, digits, h)
	if code != w0 && code != w1 {
		return failf("TwoFactor for %q is %q, want %q", val, code, w0)
	}
	return nil
}

func runTOTPBad(c b06bad, x *Ctx) error {
	if strings.HasPrefix(c.Val, "otpauth") || len(c.Val) > 8 {
		x.NonTrivial()
	}
	s := newBstore()
	id, err := s.b.New("e")
	if err != nil {
		return failf("New: %v", err)
	}
	if c.Prior {
		if err := s.b.SetTwofactor(id, "GEZDGNBVGY3TQOJQ"); err != nil {
			return failf("SetTwofactor(GEZDGNBVGY3TQOJQ): %v", err)
		}
	}
	before := s.log()
	er, e := s.timed("SetTwofactor", id, func() error { return s.b.SetTwofactor(id, c.Val) })
	if e != nil {
		return e
	}
	if er != nil {
		x.Label("refused")
		if d := sameLog(s.log(), before); d != "" {
			return failf("refused SetTwofactor(%q) changes the store: %s", c.Val, d)
		}
		return nil
	}
	x.Label("stored")
	bl, _ := s.b.Find(id)
	var code string
	t0 := time.Now()
	if e := guard("TwoFactor", func() { code, err = bl.TwoFactor() }); e != nil {
		return e
	}
	t1 := time.Now()
	if err != nil || len(code) < 6 || len(code) > 10 || strings.Trim(code, "0123456789") != "" {
		return failf("SetTwofactor(%q) is accepted, but the code is %q, %v", c.Val, code, err)
	}
	want, ok := givenTOTP(c.Val)
	if !ok {
		return nil
	}
	x.Label("code compared")
	if w0, w1 := want(t0), want(t1); code != w0 && code != w1 {
		return failf("SetTwofactor(%q) is accepted, but the code is %q instead of %q", c.Val, code, w0)
	}
	return nil
}

// givenTOTP reads a secret as the user gave it: the codes it stands for at a time. False if it is nothing
// that this function understands.
func givenTOTP(val string) (func(time.Time) string, bool) {
	val = strings.TrimSpace(val)
	period, digits, h := int64(30), 6, sha1.New
	sec := val
	if i := strings.Index(val, ":"); i >= 0 && strings.EqualFold(val[:i], "otpauth") {
		u, err := url.Parse(val)
		if err != nil {
			return nil, false
		}
		q := u.Query()
		sec = strings.TrimSpace(q.Get("secret"))
		if v := q.Get("period"); v != "" {
			if period, err = strconv.ParseInt(v, 10, 40); err != nil || period <= 0 {
				return nil, false
			}
		}
		if v := q.Get("digits"); v != "" {
			if digits, err = strconv.Atoi(v); err != nil || digits < 6 || digits > 8 {
				return nil, false
			}
		}
		switch strings.ToUpper(q.Get("algorithm")) {
		case "", "SHA1":
		case "SHA256":
			h = sha256.New
		case "SHA512":
			h = sha512.New
		default:
			return nil, false
		}
	}
	key, err := base32.StdEncoding.WithPadding(base32.NoPadding).DecodeString(strings.ToUpper(strings.TrimRight(sec, "=")))
	if err != nil || len(key) == 0 {
		if sec != val {
			return nil, false
		}
		// a bare value that is no secret at all, whatever liberties are taken in reading it
		for _, r := range sec {
			if !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789=-_ \t\r\n", r) {
				return func(time.Time) string { return "none: it is no base32 text" }, true
			}
		}
		return nil, false
	}
	return func(t time.Time) string { return refTOTP(key, t, period, digits, h) }, true
}
