package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aarondl/bpass/txlogs"
	"pgregory.net/rapid"
)

// twoUsers are users of a prepared multi-user file; the first has the passphrase "the pass".
func twoUsers() []refUser {
	return []refUser{{[]byte("u0"), []byte("the pass"), expand([]byte("s0"), 32), expand([]byte("i0"), 40)}, {[]byte("u1"), []byte("other"), expand([]byte("s1"), 32), expand([]byte("i1"), 40)}}
}

// prepared is a database file of a generated history, and what is in it.
type prepared struct {
	Hist  []hop
	Multi bool
	Stale int // changes that the stored snapshot lacks
}

func genPrepared(t *rapid.T, max int) prepared {
	p := prepared{Hist: genHops(t, max), Multi: rapid.IntRange(0, 4).Draw(t, "multi") == 0}
	p.Stale = rapid.SampledFrom([]int{0, 0, 0, 1, 3, 1000}).Draw(t, "stale")
	return p
}

type openArgs struct {
	lines []string
	user  []byte
	pass  []byte
}

func (p prepared) write(h *Home, name string) (log []txlogs.Tx, m *mstore, o openArgs) {
	o = openArgs{lines: []string{"the pass"}, pass: []byte("the pass")}
	var users []refUser
	if p.Multi {
		users = twoUsers()
		o.lines, o.user = []string{"u0", "the pass"}, []byte("u0")
	}
	log = append(multiLog(users, h, name), buildHist(p.Hist, 1600001000e9)...)
	h.writeDB(name, "the pass", users, storeJSON(log, max(0, len(log)-p.Stale)))
	st, ok := refReplay(log)
	if !ok {
		panic(infraError{"prepared: bad log"})
	}
	m, _ = stateModel(st)
	return log, m, o
}

// ---------------------------------------------------------------- M07: LastPass import

type lpRec struct {
	URL, User, Pass, Notes, Name, Group string
	Fav                                 string
}

type m07 struct {
	New     bool
	P       prepared
	Recs    []lpRec
	Quote   int    // how fields are quoted: 0 when needed, 1 always, 2 mixed
	Bad     string // what is wrong with the export
	At      int    // the record where
	NoNL    bool   // the last line has no newline
	Confirm string
}

var lpNames = []string{"a", "A", "a", "Mail", "mail", "My Bank", "my_bank", "My  Bank", "é", "É", "İ", "ẞ", "user/u0", "User/U1", "user/x", "sync/file", "a1", "a11", "x/y z", "", " ", "日本 語", "a,b", "\"q\"", "-", "ǅ", "a\u00a0b", "a\tb", "name", "http://sn"}

// genCSVText is text without CR LF, which readers of CSV take for LF.
func genCSVText(t *rapid.T, label string) string {
	if rapid.IntRange(0, 3).Draw(t, label+"Empty") == 0 {
		return ""
	}
	if rapid.IntRange(0, 2).Draw(t, label+"Odd") == 0 {
		return strings.ReplaceAll(rapid.SampledFrom([]string{"a,b", "\"", "\"\"", "x\"y", "l1\nl2", "\n", "\n\n", " lead", "trail ", ",", ",,", "\r", "a\rb", "#c", "a;b", "\\.", "'", "=1+1", "{\"a\":1}", "url", "\ufeff", "\u2028", "é̂", "0", "1"}).Draw(t, label), "\r\n", "\n")
	}
	return genLine(t, label)
}

func genM07(t *rapid.T) m07 {
	c := m07{New: rapid.IntRange(0, 2).Draw(t, "new") > 0}
	if !c.New {
		c.P = genPrepared(t, 20)
	}
	rec := rapid.Custom(func(t *rapid.T) lpRec {
		r := lpRec{URL: genCSVText(t, "url"), User: genCSVText(t, "user"), Pass: genCSVText(t, "pass"), Notes: genCSVText(t, "notes"), Fav: rapid.SampledFrom([]string{"0", "1", "0", "", "2"}).Draw(t, "fav")}
		r.Name = rapid.SampledFrom(lpNames).Draw(t, "name")
		if rapid.IntRange(0, 3).Draw(t, "nameKind") == 0 {
			r.Name = genCSVText(t, "nameText")
		}
		r.Group = rapid.SampledFrom([]string{"", "", "Work", "work", "LPFAV", "A\\B", "É x", "favourites (1)", "\"q\""}).Draw(t, "group")
		if rapid.IntRange(0, 40).Draw(t, "long") == 17 {
			r.Notes = strings.Repeat(rapid.SampledFrom([]string{"note,", "\"", "é\n", "x"}).Draw(t, "longOf"), rapid.IntRange(1000, 40000).Draw(t, "longN"))
		}
		return r
	})
	if rapid.IntRange(0, 24).Draw(t, "many") == 11 {
		c.Recs = rapid.SliceOfN(rec, 30, 150).Draw(t, "manyRecs")
	} else {
		c.Recs = genSlice(t, "recs", 3, 12, rec)
	}
	c.Quote = rapid.IntRange(0, 2).Draw(t, "quote")
	c.Bad = rapid.SampledFrom([]string{"", "", "", "", "", "header", "order", "noheader", "empty", "fewer", "more", "quote", "openquote", "rc", "kill", "missing", "html", "error", "utf8"}).Draw(t, "bad")
	c.At = rapid.IntRange(0, 12).Draw(t, "at")
	c.NoNL = rapid.Bool().Draw(t, "nonl")
	c.Confirm = rapid.SampledFrom([]string{"y", "y", "y", "Y", "n", "", "yes", "eof"}).Draw(t, "confirm")
	return c
}

func (c m07) csv() (out []byte, fails bool) {
	var b bytes.Buffer
	i := 0
	field := func(s string) string {
		i++
		if strings.ContainsAny(s, "\",\n\r") || strings.HasPrefix(s, " ") || c.Quote == 1 || c.Quote == 2 && i%3 == 0 {
			return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
		}
		return s
	}
	head := []string{"url", "username", "password", "extra", "name", "grouping", "fav"}
	switch c.Bad {
	case "header":
		head[c.At%7] = "x" + head[c.At%7]
	case "order":
		k := c.At % 6
		head[k], head[k+1] = head[k+1], head[k]
	}
	lines := []string{strings.Join(head, ",")}
	for _, r := range c.Recs {
		lines = append(lines, strings.Join([]string{field(r.URL), field(r.User), field(r.Pass), field(r.Notes), field(r.Name), field(r.Group), field(r.Fav)}, ","))
	}
	fails = c.Bad != ""
	at := 0
	if len(c.Recs) > 0 {
		at = 1 + c.At%len(c.Recs)
	}
	switch c.Bad {
	case "noheader":
		lines = lines[1:]
		if len(lines) == 0 {
			lines = []string{"x"}
		}
	case "empty":
		lines = nil
	case "fewer":
		lines = append(lines[:at:at], append([]string{"http://a,b,c,d,e,f"}, lines[at:]...)...)
	case "more":
		lines = append(lines[:at:at], append([]string{"http://a,b,c,d,e,f,0,x"}, lines[at:]...)...)
	case "quote":
		lines = append(lines[:at:at], append([]string{`http://a,"b"c,d,e,f,g,0`}, lines[at:]...)...)
	case "utf8":
		f := strings.Split("http://a,b,c,d,e,f,0", ",")
		f[c.At%6] += []string{"\xe9", "\xff", "\xed\xa0\x80", "\x80x"}[c.At%4]
		lines = append(lines[:at:at], append([]string{strings.Join(f, ",")}, lines[at:]...)...)
	case "openquote":
		lines = append(lines, `http://a,"b,d,e,f,g,0`)
	case "html":
		lines = []string{"<!doctype html>", "<html>no</html>"}
	case "error":
		lines = []string{"Error: Could not find decryption key. Perhaps you need to login with `lpass login`."}
	}
	for k, l := range lines {
		b.WriteString(l)
		if k < len(lines)-1 || !c.NoNL {
			b.WriteString("\n")
		}
	}
	return b.Bytes(), fails
}

func runM07(c m07, x *Ctx) error {
	h := newHome(x, "m07")
	defer h.done()
	m := &mstore{}
	o := openArgs{lines: []string{"the pass", "the pass"}, pass: []byte("the pass")}
	var log []txlogs.Tx
	if !c.New {
		log, m, o = c.P.write(h, "db")
	}
	before := h.read("db")
	out, fails := c.csv()
	cfg := fakeCfg{Out: out}
	if c.Bad == "rc" {
		cfg.RC = 1 + c.At
	}
	cfg.Kill = c.Bad == "kill"
	if c.Bad == "missing" {
		h.fake(nil)
	} else {
		h.fake(map[string]fakeCfg{"lpass": cfg})
	}
	in := strings.Join(o.lines, "\n") + "\n"
	declined := false
	if !c.New {
		if declined = c.Confirm != "y" && c.Confirm != "Y"; c.Confirm != "eof" {
			in += c.Confirm + "\n"
		}
	}
	r, err := h.run([]string{"--no-color", "--no-clear-clip", "-f", "db", "lpassimport"}, strings.NewReader(in))
	if err != nil {
		return err
	}
	if r.Hang || r.crashed() {
		return failf("the import of %q: %s", out, r.tail())
	}
	logs := h.fakeLogs()
	if declined {
		if len(logs) != 0 {
			return failf("declined (%q), but the export was run", c.Confirm)
		}
		st, err := openFile(h.path("db"), o.user, o.pass)
		if err != nil {
			return failf("declined (%q): %v", c.Confirm, err)
		}
		if d := sameLog(st.Log, log); d != "" {
			return failf("declined (%q), but the data changed: %s", c.Confirm, d)
		}
		x.Label("declined")
		return nil
	}
	if c.Bad != "missing" && (len(logs) != 1 || len(logs[0].Args) == 0 || logs[0].Args[0] != "export") {
		return failf("the export command was run as %v", logs)
	}
	if fails {
		x.Label("failing")
		if r.RC == 0 {
			return failf("bad export (%s) %q is reported as a success", c.Bad, out)
		}
		if !bytes.Equal(h.read("db"), before) || extraFiles(h, "db", "fake") != "" {
			return failf("bad export (%s) %q: the file changed or others were created (%s)", c.Bad, out, extraFiles(h, "db", "fake"))
		}
		return nil
	}
	if r.RC != 0 {
		return failf("the import of %q fails: %s", out, r.tail())
	}
	taken := false
	for _, rec := range c.Recs {
		n := strings.ReplaceAll(strings.ToLower(rec.Name), " ", "_")
		for m.byName(n) != nil {
			n += "1"
			taken = true
		}
		e := m.add(n)
		for _, kv := range [][2]string{{"user", rec.User}, {"pass", rec.Pass}, {"url", rec.URL}, {"notes", rec.Notes}} {
			if kv[1] != "" {
				e.F[kv[0]] = kv[1]
			}
		}
		var labels []string
		if rec.Group != "" {
			labels = append(labels, strings.ToLower(rec.Group))
		}
		if rec.Fav == "1" {
			labels = append(labels, "lpfav")
		}
		if len(labels) > 0 {
			e.F["labels"] = strings.Join(labels, ",")
		}
	}
	st, err := openFile(h.path("db"), o.user, o.pass)
	if err == nil {
		if len(st.Log) < len(log) || sameLog(st.Log[:len(log)], log) != "" {
			return failf("the import of %q changed the earlier history", out)
		}
		// what was typed a moment ago is not masked in the comparison
		err = m.compare(st)
	}
	if err != nil {
		return failf("after the import of %q: %v", out, err)
	}
	if d := extraFiles(h, "db", "fake"); d != "" {
		return failf("the import left %s behind", d)
	}
	if len(c.Recs) >= 2 {
		x.NonTrivial()
	}
	x.LabelIf(taken, "taken names")
	x.LabelIf(len(c.Recs) > 30, "many records")
	x.LabelIf(!c.New, "existing file")
	return nil
}

// ---------------------------------------------------------------- M08: CSV export

// parseCSV is a strict reader of RFC 4180 with LF as the end of a record.
func parseCSV(b []byte) ([][]string, error) {
	var recs [][]string
	for i := 0; i < len(b); {
		var rec []string
		for {
			var f []byte
			if i < len(b) && b[i] == '"' {
				i++
				for {
					if i >= len(b) {
						return nil, failf("the CSV ends within quotes")
					}
					if b[i] == '"' {
						if i+1 < len(b) && b[i+1] == '"' {
							f = append(f, '"')
							i += 2
							continue
						}
						i++
						break
					}
					f = append(f, b[i])
					i++
				}
			} else {
				for i < len(b) && b[i] != ',' && b[i] != '\n' {
					if b[i] == '"' {
						return nil, failf("the CSV has a quote within a plain field at byte %d", i)
					}
					f = append(f, b[i])
					i++
				}
			}
			rec = append(rec, string(f))
			if i >= len(b) {
				return nil, failf("the CSV's last record is not ended")
			}
			if b[i] == ',' {
				i++
				continue
			}
			if b[i] != '\n' {
				return nil, failf("the CSV has %q after a quoted field at byte %d", b[i], i)
			}
			i++
			break
		}
		recs = append(recs, rec)
	}
	return recs, nil
}

type m08 struct {
	P       prepared
	Vals    [][3]string // further entries' keys and values: any text
	Session []string    // a session before the export: values set
	Fault   string      // none full nodir isdir dir limit format time exists
	Limit   int
	Abs     bool
	Sub     string // name of the output
}

func genM08(t *rapid.T) m08 {
	c := m08{P: genPrepared(t, 30), Abs: rapid.Bool().Draw(t, "abs")}
	text := rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "\"", "\"\"", ",", "\n", "\r\n", "a\r\nb", "\r", " ", " a ", "a,b\n\"c\"", "\\.", "-", "é,", "\x00", "#", "\ufeff", "\t", "''"}),
		rapid.Custom(func(t *rapid.T) string { return genLine(t, "line") }),
		rapid.Custom(func(t *rapid.T) string {
			return strings.Repeat("x,\"", rapid.SampledFrom([]int{10, 2000, 30000}).Draw(t, "n"))
		}))
	vals := rapid.Custom(func(t *rapid.T) [3]string {
		k := rapid.SampledFrom([]string{"user", "notes", "é", "a,b", "\"k\"", "Name", "k\nl", " ", "zz", "_", "😀"}).Draw(t, "key")
		return [3]string{text.Draw(t, "name"), k, text.Draw(t, "val")}
	})
	if rapid.IntRange(0, 24).Draw(t, "many") == 11 {
		c.Vals = rapid.SliceOfN(vals, 40, 200).Draw(t, "manyVals")
	} else {
		c.Vals = genSlice(t, "vals", 3, 10, vals)
	}
	c.Session = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return genLine(t, "set") }), 0, rapid.SampledFrom([]int{0, 0, 3}).Draw(t, "sessionMax")).Draw(t, "session")
	c.Fault = rapid.SampledFrom([]string{"none", "none", "none", "none", "exists", "time", "full", "nodir", "isdir", "dir", "limit", "format"}).Draw(t, "fault")
	c.Limit = rapid.IntRange(0, 1100).Draw(t, "limit")
	c.Sub = rapid.SampledFrom([]string{"out.csv", "a b.csv", "o/é.csv"}).Draw(t, "sub")
	return c
}

func runM08(c m08, x *Ctx) error {
	h := newHome(x, "m08")
	defer h.done()
	must(os.Mkdir(h.path("o"), 0o755))
	log, _, o := c.P.write(h, "db")
	now := int64(1800000000e9)
	names := map[string]bool{}
	st, _ := refReplay(log)
	for _, e := range st {
		names[e["name"]] = true
	}
	for i, v := range c.Vals {
		v[0], v[1], v[2] = strings.ToValidUTF8(v[0], "?"), strings.ToValidUTF8(v[1], "?"), strings.ToValidUTF8(v[2], "?")
		for names[v[0]] {
			v[0] += "1"
		}
		names[v[0]] = true
		id := fmt.Sprintf("bbbbbbbb-0000-4000-8000-%012x", i)
		now += 1000
		log = append(log, txlogs.Tx{Time: now, Kind: "add", UUID: id}, txlogs.Tx{Time: now + 1, Kind: "setk", UUID: id, Key: "updated", Value: strconv.FormatInt(now, 10)},
			txlogs.Tx{Time: now + 2, Kind: "setk", UUID: id, Key: "name", Value: v[0]}, txlogs.Tx{Time: now + 3, Kind: "setk", UUID: id, Key: v[1], Value: v[2]})
	}
	var users []refUser
	if c.P.Multi {
		users = twoUsers()
	}
	h.writeDB("db", "the pass", users, storeJSON(log, max(0, len(log)-c.P.Stale)))
	h.unprivileged()

	if len(c.Session) > 0 {
		var steps []step
		target := ""
		st, _ = refReplay(log)
		for _, id := range sortedKeys(st) {
			if n := st[id]["name"]; okName(n) && !strings.HasPrefix(n, "user/") && len(n) < 100 {
				target = n
			}
		}
		for _, v := range c.Session {
			if target != "" && strings.TrimSpace(v) != "" {
				steps = append(steps, step{in: "set " + target + " pin " + v + "\n", what: "set"})
			}
		}
		if _, err := h.session([]string{"--no-sync", "--no-clear-clip", "-f", "db"}, o.lines, steps, "exit\n"); err != nil {
			return err
		}
		f, err := openFile(h.path("db"), o.user, o.pass)
		if err != nil {
			return failf("before the export: %v", err)
		}
		log = f.Log
	}
	st, _ = refReplay(log)
	before := h.read("db")
	bst, err := openFile(h.path("db"), o.user, o.pass)
	must(err)

	dest := c.Sub
	if c.Abs {
		dest = h.path(dest)
	}
	args := []string{"--no-color", "--no-clear-clip", "-f", "db"}
	fails := false
	switch c.Fault {
	case "exists":
		must(os.WriteFile(h.path(c.Sub), []byte(strings.Repeat("old,\n", 20000)), 0o600))
		h.chown()
	case "time":
		// somewhere in the history, between entries
		cut := 0
		if len(log) > 0 {
			cut = c.Limit * len(log) / 1100
		}
		at := time.Unix(1500000000, 0)
		if cut > 0 {
			at = time.Unix(0, log[cut-1].Time).Truncate(time.Second)
		}
		args = append(args, "-t", at.UTC().Format("2006-01-02 15:04:05"))
		for cut = 0; cut < len(log) && !time.Unix(0, log[cut].Time).After(at); cut++ {
		}
		st, _ = refReplay(log[:cut])
		for id, e := range st {
			if _, ok := e["name"]; !ok {
				delete(st, id)
			}
		}
	case "full":
		dest, fails = "/dev/full", true
	case "nodir":
		dest, fails = "no/such/dir.csv", true
	case "isdir":
		dest, fails = "o", true
	case "dir":
		dest, fails = "o/x.csv", true
		must(os.Chmod(h.path("o"), 0o555))
	case "format":
		args = append(args, "export", "--format", "XML", dest)
		fails = true
	case "limit":
	}
	if c.Fault != "format" {
		args = append(args, "export", dest)
	}
	// what the export must be
	keys := map[string]bool{}
	for _, e := range st {
		for k := range e {
			keys[k] = true
		}
	}
	cols := sortedKeys(keys)
	want := map[string]int{}
	size := 0
	for _, e := range st {
		var r []string
		for _, k := range cols {
			r = append(r, e[k])
			size += len(e[k]) + 1
		}
		want[fmt.Sprintf("%q", r)]++
	}
	for _, k := range cols {
		size += len(k) + 1
	}
	if c.Fault == "limit" {
		// the output is at least this big, so it must fail
		fails = size > 0
		h.Wrap = []string{"/usr/bin/prlimit", "--fsize=" + strconv.Itoa(min(size-1, size*c.Limit/1100)), "--"}
		if size == 0 {
			h.Wrap = nil
		}
	}
	r, err := h.run(args, strings.NewReader(strings.Join(o.lines, "\n")+"\n"))
	h.Wrap = nil
	if err != nil {
		return err
	}
	if r.Hang || r.crashed() {
		return failf("export (%s): %s", c.Fault, r.tail())
	}
	if c.Fault == "time" && !bytes.Equal(before, h.read("db")) {
		return failf("a read-only export changed the file")
	}
	ast, err := openFile(h.path("db"), o.user, o.pass)
	if err != nil {
		return failf("after an export (%s): %v", c.Fault, err)
	}
	if d := sameLog(bst.Log, ast.Log); d != "" {
		return failf("export (%s) changed the store: %s", c.Fault, d)
	}
	x.Label(c.Fault)
	if fails {
		if r.RC == 0 {
			return failf("export (%s) failed, but success is reported: %s", c.Fault, r.tail())
		}
		return nil
	}
	if r.RC != 0 {
		return failf("export (%s) fails: %s", c.Fault, r.tail())
	}
	csv := h.read(c.Sub)
	if len(st) == 0 {
		if strings.TrimSpace(string(csv)) != "" {
			return failf("export of no entries: %q", csv)
		}
		return nil
	}
	recs, err := parseCSV(csv)
	if err != nil {
		return failf("%v: %.1500q", err, csv)
	}
	if len(recs) == 0 || fmt.Sprintf("%q", recs[0]) != fmt.Sprintf("%q", cols) {
		return failf("the columns are %.600q, want %q", recs, cols)
	}
	if !sort.StringsAreSorted(recs[0]) {
		return infra("unsorted keys")
	}
	for i, rec := range recs[1:] {
		k := fmt.Sprintf("%q", rec)
		if want[k] == 0 {
			return failf("row %d of the export is no entry (or is there twice): %.1200s\nwith the columns %q", i, k, cols)
		}
		want[k]--
	}
	for k, n := range want {
		if n > 0 {
			return failf("the export lacks the row %.1200s of the columns %q", k, cols)
		}
	}
	if len(st) >= 2 {
		x.NonTrivial()
	}
	x.LabelIf(c.P.Stale > 0 && len(c.Session) == 0, "stale snapshot")
	return nil
}

func init() {
	part("M07", "import", 3000, 50000,
		"the built program with a stand-in for lpass whose output is generated (records with any text, taken names, quoting) or broken (header, fields, quotes, exit status, killed, missing), into new and existing single- and multi-user files; the file must hold exactly the records, or be unchanged with a failure reported; non-trivial: at least 2 records imported",
		genM07, runM07)
	part("M08", "export", 1200, 40000,
		"export of prepared stores (generated histories, stale snapshots, any text in names, keys and values, a session before), also at a time in the past, over an existing file, and to outputs that fail; the output is read by an independent parser and compared with a replay of the history; non-trivial: at least 2 entries exported",
		genM08, runM08)
}
