package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M17: opening URLs

type openOp struct {
	Op  string // open set cp show ls
	E   int
	Cd  bool
	URL string
}

type m17 struct {
	URLs []string // of the entries, "" for none
	Ops  []openOp
	How  string // ok fails none notexec
	Past bool
}

const (
	urlGood = iota // has to be opened
	urlBad         // may not be opened
	urlSome        // either, but nothing else may be opened
)

// urlClass judges the text without a URL parser.
func urlClass(s string) int {
	for _, r := range s {
		if r < ' ' || r == 0x7f {
			return urlBad
		}
	}
	scheme, rest, ok := strings.Cut(s, "://")
	if !ok {
		return urlSome
	}
	for i, r := range scheme {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && strings.ContainsRune("0123456789+-.", r)) {
			return urlSome
		}
	}
	for i := 0; i < len(rest); i++ {
		if rest[i] == '%' {
			if i+2 >= len(rest) || !isHex(rest[i+1]) || !isHex(rest[i+2]) {
				return urlSome
			}
		}
	}
	host := rest
	if i := strings.IndexAny(rest, "/?#"); i >= 0 {
		host = rest[:i]
	}
	for _, r := range host {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-') {
			// ports, users, addresses in brackets
			if i := strings.LastIndexByte(host, ':'); i > 0 && i < len(host)-1 && strings.Trim(host[i+1:], "0123456789") == "" &&
				(strings.Trim(host[:i], "abcdefghijklmnopqrstuvwxyz.-") == "" || net.ParseIP(strings.Trim(host[:i], "[]")) != nil) {
				break
			}
			return urlSome
		}
	}
	if scheme == "" {
		return urlSome
	}
	return urlGood
}

func isHex(b byte) bool { return strings.IndexByte("0123456789abcdefABCDEF", b) >= 0 }

func genURL(t *rapid.T) string {
	switch rapid.IntRange(0, 11).Draw(t, "kind") {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{"example.com", "www.example.com/a b", "mailto:a@b", "-h", "--manual", "/etc/passwd", "javascript:alert(1)", "ftp:", "http://", "://x", "http://[::1", "http://a b/", "http://a/%zz", "%", "1://x"}).Draw(t, "odd")
	case 2:
		return "http://a/" + rapid.StringMatching(`[a-z]{0,3}`).Draw(t, "x") + rapid.SampledFrom([]string{"\n", "\r", "\t", "\x00x", "\x1b[0m", "\x7f"}).Draw(t, "ctl") + "b"
	}
	u := rapid.SampledFrom([]string{"http", "https", "HTTPS", "ssh", "git+ssh", "file", "otp-x", "ftp"}).Draw(t, "scheme") + "://"
	u += rapid.SampledFrom([]string{"a", "Example.COM", "www.example.com", "localhost:8080", "[::1]:443", "127.0.0.1", "xn--bcher-kva.example", ""}).Draw(t, "host")
	for n := rapid.IntRange(0, 3).Draw(t, "parts"); n > 0; n-- {
		u += rapid.SampledFrom([]string{"/", "/", "?", "&", "#", "//", "/../"}).Draw(t, "sep")
		u += rapid.StringMatching(`([a-zA-Z0-9._~!$'()*+,;=:@"<>\[\]{}|\\^`+"`"+`é日😀-]|%[0-9a-fA-F]{2}| ){0,8}`).Draw(t, "part")
	}
	if rapid.IntRange(0, 19).Draw(t, "long") == 9 {
		u += "/" + strings.Repeat("ab%20", rapid.IntRange(100, 20000).Draw(t, "n"))
	}
	return u
}

func genM17(t *rapid.T) m17 {
	c := m17{
		URLs: rapid.SliceOfN(rapid.Custom(genURL), 1, 3).Draw(t, "urls"),
		How:  rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "ok", "fails", "none", "notexec"}).Draw(t, "how"),
		Past: rapid.IntRange(0, 5).Draw(t, "past") == 0,
	}
	c.Ops = genSlice(t, "ops", 1, 7, rapid.Custom(func(t *rapid.T) openOp {
		o := openOp{
			Op: rapid.SampledFrom([]string{"open", "open", "open", "open", "set", "show", "ls", "get"}).Draw(t, "op"),
			E:  rapid.IntRange(0, 2).Draw(t, "e"),
			Cd: rapid.Bool().Draw(t, "cd"),
		}
		if o.Op == "set" {
			o.URL = genURL(t)
		}
		return o
	}))
	return c
}

func runM17(c m17, x *Ctx) error {
	h := newHome(x, "m17")
	defer h.done()
	if len(c.URLs) == 0 {
		return nil
	}
	log := multiLog(nil, h, "")
	now := int64(1600001000e9)
	put := func(id, k, v string) {
		now++
		log = append(log, txOf(now, id, k, v))
	}
	var url []string
	var set []bool
	for i, u := range c.URLs {
		id := fmt.Sprintf("00000000-0000-4000-8000-00000000000%d", i)
		put(id, "", "")
		put(id, "name", fmt.Sprintf("e%d", i))
		put(id, "updated", fmt.Sprint(now))
		if u != "" || i == 2 {
			put(id, "url", u)
		}
		put(id, "notes", "http://wrong/")
		url, set = append(url, u), append(set, u != "")
	}
	h.writeDB("db", "pw", nil, storeJSON(log, len(log)))
	start, err := openFile(h.path("db"), nil, []byte("pw"))
	must(err)

	var must1, may []string // what has to be and what may be opened
	var steps []step
	cur := -1
	for _, o := range c.Ops {
		e := o.E % len(url)
		name := fmt.Sprintf("e%d", e)
		if o.Cd && cur != e {
			steps = append(steps, step{in: "cd\ncd " + name + "\n", what: "cd"})
			cur = e
		} else if !o.Cd && cur >= 0 {
			steps = append(steps, step{in: "cd\n", what: "cd"})
			cur = -1
		}
		q := ""
		if cur < 0 {
			q = " " + name
		}
		switch o.Op {
		case "open":
			s := step{in: "open" + q + "\n", what: fmt.Sprintf("open (url %.200q)", url[e])}
			class := urlClass(url[e])
			starts := c.How == "ok" || c.How == "fails"
			u, isset := url[e], set[e]
			quiet := func(seg string) error {
				if strings.Contains(seg, "url") {
					return failf("a URL was not opened without trouble")
				}
				return nil
			}
			said := func(seg string) error {
				if !strings.Contains(seg, "url") {
					return failf("nothing was said although nothing can be opened")
				}
				return nil
			}
			switch {
			case !isset || class == urlBad:
				s.check = said
				x.LabelIf(isset, "not a url")
			case !starts:
				s.check = said
			case class == urlGood:
				s.check = quiet
				must1 = append(must1, u)
				x.NonTrivial()
			default:
				may = append(may, u)
				x.Label("doubtful")
			}
			steps = append(steps, s)
		case "set":
			v := o.URL
			if c.Past || v == "" || strings.ContainsAny(v, "\n\r\t\x00\x1b\x7f") || strings.TrimSpace(v) != v || len(v) > 150 {
				continue
			}
			if urlClass(v) != urlGood {
				continue
			}
			s := step{in: "set" + q + " url " + v + "\n", what: "set"}
			s.check = func(seg string) error {
				if !strings.Contains(seg, "set url = "+v+"\r\n") {
					return failf("the url was not set")
				}
				return nil
			}
			steps = append(steps, s)
			url[e], set[e] = v, true
			x.Label("set")
		default:
			in := o.Op + q
			if o.Op == "get" {
				in += " url"
			}
			steps = append(steps, step{in: in + "\n", what: o.Op})
		}
	}
	tools := map[string]fakeCfg{}
	switch c.How {
	case "ok":
		tools["xdg-open"] = fakeCfg{}
	case "fails":
		tools["xdg-open"] = fakeCfg{RC: 3}
	}
	h.fake(tools)
	if c.How == "notexec" {
		must(os.MkdirAll(h.path("bin"), 0o755))
		must(os.WriteFile(h.path("bin/xdg-open"), []byte("#!/bin/sh\n"), 0o600))
	}
	args := []string{"--no-sync", "--no-clear-clip", "-f", "db"}
	if c.Past {
		args = append(args, "-t", "2035-01-01 00:00:00")
	}
	p := h.startPty(args, 1000) // a terminal is required to start a browser
	defer p.kill()
	if !p.expect("passphrase: ") {
		return infra("no prompt: %q", p.text())
	}
	p.settle(3*time.Millisecond, 200*time.Millisecond)
	p.send("pw\r")
	if !p.expect("db)> ") {
		return infra("no prompt: %q", p.text())
	}
	n := len(p.text())
	for i, s := range steps {
		p.settle(3*time.Millisecond, 100*time.Millisecond)
		p.send(strings.TrimSuffix(s.in, "\n") + "\n" + "cd " + marker(i) + "\n")
		if !p.expect(fmt.Sprintf("No matches for query (%q)", marker(i))) {
			if p.exited() {
				return failf("%s: the session ended: %q", s.what, tailOf(p.text(), 600))
			}
			return failf("%s: the session did not get to the next command: %q", s.what, tailOf(p.text(), 600))
		}
		seg := p.text()[n:]
		n += len(seg)
		if s.check != nil {
			if err := s.check(seg); err != nil {
				return failf("%s: %v\noutput: %.1500q", s.what, err, seg)
			}
		}
	}
	ended := time.Now()
	// browsers run on their own, they would be sent a SIGHUP at the end of the leader of the session
	var logs []fakeLog
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(2 * time.Millisecond) {
		logs = peekLogs(h)
		if len(logs) >= len(must1)+len(may) || time.Now().After(end) {
			break
		}
		if len(logs) >= len(must1) && ended.Add(500*time.Millisecond).Before(time.Now()) {
			break
		}
	}
	p.send("exit\n")
	for end := time.Now().Add(sessionLimit); !p.exited(); time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			return failf("the session does not end: %q", tailOf(p.text(), 600))
		}
	}
	if rc := p.c.ProcessState.ExitCode(); rc != 0 {
		return failf("exit status %d: %q", rc, tailOf(p.text(), 600))
	}
	var got []string
	for _, l := range logs {
		if l.Tool != "xdg-open" || len(l.Args) != 1 {
			return failf("%s was run with %.300q", l.Tool, l.Args)
		}
		got = append(got, l.Args[0])
	}
	if d := opened(got, must1, may); d != "" {
		return failf("%s: opened %.600q, wanted %.600q", d, got, must1)
	}
	f, err := openFile(h.path("db"), nil, []byte("pw"))
	if err != nil {
		return err
	}
	if len(f.Log) < len(start.Log) || sameLog(f.Log[:len(start.Log)], start.Log) != "" {
		return failf("the history was changed")
	}
	byName, err := f.byName()
	if err != nil {
		return err
	}
	for i := range url {
		if got := byName[fmt.Sprintf("e%d", i)]["url"]; got != url[i] {
			return failf("the url of e%d is now %.300q, want %.300q", i, got, url[i])
		}
	}
	x.LabelIf(c.How != "ok", "browser "+c.How)
	x.LabelIf(c.Past, "read-only")
	return nil
}

// peekLogs returns what stand-ins that may still be running have recorded.
func peekLogs(h *Home) []fakeLog {
	b, err := os.ReadFile(filepath.Join(h.path("fake"), "log"))
	if os.IsNotExist(err) {
		return nil
	}
	must(err)
	var out []fakeLog
	for _, l := range bytes.SplitAfter(b, []byte("\n")) {
		var f fakeLog
		if !bytes.HasSuffix(l, []byte("\n")) || json.Unmarshal(l, &f) != nil {
			break // not complete yet
		}
		out = append(out, f)
	}
	return out
}

// opened compares what was opened, in any order.
func opened(got, want, may []string) string {
	rest := append([]string{}, got...)
	sort.Strings(rest)
	for _, w := range want {
		i := sort.SearchStrings(rest, w)
		if i == len(rest) || rest[i] != w {
			return fmt.Sprintf("%.300q was not opened as it is", w)
		}
		rest = append(rest[:i], rest[i+1:]...)
	}
	n := map[string]int{}
	for _, m := range may {
		n[m]++
	}
	for _, r := range rest {
		if n[r]--; n[r] < 0 {
			return fmt.Sprintf("%.300q was opened", r)
		}
	}
	return ""
}

func init() {
	part("M17", "open", 600, 15000,
		"sessions of 1..7 open, set, get, show and ls commands over 1..3 entries whose url is a generated URL (all characters that can be in one, up to 100 kB), an odd text or missing; a browser starter that works, fails, is missing or not executable; non-trivial: a URL was opened",
		genM17, runM17)
}
