package main

import (
	"fmt"
	"net"
	"net/url"
	"os"
	"strings"

	"github.com/aarondl/bpass/txlogs"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M16: setting up an scp remote

type m16 struct {
	User, Host, Path, Pass string
	Key                    int      // of the menu
	Empty                  []int    // empty answers before the user, host and path
	Ports                  []string // unusable answers before the port
	Menu                   []string // unusable choices before the key type
	DefaultPort            bool
	Low                    int // a well-known port at an address of its own (0: any)
	Before                 int // entries with the usual name that exist already
	Abort                  int // the prompt at which the dialogue ends, -1: it does not
	Auto                   bool
}

func genM16(t *rapid.T) m16 {
	word := func(name, extra string) string {
		return rapid.StringMatching(`[a-zA-Z0-9`+extra+`]([a-zA-Z0-9._\- `+extra+`]{0,12}[a-zA-Z0-9`+extra+`])?`).Draw(t, name)
	}
	c := m16{
		User:   word("user", `@:%é日+?#/&=\\`),
		Host:   rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1", "localhost", "127.0.0.9"}).Draw(t, "host"),
		Key:    rapid.SampledFrom([]int{1, 1, 1, 3, 3, 3}).Draw(t, "key"),
		Empty:  rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2}), 3, 3).Draw(t, "empty"),
		Before: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "before"),
		Abort:  rapid.SampledFrom([]int{-1, -1, -1, -1, -1, 0, 1, 2, 3, 4, 5, 6}).Draw(t, "abort"),
		Auto:   rapid.Bool().Draw(t, "auto"),
	}
	if rapid.IntRange(0, 24).Draw(t, "rsa") == 11 {
		c.Key = 2
	}
	c.Path = rapid.SampledFrom([]string{"", "", "/", "/", "dir/", "/a/b/", "../"}).Draw(t, "folder") + word("path", `@:%é日+?#&=,`)
	c.Pass = word("pass", `!"#$%&'()*+,/:;<=>?@\[\]^{|}~é日\\`)
	c.Ports = rapid.SliceOfN(rapid.SampledFrom([]string{"x", "0", "-1", "65536", "99999999999999999999", "22x", "1.5", "ssh"}), 0, 2).Draw(t, "ports")
	c.Menu = rapid.SliceOfN(rapid.SampledFrom([]string{"", "0", "4", "x", "-1", "ed25519"}), 0, 2).Draw(t, "menu")
	c.DefaultPort = rapid.IntRange(0, 9).Draw(t, "default") == 0
	if c.DefaultPort || rapid.IntRange(0, 3).Draw(t, "low") == 2 {
		c.Low = rapid.SampledFrom([]int{1, 7, 22, 22, 80, 222, 443, 2222, 9}).Draw(t, "lowport")
		if c.DefaultPort {
			c.Low = 22
		}
	}
	return c
}

var ownAddrs int

func runM16(c m16, x *Ctx) error {
	h := newHome(x, "m16")
	defer h.done()
	ip := c.Host
	if ip == "localhost" {
		if a, err := net.LookupHost("localhost"); err != nil || a[0] != "127.0.0.1" {
			c.Host = "127.0.0.1"
		}
		ip = "127.0.0.1"
	}
	l, err := net.Listen("tcp", ip+":0")
	must(err)
	listens := !c.DefaultPort
	if c.Low != 0 {
		// an address that no other process uses
		ownAddrs++
		a := os.Getpid()<<6 + ownAddrs&63
		own := fmt.Sprintf("127.%d.%d.%d", 10+a>>15&127, a>>7&255, 1+a&127)
		if ll, err := net.Listen("tcp", fmt.Sprintf("%s:%d", own, c.Low)); err == nil {
			l.Close()
			l, c.Host, ip, listens = ll, own, own, true
			x.Label("well-known port")
		}
	}
	defer l.Close()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	var log []txlogs.Tx
	now := int64(1600000000e9)
	name := "sync/scp"
	for i := 0; i < c.Before; i++ {
		id := fmt.Sprintf("00000000-0000-4000-8000-0000000000%02d", i)
		for _, tx := range []txlogs.Tx{{Kind: "add"}, {Kind: "setk", Key: "name", Value: name}, {Kind: "setk", Key: "updated", Value: fmt.Sprint(now)}} {
			now++
			tx.Time, tx.UUID = now, id
			log = append(log, tx)
		}
		name += "1"
	}
	h.writeDB("db", "the pass", nil, storeJSON(log, 0))

	files := &scpFiles{m: map[string][]byte{}}
	keep := func(d *sshd) *sshd {
		d.l, d.keep = l, true
		d.key = func(int) ssh.Signer { return hostKey(3) }
		d.auth = func(user, pass string, pub ssh.PublicKey) bool {
			return user == c.User && (pub != nil || pass == c.Pass)
		}
		d.exec = files.exec
		return d.start()
	}

	var in strings.Builder
	in.WriteString("addsync scp\n")
	n := 0
	aborted := false
	answer := func(bad []string, s string) {
		if aborted {
			return
		}
		for _, b := range bad {
			in.WriteString(b + "\n")
		}
		if n == c.Abort {
			aborted = true
			in.WriteString("\x04")
			return
		}
		n++
		in.WriteString(s + "\n")
	}
	none := func(i int) []string { return make([]string, c.Empty[i]) }
	answer(none(0), c.User)
	answer(none(1), c.Host)
	if c.DefaultPort {
		answer(c.Ports, "")
	} else {
		answer(c.Ports, port)
	}
	answer(none(2), c.Path)
	answer(c.Menu, fmt.Sprint(c.Key))
	if c.Key == 3 {
		answer(nil, "m")
		answer(nil, c.Pass)
		if !aborted {
			in.WriteString(c.Pass + "\n")
		}
	}
	x.NonTrivial()
	x.LabelIf(aborted, "aborted")
	x.LabelIf(!aborted, []string{"ed25519", "rsa", "password"}[c.Key-1])
	x.LabelIf(c.DefaultPort, "default port")
	var printed ssh.PublicKey
	steps := []step{{what: "addsync", in: in.String(), check: func(seg string) error {
		for _, l := range strings.Split(seg, "\n") {
			if k, _, _, _, err := ssh.ParseAuthorizedKey([]byte(l)); err == nil {
				if printed != nil {
					return failf("two keys are shown")
				}
				printed = k
			}
		}
		if !aborted && (printed == nil) != (c.Key == 3) {
			return failf("key shown: %v", printed != nil)
		}
		return nil
	}}}
	work := !aborted && listens
	if work {
		steps = append(steps, step{what: "sync", in: "sync " + name + "\ny\n"})
	}
	srv := keep(&sshd{})
	r, err := h.session([]string{"--no-sync", "--no-clear-clip", "-f", "db"}, []string{"the pass"}, steps, "exit\n")
	recs := srv.close()
	if err != nil {
		return err
	}
	x.Logf("%s", r.Out)
	if r.RC != 0 {
		return failf("status %d: %s", r.RC, r.tail())
	}
	st, err := openFile(h.path("db"), nil, []byte("the pass"))
	if err != nil {
		return failf("the database cannot be opened: %v", err)
	}
	if aborted {
		if len(st.Log) != len(log) {
			return failf("the dialogue was aborted, but something is added: %s", r.tail())
		}
		return nil
	}
	es, err := st.byName()
	if err != nil {
		return err
	}
	e := es[name]
	if e == nil {
		return failf("there is no entry %s: %s", name, r.tail())
	}
	if e["sync"] != "true" {
		return failf("the new entry is not synchronised automatically: %v", e)
	}
	if c.Key != 3 {
		s, err := ssh.ParsePrivateKey([]byte(e["privkey"]))
		if err != nil {
			return failf("the private key is unusable: %v", err)
		}
		if keyHash(s.PublicKey()) != keyHash(printed) {
			return failf("the key that is shown does not belong to the private key")
		}
		p, _, _, _, err := ssh.ParseAuthorizedKey([]byte(e["pubkey"]))
		if err != nil || keyHash(p) != keyHash(printed) {
			return failf("the public key in the entry, %.100q, is not the one that is shown", e["pubkey"])
		}
		if want := []string{"ssh-ed25519", "ssh-rsa"}[c.Key-1]; printed.Type() != want {
			return failf("the key is of type %s", printed.Type())
		}
	}
	if c.DefaultPort {
		u, err := url.Parse(e["url"])
		if err != nil || u.Scheme != "scp" || u.Hostname() != c.Host || u.Port() != "22" && u.Port() != "" || u.User.Username() != c.User {
			return failf("the url is %q: %v", e["url"], err)
		}
	}
	if !work {
		return nil
	}

	logins := func(recs []*sshRec) error {
		if len(recs) == 0 {
			return failf("the host is not contacted: %s", r.tail())
		}
		for _, rec := range recs {
			if len(rec.Auth) == 0 {
				return failf("no login: %s", r.tail())
			}
			for _, a := range rec.Auth {
				if c.Key == 3 && a != "password "+c.User+" "+c.Pass {
					return failf("logs in with %q, not with user %q and password %q", a, c.User, c.Pass)
				}
				if c.Key != 3 && a != "key "+c.User+" "+keyHash(printed) {
					return failf("logs in with %q, not with user %q and the key", a, c.User)
				}
			}
		}
		return nil
	}
	upToDate := func(st *fstore) error {
		b := files.m[c.Path]
		if files.open != "" {
			return failf("others may access the file on the server: %s", files.open)
		}
		if b == nil || len(files.m) != 1 {
			var ns []string
			for n := range files.m {
				ns = append(ns, n)
			}
			return failf("the server has the files %q, not just %q: %s", ns, c.Path, r.tail())
		}
		must(os.WriteFile(h.path("got"), b, 0o600))
		defer os.Remove(h.path("got"))
		w, err := openFile(h.path("got"), nil, []byte("the pass"))
		if err != nil {
			return failf("the server's file is unusable: %v", err)
		}
		if len(missingIn(w.Log, st.Log))+len(missingIn(st.Log, w.Log)) > 0 {
			return failf("the server's file is not up to date")
		}
		return nil
	}
	if err := logins(recs); err != nil {
		return err
	}
	if err := upToDate(st); err != nil {
		return err
	}

	// and from then on
	l2 := copyLog(st.Log)
	at := l2[len(l2)-1].Time
	for i, tx := range []txlogs.Tx{{Kind: "add"}, {Kind: "setk", Key: "name", Value: "new"}, {Kind: "setk", Key: "updated", Value: fmt.Sprint(at + 2)}} {
		tx.Time, tx.UUID = at+int64(i)+1, "00000000-0000-4000-8000-0000000000bb"
		l2 = append(l2, tx)
	}
	h.writeDB("other", "the pass", nil, storeJSON(l2, 0))
	files.m[c.Path] = h.read("other")
	srv = keep(&sshd{})
	args, open := []string{"--no-clear-clip", "-f", "db"}, []string{"the pass"}
	steps = nil
	if !c.Auto {
		args = append(args, "--no-sync")
		steps = []step{{what: "sync", in: "sync\n"}}
	}
	if c.Auto {
		steps = []step{{what: "nothing", in: "cd zzz\n"}}
	}
	r, err = h.session(args, open, steps, "exit\n")
	recs = srv.close()
	if err != nil {
		return err
	}
	x.Logf("%s", r.Out)
	if r.RC != 0 {
		return failf("the second session: status %d: %s", r.RC, r.tail())
	}
	if err := logins(recs); err != nil {
		return failf("the second session: %v", err)
	}
	st2, err := openFile(h.path("db"), nil, []byte("the pass"))
	if err != nil {
		return failf("the database cannot be opened: %v", err)
	}
	if m := missingIn(l2, st2.Log); len(m) > 0 {
		return failf("the second session did not get the changes: %s", r.tail())
	}
	if err := upToDate(st2); err != nil {
		return failf("the second session: %v", err)
	}
	return nil
}

func init() {
	part("M16", "addsync", 1500, 8000, "a dialogue was held", genM16, runM16)
}
