package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"path"
	"regexp"
	"strings"

	"github.com/aarondl/bpass/txlogs"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M11: host keys

// knownLine is a line of the list of known hosts.
type knownLine struct {
	Who  string // self, or somebody alike
	Key  int
	Form string // ok short bare long cut junk
}

type hostRemote struct {
	Addr  string
	Auth  string // pass, key, both
	Path  string
	Known []knownLine
	State string // absent same other garbage: what is there
}

type hostStep struct {
	How     string // named cmd auto
	R       int
	Key     [2]int // the key that a server presents
	PushKey int    // and from the second connection on, -1: the same
	Answer  string
	Deny    bool // no login
	Back    int  // what is put there: 0 nothing, 1 garbage, 2 another copy, 3 the file is removed
}

type m11 struct {
	Remotes []hostRemote
	Steps   []hostStep
}

var hostKeys = []int{0, 0, 0, 1, 2, 8, 9}

func genM11(t *rapid.T) m11 {
	var c m11
	c.Remotes = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) hostRemote {
		r := hostRemote{
			Addr:  rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.2", "localhost", "127.1.2.3"}).Draw(t, "addr"),
			Auth:  rapid.SampledFrom([]string{"pass", "pass", "key", "both"}).Draw(t, "auth"),
			Path:  rapid.SampledFrom([]string{"db", "dir/db.blob", "/abs/db", "a-b.c/d_e"}).Draw(t, "path"),
			State: rapid.SampledFrom([]string{"absent", "absent", "same", "other", "other", "garbage"}).Draw(t, "state"),
		}
		if rapid.IntRange(0, 2).Draw(t, "knows") > 0 {
			r.Known = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) knownLine {
				return knownLine{
					Who:  rapid.SampledFrom([]string{"self", "self", "self", "other", "noport", "longer", "prefixed", "upper", "address"}).Draw(t, "who"),
					Key:  rapid.SampledFrom(hostKeys).Draw(t, "key"),
					Form: rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "ok", "short", "bare", "long", "cut", "junk", "empty", "type"}).Draw(t, "form"),
				}
			}), 1, 3).Draw(t, "known")
		}
		return r
	}), 1, 2).Draw(t, "remotes")
	c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) hostStep {
		s := hostStep{
			How:     rapid.SampledFrom([]string{"named", "named", "cmd", "auto"}).Draw(t, "how"),
			R:       rapid.IntRange(0, 1).Draw(t, "r"),
			PushKey: -1,
			Answer:  rapid.SampledFrom([]string{"y", "y", "y", "Y", "n", "", "N", "no", "x", "\x03", "\x04"}).Draw(t, "answer"),
			Deny:    rapid.IntRange(0, 9).Draw(t, "deny") == 0,
			Back:    rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "back"),
		}
		for i := range s.Key {
			s.Key[i] = rapid.SampledFrom(hostKeys).Draw(t, "key")
		}
		if s.How == "named" && rapid.IntRange(0, 2).Draw(t, "swap") == 0 {
			s.PushKey = rapid.SampledFrom(hostKeys).Draw(t, "pushkey")
		}
		return s
	}), 1, 5).Draw(t, "steps")
	return c
}

// render makes the line; host is "name:port".
func (k knownLine) render(host string) string {
	h, port, _ := net.SplitHostPort(host)
	who := map[string]string{"self": host, "other": "elsewhere:22", "noport": h, "longer": host + "0", "prefixed": "x" + host, "upper": strings.ToUpper(h) + ":1" + port, "address": "10.0.0.1:" + port}[k.Who]
	pub := hostKey(k.Key).PublicKey()
	hash := keyHash(pub)
	other := keyHash(hostKey(7).PublicKey())
	switch k.Form {
	case "short":
		return who + " 127.0.0.1:22 " + pub.Type()
	case "bare":
		return who
	case "long":
		return who + " 127.0.0.1:22 " + pub.Type() + " " + other + " " + pub.Type()
	case "cut":
		return who + " 127.0.0.1:22 " + pub.Type() + " " + hash[:63]
	case "type":
		return who + " 127.0.0.1:22 " + map[string]string{"ssh-rsa": "ssh-ed25519", "ssh-ed25519": "ssh-rsa"}[pub.Type()] + " " + hash
	case "junk":
		return "  \t#" + who
	case "empty":
		return ""
	}
	return who + " 127.0.0.1:22 " + pub.Type() + " " + hash
}

// verdict is what a list says about a host with a key: accept, refuse, ask or either.
func verdict(list, host string, key ssh.PublicKey) string {
	good, bad := 0, 0
	for _, l := range strings.Split(list, "\n") {
		f := strings.Split(l, " ")
		if f[0] != host {
			continue
		}
		if len(f) == 4 && f[2] == key.Type() && f[3] == keyHash(key) {
			good++
		} else {
			bad++
		}
	}
	switch {
	case good+bad == 0:
		return "ask"
	case bad == 0:
		return "accept"
	case good == 0:
		return "refuse"
	}
	return "either"
}

// fingerprint is what a question about a host shows.
var fingerprint = regexp.MustCompile(`([0-9a-f]{2}:){31}[0-9a-f]{2}`)

func linesIn(a, b string) bool {
	have := map[string]bool{}
	for _, l := range strings.Split(b, "\n") {
		have[l] = true
	}
	for _, l := range strings.Split(a, "\n") {
		if l != "" && !have[l] {
			return false
		}
	}
	return true
}

func colons(hex string) string {
	var b []string
	for i := 0; i < len(hex); i += 2 {
		b = append(b, hex[i:i+2])
	}
	return strings.Join(b, ":")
}

// scpAccount is how somebody logs in.
func clientKey(i int) (pemKey string, pub ssh.PublicKey) {
	seed := sha256.Sum256([]byte{'c', byte(i)})
	k := ed25519.NewKeyFromSeed(seed[:])
	der, err := x509.MarshalPKCS8PrivateKey(k)
	must(err)
	s, err := ssh.NewSignerFromKey(k)
	must(err)
	return strings.TrimSpace(string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}))), s.PublicKey()
}

// scpFiles serves files as scp does.
type scpFiles struct {
	m    map[string][]byte
	open string // a file announced with permissions for others
}

func (f *scpFiles) exec(_ int, cmd string, sc *scpConn) {
	if name, ok := strings.CutPrefix(cmd, "scp -qf "); ok {
		if sc.ack() != nil {
			return
		}
		data, ok := f.m[name]
		if !ok {
			fmt.Fprintf(sc, "\x01scp: %s: No such file or directory\n", name)
			sc.exit(1)
			return
		}
		fmt.Fprintf(sc, "C0600 %d %s\n", len(data), path.Base(name))
		if sc.ack() != nil {
			return
		}
		sc.Write(append(bytes.Clone(data), 0))
		sc.ack()
		return
	}
	if name, ok := strings.CutPrefix(cmd, "scp -qt "); ok {
		sc.Write([]byte{0})
		mode, ln, _, err := sc.header()
		if err != nil {
			return
		}
		if !strings.HasSuffix(mode, "00") {
			f.open = name + " (" + mode + ")"
		}
		sc.Write([]byte{0})
		b := make([]byte, ln)
		if _, err := io.ReadFull(sc.in, b); err != nil || sc.ack() != nil {
			return
		}
		f.m[name] = b
		sc.Write([]byte{0})
		io.Copy(io.Discard, sc.in)
		return
	}
	sc.exit(127)
}

func runM11(c m11, x *Ctx) error {
	h := newHome(x, "m11")
	defer h.done()
	now := int64(1600000000e9)
	add := func(l *[]txlogs.Tx, id string, kv ...string) {
		now += 10
		*l = append(*l, txlogs.Tx{Time: now, Kind: txlogs.TxAdd, UUID: id})
		for i := 0; i < len(kv); i += 2 {
			now++
			*l = append(*l, txlogs.Tx{Time: now, Kind: txlogs.TxSetKey, UUID: id, Key: kv[i], Value: kv[i+1]})
		}
		now++
		*l = append(*l, txlogs.Tx{Time: now, Kind: txlogs.TxSetKey, UUID: id, Key: "updated", Value: fmt.Sprint(now)})
	}
	var log []txlogs.Tx
	add(&log, "00000000-0000-4000-8000-0000000000aa", "name", "thing", "pass", "p")

	// the addresses have to be known before the entries can be written
	type remote struct {
		hostRemote
		l     net.Listener
		host  string
		files *scpFiles
		path  string
		pass  string
		pub   ssh.PublicKey
		uuid  string
	}
	rs := make([]*remote, len(c.Remotes))
	for i, r := range c.Remotes {
		ip := r.Addr
		if ip == "localhost" {
			if a, err := net.LookupHost("localhost"); err != nil || a[0] != "127.0.0.1" {
				r.Addr = "127.0.0.1"
			}
			ip = "127.0.0.1"
		}
		l, err := net.Listen("tcp", ip+":0")
		must(err)
		defer l.Close()
		_, port, _ := net.SplitHostPort(l.Addr().String())
		rs[i] = &remote{hostRemote: r, l: l, host: net.JoinHostPort(r.Addr, port), files: &scpFiles{m: map[string][]byte{}}, uuid: fmt.Sprintf("00000000-0000-4000-8000-0000000001%02d", i)}
		rr := rs[i]
		rr.path = r.Path
		u := url.URL{Scheme: "scp", Host: rr.host, Path: r.Path, User: url.User("me")}
		kv := []string{"name", fmt.Sprintf("sync/r%d", i), "sync", "true"}
		if r.Auth != "key" {
			rr.pass = fmt.Sprintf("pa:ss/@ %d", i)
			u.User = url.UserPassword("me", rr.pass)
		}
		if strings.HasPrefix(r.Path, "/") {
			u.Path = "/" + r.Path
		}
		kv = append(kv, "url", u.String())
		if r.Auth != "pass" {
			var k string
			k, rr.pub = clientKey(i)
			kv = append(kv, "privkey", k)
		}
		if len(r.Known) > 0 {
			var ls []string
			for _, k := range r.Known {
				ls = append(ls, k.render(rr.host))
			}
			kv = append(kv, "knownhosts", strings.Join(ls, "\n"))
		}
		add(&log, rr.uuid, kv...)
	}
	h.writeDB("db", "the pass", nil, storeJSON(log, 0))
	n := 0
	other := func(base []txlogs.Tx) []byte {
		l := copyLog(base)
		n++
		last := l[len(l)-1].Time
		if now < last {
			now = last
		}
		add(&l, fmt.Sprintf("00000000-0000-4000-8000-0000000002%02d", n), "name", fmt.Sprintf("other%d", n), "pass", "o")
		return refEncryptSingle([]byte("the pass"), expand([]byte("saltdb"), 32), expand([]byte(fmt.Sprint("iv", n)), 40), storeJSON(l, 0))
	}
	for _, r := range rs {
		switch r.State {
		case "same":
			r.files.m[r.path] = h.read("db")
		case "other":
			r.files.m[r.path] = other(log)
		case "garbage":
			r.files.m[r.path] = []byte("garbage")
		}
	}

	for si, s := range c.Steps {
		if len(rs) > 1 && s.How == "auto" {
			s.How = "cmd"
		}
		st, err := openFile(h.path("db"), nil, []byte("the pass"))
		if err != nil {
			return failf("step %d: the database cannot be opened: %v", si, err)
		}
		before := st
		switch r := rs[s.R%len(rs)]; s.Back {
		case 1:
			r.files.m[r.path] = []byte("nothing useful")
		case 2:
			// somebody else worked on the file
			if r.files.m[r.path] != nil && len(r.files.m[r.path]) > 30 {
				r.files.m[r.path] = other(st.Log)
			}
		case 3:
			delete(r.files.m, r.path)
		}
		targets := map[int]bool{}
		for i := range rs {
			targets[i] = s.How != "named" || i == s.R%len(rs)
		}
		var srv []*sshd
		var was [][]byte
		var lists, verdicts []string
		asks := 0
		for i, r := range rs {
			r, i := r, i
			was = append(was, bytes.Clone(r.files.m[r.path]))
			d := &sshd{l: r.l, Addr: r.host}
			// the next step needs the address again
			d.keep = true
			d.key = func(n int) ssh.Signer {
				if n > 0 && s.PushKey >= 0 {
					return hostKey(s.PushKey)
				}
				return hostKey(s.Key[i])
			}
			d.auth = func(user, pass string, pub ssh.PublicKey) bool {
				if s.Deny || user != "me" {
					return false
				}
				if pub != nil {
					return r.pub != nil && keyHash(pub) == keyHash(r.pub)
				}
				return pass != "" && pass == r.pass
			}
			d.exec = r.files.exec
			srv = append(srv, d.start())
			list := before.State[r.uuid]["knownhosts"]
			lists = append(lists, list)
			v := verdict(list, r.host, hostKey(s.Key[i]).PublicKey())
			verdicts = append(verdicts, v)
			if targets[i] {
				x.Label(v)
				if v == "ask" {
					asks++
				}
			}
		}
		yes := s.Answer == "y" || s.Answer == "Y"
		answers := strings.Repeat(s.Answer+"\n", asks)
		if s.Answer == "\x04" || s.Answer == "\x03" {
			answers = strings.Repeat(s.Answer, asks)
		}
		args := []string{"--no-clear-clip", "-f", "db"}
		open := []string{"the pass"}
		var steps []step
		cmd := ""
		switch s.How {
		case "named":
			cmd = fmt.Sprintf("sync sync/r%d\n", s.R%len(rs))
		case "cmd":
			cmd = "sync\n"
		}
		questions := func(seg string) error {
			if k := len(fingerprint.FindAllString(seg, -1)); k != asks {
				return failf("%d questions about hosts, %d expected", k, asks)
			}
			for i := range rs {
				if !targets[i] || verdicts[i] != "ask" {
					continue
				}
				k := hostKey(s.Key[i]).PublicKey()
				if !strings.Contains(seg, k.Type()) || !strings.Contains(seg, colons(keyHash(k))) {
					return failf("the key of %s is not shown", rs[i].host)
				}
			}
			return nil
		}
		if s.How == "auto" {
			if asks > 0 {
				open = append(open, strings.TrimSuffix(answers, "\n"))
				if strings.HasPrefix(answers, "\x03") || strings.HasPrefix(answers, "\x04") {
					open = []string{"the pass", s.Answer + "cd nothing"}
				}
			}
		} else {
			args = append(args, "--no-sync")
			steps = []step{{what: cmd, in: cmd + answers, check: questions}}
		}
		r, err := h.session(args, open, steps, "exit\n")
		var recs [][]*sshRec
		for _, d := range srv {
			recs = append(recs, d.close())
		}
		if err != nil {
			return err
		}
		where := fmt.Sprintf("step %d (%s, answer %q)", si, s.How, s.Answer)
		x.Logf("%s: %s", where, r.Out)
		if r.RC != 0 {
			return failf("%s: status %d: %s", where, r.RC, r.tail())
		}
		if s.How == "auto" {
			if err := questions(r.Out); err != nil {
				return failf("%s: %v: %s", where, err, r.tail())
			}
		}
		after, err := openFile(h.path("db"), nil, []byte("the pass"))
		if err != nil {
			return failf("%s: the database cannot be opened: %v", where, err)
		}
		okTx := map[txlogs.Tx]bool{}
		for _, tx := range before.Log {
			okTx[tx] = true
		}
		if m := missingIn(before.Log, after.Log); len(m) > 0 {
			return failf("%s: local changes are lost: %v", where, m)
		}
		confirmed := map[string]bool{}
		pulled := make([]bool, len(rs))
		for i, rr := range rs {
			v := verdicts[i]
			if !targets[i] {
				if len(recs[i]) > 0 {
					return failf("%s: contacts %s", where, rr.host)
				}
				continue
			}
			if len(recs[i]) == 0 {
				return failf("%s: does not contact %s: %s", where, rr.host, r.tail())
			}
			trusted := v == "accept" || v == "ask" && yes
			if v == "either" {
				trusted = recs[i][0].Shook
			}
			if v == "ask" && yes {
				confirmed[rr.uuid] = true
			}
			x.LabelIf(trusted, "trusted")
			x.NonTrivial()
			for ci, rec := range recs[i] {
				k := s.Key[i]
				ok := trusted
				if ci > 0 && s.PushKey >= 0 {
					k = s.PushKey
					v2 := verdict(after.State[rr.uuid]["knownhosts"], rr.host, hostKey(k).PublicKey())
					x.Label("push " + v2)
					ok = trusted && v2 != "refuse"
					if v2 == "either" {
						continue
					}
				}
				if !ok && (rec.Shook || len(rec.Auth) > 0 || len(rec.Cmds) > 0) {
					return failf("%s: connection %d to %s must be refused (%s, key %d), but the client logs in: %+v\nlist:\n%s\n%s", where, ci, rr.host, v, k, *rec, lists[i], r.tail())
				}
				if ok && !rec.Shook {
					return failf("%s: connection %d to %s must be accepted (%s, key %d)\nlist:\n%s\n%s", where, ci, rr.host, v, k, lists[i], r.tail())
				}
				for _, a := range rec.Auth {
					if a != "password me "+rr.pass && (rr.pub == nil || a != "key me "+keyHash(rr.pub)) {
						return failf("%s: logs in with %q", where, a)
					}
				}
				if ok && len(rec.Auth) == 0 {
					return failf("%s: does not log in to %s", where, rr.host)
				}
			}
			if !trusted || s.Deny {
				if len(recs[i]) > 1 && s.How != "auto" {
					return failf("%s: contacts %s again", where, rr.host)
				}
				continue
			}
			if was[i] == nil {
				pulled[i] = true
			} else if len(was[i]) > 30 {
				pulled[i] = true
				must(os.WriteFile(h.path("was"), was[i], 0o600))
				w, err := openFile(h.path("was"), nil, []byte("the pass"))
				must(err)
				for _, tx := range w.Log {
					okTx[tx] = true
				}
				if m := missingIn(w.Log, after.Log); len(m) > 0 {
					return failf("%s: the remote's changes are missing: %v", where, m)
				}
			}
		}
		for _, tx := range after.Log {
			if !okTx[tx] && !(tx.Kind == txlogs.TxSetKey && (tx.Key == "knownhosts" || tx.Key == "updated") && confirmed[tx.UUID]) {
				return failf("%s: unexpected change %+v", where, tx)
			}
		}
		for i, rr := range rs {
			list, is := lists[i], after.State[rr.uuid]["knownhosts"]
			switch {
			case !confirmed[rr.uuid] && is != list:
				return failf("%s: the list of %s changes from %q to %q", where, rr.host, list, is)
			case confirmed[rr.uuid] && (is == list || !linesIn(list, is) || verdict(is, rr.host, hostKey(s.Key[i]).PublicKey()) != "accept"):
				return failf("%s: the confirmed host %s is not remembered as it should: %q, before %q", where, rr.host, is, list)
			}
			x.LabelIf(confirmed[rr.uuid], "confirmed")
			now := rr.files.m[rr.path]
			v2 := "accept"
			if s.PushKey >= 0 {
				v2 = verdict(is, rr.host, hostKey(s.PushKey).PublicKey())
			}
			if v2 == "either" {
				continue
			}
			if !targets[i] || !pulled[i] || v2 != "accept" {
				if !bytes.Equal(now, was[i]) {
					return failf("%s: the file on %s changes", where, rr.host)
				}
				continue
			}
			must(os.WriteFile(h.path("was"), now, 0o600))
			w, err := openFile(h.path("was"), nil, []byte("the pass"))
			if err != nil {
				return failf("%s: the file on %s is broken: %v: %s", where, rr.host, err, r.tail())
			}
			if len(missingIn(w.Log, after.Log))+len(missingIn(after.Log, w.Log)) > 0 {
				return failf("%s: the file on %s is not up to date: %s", where, rr.host, r.tail())
			}
			x.Label("up to date")
			if len(rr.files.m) != 1 {
				return failf("%s: files on %s: %d", where, rr.host, len(rr.files.m))
			}
		}
		os.Remove(h.path("was"))
	}
	return nil
}

func init() {
	part("M11", "hosts", 1500, 30000, "a host was contacted", genM11, runM11)
}
