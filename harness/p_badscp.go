package main

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"regexp"
	"strings"

	"github.com/aarondl/bpass/txlogs"
	"golang.org/x/crypto/ssh"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- M10: an scp remote that fails

type m10scp struct {
	F     s02
	State string // what is on the server: absent same other
	File  bool   // there is a file as a remote, too
	Auto  bool
	Edit  bool
}

func genM10scp(t *rapid.T) m10scp {
	c := m10scp{
		F:     genS02(t),
		State: rapid.SampledFrom([]string{"absent", "same", "other", "other"}).Draw(t, "state"),
		File:  rapid.Bool().Draw(t, "file"),
		Auto:  rapid.Bool().Draw(t, "auto"),
		Edit:  rapid.Bool().Draw(t, "edit"),
	}
	if c.F.C.N > 3000 {
		c.F.C.N = 3000
	}
	if len(c.F.With) > 1 && (c.F.Fault == "errcut" || c.F.Fault == "err" && (c.F.With[0] != 1 || c.F.At != "start" && c.F.At != "header")) && notThere(string(c.F.With[1:])) {
		c.F.With = append(c.F.With, "?"...)
	}
	if c.State == "absent" && c.F.Kind == "recv" {
		c.State = "other"
	}
	return c
}

var syncChatter = regexp.MustCompile(`^(pull|push|skip): `)

func runM10scp(c m10scp, x *Ctx) error {
	h := newHome(x, "m10scp")
	defer h.done()
	srv := newSSHD("")
	srv.key = func(int) ssh.Signer { return hostKey(0) }
	defer srv.l.Close()
	now := int64(1600000000e9)
	add := func(l *[]txlogs.Tx, id string, kv ...string) {
		for i := 0; i < len(kv)+2; i += 2 {
			now++
			tx := txlogs.Tx{Time: now, Kind: txlogs.TxAdd, UUID: id}
			if i > 0 {
				tx.Kind, tx.Key, tx.Value = txlogs.TxSetKey, kv[i-2], kv[i-1]
			}
			*l = append(*l, tx)
		}
		now++
		*l = append(*l, txlogs.Tx{Time: now, Kind: txlogs.TxSetKey, UUID: id, Key: "updated", Value: fmt.Sprint(now)})
	}
	var log []txlogs.Tx
	u := url.URL{Scheme: "scp", Host: srv.Addr, Path: "x", User: url.UserPassword("me", "pw")}
	known := fmt.Sprintf("%s %s ssh-ed25519 %s", srv.Addr, srv.Addr, keyHash(hostKey(0).PublicKey()))
	add(&log, "00000000-0000-4000-8000-000000000001", "name", "sync/scp", "sync", "true", "url", u.String(), "knownhosts", known)
	if c.File {
		add(&log, "00000000-0000-4000-8000-000000000002", "name", "sync/file", "sync", "true", "url", fileURL(h.path("remote")))
	}
	seal := func(l []txlogs.Tx) []byte {
		return refEncryptSingle([]byte("the pass"), expand([]byte("saltdb"), 32), expand([]byte(fmt.Sprint("iv", len(l))), 40), storeJSON(l, 0))
	}
	local, other, onFile := copyLog(log), copyLog(log), copyLog(log)
	add(&local, "00000000-0000-4000-8000-00000000000a", "name", "here")
	add(&other, "00000000-0000-4000-8000-00000000000b", "name", "there")
	add(&onFile, "00000000-0000-4000-8000-00000000000c", "name", "on file")
	h.writeDB("db", "the pass", nil, storeJSON(local, 0))
	files := &scpFiles{m: map[string][]byte{}}
	switch c.State {
	case "same":
		files.m["x"] = h.read("db")
		other = copyLog(local)
	case "other":
		files.m["x"] = seal(other)
	default:
		other = nil
	}
	if c.File {
		must(os.WriteFile(h.path("remote"), seal(onFile), 0o600))
	} else {
		onFile = nil
	}
	was := bytes.Clone(files.m["x"])

	fault := c.F.Fault
	missing := c.F.Kind == "recv" && fault == "err" && (c.F.At == "start" || c.F.At == "header") && c.F.With[0] == 1 && notThere(string(c.F.With[1:]))
	if missing {
		was, other = nil, nil
	}
	stored := 0
	tries := 0
	srv.exec = func(n int, cmd string, sc *scpConn) {
		if fault != "" && (c.F.Kind == "recv") == strings.HasPrefix(cmd, "scp -qf ") {
			tries++
			c.F.play(sc, bytes.Clone(files.m["x"]), func(b []byte) { files.m["x"] = b; stored++ })
			return
		}
		if strings.HasPrefix(cmd, "scp -qt ") {
			stored++
		}
		files.exec(n, cmd, sc)
	}
	if fault == "deny channel" || fault == "deny exec" {
		// every connection is refused
		srv.deny = strings.TrimPrefix(fault, "deny ")
	}
	srv.keep = true
	srv.start()
	args, open := []string{"--no-clear-clip", "-f", "db"}, []string{"the pass"}
	var steps []step
	reported := func(seg string) bool {
		for _, l := range strings.Split(seg, "\n") {
			if strings.Contains(l, "sync/scp") && !syncChatter.MatchString(l) {
				return true
			}
		}
		return false
	}
	if !c.Auto {
		args = append(args, "--no-sync")
		steps = append(steps, step{what: "sync", in: "sync\n"})
	}
	if c.Edit {
		steps = append(steps, step{what: "set", in: "set here user somebody\n"})
	}
	r, err := h.session(args, open, steps, "exit\n")
	srv.close()
	if err != nil {
		return err
	}
	x.Logf("%s", r.Out)
	if r.RC != 0 {
		return failf("status %d: %s", r.RC, r.tail())
	}
	st, err := openFile(h.path("db"), nil, []byte("the pass"))
	if err != nil {
		return failf("the database cannot be opened: %v", err)
	}
	// a push is not needed when the remote has everything
	failed := fault != "" && !missing && (c.F.Kind == "recv" || tries > 0 || srv.deny != "")
	x.LabelIf(failed, c.F.Kind+" fails")
	x.LabelIf(missing, "missing")
	x.LabelIf(fault == "", "no fault")
	if failed {
		x.NonTrivial()
		if !reported(r.Out) {
			return failf("%s at %s of %s is not reported: %s", fault, c.F.At, c.F.Kind, r.tail())
		}
	}
	if m := missingIn(local, st.Log); len(m) > 0 {
		return failf("local changes are lost: %v", m)
	}
	if m := missingIn(onFile, st.Log); len(m) > 0 {
		return failf("the changes of the other remote are missing: %v: %s", m, r.tail())
	}
	pullFails := failed && (c.F.Kind == "recv" || srv.deny != "")
	if m := missingIn(other, st.Log); len(m) > 0 && !pullFails {
		return failf("the changes of the remote are missing: %v: %s", m, r.tail())
	}
	if e := st.State["00000000-0000-4000-8000-00000000000a"]; c.Edit && e["user"] != "somebody" {
		return failf("the change of the session is lost: %s", r.tail())
	}
	have := map[txlogs.Tx]bool{}
	for _, l := range [][]txlogs.Tx{local, onFile, other} {
		for _, tx := range l {
			have[tx] = true
		}
	}
	for _, tx := range st.Log {
		if !have[tx] && !(c.Edit && tx.Kind == txlogs.TxSetKey && (tx.Key == "user" || tx.Key == "updated")) {
			return failf("unexpected change %+v", tx)
		}
	}
	now2 := files.m["x"]
	same := func(b []byte, what string) error {
		must(os.WriteFile(h.path("got"), b, 0o600))
		defer os.Remove(h.path("got"))
		w, err := openFile(h.path("got"), nil, []byte("the pass"))
		if err != nil {
			return failf("%s is broken: %v", what, err)
		}
		if len(missingIn(w.Log, st.Log))+len(missingIn(st.Log, w.Log)) > 0 {
			return failf("%s is not up to date: %s", what, r.tail())
		}
		return nil
	}
	switch {
	case pullFails:
		if stored > 0 || !bytes.Equal(now2, was) {
			return failf("the remote could not be read (%s at %s) and was written to: %s", fault, c.F.At, r.tail())
		}
	case !failed && !c.Edit:
		if err := same(now2, "the remote"); err != nil {
			return err
		}
	}
	if c.File && (c.Auto || !c.Edit) {
		if err := same(h.read("remote"), "the other remote"); err != nil {
			return err
		}
	}

	// and when it works again, all is as it should be
	fault, srv.deny = "", ""
	srv.start()
	r, err = h.session([]string{"--no-sync", "--no-clear-clip", "-f", "db"}, []string{"the pass"}, []step{{what: "sync", in: "sync\n"}}, "exit\n")
	srv.close()
	if err != nil {
		return err
	}
	if r.RC != 0 {
		return failf("status %d: %s", r.RC, r.tail())
	}
	if st, err = openFile(h.path("db"), nil, []byte("the pass")); err != nil {
		return failf("the database cannot be opened: %v", err)
	}
	if reported(r.Out) {
		return failf("the second synchronisation fails: %s", r.tail())
	}
	if err := same(files.m["x"], "the remote, after the second synchronisation,"); err != nil {
		return err
	}
	if m := missingIn(other, st.Log); len(m) > 0 {
		return failf("the changes of the remote are missing after the second synchronisation: %v: %s", m, r.tail())
	}
	return nil
}

func init() {
	part("M10", "scp", 700, 15000, "the transfer fails", genM10scp, runM10scp)
}
