package main

import (
	"bufio"
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/crypto/ssh"
)

// sshd is an SSH server in this process that runs what it is told to for every
// command, and writes down what clients did.
type sshd struct {
	l    net.Listener
	Addr string

	mu    sync.Mutex
	conns []*sshRec
	wg    sync.WaitGroup
	keep  bool // the listener stays open

	key  func(n int) ssh.Signer                          // the host key of the n-th connection
	auth func(user, pass string, pub ssh.PublicKey) bool // nil: everybody
	exec func(n int, cmd string, c *scpConn)             // runs a command
	deny string                                          // "", channel, exec
	wrap func(n int, c net.Conn) net.Conn                // nil: as it is
}

// sshRec is what the server saw of a connection.
type sshRec struct {
	Shook bool     // the client accepted the host key
	Auth  []string // attempts to log in
	Cmds  []string
}

func newSSHD(addr string) *sshd {
	if addr == "" {
		addr = "127.0.0.1:0"
	}
	l, err := net.Listen("tcp", addr)
	must(err)
	return &sshd{l: l, Addr: l.Addr().String()}
}

func (s *sshd) start() *sshd {
	if s.keep {
		s.l.(*net.TCPListener).SetDeadline(time.Time{})
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for n := 0; ; n++ {
			c, err := s.l.Accept()
			if err != nil {
				return
			}
			r := &sshRec{}
			s.mu.Lock()
			s.conns = append(s.conns, r)
			s.mu.Unlock()
			s.wg.Add(1)
			go func(n int) {
				defer s.wg.Done()
				defer c.Close()
				s.serve(n, c, r)
			}(n)
		}
	}()
	return s
}

// close ends the server and waits for everything it does, so that what it saw
// may be looked at.
func (s *sshd) close() []*sshRec {
	if s.keep {
		s.l.(*net.TCPListener).SetDeadline(time.Unix(1, 0))
	} else {
		s.l.Close()
	}
	done := make(chan bool)
	go func() { s.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		panic(infraError{"the ssh server does not end"})
	}
	return s.conns
}

func (s *sshd) serve(n int, tcp net.Conn, r *sshRec) {
	raw := tcp
	if s.wrap != nil {
		tcp = s.wrap(n, tcp)
	}
	note := func(f func()) { s.mu.Lock(); f(); s.mu.Unlock() }
	try := func(what string, c ssh.ConnMetadata, pass string, pub ssh.PublicKey) (*ssh.Permissions, error) {
		note(func() { r.Shook = true; r.Auth = append(r.Auth, what) })
		if s.auth != nil && !s.auth(c.User(), pass, pub) {
			return nil, errors.New("no")
		}
		return nil, nil
	}
	cfg := &ssh.ServerConfig{
		PasswordCallback: func(c ssh.ConnMetadata, p []byte) (*ssh.Permissions, error) {
			return try("password "+c.User()+" "+string(p), c, string(p), nil)
		},
		PublicKeyCallback: func(c ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
			return try("key "+c.User()+" "+keyHash(k), c, "", k)
		},
		AuthLogCallback: func(c ssh.ConnMetadata, method string, err error) { note(func() { r.Shook = true }) },
	}
	cfg.AddHostKey(s.key(n))
	c, chans, reqs, err := ssh.NewServerConn(tcp, cfg)
	if err != nil {
		return
	}
	defer c.Close()
	go ssh.DiscardRequests(reqs)
	var wg sync.WaitGroup
	defer wg.Wait()
	for nc := range chans {
		if nc.ChannelType() != "session" || s.deny == "channel" {
			nc.Reject(ssh.Prohibited, "no")
			continue
		}
		ch, reqs, err := nc.Accept()
		if err != nil {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for rq := range reqs {
				if rq.Type != "exec" || len(rq.Payload) < 4 || s.deny == "exec" {
					rq.Reply(false, nil)
					continue
				}
				cmd := string(rq.Payload[4:])
				note(func() { r.Cmds = append(r.Cmds, cmd) })
				rq.Reply(true, nil)
				wg.Add(1)
				go func() {
					defer wg.Done()
					sc := &scpConn{ch: ch, raw: raw, in: bufio.NewReader(ch)}
					s.exec(n, cmd, sc)
					sc.exit(0)
				}()
			}
		}()
	}
}

func keyHash(k ssh.PublicKey) string { return fmt.Sprintf("%x", sha256.Sum256(k.Marshal())) }

var (
	rsaOnce sync.Once
	rsaKeys []ssh.Signer
)

// hostKey returns a host key: 0..7 are of type ed25519, 8 and 9 rsa.
func hostKey(i int) ssh.Signer {
	if i < 8 {
		seed := sha256.Sum256([]byte{byte(i)})
		k, err := ssh.NewSignerFromKey(ed25519.NewKeyFromSeed(seed[:]))
		must(err)
		return k
	}
	rsaOnce.Do(func() {
		for i := 0; i < 2; i++ {
			k, err := rsa.GenerateKey(rand.Reader, 1024)
			must(err)
			s, err := ssh.NewSignerFromKey(k)
			must(err)
			rsaKeys = append(rsaKeys, s)
		}
	})
	return rsaKeys[(i-8)%2]
}

// scpConn is the server's end of a command that runs.
type scpConn struct {
	ch     ssh.Channel
	raw    net.Conn
	in     *bufio.Reader
	Sizes  []int // sizes of the pieces that are written
	Waits  []int // pauses before pieces in µs
	k      int
	exited bool
}

// Write writes in pieces, with pauses.
func (c *scpConn) Write(b []byte) (int, error) {
	n := len(b)
	for len(b) > 0 {
		p := len(b)
		if len(c.Sizes) > 0 && c.k < 3000 {
			p = min(p, max(1, c.Sizes[c.k%len(c.Sizes)]))
		}
		if len(c.Waits) > 0 && c.k < 50 {
			time.Sleep(time.Duration(c.Waits[c.k%len(c.Waits)]) * time.Microsecond)
		}
		c.k++
		if _, err := c.ch.Write(b[:p]); err != nil {
			return n - len(b), err
		}
		b = b[p:]
	}
	return n, nil
}

// exit reports the status and ends the command.
func (c *scpConn) exit(rc int) {
	if !c.exited {
		c.exited = true
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], uint32(rc))
		c.ch.SendRequest("exit-status", false, b[:])
		c.ch.Close()
	}
}

// signalled reports death by a signal.
func (c *scpConn) signalled(name string) {
	if !c.exited {
		c.exited = true
		c.ch.SendRequest("exit-signal", false, ssh.Marshal(struct {
			Name string
			Core bool
			Msg  string
			Lang string
		}{name, false, "", ""}))
		c.ch.Close()
	}
}

// vanish ends the command without a status, drop the whole connection.
func (c *scpConn) vanish() { c.exited = true; c.ch.Close() }
func (c *scpConn) drop()   { c.exited = true; c.raw.Close() }

// ack waits for the client's confirmation.
func (c *scpConn) ack() error {
	b, err := c.in.ReadByte()
	if err != nil {
		return err
	}
	if b != 0 {
		return fmt.Errorf("the client confirms with %#x", b)
	}
	return nil
}

// scpHeader is the announcement of a file.
func (c *scpConn) header() (mode string, length int64, name string, err error) {
	l, err := c.in.ReadString('\n')
	if err != nil {
		return "", 0, "", fmt.Errorf("announcement %.100q: %w", l, err)
	}
	f := strings.SplitN(strings.TrimSuffix(l, "\n"), " ", 3)
	if len(f) != 3 || len(f[0]) != 5 || f[0][0] != 'C' || strings.Trim(f[0][1:], "01234567") != "" {
		return "", 0, "", fmt.Errorf("announcement %.100q", l)
	}
	if f[1] == "" || strings.Trim(f[1], "0123456789") != "" {
		return "", 0, "", fmt.Errorf("length in announcement %.100q", l)
	}
	fmt.Sscan(f[1], &length)
	if f[2] == "" || strings.Contains(f[2], "/") || f[2] == ".." {
		return "", 0, "", fmt.Errorf("unexpected filename in announcement %.100q", l)
	}
	return f[0][1:], length, f[2], nil
}

// runReal runs OpenSSH's scp in a directory as an unprivileged user.
func (c *scpConn) runReal(dir string, args []string) {
	c.runRealWith(dir, append([]string{"sh", "-c", `umask 0; exec scp "$@"`, "scp"}, args...))
}

func (c *scpConn) runRealWith(dir string, args []string) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir}
	cmd.Stdin = nil
	w, err := cmd.StdinPipe()
	must(err)
	cmd.Stdout = c
	cmd.Stderr = c.ch.Stderr()
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}, Setpgid: true}
	must(cmd.Start())
	go func() {
		io.Copy(w, c.in)
		w.Close()
	}()
	cmd.Wait()
	if st, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && st.Signaled() {
		c.signalled("TERM")
		return
	}
	c.exit(cmd.ProcessState.ExitCode())
}

// pieceConn writes in pieces, with pauses, and can end early or be corrupted.
type pieceConn struct {
	net.Conn
	Sizes, Waits []int
	CutAt        int // ends after that many bytes, 0: never
	FlipAt       int // changes this byte, 0: none
	k, n         int
}

func (p *pieceConn) Write(b []byte) (int, error) {
	total := len(b)
	b = bytes.Clone(b)
	if p.FlipAt > 0 && p.n <= p.FlipAt && p.FlipAt < p.n+len(b) {
		b[p.FlipAt-p.n] ^= 0x10
	}
	for len(b) > 0 {
		s := len(b)
		if len(p.Sizes) > 0 && p.k < 2000 {
			s = min(s, max(1, p.Sizes[p.k%len(p.Sizes)]))
		}
		if len(p.Waits) > 0 && p.k < 50 {
			time.Sleep(time.Duration(p.Waits[p.k%len(p.Waits)]) * time.Microsecond)
		}
		p.k++
		if p.CutAt > 0 && p.n+s >= p.CutAt {
			p.Conn.Write(b[:max(0, p.CutAt-p.n)])
			p.Conn.Close()
			return 0, io.ErrClosedPipe
		}
		if _, err := p.Conn.Write(b[:s]); err != nil {
			return total - len(b), err
		}
		p.n += s
		b = b[s:]
	}
	return total, nil
}

// realSCP says whether OpenSSH's scp is there.
func realSCP() bool {
	_, err := os.Stat("/usr/bin/scp")
	return err == nil
}

// runRealLimited runs OpenSSH's scp so that it cannot write big files.
func (c *scpConn) runRealLimited(dir string, args []string) {
	c.runRealWith(dir, append([]string{"sh", "-c", `trap "" XFSZ; ulimit -f 1; exec scp "$@"`, "scp"}, args...))
}
