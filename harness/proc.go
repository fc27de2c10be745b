package main

import (
	"bytes"
	"os"
	"os/exec"
	"sync"
	"syscall"
)

// limitBuf keeps at most max bytes.
type limitBuf struct {
	mu  sync.Mutex
	b   bytes.Buffer
	max int
}

func (l *limitBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if room := l.max - l.b.Len(); room > 0 {
		q := p
		if len(q) > room {
			q = q[:room]
		}
		l.b.Write(q)
	}
	return len(p), nil
}

func (l *limitBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func setGroup(c *exec.Cmd) {
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
}

func killGroup(c *exec.Cmd) {
	if c.Process != nil {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
}

func workerEnv() []string {
	return append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
}
