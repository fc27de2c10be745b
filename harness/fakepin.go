package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// edRun is what the stand-in for an editor does in one run.
type edRun struct {
	Mode string // keep write append rename remove
	New  B
	RC   int
	Kill bool
}

// runNumber counts the runs of a stand-in.
func runNumber(dir, name string) int {
	for n := 0; ; n++ {
		f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("%s.%d", name, n)), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o600)
		if err == nil {
			fmt.Fprint(f, os.Getpid())
			f.Close()
			return n
		}
		if !os.IsExist(err) {
			panic(err)
		}
	}
}

// fakeEditor edits its argument as the next of the settings says. It keeps a
// link to the file it leaves, so that it can be examined later.
func fakeEditor(dir string, cfg *fakeCfg, l *fakeLog) {
	n := runNumber(dir, "ed")
	l.Note = fmt.Sprint(n)
	run := edRun{Mode: "keep"}
	if n < len(cfg.Eds) {
		run = cfg.Eds[n]
	}
	cfg.RC, cfg.Kill = run.RC, run.Kill
	if len(l.Args) != 1 {
		return
	}
	f := l.Args[0]
	if st, err := os.Stat(f); err == nil {
		l.Mode = st.Mode()
	}
	b, err := os.ReadFile(f)
	if err != nil {
		l.Note = err.Error()
		return
	}
	l.In = b
	leave := filepath.Join(dir, fmt.Sprintf("left.%d", n))
	switch run.Mode {
	case "write":
		must(os.WriteFile(f, run.New, 0o600))
	case "append":
		o, err := os.OpenFile(f, os.O_APPEND|os.O_WRONLY, 0)
		must(err)
		o.Write(run.New)
		o.Close()
	case "rename":
		must(os.WriteFile(f+"~", run.New, 0o600))
		must(os.Rename(f+"~", f))
	case "remove":
		must(os.Remove(f))
		return
	}
	must(os.Link(f, leave))
}

// pinRun is what the stand-in for pinentry does in one run.
type pinRun struct {
	Greet   B   // before anything is read
	Replies []B // one for each line received, then "OK"
	Die     int // exits instead of sending reply n (0: the greeting; -1: never)
	End     int // exits after sending reply n (-1: never)
	RC      int
	Pin     B   // what is sent for GETPIN, if set
	Chunk   int // replies are written in pieces of this size (0: whole)
}

// fakePinentry follows the next of the scripts.
func fakePinentry(dir string, cfg *fakeCfg, l *fakeLog) {
	n := runNumber(dir, "pin")
	run := pinRun{Greet: B("OK\n"), Die: -1, End: -1}
	if n < len(cfg.Pins) {
		run = cfg.Pins[n]
	}
	cfg.RC = run.RC
	l.Note = fmt.Sprint(n)
	send := func(b []byte) {
		for k := 0; run.Chunk > 0 && len(b) > run.Chunk && k < 200; k++ {
			os.Stdout.Write(b[:run.Chunk])
			b = b[run.Chunk:]
			time.Sleep(50 * time.Microsecond)
		}
		os.Stdout.Write(b)
	}
	in := bufio.NewReader(os.Stdin)
	asked := false
	for i := 0; ; i++ {
		if i == run.Die {
			return
		}
		if i == 0 {
			send(run.Greet)
		} else if asked && run.Pin != nil {
			send([]byte("D " + strings.ReplaceAll(string(run.Pin), "%", "%25") + "\nOK\n"))
		} else if i-1 < len(run.Replies) {
			send(run.Replies[i-1])
		} else {
			send([]byte("OK\n"))
		}
		if i == run.End {
			return
		}
		line, err := in.ReadString('\n')
		if err == io.EOF && line == "" {
			return
		}
		l.In = append(l.In, line...)
		l.Lines = append(l.Lines, B(line))
		asked = line == "GETPIN\n"
		if line == "BYE\n" {
			if i < len(run.Replies) {
				send(run.Replies[i])
			} else {
				send([]byte("OK closing connection\n"))
			}
			return
		}
		if err != nil {
			return
		}
	}
}
