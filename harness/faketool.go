package main

import (
	"bytes"
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// fakeCfg says what the stand-ins do. It's read from $BPV_FAKE/<tool>.json
type fakeCfg struct {
	Out  B   // standard output
	RC   int // exit status
	Kill bool
	Pins []pinRun // pinentry: one for each run
	Eds  []edRun  // editor: one for each run
}

// fakeLog is one line of $BPV_FAKE/log
type fakeLog struct {
	Tool  string
	Args  []string
	In    B
	Mode  os.FileMode // editor: permission bits of the file
	Env   string
	Note  string
	Lines []B      // pinentry: what was received
	Vars  []string // all of the environment
}

// fakeTool lets this binary stand in for pinentry, editors, clipboard
// programs and lpass when it is started under such a name.
func fakeTool() bool {
	dir := os.Getenv("BPV_FAKE")
	name := filepath.Base(os.Args[0])
	if dir == "" || strings.HasPrefix(name, "bpv") {
		return false
	}
	var cfg fakeCfg
	if b, err := os.ReadFile(filepath.Join(dir, name+".json")); err == nil {
		if err := json.Unmarshal(b, &cfg); err != nil {
			panic(err)
		}
	}
	l := fakeLog{Tool: name, Args: os.Args[1:], Vars: os.Environ()}
	switch name {
	case "xclip", "xsel", "wl-copy", "termux-clipboard-set":
		l.In, _ = io.ReadAll(os.Stdin)
	case "ed-fake", "vim", "code", "atom", "sublime", "emacs", "nano":
		fakeEditor(dir, &cfg, &l)
	case "pin-fake", "pinentry", "pinentry-gnome3", "pinentry-kde", "pinentry-x11", "pinentry-curses", "pinentry-tty":
		fakePinentry(dir, &cfg, &l)
	default:
		os.Stdout.Write(cfg.Out)
	}
	writeFakeLog(dir, l)
	if cfg.Kill {
		syscall.Kill(os.Getpid(), syscall.SIGTERM)
		time.Sleep(5 * time.Second)
	}
	os.Exit(cfg.RC)
	return true
}

func writeFakeLog(dir string, l fakeLog) {
	b, err := json.Marshal(l)
	if err != nil {
		panic(err)
	}
	f, err := os.OpenFile(filepath.Join(dir, "log"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
	if err != nil {
		panic(err)
	}
	f.Write(append(b, '\n'))
	f.Close()
}

// fake prepares the stand-ins: HOME/fake holds their settings and log.
func (h *Home) fake(cfg map[string]fakeCfg) {
	must(os.MkdirAll(h.path("fake"), 0o700))
	for n, c := range cfg {
		h.tool(n)
		b, err := json.Marshal(c)
		must(err)
		must(os.WriteFile(filepath.Join(h.path("fake"), n+".json"), b, 0o600))
	}
	h.Env = append(h.Env, "BPV_FAKE="+h.path("fake"))
}

// fakeLogs returns what the stand-ins recorded, and forgets it.
func (h *Home) fakeLogs() []fakeLog {
	b, err := os.ReadFile(filepath.Join(h.path("fake"), "log"))
	if os.IsNotExist(err) {
		return nil
	}
	must(err)
	var out []fakeLog
	for _, l := range bytes.Split(bytes.TrimSpace(b), []byte("\n")) {
		var f fakeLog
		must(json.Unmarshal(l, &f))
		out = append(out, f)
	}
	os.Remove(filepath.Join(h.path("fake"), "log"))
	return out
}

// fakeSet changes the settings of a stand-in.
func (h *Home) fakeSet(n string, c fakeCfg) {
	b, err := json.Marshal(c)
	must(err)
	p := filepath.Join(h.path("fake"), n+".json")
	must(os.WriteFile(p+"~", b, 0o644))
	must(os.Rename(p+"~", p))
}
