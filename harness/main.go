package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	fID      = flag.String("id", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fRoot    = flag.String("root", "/verif", "root of the verification tree")
	fTmp     = flag.String("tmp", "", "scratch directory")
	fWorker  = flag.Bool("worker", false, "internal: run as worker")
	fPart    = flag.String("part", "", "part (worker)")
	fN       = flag.Int("n", 0, "number of cases (worker)")
	fOut     = flag.String("out", "", "result file (worker)")
	fSoft    = flag.Duration("soft", 400*time.Second, "soft deadline")
	fCase    = flag.Duration("case", 60*time.Second, "limit per case")
	fReplay  = flag.String("replay", "", "replay a case file")
	fVerbose = flag.Bool("verbose", false, "verbose replay")
	fList    = flag.Bool("list", false, "list properties")
	fScale   = flag.Float64("scale", 1, "scale case counts")
	fOnly    = flag.String("only", "", "run only this part")
	fReal    = flag.String("real", "", "harness binary built with the real scrypt")
)

func main() {
	if fakeTool() {
		return
	}
	initTesting()
	flag.Parse()
	if *fTmp == "" {
		d, err := os.MkdirTemp("", "bpv")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*fTmp = d
		defer os.RemoveAll(d)
	}
	switch {
	case *fList:
		for _, id := range sortedKeys(parts) {
			for _, p := range parts[id] {
				fmt.Println(id, p.Name, p.Quick, p.Thorough)
			}
		}
	case *fReplay != "":
		rc := doReplay(*fReplay, *fTmp, *fVerbose)
		os.RemoveAll(*fTmp)
		os.Exit(rc)
	case *fWorker:
		for _, p := range parts[*fID] {
			if p.Name == *fPart {
				runWorker(p, *fSeed, *fN, *fTmp, *fSoft, *fCase, *fOut)
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no such part")
		os.Exit(3)
	default:
		os.Exit(runCheck())
	}
}

type task struct {
	p    *Part
	idx  int
	seed uint64
	n    int
	res  *WorkerResult
	err  string
	died json.RawMessage // the case during which the worker process died
}

func runCheck() int {
	start := time.Now()
	id := *fID
	ps := parts[id]
	if len(ps) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	binOf := func(p *Part) string {
		if strings.HasPrefix(p.Name, "real") && *fReal != "" {
			return *fReal
		}
		return self
	}
	tier := *fTier
	if tier != "thorough" {
		tier = "quick"
	}
	soft, hard := 300*time.Second, 700*time.Second
	if tier == "thorough" {
		soft, hard = 40*time.Minute, 60*time.Minute
	}
	deadline := start.Add(hard)

	violations := 0
	report := func(p *Part, raw json.RawMessage, msg string) {
		violations++
		dir := filepath.Join(*fRoot, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", id, p.Name, h64(raw)))
		b, _ := json.MarshalIndent(Replay{Property: id, Part: p.Name, Message: msg, Case: raw}, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "cannot write replay file:", err)
		}
		fmt.Printf("%s/%s: %s\n", id, p.Name, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}

	// replays one case in a fresh process: 0 holds, 1 fails, 3 infra, 4 hang
	replayCase := func(p *Part, raw json.RawMessage, limit time.Duration) (int, string) {
		f := filepath.Join(*fTmp, fmt.Sprintf("replay-%016x.json", h64(raw)))
		b, _ := json.Marshal(Replay{Property: id, Part: p.Name, Case: raw})
		os.WriteFile(f, b, 0o600)
		return replayFile(binOf(p), f, limit)
	}

	var infraMsgs []string
	evals, nontrivial := 0, 0
	labels := map[string]map[string]int{}
	perPart := map[string]int{}
	perPartNT := map[string]int{}
	hashes := map[string]map[uint64]bool{}
	samples := []any{}
	knownN := 0

	// 1. committed regression cases
	corpus := corpusFiles(*fRoot, id)
	for _, f := range corpus {
		r, p, _, err := loadReplay(f)
		if err != nil {
			infraMsgs = append(infraMsgs, f+": "+err.Error())
			continue
		}
		if *fOnly != "" && p.Name != *fOnly {
			continue
		}
		rc, out := replayFile(binOf(p), f, 60*time.Second)
		if rc == 4 && p.HangFails {
			if rc, out = replayFile(binOf(p), f, 60*time.Second); rc == 4 {
				rc, out = 1, "does not terminate"
			}
		}
		switch rc {
		case 0:
			evals++
			perPart["corpus"]++
		case 1:
			evals++
			perPart["corpus"]++
			report(p, r.Case, strings.TrimSpace(out))
		default:
			infraMsgs = append(infraMsgs, fmt.Sprintf("%s: rc %d %s", f, rc, out))
		}
	}

	// 2. generated cases
	var tasks []*task
	if violations == 0 {
		ncpu := runtime.NumCPU()
		for pi, p := range ps {
			if *fOnly != "" && p.Name != *fOnly {
				continue
			}
			n := p.Quick
			if tier == "thorough" {
				n = p.Thorough
			}
			n = int(float64(n) * *fScale)
			if n <= 0 {
				continue
			}
			w := ncpu
			if w > 8 {
				w = 8
			}
			if p.Workers > 0 && w > p.Workers {
				w = p.Workers
			}
			// the split into shards must not depend on the machine
			shards := 8
			if p.Workers > 0 {
				shards = p.Workers
			}
			if n < shards {
				shards = n
			}
			for i := 0; i < shards; i++ {
				k := n / shards
				if i < n%shards {
					k++
				}
				seed := h64([]byte(fmt.Sprintf("%s/%s/%d/%d/%d", id, p.Name, pi, *fSeed, i)))
				seed &= 1<<62 - 1
				if seed == 0 {
					seed = 1
				}
				tasks = append(tasks, &task{p: p, idx: i, seed: seed, n: k})
			}
		}
		var wg sync.WaitGroup
		sem := make(chan struct{}, ncpu)
		stop := make(chan struct{})
		var once sync.Once
		for ti, t := range tasks {
			wg.Add(1)
			go func(ti int, t *task) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				select {
				case <-stop:
					return
				default:
				}
				runTask(binOf(t.p), id, ti, t, soft-time.Since(start), deadline, stop)
				if t.res != nil && t.res.Fail != nil {
					once.Do(func() { close(stop) })
				}
			}(ti, t)
		}
		wg.Wait()
	}

	var fails []*task
	for _, t := range tasks {
		if t.died != nil && violations == 0 {
			// a Go runtime failure that recover cannot stop: a violation if it repeats
			rc, out := replayCase(t.p, t.died, 60*time.Second)
			rc2, _ := replayCase(t.p, t.died, 60*time.Second)
			if rc == 5 && rc2 == 5 {
				report(t.p, t.died, "the case kills the process: "+firstLines(out, 8))
				continue
			}
		}
		if t.err != "" {
			infraMsgs = append(infraMsgs, fmt.Sprintf("%s worker %d: %s", t.p.Name, t.idx, t.err))
		}
		r := t.res
		if r == nil {
			continue
		}
		if r.Infra != "" {
			infraMsgs = append(infraMsgs, fmt.Sprintf("%s worker %d: %s", t.p.Name, t.idx, r.Infra))
		}
		evals += r.Evals
		perPart[t.p.Name] += r.Evals
		if labels[t.p.Name] == nil {
			labels[t.p.Name] = map[string]int{}
			hashes[t.p.Name] = map[uint64]bool{}
		}
		for l, n := range r.Labels {
			labels[t.p.Name][l] += n
		}
		for _, h := range r.Hashes {
			hashes[t.p.Name][h] = true
		}
		if len(r.Samples) > 0 && t.idx < 2 {
			samples = append(samples, map[string]any{"part": t.p.Name, "case": r.Samples[len(r.Samples)-1]})
		}
		if r.Note != "" {
			fmt.Fprintf(os.Stderr, "%s worker %d: %s after %d cases\n", t.p.Name, t.idx, r.Note, r.Evals)
		}
		if r.Fail != nil {
			fails = append(fails, t)
		}
		if r.Hang != nil {
			hung := 0
			if t.p.HangFails {
				for i := 0; i < 2; i++ {
					rc, _ := replayCase(t.p, r.Hang, 60*time.Second)
					if rc == 4 {
						hung++
					}
				}
			}
			if hung == 2 {
				report(t.p, r.Hang, "does not terminate (three runs of 60 s and more; such a case normally takes milliseconds)")
			} else {
				infraMsgs = append(infraMsgs, fmt.Sprintf("%s worker %d: a case exceeded its time limit: %.300s", t.p.Name, t.idx, r.Hang))
			}
		}
	}
	for n, h := range hashes {
		nontrivial += len(h)
		perPartNT[n] = len(h)
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].res.Fail) < len(fails[j].res.Fail) })
	for _, t := range fails {
		confirmed := false
		since := time.Now()
		for n, raw := range []json.RawMessage{t.res.Fail, t.res.FirstFail} {
			if raw == nil {
				continue
			}
			// the order of the program's maps, for one, differs from run to run
			for i := 0; i < 6 || i < 25 && time.Since(since) < time.Duration(n+1)*20*time.Second; i++ {
				if confirmed {
					break
				}
				rc, out := replayCase(t.p, raw, 60*time.Second)
				if rc == 1 {
					confirmed = true
					report(t.p, raw, strings.TrimSpace(out))
				}
			}
			if confirmed {
				break
			}
		}
		if !confirmed && strings.Contains(t.res.FailMsg, recorded) {
			// what was seen is proof enough
			confirmed = true
			report(t.p, t.res.Fail, t.res.FailMsg)
		}
		if confirmed {
			break // one minimal reproduction is enough
		}
		infraMsgs = append(infraMsgs, fmt.Sprintf("%s: a failure did not reproduce: %s\ncase: %.2000s", t.p.Name, t.res.FailMsg, t.res.Fail))
	}

	rules := []string{}
	for _, p := range ps {
		rules = append(rules, p.Name+": "+p.Rule)
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": nontrivial,
			"rule":                strings.Join(rules, " || "),
			"samples":             samples,
			"cases_per_part":      perPart,
			"nontrivial_per_part": perPartNT,
			"classes":             labels,
			"known_findings":      knownN,
		},
		"assumptions": assumptions[id],
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if ev["assumptions"].([]string) == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fRoot, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*fRoot, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, p := range ps {
		ls := []string{}
		for _, l := range sortedKeys(labels[p.Name]) {
			ls = append(ls, fmt.Sprintf("%s=%d", l, labels[p.Name][l]))
		}
		fmt.Printf("%s/%s: %d cases, %d distinct non-trivial; %s\n", id, p.Name, perPart[p.Name], perPartNT[p.Name], strings.Join(ls, " "))
	}
	if violations > 0 {
		return 1
	}
	if len(infraMsgs) > 0 {
		for _, m := range infraMsgs {
			fmt.Fprintln(os.Stderr, "ERROR:", m)
		}
		return 3
	}
	fmt.Printf("%s: held on %d cases (%.1fs)\n", id, evals, time.Since(start).Seconds())
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func replayFile(bin, f string, limit time.Duration) (int, string) {
	tmp, err := os.MkdirTemp(*fTmp, "rp")
	if err != nil {
		return 3, err.Error()
	}
	defer os.RemoveAll(tmp)
	cmd := exec.Command(bin, "-replay", f, "-tmp", tmp)
	cmd.Env = workerEnv()
	out := &limitBuf{max: 20000}
	cmd.Stdout, cmd.Stderr = out, out
	setGroup(cmd)
	if err := cmd.Start(); err != nil {
		return 3, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		rc := cmd.ProcessState.ExitCode()
		s := out.String()
		if rc == 0 || rc == 1 || rc == 3 {
			return rc, s
		}
		if rc == 2 && (strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:")) && !strings.Contains(s, "out of memory") {
			return 5, s
		}
		return 3, fmt.Sprintf("replay exit %d: %s", rc, s)
	case <-time.After(limit):
		killGroup(cmd)
		<-done
		return 4, "time limit"
	}
}

func runTask(self, id string, ti int, t *task, soft time.Duration, deadline time.Time, stop chan struct{}) {
	tmp := filepath.Join(*fTmp, "w"+strconv.Itoa(ti))
	if err := os.MkdirAll(tmp, 0o755); err != nil {
		t.err = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	out := filepath.Join(*fTmp, fmt.Sprintf("res%d.json", ti))
	caseLimit := 60 * time.Second
	cmd := exec.Command(self, "-worker", "-id", id, "-part", t.p.Name, "-seed", fmt.Sprint(t.seed), "-n", strconv.Itoa(t.n),
		"-out", out, "-tmp", tmp, "-soft", soft.String(), "-case", caseLimit.String())
	cmd.Env = workerEnv()
	buf := &limitBuf{max: 20000}
	cmd.Stdout, cmd.Stderr = buf, buf
	setGroup(cmd)
	if err := cmd.Start(); err != nil {
		t.err = err.Error()
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	killed := ""
	select {
	case <-done:
	case <-stop:
		// another worker found a violation: give this one no more time
		killGroup(cmd)
		<-done
		killed = "stop"
	case <-time.After(time.Until(deadline)):
		killGroup(cmd)
		<-done
		killed = "hard deadline"
	}
	if b, err := os.ReadFile(out); err == nil {
		var r WorkerResult
		if err := json.Unmarshal(b, &r); err != nil {
			t.err = "result: " + err.Error()
			return
		}
		t.res = &r
		return
	}
	if killed == "stop" {
		return
	}
	if killed != "" {
		t.err = killed
		return
	}
	if b, err := os.ReadFile(out + ".cur"); err == nil && len(b) > 8 {
		if n := binary.LittleEndian.Uint64(b); n <= uint64(len(b)-8) && cmd.ProcessState.ExitCode() == 2 {
			t.died = b[8 : 8+n]
		}
	}
	t.err = fmt.Sprintf("worker died (%v): %s", cmd.ProcessState, buf.String())
}
