package fw

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	quickLimit    = 600 * time.Second
	thoroughLimit = 3 * time.Hour
	hangLimit     = 30 * time.Second
)

type knownFinding struct {
	Property string
	Sig      string
	Text     string
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads lines of the form
//
//	known: property=C01 sig=<signature> <what fails>
//
// from the known-findings file. Lines starting with "fixed:" or "#" are only
// documentation.
func loadKnown() []knownFinding {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var ret []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		fields := strings.Fields(line)
		if len(fields) < 4 {
			continue
		}
		k := knownFinding{}
		k.Property = strings.TrimPrefix(fields[1], "property=")
		k.Sig = strings.TrimPrefix(fields[2], "sig=")
		k.Text = strings.Join(fields[3:], " ")
		ret = append(ret, k)
	}
	return ret
}

// Main is the command line entry point.
func Main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: mc list | check ID TIER | replay ID FILE")
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	switch args[0] {
	case "list":
		for _, id := range IDs() {
			for _, s := range checks[id].Suites {
				fmt.Printf("%s %s: %s\n", id, s.Name(), s.Bounds())
			}
		}
	case "check":
		parent(args[1], parseTier(args[2:]))
	case "child":
		go endWithParent()
		child(args[1], parseTier(args[2:]), args[3])
	case "case":
		go endWithParent()
		seq, _ := strconv.ParseInt(args[4], 10, 64)
		idx, _ := strconv.Atoi(args[3])
		runCase(args[1], parseTier(args[2:]), idx, seq)
	case "replay":
		replayFile(args[1], args[2])
	default:
		fatalf("unknown command %q", args[0])
	}
}

// endWithParent ends this process when the one that started it is gone.
func endWithParent() {
	parent := os.Getppid()
	for os.Getppid() == parent {
		time.Sleep(time.Second)
	}
	os.Exit(3)
}

func parseTier(args []string) Tier {
	t := os.Getenv("VERIF_TIER")
	if len(args) > 0 {
		t = args[0]
	}
	if t == "thorough" {
		return Thorough
	}
	return Quick
}

func getCheck(id string) *Check {
	c := checks[id]
	if c == nil {
		fatalf("no check for property %s", id)
	}
	return c
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func replayPath(id string, v *violation) string {
	h := fnv.New64a()
	h.Write([]byte(v.Suite))
	h.Write(v.Case)
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0777)
	return filepath.Join(dir, fmt.Sprintf("%s-%016x.json", id, h.Sum64()))
}

type replayDoc struct {
	Property string          `json:"property"`
	Suite    string          `json:"suite"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Repro    string          `json:"reproduced"`
}

func writeReplay(id string, v *violation) string {
	path := replayPath(id, v)
	buf, _ := json.MarshalIndent(replayDoc{id, v.Suite, v.Case, v.Msg, v.Repro}, "", " ")
	os.WriteFile(path, append(buf, '\n'), 0666)
	return path
}

func announce(id string, v *violation) {
	path := writeReplay(id, v)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	fmt.Printf("  suite: %s\n  case: %s\n  reproduced: %s\n  %s\n", v.Suite, clip(string(v.Case), 400), v.Repro, strings.ReplaceAll(clip(v.Msg, 1500), "\n", "\n  "))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeEvidence(id, level string, tier Tier, cov map[string]interface{}, assumptions []string, wall float64, violations int) {
	doc := map[string]interface{}{
		"property":    id,
		"tier":        tier.String(),
		"seed":        seed(),
		"level":       level,
		"coverage":    cov,
		"assumptions": assumptions,
		"wall_s":      wall,
		"violations":  violations,
	}
	if assumptions == nil {
		doc["assumptions"] = []string{}
	}
	buf, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		fatalf("evidence: %s", err)
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0777)
	path := filepath.Join(dir, id+".json")
	if err := os.WriteFile(path+".tmp", append(buf, '\n'), 0666); err != nil {
		fatalf("evidence: %s", err)
	}
	os.Rename(path+".tmp", path)
}

// parent supervises a child process that does the exploring, so that fatal
// runtime errors of the code under test become violations too.
func parent(id string, tier Tier) {
	c := getCheck(id)
	start := time.Now()
	jf, err := os.CreateTemp("", "mc-journal-*")
	if err != nil {
		fatalf("journal: %s", err)
	}
	defer os.Remove(jf.Name())
	size := 64 * 256
	jf.Truncate(int64(size))
	mem, err := syscall.Mmap(int(jf.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatalf("journal: %s", err)
	}

	for attempt := 1; ; attempt++ {
		for i := range mem {
			mem[i] = 0
		}
		code, tail, sig := spawn(0, "child", id, tier.String(), jf.Name())
		if code == 0 || code == 1 {
			os.Remove(jf.Name())
			os.Exit(code)
		}
		if code == 2 {
			os.Remove(jf.Name())
			os.Exit(2)
		}
		// The child died. Find out which of the cases in progress did it.
		for _, slot := range slotsOf(mem, numWorkers()) {
			if slot.seq == 0 {
				continue
			}
			idx, seq := int(slot.suite), slot.seq-1
			if idx >= len(c.Suites) {
				continue
			}
			ccode, ctail, csig := spawn(120*time.Second, "case", id, tier.String(), strconv.Itoa(idx), strconv.FormatInt(seq, 10))
			if ccode == 0 {
				continue
			}
			var data []byte
			c.Suites[idx].one(tier, seq, func(d []byte, run func(r *Rec)) { data = d })
			v := &violation{Suite: c.Suites[idx].Name(), Seq: seq, Case: data,
				Msg:   fmt.Sprintf("process died (exit %d %s) on this case:\n%s", ccode, csig, crashText(ctail)),
				Repro: "in a process of its own"}
			finishCrash(c, tier, v, start)
		}
		if attempt >= 2 {
			text := crashText(tail)
			if strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:") || strings.Contains(text, "runtime:") {
				data, _ := json.Marshal(text)
				v := &violation{Suite: "process", Case: data, Msg: "exploring process died twice: " + text, Repro: "2/2 runs"}
				finishCrash(c, tier, v, start)
			}
			fmt.Fprintf(os.Stderr, "explorer died (exit %d %s) without a reproducible case\n%s\n", code, sig, text)
			os.Exit(2)
		}
	}
}

func finishCrash(c *Check, tier Tier, v *violation, start time.Time) {
	announce(c.ID, v)
	writeEvidence(c.ID, c.Level, tier, map[string]interface{}{
		"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false,
		"samples": []interface{}{json.RawMessage(v.Case)},
	}, c.Assumptions, time.Since(start).Seconds(), 1)
	os.Exit(1)
}

func crashText(s string) string {
	i := strings.Index(s, "fatal error:")
	if j := strings.Index(s, "panic:"); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if j := strings.Index(s, "runtime: goroutine stack exceeds"); j >= 0 {
		i = j
	}
	if i < 0 {
		i = 0
	}
	return clip(s[i:], 4000)
}

type tailWriter struct {
	head bytes.Buffer
}

func (t *tailWriter) Write(p []byte) (int, error) {
	if t.head.Len() < 1<<20 {
		t.head.Write(p)
	}
	return len(p), nil
}

// spawn runs this program again and returns its exit code (or -1), the stderr
// text and the name of the signal that ended it.
func spawn(limit time.Duration, args ...string) (int, string, string) {
	exe, err := os.Executable()
	if err != nil {
		fatalf("%s", err)
	}
	cmd := exec.Command(exe, args...)
	tw := &tailWriter{}
	cmd.Stdout = os.Stdout
	if args[0] == "case" {
		cmd.Stdout = io.Discard
	}
	cmd.Stderr = tw
	if err := cmd.Start(); err != nil {
		fatalf("%s", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	if limit > 0 {
		select {
		case <-done:
		case <-time.After(limit):
			cmd.Process.Kill()
			<-done
			return -1, "timed out after " + limit.String(), "timeout"
		}
	} else {
		<-done
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return -1, tw.head.String(), ws.Signal().String()
	}
	code := ws.ExitStatus()
	if args[0] == "child" && (code == 0 || code == 1 || tw.head.Len() < 4096) {
		io.WriteString(os.Stderr, tw.head.String())
	}
	if code == 2 && strings.Contains(tw.head.String(), "goroutine ") {
		return 255, tw.head.String(), "" // a Go runtime crash also exits with 2
	}
	return code, tw.head.String(), ""
}

func child(id string, tier Tier, journal string) {
	c := getCheck(id)
	start := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)

	limit := quickLimit
	if tier == Thorough {
		limit = thoroughLimit
	}
	if s := os.Getenv("MC_LIMIT_S"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	rc := &runCtx{
		check:     c,
		tier:      tier,
		workers:   numWorkers(),
		deadline:  start.Add(limit),
		known:     map[string]bool{},
		knownList: loadKnown(),
		nSamples:  map[string]int{},
	}
	var slots []*journalSlot
	if jf, err := os.OpenFile(journal, os.O_RDWR, 0); err == nil {
		if mem, err := syscall.Mmap(int(jf.Fd()), 0, 64*256, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			slots = slotsOf(mem, rc.workers)
		}
	}
	for i := 0; i < rc.workers; i++ {
		r := &Rec{rc: rc}
		if slots != nil && i < 256 {
			r.slot = slots[i]
		}
		rc.recs = append(rc.recs, r)
	}
	go watchdog(rc, tier, start)

	var suites []map[string]interface{}
	only := os.Getenv("MC_SUITE")
	for i, s := range c.Suites {
		if only != "" && s.Name() != only {
			continue
		}
		t0 := time.Now()
		before := totals(rc)
		s.start(rc, i)
		after := totals(rc)
		suites = append(suites, map[string]interface{}{
			"name": s.Name(), "bounds": s.Bounds(),
			"cases": after.cases - before.cases, "operations": after.ops - before.ops,
			"wall_s": time.Since(t0).Seconds(),
		})
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Printf("%s/%s: %d cases, %d ops, %.1fs\n", id, s.Name(), after.cases-before.cases, after.ops-before.ops, time.Since(t0).Seconds())
		}
		if rc.stopped.Load() || rc.truncated.Load() {
			break
		}
	}
	tot := totals(rc)

	// Replay each violation on its own before reporting it.
	byName := map[string]Suite{}
	for _, s := range c.Suites {
		byName[s.Name()] = s
	}
	nViol := 0
	seen := map[string]bool{}
	for i := range rc.violations {
		v := &rc.violations[i]
		key := v.Suite + string(v.Case)
		if seen[key] {
			continue
		}
		seen[key] = true
		n := 0
		for k := 0; k < 5; k++ {
			r := &Rec{}
			if err := byName[v.Suite].replay(v.Case, r); err == nil && len(r.failed) > 0 {
				n++
			}
		}
		v.Repro = fmt.Sprintf("%d/5", n)
		nViol++
	}
	cov := map[string]interface{}{
		"states":                        rc.states.len(),
		"transitions":                   tot.ops,
		"traces_validated_against_impl": tot.traces,
		"cases":                         tot.cases,
		"samples":                       rc.samples,
		"suites":                        suites,
		"exhaustive":                    !rc.truncated.Load() && !rc.stopped.Load() && !rc.incomplete.Load(),
	}
	for _, r := range rc.recs {
		for k, n := range r.extra {
			prev, _ := cov[k].(int64)
			cov[k] = prev + n
		}
	}
	var knownSigs []string
	for sig := range rc.known {
		knownSigs = append(knownSigs, sig)
	}
	sort.Strings(knownSigs)
	for _, sig := range knownSigs {
		for _, k := range rc.knownList {
			if k.Property == id && k.Sig == sig {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.Text)
			}
		}
	}
	if len(knownSigs) > 0 {
		cov["known_findings_observed"] = knownSigs
	}
	writeEvidence(id, c.Level, tier, cov, c.Assumptions, time.Since(start).Seconds(), nViol)
	if nViol > 0 {
		printed := map[string]bool{}
		for i := range rc.violations {
			key := rc.violations[i].Suite + string(rc.violations[i].Case)
			if !printed[key] && len(printed) < maxPrinted() {
				printed[key] = true
				announce(id, &rc.violations[i])
			}
		}
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s states=%d transitions=%d traces=%d cases=%d exhaustive=%v wall=%.1fs\n",
		id, tier, rc.states.len(), tot.ops, tot.traces, tot.cases, cov["exhaustive"], time.Since(start).Seconds())
	os.Exit(0)
}

type total struct{ cases, ops, traces int64 }

func totals(rc *runCtx) total {
	var t total
	for _, r := range rc.recs {
		t.cases += r.cases
		t.ops += r.ops
		t.traces += r.traces
	}
	return t
}

// watchdog looks for cases that do not finish.
func watchdog(rc *runCtx, tier Tier, start time.Time) {
	limit := hangLimit
	for {
		time.Sleep(time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 22<<30 {
			fmt.Fprintln(os.Stderr, "fatal error: memory use of the explorer exceeds 22 GB\ngoroutine dump omitted")
			os.Exit(250)
		}
		now := time.Now().UnixNano()
		for _, r := range rc.recs {
			st := r.started.Load()
			if st == 0 || time.Duration(now-st) < limit {
				continue
			}
			// Replay it alone, with plenty of time.
			seq, suiteName := r.seq, r.suite
			idx := -1
			for i, s := range rc.check.Suites {
				if s.Name() == suiteName {
					idx = i
				}
			}
			code, tail, sig := spawn(90*time.Second, "case", rc.check.ID, tier.String(), strconv.Itoa(idx), strconv.FormatInt(seq, 10))
			if code == 0 || r.started.Load() != st {
				limit *= 2
				continue
			}
			var data []byte
			rc.check.Suites[idx].one(tier, seq, func(d []byte, run func(r *Rec)) { data = d })
			v := &violation{Suite: suiteName, Seq: seq, Case: data,
				Msg:   fmt.Sprintf("case did not finish within %s (alone: exit %d %s)\n%s", limit, code, sig, clip(tail, 2000)),
				Repro: "in a process of its own"}
			finishCrash(rc.check, tier, v, start)
		}
	}
}

func runCase(id string, tier Tier, idx int, seq int64) {
	c := getCheck(id)
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				fmt.Fprintln(os.Stderr, "fatal error: single case uses more than 6 GB")
				os.Exit(4)
			}
		}
	}()
	c.Suites[idx].one(tier, seq, func(d []byte, run func(r *Rec)) {
		run(&Rec{})
	})
	os.Exit(0)
}

func replayFile(id, path string) {
	c := getCheck(id)
	buf, err := os.ReadFile(path)
	if err != nil {
		fatalf("%s", err)
	}
	var doc replayDoc
	if err := json.Unmarshal(buf, &doc); err != nil {
		fatalf("%s", err)
	}
	for _, s := range c.Suites {
		if s.Name() != doc.Suite {
			continue
		}
		r := &Rec{}
		if err := s.replay(doc.Case, r); err != nil {
			fatalf("%s", err)
		}
		if len(r.failed) == 0 {
			fmt.Printf("case does not fail\n")
			os.Exit(0)
		}
		for _, f := range r.failed {
			fmt.Printf("sig=%s\n%s\n", f.Sig, f.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.Exit(1)
	}
	fatalf("no suite %q", doc.Suite)
}

func maxPrinted() int {
	if maxViolations > 12 {
		return maxViolations
	}
	return 4
}
