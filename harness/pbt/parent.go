package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Config tells the parent where things are.
type Config struct {
	Verif   string // /verif
	Bin     string // worker binary
	RaceBin string // worker binary built with -race
	Tier    string
	Seed    uint64
	Scratch string
	// CoverBin is a worker binary built with coverage counters, for guided phases ("": none)
	CoverBin string
}

// hunting is for trying many changed trees quickly: failures are not shrunk.
var hunting = os.Getenv("VT_HUNT") != ""

var hangCPU = 30 * time.Second // CPU time one case may take

func init() {
	if hunting {
		hangCPU = 6 * time.Second
	}
}

const (
	memLimit  = 2 << 30          // resident memory of one worker
	wallLimit = 13 * time.Minute // quick tier, whole check
)

type procResult struct {
	code    int
	signal  bool
	hang    bool
	memory  bool
	timeout bool
	last    int64
	shard   int
	stderr  string
	stdout  string
}

func readProgress(path string) int64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b))
}

func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v * int64(os.Getpagesize())
}

type tail struct {
	head, end []byte
}

func (b *tail) Write(p []byte) (int, error) {
	n := len(p)
	if len(b.head) < 16<<10 {
		k := min(len(p), 16<<10-len(b.head))
		b.head = append(b.head, p[:k]...)
		p = p[k:]
	}
	b.end = append(b.end, p...)
	if len(b.end) > 32<<10 {
		b.end = append([]byte(nil), b.end[len(b.end)-16<<10:]...)
	}
	return n, nil
}

func (b *tail) String() string { return string(b.head) + string(b.end) }

// runProc runs a worker and watches it. progress may be "".
func runProc(bin string, args []string, progress string, cpuLimit time.Duration, stop *atomic.Bool, deadline time.Time) procResult {
	cmd := exec.Command(bin, args...)
	var so, se tail
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var r procResult
	runtime.LockOSThread() // Pdeathsig is tied to the starting thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		r.code, r.stderr = exitUse, err.Error()
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	pid := cmd.Process.Pid
	last := int64(-9)
	var cpu0 time.Duration
	tick := time.NewTicker(40 * time.Millisecond)
	defer tick.Stop()
	killed := false
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			if killed {
				continue
			}
			if (stop != nil && stop.Load()) || time.Now().After(deadline) {
				r.timeout = true
				killed = true
				cmd.Process.Kill()
				continue
			}
			c := cpuTime(pid)
			if progress != "" {
				if v := readProgress(progress); v != last {
					last, cpu0 = v, c
				}
			}
			limit := cpuLimit
			if last == -3 { // shrinking
				limit += 60 * time.Second
			}
			if c-cpu0 > limit {
				r.hang, killed = true, true
				cmd.Process.Kill()
			} else if rss(pid) > memLimit {
				r.memory, killed = true, true
				cmd.Process.Kill()
			}
		}
	}
	r.last = last
	if progress != "" {
		r.last = readProgress(progress)
	}
	r.stdout, r.stderr = so.String(), se.String()
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
			r.signal = r.code < 0
		} else {
			r.code = exitUse
			r.stderr += err.Error()
		}
	}
	return r
}

func crashKind(r procResult) (kind, msg string) {
	switch {
	case r.hang:
		return "hang", fmt.Sprintf("the case used over %v of CPU time", hangCPU)
	case r.memory:
		return "memory", fmt.Sprintf("the case used over %d MB of memory", memLimit>>20)
	case r.code == exitRace && strings.Contains(r.stderr, "DATA RACE"):
		return "race", "data race\n" + raceText(r.stderr)
	case r.code == 2 && (strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "goroutine ")):
		return "crash", crashText(r.stderr)
	}
	return "", ""
}

func raceText(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

func crashText(s string) string {
	for _, m := range []string{"fatal error:", "panic:"} {
		if i := strings.Index(s, m); i >= 0 {
			t := s[i:]
			l := strings.SplitN(t, "\n", 2)
			st := shortStack([]byte(t))
			return l[0] + "\n" + st
		}
	}
	l := strings.Split(s, "\n")
	if len(l) > 20 {
		l = l[:20]
	}
	return strings.Join(l, "\n")
}

type phaseResult struct {
	shardResult
	Distinct int
	WallS    float64
}

// Check runs the check of one property and returns the exit code.
func Check(cfg Config, id string) int {
	start := time.Now()
	p := registry[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	limit := wallLimit
	if cfg.Tier == "thorough" {
		limit = 6 * time.Hour
	}
	deadline := start.Add(limit)
	results := map[string]*phaseResult{}
	var order []string
	var viol *Replay
	phases := append([]Phase(nil), p.Phases...)
	if os.Getenv("VT_GUIDED_ONLY") != "" { // to try the guided phases on their own
		phases = nil
	}
	if cfg.CoverBin != "" {
		for i := range p.Phases {
			if g, ok := guidedOf(&p.Phases[i]); ok {
				phases = append(phases, g)
			}
		}
	}
	for i := range phases {
		ph := &phases[i]
		t0 := time.Now()
		pr, v, code := runPhase(cfg, p, ph, deadline)
		if code != 0 {
			return code
		}
		if pr != nil {
			pr.WallS = time.Since(t0).Seconds()
			results[ph.Name] = pr
			order = append(order, ph.Name)
		}
		if v != nil {
			viol = v
			break
		}
	}
	writeEvidence(cfg, p, order, results, viol, time.Since(start).Seconds())
	if viol != nil {
		path := filepath.Join(cfg.Verif, "replays", id+".json")
		os.MkdirAll(filepath.Dir(path), 0o755)
		writeJSON(path, viol)
		fmt.Printf("%s: %s (phase %s, case %d)\n", id, viol.Kind, viol.Phase, viol.Index)
		for _, l := range viol.Trace {
			fmt.Println("  " + l)
		}
		fmt.Println(viol.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	total, nt := 0, 0
	for _, r := range results {
		total += r.Evaluated
		nt += r.Distinct
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial) in %.1fs\n", id, total, nt, time.Since(start).Seconds())
	return 0
}

func (cfg Config) binFor(ph *Phase) string {
	if ph.Race {
		return cfg.RaceBin
	}
	if ph.Guided {
		return cfg.CoverBin
	}
	return cfg.Bin
}

func baseArgs(cfg Config, p *Prop, ph *Phase) []string {
	a := []string{"worker", "-prop", p.ID, "-phase", ph.Name, "-tier", cfg.Tier, "-seed", fmt.Sprint(cfg.Seed)}
	if hunting {
		a = append(a, "-shrink", "0")
	}
	return a
}

func runPhase(cfg Config, p *Prop, ph *Phase, deadline time.Time) (*phaseResult, *Replay, int) {
	n := ph.cases(cfg.Tier)
	workers := ph.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
		if ph.Procs > 1 {
			workers = max(1, workers/ph.Procs)
		}
	}
	if workers > n {
		workers = max(1, n)
	}
	dir, err := os.MkdirTemp(cfg.Scratch, p.ID+"-")
	if err != nil {
		fmt.Println(err)
		return nil, nil, 3
	}
	var stop atomic.Bool
	res := make([]procResult, workers)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := append(baseArgs(cfg, p, ph), "-n", fmt.Sprint(n), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(workers), "-out", dir)
			prog := filepath.Join(dir, fmt.Sprintf("%s-%d.progress", ph.Name, i))
			res[i] = runProc(cfg.binFor(ph), args, prog, hangCPU, &stop, deadline)
			res[i].shard = i
			if res[i].code != 0 || res[i].signal {
				stop.Store(true)
			}
		}()
	}
	wg.Wait()
	// an assertion that failed, the first by case number
	var best *Replay
	for i := range res {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%s-%d.fail", ph.Name, i)))
		if err != nil {
			continue
		}
		var r Replay
		if json.Unmarshal(b, &r) == nil && (best == nil || r.Index < best.Index) {
			best = &r
		}
	}
	if best != nil {
		if !ph.NoRerun {
			confirmReplay(cfg, p, ph, best, dir, deadline)
		}
		return nil, best, 0
	}
	for _, r := range res {
		if r.code == exitNA || ph.Sched && strings.Contains(r.stderr, "all goroutines are asleep") {
			fmt.Printf("note: phase %s of %s does not apply: %s\n", ph.Name, p.ID, r.stdout)
			return nil, nil, 0
		}
	}
	// a worker that died
	for _, r := range res {
		if r.code == 0 && !r.signal || (r.timeout && !r.hang && !r.memory) {
			continue
		}
		kind, msg := crashKind(r)
		if kind == "" || r.last < 0 {
			fmt.Printf("error: a worker of %s/%s ended with code %d (signal %v) at case %d\n%s\n", p.ID, ph.Name, r.code, r.signal, r.last, r.stderr)
			return nil, nil, 3
		}
		v := confirmCrash(cfg, p, ph, r, kind, msg, dir, deadline)
		if v == nil {
			fmt.Printf("error: a worker of %s/%s was lost at case %d (%s) and the case does not do it again\n%s\n", p.ID, ph.Name, r.last, kind, r.stderr)
			return nil, nil, 3
		}
		return nil, v, 0
	}
	for _, r := range res {
		if r.timeout {
			fmt.Printf("error: %s/%s did not end in time\n", p.ID, ph.Name)
			return nil, nil, 3
		}
	}
	// all well
	out := &phaseResult{shardResult: shardResult{Classes: map[string]int{}}}
	seen := map[uint64]struct{}{}
	for i := range res {
		base := filepath.Join(dir, fmt.Sprintf("%s-%d", ph.Name, i))
		var s shardResult
		b, err := os.ReadFile(base + ".json")
		if err != nil || json.Unmarshal(b, &s) != nil {
			fmt.Printf("error: no result of %s/%s shard %d\n", p.ID, ph.Name, i)
			return nil, nil, 3
		}
		out.Evaluated += s.Evaluated
		out.NonTrivial += s.NonTrivial
		out.Skipped += s.Skipped
		out.MaxChoices = max(out.MaxChoices, s.MaxChoices)
		for c, k := range s.Classes {
			out.Classes[c] += k
		}
		if len(out.Samples) < 3 {
			for _, x := range s.Samples {
				if len(out.Samples) < 3 {
					out.Samples = append(out.Samples, x)
				}
			}
		}
		h, err := os.ReadFile(base + ".hashes")
		if err != nil {
			fmt.Println(err)
			return nil, nil, 3
		}
		for len(h) >= 8 {
			seen[binary.LittleEndian.Uint64(h)] = struct{}{}
			h = h[8:]
		}
	}
	out.Distinct = len(seen)
	os.RemoveAll(dir)
	if out.Evaluated != n {
		fmt.Printf("error: %s/%s ran %d of %d cases\n", p.ID, ph.Name, out.Evaluated, n)
		return nil, nil, 3
	}
	return out, nil, 0
}

// confirmReplay re-runs the shrunk case, else the original one, in a fresh process and keeps what repeats.
func confirmReplay(cfg Config, p *Prop, ph *Phase, r *Replay, dir string, deadline time.Time) {
	path := filepath.Join(dir, "confirm.json")
	writeJSON(path, r)
	args := append(baseArgs(cfg, p, ph), "-replay", path, "-repeat", "1")
	x := runProc(cfg.binFor(ph), args, "", hangCPU, nil, deadline)
	if x.code == exitFail {
		return
	}
	r.Note = "the case failed in the worker; a re-run in a fresh process did not fail"
}

func confirmCrash(cfg Config, p *Prop, ph *Phase, r procResult, kind, msg, dir string, deadline time.Time) *Replay {
	v := &Replay{Property: p.ID, Phase: ph.base(), Seed: cfg.Seed, Tier: cfg.Tier, Index: uint64(r.last), Kind: kind, Message: msg}
	sdir := filepath.Join(dir, "single")
	os.MkdirAll(sdir, 0o755)
	args := append(baseArgs(cfg, p, ph), "-case", fmt.Sprint(r.last), "-out", sdir)
	if ph.Guided {
		args = append(args, "-pre", filepath.Join(dir, fmt.Sprintf("%s-%d.pre", ph.Name, r.shard)))
	}
	repeat := 1
	if ph.NoRerun {
		repeat = 300
	}
	args = append(args, "-repeat", fmt.Sprint(repeat))
	x := runProc(cfg.binFor(ph), args, "", hangCPU, nil, deadline)
	k, m := crashKind(x)
	v.Choices = trim(readChoices(filepath.Join(sdir, "choices")))
	v.Trace = readLines(filepath.Join(sdir, "trace"), 200)
	if k == "" && x.code != exitFail {
		if kind == "race" || (kind == "crash" && ph.NoRerun) {
			// a race report or a crash under concurrency is proof by itself
			v.Note = "seen once; the same schedule need not come up again"
			return v
		}
		return nil
	}
	if k != "" {
		v.Kind, v.Message = k, m
	} else {
		v.Message = x.stdout
	}
	if ph.NoRerun || k == "memory" || hunting {
		return v
	}
	limit := 5 * time.Second
	try := func(c []uint64) (bool, []uint64, []int) {
		path := filepath.Join(sdir, "try.json")
		t := *v
		t.Choices = c
		writeJSON(path, &t)
		a := append(baseArgs(cfg, p, ph), "-replay", path, "-out", sdir)
		x := runProc(cfg.binFor(ph), a, "", limit, nil, deadline)
		k, m := crashKind(x)
		if k == "" && x.code != exitFail {
			return false, nil, nil
		}
		if k != "" {
			v.Kind, v.Message = k, m
		} else {
			v.Kind, v.Message = "assertion", x.stdout
		}
		v.Trace = readLines(filepath.Join(sdir, "trace"), 200)
		return true, readChoices(filepath.Join(sdir, "choices")), nil
	}
	left := 150
	if k == "hang" {
		left = 8
	}
	s := &shrinker{best: v.Choices, try: try, left: left, deadline: time.Now().Add(45 * time.Second)}
	s.run()
	v.Choices, v.Shrunk = s.best, true
	return v
}

// ReplayFile runs a replay file and reports whether it fails.
func ReplayFile(cfg Config, path string) int {
	r, err := readReplay(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	p := registry[r.Property]
	if p == nil {
		fmt.Println("unknown property", r.Property)
		return 3
	}
	for i := range p.Phases {
		ph := &p.Phases[i]
		if ph.Name != r.Phase {
			continue
		}
		repeat := "1"
		if ph.NoRerun {
			repeat = "2000"
		}
		cfg.Tier, cfg.Seed = r.Tier, r.Seed
		x := runProc(cfg.binFor(ph), append(baseArgs(cfg, p, ph), "-replay", path, "-repeat", repeat), "", 10*hangCPU, nil, time.Now().Add(10*time.Minute))
		fmt.Print(x.stdout)
		k, m := crashKind(x)
		if k != "" {
			fmt.Println(m)
		}
		if k != "" || x.code == exitFail {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
			return 1
		}
		if x.code != 0 {
			fmt.Println(x.stderr)
			return 3
		}
		fmt.Println("the case passes")
		return 0
	}
	fmt.Println("unknown phase", r.Phase)
	return 3
}

func writeEvidence(cfg Config, p *Prop, order []string, res map[string]*phaseResult, viol *Replay, wall float64) {
	evals, dist := 0, 0
	samples := []any{}
	phases := map[string]any{}
	for _, name := range order {
		r := res[name]
		evals += r.Evaluated
		dist += r.Distinct
		k := 0
		for _, s := range r.Samples {
			if k < 2 || len(order) == 1 {
				samples = append(samples, s)
			}
			k++
		}
		var cl []string
		for c := range r.Classes {
			cl = append(cl, c)
		}
		sort.Strings(cl)
		classes := map[string]int{}
		for _, c := range cl {
			classes[c] = r.Classes[c]
		}
		phases[name] = map[string]any{"cases": r.Evaluated, "nontrivial": r.NonTrivial, "distinct_nontrivial": r.Distinct,
			"skipped": r.Skipped, "longest_case_choices": r.MaxChoices, "classes": classes, "wall_s": round(r.WallS)}
	}
	nv := 0
	if viol != nil {
		nv = 1
		evals += int(viol.Index) + 1
		samples = append(samples, map[string]any{"violation": viol.Message, "phase": viol.Phase, "case": viol.Index, "trace": viol.Trace})
	}
	ev := map[string]any{
		"property": p.ID, "tier": cfg.Tier, "seed": cfg.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": dist, "rule": p.Rule, "samples": samples, "phases": phases,
		},
		"assumptions": p.Assumptions, "wall_s": round(wall), "violations": nv,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	b = bytes.TrimSpace(b)
	dir := filepath.Join(cfg.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

// NeedsRace tells whether a property has a phase under the race detector.
func NeedsRace(id string) bool {
	p := registry[id]
	if p == nil {
		return false
	}
	for _, ph := range p.Phases {
		if ph.Race {
			return true
		}
	}
	return false
}
