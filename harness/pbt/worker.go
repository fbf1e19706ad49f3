package pbt

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

// exit codes of a worker
const (
	exitOK   = 0
	exitFail = 10
	exitUse  = 12
	exitNA   = 14 // the phase does not apply to the code as it is
	exitRace = 66
)

// Replay is a replay file.
type Replay struct {
	Property string   `json:"property"`
	Phase    string   `json:"phase"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Index    uint64   `json:"index"`
	Kind     string   `json:"kind"` // assertion, crash, hang, memory or race
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	Choices  []uint64 `json:"choices"`
	Shrunk   bool     `json:"shrunk"`
	Note     string   `json:"note,omitempty"`
}

type shardResult struct {
	Evaluated  int            `json:"evaluated"`
	NonTrivial int            `json:"nontrivial"`
	Skipped    int            `json:"skipped"`
	Classes    map[string]int `json:"classes"`
	Samples    []sample       `json:"samples"`
	MaxChoices int            `json:"max_choices"`
}

type sample struct {
	Index uint64   `json:"case"`
	Phase string   `json:"phase"`
	Trace []string `json:"trace"`
}

// runOne runs one case; Clock phases get their own bubble.
func runOne(ph *Phase, t *T) (o outcome) {
	if !ph.Clock {
		return runCase(t, ph.Run)
	}
	inBubble(func() { o = runCase(t, ph.Run) })
	return o
}

var bubbleT *testing.T

func inBubble(f func()) {
	synctest.Test(bubbleT, func(*testing.T) { f() })
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "write:", err)
		os.Exit(exitUse)
	}
	if err := os.Rename(tmp, path); err != nil {
		fmt.Fprintln(os.Stderr, "rename:", err)
		os.Exit(exitUse)
	}
}

// Worker is the entry point of a child process.
func Worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	phase := fs.String("phase", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Uint64("n", 0, "")
	shard := fs.Uint64("shard", 0, "")
	shards := fs.Uint64("shards", 1, "")
	out := fs.String("out", "", "")
	single := fs.Int64("case", -1, "")
	replay := fs.String("replay", "", "")
	shrink := fs.Int("shrink", 3000, "")
	repeat := fs.Int("repeat", 1, "")
	pre := fs.String("pre", "", "")
	fs.Parse(args)
	p := registry[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(exitUse)
	}
	var ph *Phase
	for i := range p.Phases {
		if p.Phases[i].Name == *phase {
			ph = &p.Phases[i]
		}
	}
	for i := range p.Phases {
		if g, ok := guidedOf(&p.Phases[i]); ok && g.Name == *phase {
			ph = &g
		}
	}
	if ph == nil {
		fmt.Fprintln(os.Stderr, "unknown phase", *phase)
		os.Exit(exitUse)
	}
	procs := ph.Procs
	if procs == 0 {
		procs = 1
	}
	runtime.GOMAXPROCS(procs)
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(200)
	w := &worker{p: p, ph: ph, tier: *tier, seed: *seed, n: *n, shard: *shard, shards: *shards, out: *out, shrinkRuns: *shrink}
	main := func() int {
		switch {
		case *replay != "":
			return w.replayFile(*replay, *repeat)
		case *single >= 0:
			return w.single(uint64(*single), *repeat, *pre)
		case ph.Guided:
			return w.guided()
		default:
			return w.loop()
		}
	}
	if !ph.Clock {
		os.Exit(main())
	}
	code := exitUse
	os.Args = []string{os.Args[0], "-test.run=^Bubble$", "-test.count=1", "-test.timeout=0"}
	testing.Init()
	flag.CommandLine.Parse(os.Args[1:])
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "Bubble", F: func(t *testing.T) {
			bubbleT = t
			code = main()
			os.Exit(code)
		}}}, nil, nil)
	os.Exit(code)
}

// NotApplicable ends the worker: its phase cannot deal with the code as it is.
func NotApplicable(why string) {
	fmt.Println(why)
	os.Exit(exitNA)
}

type worker struct {
	p          *Prop
	ph         *Phase
	tier       string
	seed       uint64
	n          uint64
	shard      uint64
	shards     uint64
	out        string
	shrinkRuns int
	progress   *os.File
}

func (w *worker) newT(index uint64) *T {
	return &T{rnd: NewRng(caseSeed(w.seed, w.p.ID, w.ph.Name, index)), index: index, thorough: w.tier == "thorough"}
}

func (w *worker) mark(v int64) {
	if w.progress != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(v))
		w.progress.WriteAt(b[:], 0)
	}
}

func (w *worker) loop() int {
	base := filepath.Join(w.out, fmt.Sprintf("%s-%d", w.ph.Name, w.shard))
	f, err := os.OpenFile(base+".progress", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUse
	}
	w.progress = f
	w.mark(-1)
	res := shardResult{Classes: map[string]int{}}
	var hashes []byte
	for i := w.shard; i < w.n; i += w.shards {
		w.mark(int64(i))
		o := runOne(w.ph, w.newT(i))
		res.Evaluated++
		if o.failed {
			w.fail(base, i, o)
			return exitFail
		}
		if o.skipped {
			res.Skipped++
			continue
		}
		if len(o.rec) > res.MaxChoices {
			res.MaxChoices = len(o.rec)
		}
		for _, c := range o.classes {
			res.Classes[c]++
		}
		if o.nontriv {
			res.NonTrivial++
			h := uint64(14695981039346656037)
			for _, c := range o.rec {
				h = mix(h, c)
			}
			hashes = binary.LittleEndian.AppendUint64(hashes, h)
			// keep a few short and a few typical cases as samples
			if len(res.Samples) < 1 || (len(res.Samples) < 3 && res.NonTrivial%17 == 0) {
				t := w.newT(i)
				t.tracing = true
				if o2 := runOne(w.ph, t); !o2.failed {
					tr := o2.trace
					if len(tr) > 25 {
						tr = append(append([]string(nil), tr[:25]...), fmt.Sprintf("... %d more lines", len(o2.trace)-25))
					}
					res.Samples = append(res.Samples, sample{i, w.ph.Name, tr})
				}
			}
		}
	}
	w.mark(-2)
	if err := os.WriteFile(base+".hashes", hashes, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUse
	}
	writeJSON(base+".json", res)
	return exitOK
}

func (w *worker) replayOf(index uint64, o outcome) Replay {
	return Replay{Property: w.p.ID, Phase: w.ph.base(), Seed: w.seed, Tier: w.tier, Index: index, Kind: "assertion",
		Message: o.msg, Trace: o.trace, Choices: trim(o.rec)}
}

func (w *worker) fail(base string, index uint64, o outcome) {
	w.mark(-3)
	t := w.newT(index)
	if w.ph.Guided {
		t = &T{pre: o.rec, index: index, thorough: t.thorough}
	}
	t.tracing = true
	if !w.ph.NoRerun {
		if o2 := runOne(w.ph, t); o2.failed {
			o = o2
		}
	}
	r := w.replayOf(index, o)
	writeJSON(base+".fail", r)
	if w.ph.NoRerun {
		return
	}
	run := func(c []uint64) (bool, []uint64, []int) {
		o := runOne(w.ph, &T{pre: c, thorough: w.tier == "thorough"})
		return o.failed, o.rec, o.spans
	}
	s := &shrinker{best: r.Choices, spans: o.spans, try: run, left: w.shrinkRuns, deadline: time.Now().Add(20 * time.Second)}
	s.run()
	t = &T{pre: s.best, tracing: true, thorough: w.tier == "thorough"}
	if o := runOne(w.ph, t); o.failed {
		r.Choices, r.Message, r.Trace, r.Shrunk = s.best, o.msg, o.trace, true
		writeJSON(base+".fail", r)
	}
}

// single runs one generated case, logging choices and trace as they happen.
func (w *worker) single(index uint64, repeat int, pre string) int {
	for i := 0; i < repeat; i++ {
		t := w.newT(index)
		if w.ph.Guided {
			t.pre, t.steer = readPre(pre), true
		}
		t.tracing = true
		if w.out != "" {
			t.choiceF, _ = os.Create(filepath.Join(w.out, "choices"))
			t.traceF, _ = os.Create(filepath.Join(w.out, "trace"))
		}
		o := runOne(w.ph, t)
		if o.failed {
			fmt.Println(o.msg)
			return exitFail
		}
	}
	return exitOK
}

func readReplay(path string) (Replay, error) {
	var r Replay
	b, err := os.ReadFile(path)
	if err != nil {
		return r, err
	}
	return r, json.Unmarshal(b, &r)
}

func (w *worker) replayFile(path string, repeat int) int {
	r, err := readReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUse
	}
	for i := 0; i < repeat; i++ {
		t := &T{pre: r.Choices, tracing: true, thorough: r.Tier == "thorough"}
		if w.out != "" {
			t.choiceF, _ = os.Create(filepath.Join(w.out, "choices"))
			t.traceF, _ = os.Create(filepath.Join(w.out, "trace"))
		}
		o := runOne(w.ph, t)
		if o.failed {
			for _, l := range o.trace {
				fmt.Println("  " + l)
			}
			fmt.Println(o.msg)
			return exitFail
		}
		if i == 0 && repeat == 1 && w.out == "" {
			for _, l := range o.trace {
				fmt.Println("  " + l)
			}
		}
	}
	return exitOK
}

func readChoices(path string) []uint64 {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var c []uint64
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		v, err := strconv.ParseUint(sc.Text(), 10, 64)
		if err != nil {
			break
		}
		c = append(c, v)
	}
	return c
}

func readLines(path string, max int) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	l := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
	if len(l) > max {
		l = append(append(l[:max/2:max/2], "..."), l[len(l)-max/2:]...)
	}
	return l
}
