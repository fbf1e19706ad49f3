package props

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"verifharness/pbt"
)

// ccall is one call of a concurrent history.
type ccall struct {
	op       *cop
	inv, res int // when it started and ended; comparable across threads
	out      string
	note     string // the panic, if any
	done     bool
}

// cop is an operation of a history: the real call and what it does to the model.
// Results are compared as strings; a panic is the result "panic".
type cop struct {
	name string
	run  func() string
	step func(st []int) ([]int, string) // must not modify st
}

// runner runs threads of operations and fills in their records.
type runner interface {
	run(threads [][]*ccall)
	yield() // called from callbacks
}

func (r *ccall) exec() {
	r.out = "?"
	defer func() {
		if p := recover(); p != nil {
			r.out, r.note = "panic", fmt.Sprint(p)
		}
		r.done = true
	}()
	r.out = r.op.run()
}

// ---- a scheduler that runs one goroutine at a time and decides at every lock
// operation and callback who runs next

const (
	opLock = iota
	opUnlock
	opRLock
	opRUnlock
	opTryLock
	opTryRLock
	opMutexUnlock // no point to switch at, as sync.Pool calls it where it must not wait
)

type vthread struct {
	id    int
	wake  chan struct{}
	ready func() bool // nil: not blocked
	what  string
	done  bool
}

type vlock struct {
	announced bool // a writer holds it or waits for the readers to leave
	active    bool
	readers   int
	blocked   []*bool // readers waiting for the writer
}

type sched struct {
	t      *T
	ths    []*vthread
	cur    *vthread
	locks  map[unsafe.Pointer]*vlock
	clock  int
	over   chan struct{}
	fatal  any
	stick  int // 1 in stick points switches
	points int
	dead   bool
	busy   bool // deciding
}

func newSched(t *T) *sched {
	return &sched{t: t, locks: map[unsafe.Pointer]*vlock{}, stick: []int{1, 2, 4, 10}[t.IntN(4)]}
}

// pass gives the turn to another thread; the caller may go on when it returns.
func (s *sched) pass(me *vthread) {
	var run []*vthread
	for i := range s.ths { // me first
		th := s.ths[(me.id+i)%len(s.ths)]
		if !th.done && (th.ready == nil || th.ready()) {
			run = append(run, th)
		}
	}
	if len(run) == 0 {
		if !me.done || s.left() > 0 {
			if s.fatal == nil {
				var b strings.Builder
				for _, th := range s.ths {
					if !th.done {
						fmt.Fprintf(&b, "; thread %d waits in %s", th.id, th.what)
					}
				}
				s.fatal = "deadlock" + b.String()
			}
		}
		s.stop()
		if !me.done {
			runtime.Goexit()
		}
		return
	}
	next := run[0]
	if len(run) > 1 {
		s.busy = true
		if next != me {
			next = run[s.t.IntN(len(run))]
		} else if s.t.Bool(1, s.stick) {
			next = run[1+s.t.IntN(len(run)-1)]
		}
		s.busy = false
	}
	s.points++
	if s.points > 200000 {
		s.fatal = "runaway: over 200000 switching points in one history"
		s.stop()
		runtime.Goexit()
	}
	next.ready = nil
	if next == me {
		return
	}
	s.cur = next
	next.wake <- struct{}{}
	if !me.done {
		select {
		case <-me.wake:
		case <-s.over: // another thread stopped the history while this one waited
			runtime.Goexit()
		}
	}
}

// stop ends the history; the threads leave without doing anything more.
func (s *sched) stop() {
	if !s.dead {
		s.dead = true
		close(s.over)
	}
}

func (s *sched) left() (n int) {
	for _, th := range s.ths {
		if !th.done {
			n++
		}
	}
	return
}

func (s *sched) yield() {
	if s.cur != nil && !s.dead {
		s.pass(s.cur)
	}
}

func (s *sched) wait(what string, ready func() bool) {
	me := s.cur
	me.what = what
	if ready() {
		return
	}
	me.ready = ready
	s.pass(me)
	me.ready = nil
}

// hook stands in for an operation of a sync.RWMutex or sync.Mutex. It follows the
// waiting rules of the real RWMutex: a waiting writer keeps new readers out. For a
// failing try it returns false, and then true when asked with p nil.
func (s *sched) hook(p unsafe.Pointer, op int) bool {
	if p == nil {
		return s.cur != nil && !s.busy
	}
	if s.dead {
		return true // deferred unlocks of threads that are leaving
	}
	if s.cur == nil || s.busy {
		return false
	}
	l := s.locks[p]
	if l == nil {
		l = &vlock{}
		s.locks[p] = l
	}
	switch op {
	case opLock:
		s.yield()
		s.wait("Lock", func() bool { return !l.announced })
		l.announced = true
		s.wait("Lock", func() bool { return l.readers == 0 })
		l.active = true
	case opRLock:
		s.yield()
		if !l.announced {
			l.readers++
			break
		}
		granted := false
		l.blocked = append(l.blocked, &granted)
		s.wait("RLock", func() bool { return granted })
	case opTryLock:
		s.yield()
		if l.announced || l.readers > 0 {
			return false
		}
		l.announced, l.active = true, true
	case opTryRLock:
		s.yield()
		if l.announced {
			return false
		}
		l.readers++
	case opUnlock, opMutexUnlock:
		if !l.active {
			panic(schedError{"Unlock of an unlocked lock"})
		}
		l.announced, l.active = false, false
		for _, g := range l.blocked {
			*g = true
			l.readers++
		}
		l.blocked = nil
		if op == opUnlock {
			s.yield()
		}
	case opRUnlock:
		if l.readers == 0 {
			panic(schedError{"RUnlock of an unlocked lock"})
		}
		l.readers--
		s.yield()
	}
	return true
}

type schedError struct{ msg string }

func (s *sched) run(threads [][]*ccall) {
	s.ths = nil
	s.over = make(chan struct{})
	s.dead, s.fatal = false, nil
	var left sync.WaitGroup
	for i, recs := range threads {
		th := &vthread{id: i, wake: make(chan struct{}, 1)}
		s.ths = append(s.ths, th)
		left.Add(1)
		go func() {
			defer left.Done()
			select {
			case <-th.wake:
			case <-s.over:
				return
			}
			defer func() {
				p := recover()
				if s.dead {
					return
				}
				th.done = true
				if p != nil {
					s.fatal = p
					s.stop()
					return
				}
				s.pass(th)
			}()
			for _, r := range recs {
				s.yield()
				s.clock++
				r.inv = s.clock
				s.call(r)
				s.clock++
				r.res = s.clock
			}
		}()
	}
	setLockHook(s.hook)
	first := s.ths[s.t.IntN(len(s.ths))]
	s.cur = first
	first.wake <- struct{}{}
	timer := time.NewTimer(20 * time.Second)
	select {
	case <-s.over:
		timer.Stop()
		left.Wait()
	case <-timer.C:
		// it blocks in something that is not a lock of package sync: not for this scheduler
		setLockHook(nil)
		pbt.NotApplicable("the code waits for something that is not a lock of package sync")
	}
	s.cur = nil
	setLockHook(nil)
	switch p := s.fatal.(type) {
	case nil:
	case string:
		s.t.Failf("%s", p)
	case schedError:
		s.t.Failf("fatal: %s", p.msg)
	default:
		panic(p)
	}
}

// call executes r, letting errors of the scheduler and failed assertions through.
func (s *sched) call(r *ccall) {
	r.out = "?"
	defer func() {
		switch p := recover().(type) {
		case nil:
		case schedError:
			panic(p)
		case error, string:
			r.out, r.note = "panic", fmt.Sprint(p)
		default:
			if strings.HasPrefix(fmt.Sprintf("%T", p), "pbt.") {
				panic(p)
			}
			r.out, r.note = "panic", fmt.Sprint(p)
		}
		r.done = true
	}()
	r.out = r.op.run()
}

// ---- free running goroutines

type free struct {
	t     *T
	stamp bool // take time stamps (they order the threads' memory accesses, so not under the race detector)
	clock atomic.Int64
	gosch uint32
}

func (f *free) yield() {
	if f.gosch > 0 && rand.Uint32()%f.gosch == 0 {
		runtime.Gosched()
	}
}

func (f *free) run(threads [][]*ccall) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	f.clock.Add(1)
	for _, recs := range threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, r := range recs {
				if f.stamp {
					r.inv = int(f.clock.Add(1))
				}
				r.exec()
				if f.stamp {
					r.res = int(f.clock.Add(1))
				}
			}
		}()
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	if !f.stamp {
		lo := int(f.clock.Load())
		for _, recs := range threads {
			for _, r := range recs {
				r.inv, r.res = lo, math.MaxInt
			}
		}
	}
	setLockYield(f.gosch > 0)
	close(start)
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	for {
		select {
		case <-all:
			setLockYield(false)
			if !f.stamp {
				f.clock.Add(2)
				hi := int(f.clock.Load())
				for _, recs := range threads {
					for _, r := range recs {
						r.res = hi
					}
				}
			}
			return
		case <-tick.C:
			if d := blockedForGood(); d != "" {
				f.t.Failf("deadlock: all calls in progress wait for a lock\n%s", d)
			}
		}
	}
}

// blockedForGood returns the stacks of the threads if all that are left wait for locks.
func blockedForGood() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "props.(*free).run") || strings.Contains(g, "props.blockedForGood") {
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		if !strings.Contains(head, "[sync.") && !strings.Contains(head, "[semacquire") && !strings.Contains(head, "[chan") && !strings.Contains(head, "[select") {
			return ""
		}
		if strings.Contains(g, ".exec(") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

// ---- linearizability

const searchNodes = 100_000

// linearizable searches an order of the calls that respects real time and the model (Wing and Gong).
// A search that grows too large is given up as undecided.
func linearizable(threads [][]*ccall, init []int) (ok, decided bool) {
	left := searchNodes
	type node struct {
		pos string
		st  string
	}
	seen := map[node]bool{}
	pos := make([]byte, len(threads))
	enc := func(st []int) string {
		b := make([]byte, 0, len(st)*2)
		for _, v := range st {
			for ; v >= 128 || v < 0; v = int(uint(v) >> 7) {
				b = append(b, byte(v)|128)
			}
			b = append(b, byte(v))
		}
		return string(b)
	}
	var dfs func(st []int) bool
	dfs = func(st []int) bool {
		n := node{string(pos), enc(st)}
		if seen[n] {
			return false
		}
		if left--; left < 0 {
			return true
		}
		seen[n] = true
		minRes, more := math.MaxInt, false
		for i, th := range threads {
			if int(pos[i]) < len(th) {
				more = true
				minRes = min(minRes, th[pos[i]].res)
			}
		}
		if !more {
			return true
		}
		for i, th := range threads {
			if int(pos[i]) >= len(th) {
				continue
			}
			r := th[pos[i]]
			if r.inv > minRes {
				continue
			}
			next, out := r.op.step(st)
			if out != r.out {
				continue
			}
			pos[i]++
			if dfs(next) {
				return true
			}
			pos[i]--
		}
		return false
	}
	ok = dfs(init)
	return ok, left >= 0
}

// history shows the calls in the order of their start.
func history(threads [][]*ccall) string {
	var b strings.Builder
	for i, th := range threads {
		for _, r := range th {
			fmt.Fprintf(&b, "\n  thread %d [%d, %d] %s = %s", i, r.inv, r.res, r.op.name, r.out)
			if r.note != "" {
				fmt.Fprintf(&b, " (%s)", r.note)
			}
		}
	}
	return b.String()
}

// trial runs threads of operations, checks their results against the model and returns
// whether calls of different threads overlapped.
func trial(t *T, r runner, init []int, threads [][]*cop, final []*cop) (overlap bool) {
	mk := func(ops []*cop) (out []*ccall) {
		for _, o := range ops {
			out = append(out, &ccall{op: o})
		}
		return
	}
	var all [][]*ccall
	for _, ops := range threads {
		all = append(all, mk(ops))
	}
	r.run(all)
	// the contents afterwards, through the same locks
	last := [][]*ccall{mk(final)}
	r.run(last)
	hist := make([][]*ccall, len(all)+1)
	copy(hist, all)
	hist[len(all)] = last[0]
	for i, a := range all {
		for _, b := range all[i+1:] {
			for _, x := range a {
				for _, y := range b {
					overlap = overlap || x.inv < y.res && y.inv < x.res
				}
			}
		}
	}
	if t.Tracing() {
		t.Log("history:%s", history(hist))
	}
	ok, decided := linearizable(hist, init)
	t.ClassIf(!decided, "search given up")
	if !ok {
		t.Failf("no sequential order of the calls explains these results (from the model state %v):%s", init, history(hist))
	}
	return overlap
}
