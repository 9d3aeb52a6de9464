// Package vsim is the simulator that the instrumented takenoco sources call into.
//
// A run consists of tasks (goroutines) of which exactly one executes at any time.
// Control moves only at scheduling points: Y (before every statement of the code
// under test), blocking operations of vsync, simulated channels, Sleep, Stall and
// task ends.  Every choice comes from the run's PRNG or from an explicit list of
// preemptions, so a run is a pure function of (code, seed) or (code, trace).
//
// Outside a run (running == nil) all entry points do nothing or fall back to plain
// sequential behaviour.
package vsim

import (
	"fmt"
	"runtime"
	"sort"
	"time"
)

// ---- PRNG (splitmix64) -------------------------------------------------------

type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rand) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Chance(p float64) bool { return r.Float() < p }
func (r *Rand) Fork() *Rand           { return NewRand(r.U64()) }

func Mix(a ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range a {
		h ^= x
		r := Rand{h}
		h = r.U64()
	}
	return h
}

// ---- tasks -------------------------------------------------------------------

type state uint8

const (
	runnable state = iota
	blocked
	sleeping
	stalled
	done
)

func (s state) String() string {
	return [...]string{"runnable", "blocked", "sleeping", "stalled", "done"}[s]
}

type Task struct {
	ID       int
	Data     interface{} // owned by the harness
	Spawned  bool        // started by a go statement of the code under test
	Steps    int64
	Panic    interface{} // value of an uncaught panic
	Panicked bool
	Goexit   bool

	sim     *Sim
	wake    chan struct{}
	st      state
	why     string
	until   int64
	prio    int
	run     int64 // consecutive steps since it got control
	abort   bool
	forced  int64 // number of times it had to give up control
	onDone  interface{}
	waitKey interface{}
	site    int32
}

// Policy decides interleavings.  Kind: "seq" (never preempt), "rand" (preempt with
// probability P at each step), "pct" (random priorities, K change points within the
// first Len steps), "hot" (preempt with probability P at a random third of the
// sites, P/20 elsewhere), "rr" (preempt after every K steps), "site" (as "pct", but a
// task falls behind all others when it comes to one of the target sites - every site
// is one with probability 1/K - for the first or, as the seed says, a later time).
type Policy struct {
	Kind string
	P    float64
	K    int
	Len  int
}

// Preempt: when task Task has made Step steps of its own (Step > 0), or has to give
// up control for the -Step'th time (Step < 0), control goes to task To.  Task -1:
// start of the run.
type Preempt struct {
	Task int   `json:"task"`
	Step int64 `json:"step"`
	To   int   `json:"to"`
}

type Config struct {
	Seed     uint64
	Policy   Policy
	Replay   bool      // follow Trace only
	Trace    []Preempt // used when Replay
	MaxSteps int64
}

type pkey struct {
	task int
	step int64
}

type Sim struct {
	cfg            Config
	rng            *Rand
	aux            *Rand // for choices other than scheduling (map order, pool, rand)
	tasks          []*Task
	Steps          int64
	now            int64
	next           int64 // next step with a scheduling decision
	change         []int64
	replay         map[pkey]int
	Trace          []Preempt // preemptions that took place
	Hash           uint64    // of the sequence of (task, site) at switches
	Switches       int64
	aborting       bool
	doneCh         chan struct{}
	live           int
	Deadlock       string // description, if nothing could run
	Capped         bool
	Leaked         []string // spawned tasks that never ended
	BlockedByStall string
	Released       int // indefinite stalls released because nothing else could run
	locks          []interface{}
	StallJumps     int64
	maxPrio        int
	ending         bool
	target         []int8 // "site": 0 not known yet, 1 no, 2+n: at the n'th arrival
	fired          map[int64]int
}

var running *Task
var pendingGo []func()

const stepNs = 100

// Cur returns the running task or nil.
func Cur() *Task { return running }

func InRun() bool { return running != nil }

func (t *Task) Sim() *Sim { return t.sim }

// Run executes fns as tasks 0..n-1 and returns when all tasks have ended.
func Run(cfg Config, data []interface{}, fns []func()) *Sim {
	if running != nil {
		panic("vsim: nested Run")
	}
	s := &Sim{cfg: cfg, rng: NewRand(cfg.Seed), aux: NewRand(Mix(cfg.Seed, 77)), doneCh: make(chan struct{}, 1)}
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 300000
	}
	if cfg.Replay {
		s.replay = map[pkey]int{}
		for _, p := range cfg.Trace {
			s.replay[pkey{p.Task, p.Step}] = p.To
		}
	}
	switch cfg.Policy.Kind {
	case "pct":
		for i := 0; i < cfg.Policy.K; i++ {
			s.change = append(s.change, int64(s.rng.Intn(cfg.Policy.Len+1))+1)
		}
		sort.Slice(s.change, func(i, j int) bool { return s.change[i] < s.change[j] })
	}
	s.schedNext()
	for i, f := range fns {
		t := s.newTask(f)
		if i < len(data) {
			t.Data = data[i]
		}
	}
	for _, f := range pendingGo {
		s.newTask(f).Spawned = true
	}
	pendingGo = nil
	if len(s.tasks) == 0 {
		return s
	}
	first := s.tasks[0]
	if !cfg.Replay && cfg.Policy.Kind != "seq" {
		first = s.tasks[s.rng.Intn(len(s.tasks))]
		if s.byPrio() {
			first = s.best(nil)
		}
		if first.ID != 0 {
			s.Trace = append(s.Trace, Preempt{-1, 0, first.ID})
		}
	} else if cfg.Replay {
		if to, ok := s.replay[pkey{-1, 0}]; ok && to < len(s.tasks) {
			first = s.tasks[to]
			s.Trace = append(s.Trace, Preempt{-1, 0, to})
		}
	}
	s.handTo(first)
	raceOff()
	<-s.doneCh
	raceOn()
	raceAcquire(s)
	running = nil
	return s
}

func (s *Sim) newTask(f func()) *Task {
	t := &Task{ID: len(s.tasks), sim: s, wake: make(chan struct{}, 1)}
	t.prio = s.rng.Intn(1 << 20)
	s.tasks = append(s.tasks, t)
	s.live++
	go func() {
		raceOff()
		<-t.wake
		raceOn()
		normal := false
		defer func() {
			if !normal {
				r := recover()
				if r != nil {
					t.Panicked, t.Panic = true, r
				} else if !t.abort {
					t.Goexit = true
				}
			}
			t.finish()
		}()
		if t.abort {
			normal = true
			return
		}
		f()
		normal = true
	}()
	return t
}

// Tasks returns all tasks of the run.
func (s *Sim) Tasks() []*Task { return s.tasks }

func (t *Task) finish() {
	s := t.sim
	t.st = done
	s.live--
	raceRelease(s)
	raceOff()
	if t.onDone != nil {
		for _, o := range s.tasks {
			if o.st == blocked && o.waitKey == t.onDone {
				o.st = runnable
			}
		}
	}
	if s.live == 0 {
		running = nil
		s.doneCh <- struct{}{}
		raceOn()
		return
	}
	n := s.pickOther(t)
	running = n
	n.run = 0
	n.wake <- struct{}{}
	raceOn()
}

func (s *Sim) handTo(t *Task) {
	running = t
	t.run = 0
	raceOff()
	t.wake <- struct{}{}
	raceOn()
}

// switchTo parks the current task and runs n.
func (s *Sim) switchTo(cur, n *Task) {
	if n == cur {
		return
	}
	s.Switches++
	s.Hash = Mix(s.Hash, uint64(cur.ID)<<40|uint64(n.ID)<<32|uint64(uint32(cur.site)), uint64(cur.Steps))
	running = n
	n.run = 0
	raceOff()
	n.wake <- struct{}{}
	<-cur.wake
	raceOn()
	if cur.abort {
		cur.exitAbort()
	}
}

func (t *Task) exitAbort() {
	t.sim.ending = true
	runtime.Goexit()
}

func (s *Sim) runnables(except *Task) []*Task {
	var r []*Task
	for _, t := range s.tasks {
		if t != except && t.st == runnable {
			r = append(r, t)
		}
	}
	return r
}

func (s *Sim) best(except *Task) *Task {
	var b *Task
	for _, t := range s.tasks {
		if t != except && t.st == runnable && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

func (s *Sim) choose(except *Task) *Task {
	r := s.runnables(except)
	if len(r) == 0 {
		return nil
	}
	switch {
	case s.replay != nil || s.cfg.Policy.Kind == "seq" || s.cfg.Policy.Kind == "":
		return r[0]
	case s.byPrio():
		return s.best(except)
	}
	return r[s.rng.Intn(len(r))]
}

// pickOther selects a task to run when cur cannot go on.  It advances simulated
// time, releases indefinite stalls, and declares deadlock, in that order.
func (s *Sim) pickOther(cur *Task) *Task {
	cur.forced++
	fkey := -cur.forced
	for {
		if s.aborting {
			for _, t := range s.tasks {
				if t.st != done && t != cur {
					t.abort = true
					t.st = runnable
					return t
				}
			}
			// only cur is left and it is not done: it aborts itself
			cur.abort = true
			cur.st = runnable
			return cur
		}
		var n *Task
		if s.replay != nil {
			if to, ok := s.replay[pkey{cur.ID, fkey}]; ok && to < len(s.tasks) && s.tasks[to].st == runnable {
				n = s.tasks[to]
			}
		}
		if n == nil {
			n = s.choose(cur)
		}
		if n == nil && cur.st == runnable {
			return cur
		}
		if n != nil {
			if n != s.runnables(cur)[0] {
				s.Trace = append(s.Trace, Preempt{cur.ID, fkey, n.ID})
			}
			return n
		}
		// time
		var w *Task
		for _, t := range s.tasks {
			if t.st == sleeping && (w == nil || t.until < w.until) {
				w = t
			}
		}
		if w != nil {
			if w.until > s.now {
				s.StallJumps += w.until - s.now
				s.now = w.until
			}
			w.st = runnable
			continue
		}
		// indefinite stalls: faults stop here
		rel := false
		for _, t := range s.tasks {
			if t.st == stalled {
				for _, b := range s.tasks {
					if b.st == blocked && b.why != "child" && s.BlockedByStall == "" {
						s.BlockedByStall = fmt.Sprintf("task %d waits (%s) while task %d is stalled in a callback", b.ID, b.why, t.ID)
					}
				}
			}
		}
		for _, t := range s.tasks {
			if t.st == stalled {
				t.st = runnable
				s.Released++
				rel = true
			}
		}
		if rel {
			continue
		}
		// nothing can run any more
		onlySpawned := true
		desc := ""
		for _, t := range s.tasks {
			if t.st == done {
				continue
			}
			if !t.Spawned {
				onlySpawned = false
			}
			desc += fmt.Sprintf("task %d %s (%s); ", t.ID, t.st, t.why)
		}
		if onlySpawned {
			s.Leaked = append(s.Leaked, desc)
		} else {
			s.Deadlock = desc
		}
		s.aborting = true
	}
}

func (s *Sim) schedNext() {
	const never = int64(1) << 62
	s.next = never
	if s.replay != nil {
		s.next = 0
		return
	}
	switch s.cfg.Policy.Kind {
	case "rand":
		p := s.cfg.Policy.P
		n := int64(1)
		for !s.rng.Chance(p) && n < 1<<20 {
			n++
		}
		s.next = s.Steps + n
	case "rr":
		s.next = s.Steps + int64(s.cfg.Policy.K)
	case "hot", "site":
		s.next = 0
	case "pct":
		if len(s.change) > 0 {
			s.next = s.change[0]
		}
	}
}

const fairness = 20000

// Y is a scheduling point before the statement with number site.
func Y(site int32) {
	t := running
	if t == nil {
		return
	}
	s := t.sim
	t.Steps++
	t.run++
	t.site = site
	s.Steps++
	s.now += stepNs
	if s.Steps >= s.next || t.run > fairness || s.Steps > s.cfg.MaxSteps {
		s.decide(t, site)
	}
}

func (s *Sim) decide(t *Task, site int32) {
	if t.abort {
		return
	}
	if s.Steps > s.cfg.MaxSteps && !s.aborting {
		s.Capped = true
		s.aborting = true
	}
	if s.aborting {
		t.abort = true
		t.exitAbort()
	}
	s.wakeSleepers()
	if t.run > fairness {
		if n := s.choose(t); n != nil {
			s.preempt(t, n)
		} else {
			t.run = 0
		}
		return
	}
	if s.Steps < s.next {
		return
	}
	if s.replay != nil {
		if to, ok := s.replay[pkey{t.ID, t.Steps}]; ok && to < len(s.tasks) && s.tasks[to].st == runnable && s.tasks[to] != t {
			s.preempt(t, s.tasks[to])
		}
		return
	}
	var n *Task
	switch s.cfg.Policy.Kind {
	case "rand", "rr":
		n = s.choose(t)
	case "hot":
		p := s.cfg.Policy.P
		if Mix(s.cfg.Seed, uint64(site))%3 != 0 {
			p /= 20
		}
		if !s.rng.Chance(p) {
			return
		}
		n = s.choose(t)
	case "site":
		if s.atTarget(t, site) {
			t.prio = -int(s.Steps)
		}
		if b := s.best(nil); b != t {
			n = b
		}
	case "pct":
		for len(s.change) > 0 && s.change[0] <= s.Steps {
			s.change = s.change[1:]
			t.prio = -int(s.Steps)
		}
		if b := s.best(nil); b != t {
			n = b
		}
	}
	s.schedNext()
	if n != nil {
		s.preempt(t, n)
	}
}

func (s *Sim) byPrio() bool { return s.cfg.Policy.Kind == "pct" || s.cfg.Policy.Kind == "site" }

// atTarget: this arrival of t at site is one at which t falls behind.
func (s *Sim) atTarget(t *Task, site int32) bool {
	x := int(site) + 16 // the harness' own sites are negative
	if x >= len(s.target) {
		s.target = append(s.target, make([]int8, x+64-len(s.target))...)
	}
	k := s.target[x]
	if k == 0 {
		k = 1
		if h := Mix(s.cfg.Seed, 991, uint64(site)); h%uint64(s.cfg.Policy.K+1) == 0 {
			k = 2
			if h>>32%4 == 0 {
				k += int8(h >> 40 % 5)
			}
		}
		s.target[x] = k
	}
	if k == 1 {
		return false
	}
	if s.fired == nil {
		s.fired = map[int64]int{}
	}
	key := int64(t.ID)<<32 | int64(site)
	s.fired[key]++
	return s.fired[key] == int(k)-1
}

func (s *Sim) preempt(t, n *Task) {
	if n == t {
		return
	}
	s.Trace = append(s.Trace, Preempt{t.ID, t.Steps, n.ID})
	s.switchTo(t, n)
}

func (s *Sim) wakeSleepers() {
	for _, t := range s.tasks {
		if t.st == sleeping && t.until <= s.now {
			t.st = runnable
		}
	}
}

// Block parks the running task until Wake is called with the same key.
func Block(key interface{}, why string) {
	t := running
	if t == nil {
		panic("vsim: blocking operation would wait forever outside a run: " + why)
	}
	if t.abort {
		return
	}
	t.st, t.why, t.waitKey = blocked, why, key
	t.sim.away(t)
	t.waitKey = nil
}

func (s *Sim) away(t *Task) {
	n := s.pickOther(t)
	if n == t {
		if t.abort {
			t.exitAbort()
		}
		t.st = runnable
		return
	}
	s.switchTo(t, n)
}

// Wake makes every task blocked on key runnable.
func Wake(key interface{}) {
	t := running
	if t == nil {
		return
	}
	for _, o := range t.sim.tasks {
		if o.st == blocked && o.waitKey == key {
			o.st = runnable
		}
	}
}

// WakeOne makes the longest... lowest-numbered (or a random) task blocked on key runnable.
func WakeOne(key interface{}) {
	t := running
	if t == nil {
		return
	}
	var c []*Task
	for _, o := range t.sim.tasks {
		if o.st == blocked && o.waitKey == key {
			c = append(c, o)
		}
	}
	if len(c) > 0 {
		c[t.sim.aux.Intn(len(c))].st = runnable
	}
}

// Aborting reports whether the running task is being torn down.
func Aborting() bool { t := running; return t != nil && t.abort }

// Stall parks the running task for d simulated nanoseconds; d < 0 means until
// nothing else can run.
func Stall(d int64) {
	t := running
	if t == nil || t.abort {
		return
	}
	if d < 0 {
		t.st, t.why = stalled, "stalled"
	} else {
		t.st, t.why, t.until = sleeping, "sleeping", t.sim.now+d
	}
	t.sim.away(t)
}

// Gosched lets another task run.
func Gosched() {
	t := running
	if t == nil || t.abort {
		return
	}
	if n := t.sim.pickOther(t); n != t {
		t.sim.switchTo(t, n)
	}
}

// Go starts fn as a new task.
func Go(fn func()) {
	t := running
	if t == nil {
		pendingGo = append(pendingGo, fn)
		return
	}
	if t.abort {
		return
	}
	t.sim.newTask(fn).Spawned = true
}

// Child runs fn as a task of its own, with the caller's Data, and returns when it has
// ended; it returns the child so that the caller can see how it ended.
func Child(fn func()) *Task {
	t := running
	if t == nil || t.abort {
		return nil
	}
	c := t.sim.newTask(fn)
	c.Data = t.Data
	key := new(int)
	c.onDone = key
	for c.st != done && !t.abort {
		Block(key, "child")
	}
	raceAcquire(t.sim)
	return c
}

// ---- locks (bookkeeping for "nothing stays locked") -----------------------------

func NoteLocked(k interface{}, what string) {
	if t := running; t != nil {
		t.sim.locks = append(t.sim.locks, k)
	}
}

func NoteUnlocked(k interface{}) {
	if t := running; t != nil {
		for i, l := range t.sim.locks {
			if l == k {
				t.sim.locks[i] = nil
			}
		}
	}
}

func (s *Sim) Locked() int {
	n := 0
	for _, l := range s.locks {
		if l != nil {
			n++
		}
	}
	return n
}

// ---- time ----------------------------------------------------------------------

var epoch = time.Date(2021, 1, 2, 3, 4, 5, 0, time.UTC)

func Now() time.Time {
	if t := running; t != nil {
		return epoch.Add(time.Duration(t.sim.now))
	}
	return epoch
}
func Since(x time.Time) time.Duration { return Now().Sub(x) }
func Until(x time.Time) time.Duration { return x.Sub(Now()) }
func Sleep(d time.Duration) {
	if d < 0 {
		d = 0
	}
	Stall(int64(d))
}
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() { Sleep(d); Send(ch, Now()) })
	return ch
}

// SimTime is the simulated duration of the run in nanoseconds.
func (s *Sim) SimTime() int64 { return s.now }

// ---- other nondeterminism ------------------------------------------------------

var outside = NewRand(1)

// Aux returns the PRNG for choices of the code under test.
func Aux() *Rand {
	if t := running; t != nil {
		return t.sim.aux
	}
	return outside
}

// MapOrders counts ranges over maps of at least two keys.
var MapOrders int64

// MapOrder, if set, replaces the PRNG as the source of the order of map ranges.
var MapOrder *Rand

func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	MapOrders++
	strs := make(map[K]string, len(ks))
	for _, k := range ks {
		strs[k] = fmt.Sprintf("%T %v", k, k)
	}
	sort.Slice(ks, func(i, j int) bool { return strs[ks[i]] < strs[ks[j]] })
	r := MapOrder
	if r == nil {
		r = Aux()
	}
	for i := len(ks) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	return ks
}

// ---- resets --------------------------------------------------------------------

type resetFn struct {
	path string
	fn   func()
}

var resets []resetFn

// RegisterReset is called from package init functions, hence in dependency order.
func RegisterReset(path string, fn func()) { resets = append(resets, resetFn{path, fn}) }

// Reset restores the package-level state of all instrumented packages.
func Reset() {
	outside = NewRand(1)
	pendingGo = nil
	clear(chans)
	for _, r := range resets {
		r.fn()
	}
}
