// Package rt is the simulator runtime: one seeded scheduler decides, at every
// scheduling point of the instrumented library and of the harness, which task
// runs next.  Tasks are real goroutines, but exactly one of them is ever
// released; all others are parked.  Everything a run does is a function of its
// configuration (which contains the seed or an explicit decision list).
package rt

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"unsafe"
)

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) P(num, den int) bool { return r.Intn(den) < num }

// Mix derives a new seed.
func Mix(a, b uint64) uint64 {
	r := Rng{s: a ^ (b+0x9e3779b97f4a7c15)*0xff51afd7ed558ccd}
	r.U64()
	return r.U64()
}

// Decision is one scheduling decision which differs from the default (go on
// with the current task; after a block: the lowest numbered runnable task).
type Decision struct {
	T  string `json:"t"`  // deciding task
	Op int    `json:"op"` // index of the operation it executes
	K  string `json:"k"`  // y: at a scheduling point, b: when blocking or ending
	At int64  `json:"at"` // index of the point within the operation
	To string `json:"to"` // task which runs next
}

// Policy says how decisions are made.
type Policy struct {
	Kind  string     `json:"kind"`            // rand, pct, rr, block, replay
	Gap   int        `json:"gap,omitempty"`   // mean gap of preemptions (rand), period (rr)
	Depth int        `json:"depth,omitempty"` // change points (pct)
	Len   int        `json:"len,omitempty"`   // estimated run length (pct)
	Seed  uint64     `json:"seed"`
	List  []Decision `json:"list,omitempty"` // replay
}

const never = int64(1) << 62

// fair is the number of steps of one task in one operation after which another
// task always gets a turn.
const fair = 20000

type state uint8

const (
	stRunnable state = iota
	stBlocked
	stDone
)

// Task is a simulated thread or a goroutine started by the library.
type Task struct {
	ID   int
	Name string
	Tag  int // stream or operation the task was started for
	Lib  bool

	wake  chan struct{}
	st    state
	grp   int
	Op    int
	spawn int
	blk   int64
	y     int64
	alarm int64
	pre   int64
	kill  int64
	cap   int64
	pause int64
	prio  int64
	unw   bool // unwinding because of an injected abort
	dying bool // unwinding because the run is over
	pos   []int64
	fired bool

	wval  any
	wok   bool
	Total int64
	site  uint32
}

// Sentinels.
type killed struct{}
type dead struct{}
type capHit struct{ steps int64 }
type obsStuck struct{}

// Killed is the value an injected abort panics with.
var Killed any = killed{}

func IsKilled(v any) bool   { _, ok := v.(killed); return ok }
func IsDead(v any) bool     { _, ok := v.(dead); return ok }
func IsCap(v any) bool      { _, ok := v.(capHit); return ok }
func IsObsStuck(v any) bool { _, ok := v.(obsStuck); return ok }

// Stats of a run.
type Stats struct {
	Steps     int64
	Switches  int64
	Blocks    int64
	Spawned   int
	Kills     int
	Pauses    int
	Hash      uint64
	ChanOps   int64
	Decisions int
	Jumps     int
	SimNanos  int64
}

// Crash is an unexpected panic of a library goroutine.
type Crash struct {
	Task  string
	Value string
	Stack string
}

type Sim struct {
	pol   Policy
	rng   *Rng
	env   *Rng
	tasks []*Task // not ended, in order of creation
	nid   int
	main  chan struct{}
	grp   int
	grps  int
	steps int64
	chg   []int64
	low   int64

	replay map[string]string
	posOf  map[string][]int64

	Rec   []Decision
	St    Stats
	Crash *Crash
	Stuck bool // no task runnable while some are blocked

	chans  []*shchan
	table  []*shchan
	nch    int
	joinHB byte

	over    bool
	dying   bool
	abort   bool
	opCap   int64
	libCap  int64
	obsCap  int64
	hook    func(t *Task) // called at scheduling points chosen by HookAt
	hookAt  int64
	Capped  bool
	mutexes []interface{ reset() }
	timers  []*Timer
	jumped  int64 // simulated nanoseconds added by jumps of the clock
	ntimer  int64
	wakeSet bool
	record  bool
}

var (
	cur *Task
	sim *Sim
	// Cover marks the scheduling points reached in this process.
	Cover [1 << 16]uint8
)

// Cur is the running task or nil outside of a simulation.
func Cur() *Task { return cur }

// Env returns the simulator's environment randomness (for shims), or nil.
func Env() *Rng {
	if sim == nil {
		return nil
	}
	return sim.env
}

// Y is the scheduling point put before each statement.
func Y(site uint32) {
	t := cur
	if t == nil {
		return
	}
	t.y++
	Cover[site] = 1
	if t.y < t.alarm {
		return
	}
	slow(t, site)
}

// Point is a scheduling point in harness code.
func Point() { Y(0) }

func slow(t *Task, site uint32) {
	s := sim
	t.site = site
	if t.dying || t.unw {
		return
	}
	if s.dying {
		t.dying = true
		panic(dead{})
	}
	if s.abort {
		t.dying = true
		panic(dead{})
	}
	if t.y >= t.cap {
		s.Capped = true
		t.alarm = never
		t.cap = never
		t.unw = true
		panic(capHit{t.y})
	}
	if t.y >= t.kill {
		t.kill = never
		t.fired = true
		s.St.Kills++
		t.unw = true
		panic(killed{})
	}
	if s.grp != 0 {
		t.setAlarm()
		return
	}
	if s.hook != nil && t.y >= s.hookNext(t) {
		h := s.hook
		s.hookAt = never
		h(t)
	}
	if t.y >= t.pre {
		s.fireDue(t)
		if t.y%fair == 0 {
			// Rule, not a decision: nobody runs on for ever.
			to := s.nextAfter(t)
			s.nextPre(t)
			t.setAlarm()
			if to != nil && to != t {
				s.switchTo(t, to)
			}
			return
		}
		to := s.choosePre(t)
		s.nextPre(t)
		t.setAlarm()
		if to != nil && to != t {
			if s.record {
				s.Rec = append(s.Rec, Decision{t.Name, t.Op, "y", t.y, to.Name})
			}
			s.switchTo(t, to)
		}
		return
	}
	t.setAlarm()
}

func (s *Sim) hookNext(t *Task) int64 {
	if s.hookAt == never {
		return never
	}
	// hookAt counts global steps; convert to the local counter of the task.
	return t.y - (s.now(t) - s.hookAt)
}

// now is the number of steps all tasks have made.
func (s *Sim) now(t *Task) int64 { return s.steps + t.y - t.Total }

func (t *Task) setAlarm() {
	a := t.pre
	if t.kill < a {
		a = t.kill
	}
	if t.cap < a {
		a = t.cap
	}
	if s := sim; s != nil && s.hookAt != never && s.grp == 0 {
		h := s.hookNext(t)
		if h < a {
			a = h
		}
	}
	if a <= t.y {
		a = t.y + 1
	}
	t.alarm = a
}

// flush accounts the steps of the running task.
func (s *Sim) flush(t *Task) {
	s.steps += t.y - t.Total
	t.Total = t.y
}

func (s *Sim) nextPre(t *Task) {
	switch s.pol.Kind {
	case "rand":
		t.pre = t.y + 1 + int64(s.rng.Intn(2*s.pol.Gap))
	case "rr":
		t.pre = t.y + int64(s.pol.Gap)
	case "pct":
		n := s.now(t)
		t.pre = never
		for _, c := range s.chg {
			if c > n {
				t.pre = t.y + (c - n)
				break
			}
		}
	case "replay":
		t.pre = never
		for len(t.pos) > 0 && t.pos[0] <= t.y {
			t.pos = t.pos[1:]
		}
		if len(t.pos) > 0 {
			t.pre = t.pos[0]
		}
	default:
		t.pre = never
	}
	if f := (t.y/fair + 1) * fair; f < t.pre {
		t.pre = f
	}
}

func key(t *Task, k string, at int64) string {
	return t.Name + "|" + strconv.Itoa(t.Op) + "|" + k + "|" + strconv.FormatInt(at, 10)
}

func (s *Sim) ok(t *Task) bool {
	return t.st == stRunnable && (s.grp == 0 || t.grp == s.grp)
}

func (s *Sim) choosePre(t *Task) *Task {
	if t.st == stDone {
		return nil
	}
	switch s.pol.Kind {
	case "rand":
		return s.pick()
	case "rr":
		return s.nextAfter(t)
	case "pct":
		s.low--
		t.prio = s.low
		return s.pickPrio()
	case "replay":
		if to, ok := s.replay[key(t, "y", t.y)]; ok {
			for _, x := range s.tasks {
				if x.Name == to && s.ok(x) {
					return x
				}
			}
		}
	}
	return nil
}

func (s *Sim) paused(t *Task) bool { return t.pause > s.steps }

// pick chooses uniformly among runnable tasks which are not paused.
func (s *Sim) pick() *Task {
	n := 0
	for pass := 0; pass < 2; pass++ {
		n = 0
		for _, t := range s.tasks {
			if s.ok(t) && (pass == 1 || !s.paused(t)) {
				n++
			}
		}
		if n > 0 {
			k := s.rng.Intn(n)
			for _, t := range s.tasks {
				if s.ok(t) && (pass == 1 || !s.paused(t)) {
					if k == 0 {
						return t
					}
					k--
				}
			}
		}
	}
	return nil
}

func (s *Sim) pickPrio() *Task {
	var b *Task
	for pass := 0; pass < 2 && b == nil; pass++ {
		for _, t := range s.tasks {
			if s.ok(t) && (pass == 1 || !s.paused(t)) && (b == nil || t.prio > b.prio) {
				b = t
			}
		}
	}
	return b
}

func (s *Sim) nextAfter(t *Task) *Task {
	for pass := 0; pass < 2; pass++ {
		for _, x := range s.tasks {
			if (x.ID > t.ID) == (pass == 0) && s.ok(x) && !s.paused(x) {
				return x
			}
		}
	}
	return nil
}

func (s *Sim) lowest() *Task {
	for _, t := range s.tasks {
		if s.ok(t) {
			return t
		}
	}
	return nil
}

// chooseBlock picks the task to run after t blocked or ended.
func (s *Sim) chooseBlock(t *Task) *Task {
	s.fireDue(t)
	def := s.lowest()
	for def == nil && s.jump() {
		def = s.lowest()
	}
	if s.grp != 0 || def == nil {
		return def
	}
	var to *Task
	switch s.pol.Kind {
	case "rand", "block":
		to = s.pick()
	case "rr":
		to = s.nextAfter(t)
	case "pct":
		to = s.pickPrio()
	case "replay":
		if n, ok := s.replay[key(t, "b", t.blk)]; ok {
			for _, x := range s.tasks {
				if x.Name == n && s.ok(x) {
					to = x
				}
			}
		}
	}
	if to == nil {
		to = def
	}
	if to != def && s.record {
		s.Rec = append(s.Rec, Decision{t.Name, t.Op, "b", t.blk, to.Name})
	}
	return to
}

func (s *Sim) switchTo(from, to *Task) {
	s.flush(from)
	s.St.Switches++
	h := s.St.Hash
	h = (h ^ uint64(to.ID+1)) * 0x100000001b3
	h = (h ^ uint64(from.site)) * 0x100000001b3
	h = (h ^ uint64(from.Op)) * 0x100000001b3
	s.St.Hash = h
	cur = to
	raceDisable()
	to.wake <- struct{}{}
	<-from.wake
	raceEnable()
	if s.dying && !from.dying {
		from.dying = true
		panic(dead{})
	}
	from.setAlarm()
	if s.abort && !from.dying {
		from.alarm = from.y
	}
}

// block parks t until it is made runnable again.
func (s *Sim) block(t *Task) {
	if t.dying {
		return
	}
	t.st = stBlocked
	t.blk++
	s.flush(t)
	s.St.Blocks++
	to := s.chooseBlock(t)
	if to == nil {
		if s.grp != 0 {
			// The observer itself is stuck.
			t.st = stRunnable
			panic(obsStuck{})
		}
		s.Stuck = true
		raceDisable()
		cur = nil
		s.main <- struct{}{}
		<-t.wake
		raceEnable()
		cur = t
		if s.dying {
			t.dying = true
			panic(dead{})
		}
		return
	}
	s.switchTo(t, to)
}

func (s *Sim) ready(t *Task) {
	if t.st == stBlocked {
		t.st = stRunnable
	}
}

// finish ends t.
func (s *Sim) finish(t *Task) {
	t.st = stDone
	t.blk++
	for i, x := range s.tasks {
		if x == t {
			for j := i + 1; j < len(s.tasks); j++ {
				s.tasks[j-1] = s.tasks[j]
			}
			s.tasks[len(s.tasks)-1] = nil
			s.tasks = s.tasks[:len(s.tasks)-1]
			break
		}
	}
	raceReleaseMerge(unsafe.Pointer(&s.joinHB))
	s.flush(t)
	raceDisable()
	if s.dying {
		cur = nil
		s.main <- struct{}{}
		return
	}
	to := s.chooseBlock(t)
	if to == nil {
		if s.grp != 0 {
			// cannot happen: the observer task is blocked on something
			s.grp = 0
		}
		cur = nil
		s.Stuck = false
		for _, x := range s.tasks {
			if x.st == stBlocked {
				s.Stuck = true
			}
		}
		s.main <- struct{}{}
		return
	}
	s.St.Switches++
	s.St.Hash = (s.St.Hash ^ uint64(to.ID+77)) * 0x100000001b3
	cur = to
	to.wake <- struct{}{}
}

func (s *Sim) newTask(name string, lib bool) *Task {
	t := &Task{ID: s.nid, Name: name, Lib: lib, wake: make(chan struct{}, 1), kill: never, cap: never, pre: never, Op: -1}
	if lib {
		t.cap = s.libCap
	}
	if s.pol.Kind == "pct" {
		t.prio = int64(s.rng.Intn(1 << 20))
	}
	if s.posOf != nil {
		t.pos = s.posOf[name+"|"+strconv.Itoa(t.Op)]
	}
	s.nid++
	s.tasks = append(s.tasks, t)
	return t
}

func (s *Sim) start(t *Task, f func()) {
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		defer func() {
			v := recover()
			if v != nil && !IsDead(v) && !IsKilled(v) && s.Crash == nil {
				s.Crash = &Crash{Task: t.Name, Value: Show(v), Stack: string(debug.Stack())}
				if !IsCap(v) {
					s.abort = true
				}
			}
			s.finish(t)
		}()
		if s.dying {
			return
		}
		s.nextPre(t)
		t.setAlarm()
		f()
	}()
}

func Show(v any) string {
	switch x := v.(type) {
	case error:
		return x.Error()
	case capHit:
		return fmt.Sprintf("no end within %d steps", x.steps)
	}
	return fmt.Sprintf("%v", v)
}

// Go starts a goroutine of the library (or of the harness) as a task.
func Go(f func()) {
	t := cur
	if t == nil {
		if starting {
			early = append(early, f)
			return
		}
		go f()
		return
	}
	s := sim
	t.spawn++
	n := s.newTask(t.Name+"."+strconv.Itoa(t.Op)+"g"+strconv.Itoa(t.spawn), true)
	n.Tag = t.Tag
	n.grp = t.grp
	if s.grp != 0 {
		n.grp = s.grp
	}
	s.St.Spawned++
	s.start(n, f)
}

// GoTimer starts a task from a timer; no task need be running.
func GoTimer(f func()) {
	s := sim
	if s == nil {
		return
	}
	n := s.newTask("timer"+strconv.Itoa(s.nid), true)
	n.Tag = -2
	s.St.Spawned++
	s.start(n, f)
}

// Config of a run.
type Config struct {
	Policy  Policy
	EnvSeed uint64
	OpCap   int64
	LibCap  int64
	ObsCap  int64
	Record  bool
}

// Packages under test register functions which set their variables anew.

var (
	onStart  []func()
	starting bool
	early    []func() // goroutines the packages start
)

func OnStart(f func()) { onStart = append(onStart, f) }

// Fresh sets the packages under test up as they are when a process starts.
func Fresh() {
	outer = nil
	early = nil
	starting = true
	for _, f := range onStart {
		f()
	}
	starting = false
}

// Run simulates the threads until all are done or nothing can run any more.
func Run(cfg Config, threads []func(t *Task), setup func(s *Sim)) *Sim {
	s := &Sim{pol: cfg.Policy, rng: NewRng(cfg.Policy.Seed), env: NewRng(cfg.EnvSeed), main: make(chan struct{}, 1),
		hookAt: never, opCap: cfg.OpCap, libCap: cfg.LibCap, obsCap: cfg.ObsCap, table: make([]*shchan, 256), record: cfg.Record}
	if s.pol.Gap < 1 {
		s.pol.Gap = 1
	}
	if s.opCap == 0 {
		s.opCap = 300000
	}
	if s.obsCap == 0 {
		s.obsCap = 5000000
	}
	if s.libCap == 0 {
		s.libCap = 2000000
	}
	if s.pol.Kind == "pct" {
		l := s.pol.Len
		if l < 1 {
			l = 1000
		}
		for i := 0; i < s.pol.Depth; i++ {
			s.chg = append(s.chg, int64(1+s.rng.Intn(l)))
		}
		sort.Slice(s.chg, func(i, j int) bool { return s.chg[i] < s.chg[j] })
	}
	if s.pol.Kind == "replay" {
		s.replay = map[string]string{}
		s.posOf = map[string][]int64{}
		for _, d := range s.pol.List {
			s.replay[d.T+"|"+strconv.Itoa(d.Op)+"|"+d.K+"|"+strconv.FormatInt(d.At, 10)] = d.To
			if d.K == "y" {
				k := d.T + "|" + strconv.Itoa(d.Op)
				s.posOf[k] = append(s.posOf[k], d.At)
			}
		}
		for _, p := range s.posOf {
			sort.Slice(p, func(i, j int) bool { return p[i] < p[j] })
		}
	}
	sim = s
	for i, f := range threads {
		f := f
		t := s.newTask("t"+strconv.Itoa(i), false)
		t.Tag = -1
		s.start(t, func() { f(t) })
	}
	for i, f := range early {
		t := s.newTask("init"+strconv.Itoa(i), true)
		t.Tag = -3
		s.St.Spawned++
		s.start(t, f)
	}
	early = nil
	if setup != nil {
		setup(s)
	}
	if len(s.tasks) > 0 {
		first := s.chooseBlock(&Task{ID: -1, Name: "main", Op: 0, blk: 0})
		cur = first
		raceDisable()
		first.wake <- struct{}{}
		<-s.main
		raceEnable()
	}
	raceAcquire(unsafe.Pointer(&s.joinHB))
	cur = nil
	s.over = true
	s.St.Steps = s.steps
	s.St.SimNanos = s.steps*StepNanos + s.jumped
	s.St.Decisions = len(s.Rec)
	return s
}

// Resume lets more tasks run after Run or Resume returned (used by nothing but Close).

// Live lists tasks which have not ended.
func (s *Sim) Live() []*Task {
	var out []*Task
	for _, t := range s.tasks {
		if t.st != stDone {
			out = append(out, t)
		}
	}
	return out
}

func (t *Task) Blocked() bool { return t.st == stBlocked }
func (t *Task) Done() bool    { return t.st == stDone }
func (t *Task) Y() int64      { return t.y }

// Close unwinds all tasks left and ends the simulation.
func (s *Sim) Close() {
	s.dying = true
	s.grp = 0
	for len(s.tasks) > 0 {
		t := s.tasks[0]
		cur = t
		raceDisable()
		t.wake <- struct{}{}
		<-s.main
		raceEnable()
	}
	raceAcquire(unsafe.Pointer(&s.joinHB))
	cur = nil
	for _, m := range s.mutexes {
		m.reset()
	}
	sim = nil
}

// Abort ends the run at the next scheduling point of every task.
func Abort() {
	if sim != nil {
		sim.abort = true
	}
}

// Aborting says if the run is being abandoned.
func Aborting() bool { return sim != nil && sim.abort }

// BeginOp marks the start of operation op of thread t; kill > 0 aborts it at that scheduling point.
func (t *Task) BeginOp(op int, kill int64, pause int64) {
	s := sim
	s.flush(t)
	t.Op = op
	t.y, t.Total, t.spawn, t.blk = 0, 0, 0, 0
	t.kill = never
	t.fired = false
	if kill > 0 {
		t.kill = kill
	}
	t.cap = s.opCap
	if pause > 0 {
		t.pause = s.steps + pause
		s.St.Pauses++
	}
	if s.posOf != nil {
		t.pos = s.posOf[t.Name+"|"+strconv.Itoa(op)]
	}
	s.nextPre(t)
	if pause > 0 && t.pre > 1 && s.pol.Kind != "replay" {
		t.pre = 1
	}
	t.setAlarm()
	if s.abort {
		t.alarm = 0
	}
}

// EndOp stops abort injection; a scheduling point between operations follows.
func (t *Task) EndOp() {
	t.kill = never
	t.cap = never
	t.unw = false
	if !t.dying {
		t.setAlarm()
		if sim.abort {
			t.alarm = 0
		}
	}
}

// Recovered tells the runtime that an injected abort was caught by the thread.
func (t *Task) Recovered() {
	t.unw = false
}

// NoKill disables abort injection (and step caps) until the end of the operation.
func (t *Task) NoKill() { t.kill = never; t.setAlarm() }

// Unwinding says whether t is being torn down.
func (t *Task) Dying() bool { return t.dying }

// SetHook arranges f to be called once at the given global step.
func (s *Sim) SetHook(at int64, f func(t *Task)) {
	s.hook = f
	s.hookAt = at
	if cur != nil {
		cur.setAlarm()
	}
}

// Now is the current step.
func (s *Sim) Now() int64 {
	if cur != nil {
		return s.now(cur)
	}
	return s.steps
}

// Observe runs f atomically: no task but the current one and those started by
// f runs until f returns.  It reports false when f could not finish by itself.
func Observe(f func()) (done bool) {
	t := cur
	s := sim
	if t == nil || s.grp != 0 {
		f()
		return true
	}
	save := *t
	s.flush(t)
	save.Total = t.Total
	s.grps++
	s.grp = s.grps
	t.grp = s.grp
	t.kill, t.pre, t.cap = never, never, t.y+s.obsCap
	t.Op = -100 - s.grps
	t.setAlarm()
	defer func() {
		s.flush(t)
		s.grp = 0
		d := t.y - save.y
		t.grp = save.grp
		t.Op, t.spawn, t.blk = save.Op, save.spawn, save.blk
		t.kill, t.pre, t.cap, t.pos = save.kill, save.pre, save.cap, save.pos
		// the observation does not count as steps of the operation
		t.y = save.y
		t.Total = save.y
		s.steps -= d
		t.unw = save.unw
		t.setAlarm()
		if v := recover(); v != nil {
			if IsObsStuck(v) {
				done = false
				return
			}
			panic(v)
		}
	}()
	f()
	return true
}

// Acquire and Release express the ordering a publication between threads gives.
func Acquire(p *byte) { raceAcquire(unsafe.Pointer(p)) }
func Release(p *byte) { raceReleaseMerge(unsafe.Pointer(p)) }
