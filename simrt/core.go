// Package simrt is the deterministic runtime the instrumented copy of the
// repository runs on. Tasks are real goroutines, but exactly one of them runs
// at any time and a seeded scheduler decides, at every instrumented statement
// and every synchronisation operation, which one that is. The hand-over between
// tasks is hidden from the race detector, so the only happens-before edges it
// sees are those of the code under test.
//
// Everything that may differ between two executions (scheduling, the clock, map
// iteration order, recycling in pools) is drawn from Config.Seed through
// counter-based hashing, so one Config is one execution.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

const maxTasks = 1024

// Strategy of the scheduler.
const (
	StratRandom = iota // switch with probability 1/SwitchInv at every yield
	StratPCT           // priorities with Depth change points in Horizon steps
	StratSerial        // switch only between operations and when blocked
	StratReplay        // follow Switches exactly
)

// Switch is one scheduling decision that did not keep the running task.
type Switch struct {
	Step int64 `json:"step"`
	Task int32 `json:"task"`
}

// Config decides one execution completely (together with the code and the ops).
type Config struct {
	Seed      uint64   `json:"seed"`
	Strategy  int      `json:"strategy"`
	SwitchInv uint32   `json:"switch_inv,omitempty"`
	OpInv     uint32   `json:"op_inv,omitempty"` // switch probability at operation boundaries
	Depth     int      `json:"depth,omitempty"`
	Horizon   int64    `json:"horizon,omitempty"`
	Budget    int64    `json:"budget"`
	StartNS   int64    `json:"start_ns"`
	TickInv   uint32   `json:"tick_inv,omitempty"`  // the clock moves with probability 1/TickInv at a yield
	TickMax   int64    `json:"tick_max,omitempty"`  // ... forward by up to this many ns
	BackInv   uint32   `json:"back_inv,omitempty"`  // ... and one in BackInv moves goes backwards
	PoolMode  int      `json:"pool_mode"`           // 0 reuse at once, 1 random reuse and drops, 2 never reuse
	MapMode   int      `json:"map_mode"`            // 0 insertion/sorted order, 1 random order, 2 reverse order
	StallInv  uint32   `json:"stall_inv,omitempty"` // a preempted task is stalled with probability 1/StallInv
	StallLen  int64    `json:"stall_len,omitempty"` // ... for up to this many steps
	Switches  []Switch `json:"switches,omitempty"`
}

// Outcome of a run, apart from what the harness recorded itself.
type Outcome struct {
	Steps     int64
	Switches  []Switch
	Hash      uint64 // of the sequence of switches and the sites they happened at
	Hang      bool   // the step budget was exhausted
	Deadlock  bool   // no task can run, some are blocked
	Where     string // of a hang or deadlock
	TaskPanic string // a task goroutine panicked outside any operation
	ClockMove int64  // nanoseconds the clock moved in total
	Fired     Counters
}

// Counters of nondeterminism and faults that really happened.
type Counters struct {
	Switches, Preempts, Blocks, Ticks, BackTicks, Jumps int64
	PoolReuse, PoolNew, PoolDrop, MapShuffles, Stalls   int64
	LockWaits, RangeExtra, NondetRange, Yields, Spawned int64
}

const (
	stRunnable = iota
	stBlocked
	stDone
)

type task struct {
	id     int32
	state  int32
	ch     chan struct{}
	waitOn unsafe.Pointer
	ctr    uint64
	prio   int64
	until  int64 // stalled until this step
	site   int32
	wakeAt int64 // sleeping until this clock reading
	asleep bool
	daemon bool // started by the code under test
}

// The run state is only touched by the running task and, before and after, by
// the harness goroutine; the functions that do are all norace.
var (
	active bool
	cfg    *Config
	cur    *task
	tasks  [maxTasks]*task
	ntasks int32

	candidates [maxTasks]*task
	steps      int64
	clock      int64
	clockMin   int64
	clockMax   int64
	clockSum   int64
	hash       uint64
	rec        []Switch
	nrec       int
	limit      int64 // an operation has to begin or end before this step
	repIdx     int
	changes    [16]int64
	nchanges   int
	lowPrio    int64
	fin        chan struct{}
	finished   bool
	out        *Outcome
	fired      Counters
	mainWait   bool
	nasleep    int
	spinRec    int
	spinFrom   int64
)

//go:norace
func mix(a, b uint64) uint64 {
	x := a ^ (b+0x9e3779b97f4a7c15)*0xbf58476d1ce4e5b9
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// draw returns a hash of the seed, a purpose and the step: the scheduler's dice.
//
//go:norace
func draw(purpose uint64) uint64 {
	return mix(mix(cfg.Seed, purpose), uint64(steps))
}

// choose returns a number below n for a decision made by the running task; the
// stream is per task, so it does not shift when other tasks change.
//
//go:norace
func choose(purpose uint64, n uint64) uint64 {
	t := cur
	t.ctr++
	return mix(mix(cfg.Seed^0xabcdef, purpose), uint64(t.id)<<32|t.ctr) % n
}

// Choose lets the harness and stubs draw from the run's seed.
//
//go:norace
func Choose(purpose uint64, n int) int {
	if !active || cur == nil || n <= 1 {
		return 0
	}
	return int(choose(purpose, uint64(n)))
}

// Active tells whether a simulated run is going on.
//
//go:norace
func Active() bool { return active && cur != nil }

// Run executes main as task 0 and everything it starts under the scheduler.
func Run(c *Config, main func()) *Outcome {
	begin(c)
	spawn(main)
	start()
	<-fin
	return end()
}

// A task that ran this long without a switch is taken to spin.
const spinSteps = 25000

//go:norace
func begin(c *Config) {
	cfg = c
	ntasks = 0
	for i := range tasks {
		tasks[i] = nil
	}
	limit = c.Budget
	steps, hash, nrec, repIdx, nchanges, lowPrio = 0, 1469598103934665603, 0, 0, 0, 0
	rec = make([]Switch, 64)
	clock = c.StartNS
	clockMin, clockMax, clockSum = clock, clock, 0
	fin = make(chan struct{})
	finished = false
	out = &Outcome{}
	fired = Counters{}
	nasleep, mainWait = 0, false
	spinRec, spinFrom, idle = 0, 0, 0
	if c.Strategy == StratPCT {
		d := c.Depth
		if d > len(changes) {
			d = len(changes)
		}
		for i := 0; i < d; i++ {
			changes[i] = int64(mix(mix(c.Seed, 77), uint64(i)) % uint64(c.Horizon))
		}
		nchanges = d
	}
	active = true
}

//go:norace
func start() {
	cur = tasks[0]
	raceDisable()
	cur.ch <- struct{}{}
	raceEnable()
}

//go:norace
func end() *Outcome {
	active = false
	cur = nil
	out.Steps = steps
	out.Hash = hash
	out.Switches = rec[:nrec:nrec]
	out.ClockMove = clockSum
	out.Fired = fired
	return out
}

//go:norace
func spawn(f func()) *task {
	id := ntasks
	if ntasks >= 32 {
		// Take the place of a goroutine that ended.
		for i := int32(1); i < ntasks; i++ {
			if tasks[i].daemon && tasks[i].state == stDone {
				id = i
				break
			}
		}
	}
	if id >= maxTasks {
		panic("simrt: too many tasks")
	}
	t := &task{id: id, ch: make(chan struct{}, 1)}
	if cfg.Strategy == StratPCT {
		t.prio = int64(mix(mix(cfg.Seed, 99), uint64(t.id))>>1 | 1)
	}
	tasks[id] = t
	if id == ntasks {
		ntasks++
	}
	fired.Spawned++
	t.ctr = uint64(fired.Spawned) << 16
	go taskMain(t, f)
	return t
}

//go:norace
func taskMain(t *task, f func()) {
	raceDisable()
	<-t.ch
	raceEnable()
	runTask(f)
	exitTask(t)
}

func runTask(f func()) {
	defer func() {
		if r := recover(); r != nil {
			notePanic(fmt.Sprintf("%v\n%s", r, debug.Stack()))
		}
	}()
	f()
}

//go:norace
func notePanic(s string) {
	if out.TaskPanic == "" {
		out.TaskPanic = s
	}
}

//go:norace
func exitTask(t *task) {
	t.state = stDone
	wake(unsafe.Pointer(&stallTag))
	if mainWait && othersDone() {
		tasks[0].state = stRunnable
	}
	if allDone() {
		finish()
		return
	}
	steps++
	n := pick(t, true)
	if n == nil {
		out.Deadlock = true
		describe()
		finish()
		return
	}
	handOver(n, t)
}

//go:norace
func allDone() bool {
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state != stDone && !tasks[i].daemon {
			return false
		}
	}
	return true
}

//go:norace
func othersDone() bool {
	for i := int32(1); i < ntasks; i++ {
		if tasks[i].state != stDone && !tasks[i].daemon {
			return false
		}
	}
	return true
}

//go:norace
func finish() {
	if !finished {
		finished = true
		close(fin)
	}
}

// park ends the use of this goroutine: the run is over.
//
//go:norace
func park() {
	finish()
	raceDisable()
	select {}
}

//go:norace
func describe() {
	s := ""
	for i := int32(0); i < ntasks; i++ {
		t := tasks[i]
		if t.state == stDone {
			continue
		}
		st := "runnable"
		if t.state == stBlocked {
			st = "blocked"
		}
		s += fmt.Sprintf("task %d %s at site %d; ", t.id, st, t.site)
	}
	out.Where = s
}

// handOver lets n run; the caller must not touch run state afterwards until it
// is scheduled again.
//
//go:norace
func handOver(n, from *task) {
	fired.Switches++
	hash = mix(hash, uint64(steps)<<16^uint64(n.id)<<8^uint64(uint32(from.site)))
	record(n.id)
	cur = n
	raceDisable()
	n.ch <- struct{}{}
	raceEnable()
}

//go:norace
func record(id int32) {
	if nrec == len(rec) {
		nr := make([]Switch, 2*len(rec))
		for i := range rec {
			nr[i] = rec[i]
		}
		rec = nr
	}
	rec[nrec] = Switch{Step: steps, Task: id}
	nrec++
}

//go:norace
func switchTo(n, t *task) {
	handOver(n, t)
	raceDisable()
	<-t.ch
	raceEnable()
}

// pick chooses the next task. must is set when t itself cannot go on.
//
//go:norace
func pick(t *task, must bool) *task {
	wakeSleepers(must)
	cand := &candidates
	n := 0
	for i := int32(0); i < ntasks; i++ {
		c := tasks[i]
		if c.state == stRunnable && (c.until <= steps || must) && (c != t || !must) {
			cand[n] = c
			n++
		}
	}
	if must && n > 1 {
		// Prefer tasks that are not stalled.
		k := 0
		for i := 0; i < n; i++ {
			if cand[i].until <= steps {
				cand[k] = cand[i]
				k++
			}
		}
		if k > 0 {
			n = k
		}
	}
	if n == 0 {
		return nil
	}
	switch cfg.Strategy {
	case StratPCT:
		best := cand[0]
		for i := 1; i < n; i++ {
			if cand[i].prio > best.prio {
				best = cand[i]
			}
		}
		return best
	case StratReplay:
		if repIdx < len(cfg.Switches) && cfg.Switches[repIdx].Step <= steps {
			want := cfg.Switches[repIdx].Task
			repIdx++
			for i := 0; i < n; i++ {
				if cand[i].id == want {
					return cand[i]
				}
			}
		}
		return cand[0]
	}
	return cand[draw(3)%uint64(n)]
}

// wakeSleepers makes the tasks runnable whose time has come. When nothing else
// can run, the clock jumps to the earliest of them.
//
//go:norace
func wakeSleepers(must bool) {
	if nasleep == 0 {
		return
	}
	if must {
		idle := true
		var first *task
		for i := int32(0); i < ntasks; i++ {
			c := tasks[i]
			if c.state == stRunnable {
				idle = false
			}
			if c.state == stBlocked && c.asleep && (first == nil || c.wakeAt < first.wakeAt) {
				first = c
			}
		}
		if idle && first != nil && first.wakeAt > clock {
			moveClock(first.wakeAt - clock)
		}
	}
	for i := int32(0); i < ntasks; i++ {
		c := tasks[i]
		if c.state == stBlocked && c.asleep && c.wakeAt <= clock {
			c.asleep = false
			nasleep--
			c.state = stRunnable
		}
	}
}

// SleepUntil suspends the running task until the clock reads at least ns.
//
//go:norace
func SleepUntil(ns int64) {
	t := cur
	if t == nil || !active {
		return
	}
	if ns <= clock {
		Y(-4)
		return
	}
	t.wakeAt, t.asleep = ns, true
	nasleep++
	block(unsafe.Pointer(t))
}

// Y is the yield point the instrumenter puts before every statement.
//
//go:norace
func Y(site int32) {
	t := cur
	if t == nil || !active {
		return
	}
	t.site = site
	yield(t, cfg.SwitchInv)
}

// OpBoundary is a yield point between two operations of a workload task. The
// clock does not move at it.
//
//go:norace
func OpBoundary() {
	t := cur
	if t == nil || !active {
		return
	}
	t.site = -1
	steps++
	if steps > limit {
		hang()
	}
	switch cfg.Strategy {
	case StratPCT:
		pctChange(t)
	case StratReplay:
		if repIdx >= len(cfg.Switches) || cfg.Switches[repIdx].Step > steps {
			return
		}
	default:
		inv := cfg.OpInv
		if inv == 0 {
			inv = 2
		}
		if draw(5)%uint64(inv) != 0 {
			return
		}
	}
	n := pick(t, false)
	if n != nil && n != t {
		switchTo(n, t)
	}
}

//go:norace
func pctChange(t *task) {
	for i := 0; i < nchanges; i++ {
		if changes[i] <= steps {
			changes[i] = 1 << 62
			lowPrio--
			t.prio = lowPrio
		}
	}
}

//go:norace
func hang() {
	out.Hang = true
	describe()
	park()
}

//go:norace
func yield(t *task, inv uint32) {
	steps++
	fired.Yields++
	if steps > limit {
		hang()
	}
	if cfg.TickInv != 0 && draw(1)%uint64(cfg.TickInv) == 0 {
		d := int64(draw(2)%uint64(cfg.TickMax)) + 1
		if cfg.BackInv != 0 && draw(4)%uint64(cfg.BackInv) == 0 {
			fired.BackTicks++
			d = -d
		} else {
			fired.Ticks++
		}
		moveClock(d)
	}
	switch cfg.Strategy {
	case StratRandom:
		if ntasks == 1 && nasleep == 0 {
			return // nothing else can run
		}
		if inv == 0 || draw(6)%uint64(inv) != 0 {
			return
		}
		if cfg.StallInv != 0 && draw(7)%uint64(cfg.StallInv) == 0 {
			t.until = steps + int64(draw(8)%uint64(cfg.StallLen)) + 1
			fired.Stalls++
		}
	case StratPCT:
		pctChange(t)
		// A task that spins does not keep the others from running for ever.
		if nrec == spinRec {
			if steps-spinFrom > spinSteps {
				lowPrio--
				t.prio = lowPrio
				spinFrom = steps
			}
		} else {
			spinRec, spinFrom = nrec, steps
		}
	case StratSerial:
		if ntasks == 1 && nasleep == 0 {
			return
		}
		// The same here.
		if nrec != spinRec {
			spinRec, spinFrom = nrec, steps
		}
		if steps-spinFrom <= spinSteps {
			return
		}
		spinFrom = steps
	case StratReplay:
		if repIdx >= len(cfg.Switches) || cfg.Switches[repIdx].Step > steps {
			return
		}
	}
	n := pick(t, false)
	if n != nil && n != t {
		fired.Preempts++
		switchTo(n, t)
	}
}

// V yields between the evaluation of a value and its store.
func V[T any](v T, site int32) T {
	Y(site)
	return v
}

// block suspends the running task until wake(p) is called.
//
//go:norace
func block(p unsafe.Pointer) {
	t := cur
	t.waitOn = p
	t.state = stBlocked
	fired.Blocks++
	steps++
	if steps > limit {
		hang()
	}
	n := pick(t, true)
	if n == nil {
		if t.state == stRunnable { // its own time to wake up has come
			return
		}
		out.Deadlock = true
		describe()
		park()
	}
	switchTo(n, t)
}

//go:norace
func wake(p unsafe.Pointer) {
	for i := int32(0); i < ntasks; i++ {
		t := tasks[i]
		if t.state == stBlocked && t.waitOn == p {
			t.state = stRunnable
			t.waitOn = nil
		}
	}
}

// Go is the go statement of the code under test.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	markDaemon(spawn(f))
	Y(-2)
}

//go:norace
func markDaemon(t *task) { t.daemon = true }

// Spawn starts a workload task.
func Spawn(f func()) { spawn(f) }

// WaitAll lets task 0 wait for all other tasks to end, with a happens-before
// edge from their end.
func WaitAll(done *int) {
	waitAll()
	raceAcquire(unsafe.Pointer(done))
}

// SignalDone is called by a workload task as its last action.
func SignalDone(done *int) { raceReleaseMerge(unsafe.Pointer(done)) }

//go:norace
func waitAll() {
	for !othersDone() {
		mainWait = true
		t := cur
		t.state = stBlocked
		t.waitOn = unsafe.Pointer(&mainWait)
		steps++
		n := pick(t, true)
		if n == nil {
			out.Deadlock = true
			describe()
			park()
		}
		switchTo(n, t)
	}
	mainWait = false
	// Forget the finished tasks, so that later phases start afresh.
	n := int32(1)
	for i := int32(1); i < ntasks; i++ {
		if t := tasks[i]; t.state != stDone {
			t.id = n
			tasks[n] = t
			n++
		}
	}
	ntasks = n
}

// TaskID of the running task, -1 outside a run.
//
//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return int(cur.id)
}

// Steps taken so far: the global event sequence number.
//
//go:norace
func Steps() int64 { return steps }

// Stamp advances and returns the global event sequence number.
//
//go:norace
func Stamp() int64 {
	steps++
	limit = steps + cfg.Budget
	return steps
}

// Now is the simulated clock in nanoseconds.
//
//go:norace
func Now() int64 { return clock }

//go:norace
func moveClock(d int64) {
	clock += d
	if d < 0 {
		clockSum -= d
	} else {
		clockSum += d
	}
	for i := int32(0); i < nwin; i++ {
		w := wins[i]
		if w != nil {
			if clock < w.Min {
				w.Min = clock
			}
			if clock > w.Max {
				w.Max = clock
			}
		}
	}
}

// Jump moves the clock by d nanoseconds at once.
//
//go:norace
func Jump(d int64) {
	fired.Jumps++
	moveClock(d)
}

// Window observes the range the clock takes while an operation runs.
type Window struct{ Min, Max int64 }

const maxWin = 128

var (
	wins [maxWin]*Window
	nwin int32
)

// OpenWindow starts observing the clock.
//
//go:norace
func OpenWindow() (*Window, int) {
	w := &Window{Min: clock, Max: clock}
	for i := int32(0); i < nwin; i++ {
		if wins[i] == nil {
			wins[i] = w
			return w, int(i)
		}
	}
	wins[nwin] = w
	nwin++
	return w, int(nwin - 1)
}

// CloseWindow stops observing.
//
//go:norace
func CloseWindow(i int) { wins[i] = nil }

// ResetWindows forgets all windows; called between runs.
//
//go:norace
func ResetWindows() {
	for i := range wins {
		wins[i] = nil
	}
	nwin = 0
}

// SetPoolMode changes how pools recycle from here on.
//
//go:norace
func SetPoolMode(m int) int {
	old := cfg.PoolMode
	cfg.PoolMode = m
	return old
}

// SetMapMode changes the order maps iterate in from here on.
//
//go:norace
func SetMapMode(m int) int {
	old := cfg.MapMode
	cfg.MapMode = m
	return old
}

var resets []func()

// OnReset registers a function that gives the variables of a package their
// initial values again.
func OnReset(f func()) { resets = append(resets, f) }

// ResetPackages runs them; called at the start of a run.
func ResetPackages() {
	for _, f := range resets {
		f()
	}
}

// Gosched is runtime.Gosched.
func Gosched() {
	if Active() {
		Y(-3)
		return
	}
	runtime.Gosched()
}

// StallUntilOthersDone parks the running task until every other task (other
// than task 0 and further stalled ones) has ended; the fault "a caller's sink
// never returns". It reports whether it did.
//
//go:norace
func StallUntilOthersDone() {
	t := cur
	if t == nil || !active {
		return
	}
	for {
		busy := false
		for i := int32(1); i < ntasks; i++ {
			o := tasks[i]
			if o != t && o.state != stDone && !o.daemon && !(o.state == stBlocked && o.waitOn == unsafe.Pointer(&stallTag)) {
				busy = true
			}
		}
		if !busy {
			wake(unsafe.Pointer(&stallTag))
			return
		}
		t.state = stBlocked
		t.waitOn = unsafe.Pointer(&stallTag)
		steps++
		n := pick(t, true)
		if n == nil {
			// Everyone else is blocked: either stalled too or waiting for a
			// lock a stalled task holds.
			out.Deadlock = true
			describe()
			park()
		}
		switchTo(n, t)
	}
}

var stallTag byte
