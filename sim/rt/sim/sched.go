package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
)

// The simulated processor.
var (
	steps     uint64  // statements executed in the run
	trip      = never // step at which trap is entered
	limit     = never // work budget
	preemptAt = never // next preemption
	cur       *Task
	tasks     []*Task
	nTasks    int
	meanGap   uint64
	done      chan struct{}
	deadlock  bool
	overrun   bool
	switches  uint64
	schedHash uint64
	roots     int  // tasks started by the harness
	process   bool // the tasks are those of a process, which can end as a whole
	adopted   bool // the caller of the simulator became task 0
	dying     bool // the tasks that are left are being ended
	retried   uint64
	idle      func() bool
	crash     any // what a task panicked with, to be passed to an adopted task
	taskTab   [maxTasks]*Task
)

const (
	maxTasks = 4096
	spawnGap = 200
)

const never = uint64(1) << 62

// Budget is the panic value raised when the work budget is exhausted.
type Budget struct{ Steps uint64 }

func (b Budget) Error() string { return fmt.Sprintf("work budget exhausted after %d steps", b.Steps) }

// Task is a simulated task.
type Task struct {
	id       int
	ch       chan struct{}
	fn       func()
	state    int8 // 0 runnable, 1 blocked, 2 finished
	Panic    any
	Stack    []byte
	Goexited bool
	Steps    uint64 // steps taken while running
	from     uint64
	prio     uint64
}

const (
	runnable int8 = iota
	blocked
	finished
)

// Step is called before every statement of the instrumented code.
//
//go:norace
func Step() {
	steps++
	if steps >= trip {
		trap()
	}
}

//go:norace
func retrip() {
	trip = limit
	if preemptAt < trip {
		trip = preemptAt
	}
}

//go:norace
func trap() {
	if dying {
		runtime.Goexit()
	}
	if steps >= limit {
		overrun = true
		limit += 100000
		retrip()
		panic(Budget{steps})
	}
	if cur != nil && steps >= preemptAt {
		next := choose(true)
		drawGap()
		if next != cur {
			switchTo(next)
		}
	} else if steps >= preemptAt {
		preemptAt = never
		retrip()
	}
}

//go:norace
func drawGap() {
	if meanGap == 0 {
		preemptAt = never
	} else {
		// 0 means no further preemption; it is rare by chance and what an
		// exhausted replay yields.
		v := C.Draw(Sched, 128*meanGap+1)
		if v == 0 {
			preemptAt = never
		} else {
			preemptAt = steps + 1 + (v-1)%(2*meanGap)
		}
	}
	retrip()
}

// choose picks a runnable task; nil if there is none. With others set, the
// current task is chosen last.
//
//go:norace
func choose(others bool) *Task {
	n := 0
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == runnable && !(others && tasks[i] == cur) {
			n++
		}
	}
	if n == 0 {
		if others && cur != nil && cur.state == runnable {
			return cur
		}
		return nil
	}
	k := int(C.Draw(Sched, uint64(n)))
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == runnable && !(others && tasks[i] == cur) {
			if k == 0 {
				return tasks[i]
			}
			k--
		}
	}
	return nil
}

// switchTo hands the processor to t and waits until it comes back.
//
//go:norace
func switchTo(t *Task) {
	me := cur
	switches++
	schedHash = mix(schedHash ^ uint64(t.id+1)<<32 ^ steps)
	me.Steps += steps - me.from
	cur = t
	t.from = steps
	raceDisable()
	t.ch <- struct{}{}
	<-me.ch
	raceEnable()
	if dying {
		runtime.Goexit()
	}
	if adopted && me == tasks[0] {
		if crash != nil {
			c := crash
			crash = nil
			panic(c)
		}
		if deadlock {
			deadlock = false
			panic("sim: all goroutines are asleep - deadlock!")
		}
	}
}

// over reports whether the tasks that count have finished.
//
//go:norace
func over() bool {
	if adopted {
		return false
	}
	for i := 0; i < roots; i++ {
		if tasks[i].state != finished {
			return false
		}
	}
	return true
}

// endRun wakes the caller of Run.
//
//go:norace
func endRun() {
	cur = nil
	raceDisable()
	done <- struct{}{}
	raceEnable()
}

// endTasks ends the tasks that are left.
//
//go:norace
func endTasks() {
	if nTasks == 0 {
		adopted = false
		return
	}
	dying = true
	cur = nil
	preemptAt = never
	for i := 0; i < nTasks; i++ {
		t := tasks[i]
		if t.state == finished || (adopted && i == 0) {
			continue
		}
		t.state = runnable
		cur = t
		limit = steps + 100000
		retrip()
		raceDisable()
		t.ch <- struct{}{}
		<-done
		raceEnable()
	}
	cur = nil
	dying = false
	adopted = false
	preemptAt, limit = never, never
	retrip()
	for i := 0; i < nTasks; i++ {
		tasks[i] = nil
	}
	tasks, nTasks = nil, 0
}

// EndProcess is called when the simulated process has ended; the calling task
// then ends, and with it all others.
//
//go:norace
func EndProcess() {
	if process {
		ended = true
	}
}

var ended bool

// OnIdle sets a function that is called when no task can run: it lets time
// pass, and reports whether that may have made one runnable.
//
//go:norace
func OnIdle(fn func() bool) { idle = fn }

// revive is called when no task is runnable. It reports whether that may have
// changed.
//
//go:norace
func revive() bool {
	// a channel the simulator does not know, or anything else outside of it,
	// may have changed since the last look.
	if retried != steps {
		retried = steps
		wakeAll()
		return true
	}
	if idle != nil && idle() {
		wakeAll()
		return true
	}
	return false
}

// finish hands the processor to another task, or ends the run.
//
//go:norace
func finish() {
	me := cur
	raceTaskEnd()
	me.state = finished
	me.Steps += steps - me.from
	if dying {
		endRun()
		return
	}
	if over() || process && (ended || me.Panic != nil) {
		endRun()
		return
	}
	wakeAll()
	next := choose(false)
	if adopted && me.Panic != nil && crash == nil {
		crash = me.Panic
		next = tasks[0]
	}
	if next == nil {
		endRun()
		return
	}
	switches++
	schedHash = mix(schedHash ^ uint64(next.id+1)<<32 ^ steps)
	cur = next
	next.from = steps
	raceDisable()
	next.ch <- struct{}{}
	raceEnable()
}

// Block parks the current task until another task calls WakeAll; the caller
// then re-checks its condition.
//
//go:norace
func Block() {
	if dying {
		runtime.Goexit()
	}
	if cur == nil {
		if idle != nil && idle() {
			return
		}
		panic("sim: all goroutines are asleep - deadlock!")
	}
	me := cur
	me.state = blocked
	next := choose(false)
	if next == nil && revive() {
		next = choose(false)
	}
	if next == nil {
		if adopted {
			// there is no caller of Run to tell.
			tasks[0].state = runnable
			if me == tasks[0] {
				panic("sim: all goroutines are asleep - deadlock!")
			}
			deadlock = true
			switchTo(tasks[0])
			return
		}
		deadlock = true
		// leave the task parked and end the run.
		endRun()
		me.wait()
		if dying {
			runtime.Goexit()
		}
		return
	}
	if next == me {
		return
	}
	switchTo(next)
}

// WakeAll makes every blocked task runnable, so that it re-checks what it
// waits for.
//
//go:norace
func WakeAll() { wakeAll() }

//go:norace
func wakeAll() {
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == blocked {
			tasks[i].state = runnable
		}
	}
}

// Point is a preemption point of the simulator itself (lock operations,
// system calls).
//
//go:norace
func Point() { Step() }

// Yield lets another task run.
//
//go:norace
func Yield() {
	if cur == nil {
		return
	}
	next := choose(true)
	if next != nil && next != cur {
		switchTo(next)
	}
}

// Go starts a task.
//
//go:norace
func Go(fn func()) {
	if dying {
		runtime.Goexit()
	}
	if cur == nil {
		adopt()
	}
	spawn(fn)
	Point()
}

// Tasking reports whether there are tasks.
//
//go:norace
func Tasking() bool { return cur != nil }

// GoIdle starts a task on behalf of a timer.
//
//go:norace
func GoIdle(fn func()) {
	if cur == nil {
		fn()
		return
	}
	spawn(fn)
}

//go:norace
func spawn(fn func()) {
	if nTasks == len(tasks) {
		panic(Unsupported("too many tasks"))
	}
	t := newTask(fn)
	if meanGap == 0 {
		meanGap = spawnGap
		drawGap()
	}
	go t.run()
}

// adopt makes the caller, which runs outside of Run, task 0.
//
//go:norace
func adopt() {
	tasks = taskTab[:]
	nTasks = 0
	done = make(chan struct{}, 1)
	adopted = true
	deadlock, retried = false, never
	crash = nil
	process = false
	roots = 1
	cur = newTask(nil)
	cur.from = steps
}

//go:norace
func newTask(fn func()) *Task {
	t := &Task{id: nTasks, ch: make(chan struct{}, 1), fn: fn}
	tasks[nTasks] = t
	nTasks++
	return t
}

func (t *Task) run() {
	t.wait()
	defer finish()
	defer t.recov()
	if isDying() {
		return
	}
	t.Goexited = true
	t.fn()
	t.Goexited = false
}

//go:norace
func (t *Task) wait() {
	raceDisable()
	<-t.ch
	raceEnable()
}

//go:norace
func isDying() bool { return dying }

//go:norace
func (t *Task) recov() {
	if r := recover(); r != nil {
		t.Panic = r
		if t.Stack == nil {
			t.Stack = debug.Stack()
		}
		t.Goexited = false
	}
}

// CurrentID returns the id of the running task, or -1.
//
//go:norace
func CurrentID() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// Steps returns the number of steps taken so far.
//
//go:norace
func Steps() uint64 { return steps }

var ticks int64

// Tick returns the numbers 1, 2, ... in the order of the calls.
//
//go:norace
func Tick() int64 { ticks++; return ticks }

// SetBudget limits the work from now on.
//
//go:norace
func SetBudget(n uint64) {
	limit = steps + n
	retrip()
}

// Begin starts a run.
func Begin(c *Choices) {
	endTasks()
	resetChans()
	C = c
	steps, limit, preemptAt = 0, never, never
	overrun, deadlock = false, false
	switches, schedHash, ticks = 0, 0, 0
	cur = nil
	meanGap, retried = 0, never
	process, ended = false, false
	Trouble = ""
	retrip()
}

// Result describes the execution of a set of tasks.
type Result struct {
	Tasks    []*Task
	Spawned  []*Task // those started by the code under test that panicked
	Deadlock bool
	Overrun  bool
	Switches uint64
	Hash     uint64
	Steps    uint64
}

// Run executes the given functions as tasks until all have finished. gap is
// the mean number of steps between preemptions (0: run each task until it
// blocks), budget the limit on steps. Tasks they started are then ended.
func Run(fns []func(), gap, budget uint64) *Result { return run(fns, gap, budget, false) }

// RunProcess executes the given function as the main task of a process.
func RunProcess(main func(), budget uint64) *Result {
	return run([]func(){main}, 0, budget, true)
}

//go:norace
func run(fns []func(), gap, budget uint64, proc bool) *Result {
	endTasks()
	tasks = taskTab[:]
	nTasks = 0
	roots, process, ended = len(fns), proc, false
	done = make(chan struct{}, 1)
	switches, schedHash, deadlock, overrun = 0, 0, false, false
	retried = never
	meanGap = gap
	start := steps
	for _, fn := range fns {
		newTask(fn)
	}
	for i := 0; i < nTasks; i++ {
		go tasks[i].run()
	}
	limit = steps + budget
	first := choose(false)
	cur = first
	first.from = steps
	drawGap()
	first.ch <- struct{}{}
	<-done
	raceJoin()
	cur = nil
	preemptAt, limit = never, never
	retrip()
	res := &Result{Deadlock: deadlock, Overrun: overrun, Switches: switches, Hash: schedHash, Steps: steps - start}
	for i := 0; i < nTasks; i++ {
		if i < roots {
			res.Tasks = append(res.Tasks, tasks[i])
		} else if tasks[i].Panic != nil {
			res.Spawned = append(res.Spawned, tasks[i])
		}
	}
	endTasks()
	raceJoin()
	meanGap = 0
	process = false
	return res
}

// Here describes the place of a call for messages.
func Here(skip int) string {
	_, f, l, _ := runtime.Caller(skip + 1)
	return fmt.Sprintf("%s:%d", f, l)
}
