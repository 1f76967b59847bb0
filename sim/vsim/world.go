package vsim

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// W is the world of the running execution; the shims work on it.
var W *World

// Countdown is decremented by Tick at every loop iteration and function entry of
// the code under test.
var Countdown int64 = 1 << 60

// Tick is inserted by the rewriter in every function and loop body.
func Tick() {
	Countdown--
	if Countdown < 0 {
		tickSlow()
	}
}

// Proc is a simulated process: its own package variables, descriptors and stdio.
type Proc struct {
	ID       int
	Name     string
	Dead     bool
	Exited   bool
	ExitCode int
	Args     []string
	Cwd      string
	Stdin    []byte
	stdinPos int
	StdinErr error
	Stdout   []byte
	Stderr   []byte
	handles  map[*Handle]bool
	saved    []reflect.Value
	savedSw  []any
	loaded   bool
}

// OpenHandles lists what the process has open.
func (p *Proc) OpenHandles() []string {
	var r []string
	for h := range p.handles {
		r = append(r, h.Path)
	}
	sort.Strings(r)
	return r
}

// Unused: nothing ran in the process yet.
func (p *Proc) Unused() bool { return !p.loaded && !p.Dead }

// StdinLeft is the part of the standard input that was not read.
func (p *Proc) StdinLeft() string { return string(p.Stdin[p.stdinPos:]) }

type taskState int

const (
	ready taskState = iota
	blocked
	done
)

// Task is one thread of control of a process.
type Task struct {
	ID       int
	Proc     *Proc
	Name     string
	fn       func()
	wake     chan struct{}
	started  bool
	state    taskState
	canRun   func() bool
	Panic    any
	PanicAt  string
	deadSeam int
	deadTick int
}

// Fault makes the Nth call (from 0) of a class fail.
type Fault struct {
	Class   string
	Nth     int
	Err     syscall.Errno
	Partial int /* for writes: percentage of the bytes written before the error */
	Crash   int /* 0: error, 1: process crash before the call, 2: after the call */
	Fired   bool
	sticky  bool
}

func (f *Fault) String() string {
	k := "error " + f.Err.Error()
	switch f.Crash {
	case 1:
		k = "crash before"
	case 2:
		k = "crash after"
	}
	return fmt.Sprintf("%s#%d: %s", f.Class, f.Nth, k)
}

// World is one simulated machine.
type World struct {
	T     *Tape
	FS    *FS
	Now   int64 /* simulated time in ns since 1970 */
	Start int64

	Procs []*Proc
	tasks []*Task
	cur   *Task
	back  chan struct{}

	/* scheduling */
	MeanGap    int64 /* mean ticks between preemptions, 0: only at seams */
	SeamSwitch int   /* percentage of seam calls that yield */
	gapRng     *PRNG
	mapRng     *PRNG
	TickBudget int64
	TicksUsed  int64
	sliceStart int64
	Switches   int
	ilHash     uint64

	Faults    []*Fault
	Counts    map[string]int /* calls per class */
	Role      func(path string) string
	ShortSeed uint64 /* != 0: short reads */
	shortRng  *PRNG
	Euid      int
	TmpSeq    int

	Hang     string
	Deadlock string

	Verbose  bool
	Trace    []string
	hash     uint64
	Events   int
	Fired    map[string]int
	OnSeam   func(op, path string) /* invariant checked after each call */
	CrashSeq int                   /* seam index at which the whole machine stops, <0 never */
	SeamN    int
	Stopped  bool

	KillProc    *Proc /* dies at its call KillAt */
	KillAt      int
	killN       int
	HandleLimit int
	ClockJump   func(w *World)
	Env         map[string]string
	SeamLog     []string
	LogSeams    bool
	sync        map[syncKey]*lockState
}

// NewWorld makes a machine with an empty file system and directory /w.
func NewWorld(t *Tape) *World {
	w := &World{T: t, Counts: map[string]int{}, Fired: map[string]int{}, CrashSeq: -1,
		HandleLimit: 256, TickBudget: 1500e6, hash: 14695981039346656037, ilHash: 14695981039346656037,
		Env: map[string]string{}, sync: map[syncKey]*lockState{}}
	w.FS = NewFS(w)
	w.Now = 1600000000 * 1e9
	w.Start = w.Now
	w.back = make(chan struct{})
	w.Role = func(string) string { return "file" }
	return w
}

// ---- globals of the code under test ----

var globals []reflect.Value /* addressable variables */
var pristine []reflect.Value
var loadedProc *Proc

// Swap saves and restores per-process state of the shims.
type Swap struct {
	Fresh func()
	Save  func() any
	Load  func(any)
}

var swaps []Swap

func AddSwap(s Swap) { swaps = append(swaps, s) }

// Loading is the process whose state is in place.
func Loading() *Proc { return loadedProc }

var keepPtr = map[int]bool{}

// RegisterGlobals is called once per package with pointers to all its variables.
// keep: pointer variables keep their identity (they are known to the flag set).
func RegisterGlobals(keep bool, ptrs ...any) {
	for _, p := range ptrs {
		v := reflect.ValueOf(p).Elem()
		globals = append(globals, v)
		if keep && v.Kind() == reflect.Pointer && isFlat(v.Type().Elem()) {
			keepPtr[len(globals)-1] = true
			pristine = append(pristine, v)
			continue
		}
		c := reflect.New(v.Type()).Elem()
		deepCopy(c, v)
		pristine = append(pristine, c)
	}
}

func access(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func deepCopy(dst, src reflect.Value) {
	dst, src = access(dst), access(src)
	switch src.Kind() {
	case reflect.Slice:
		if src.IsNil() {
			dst.Set(reflect.Zero(src.Type()))
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		if isFlat(src.Type().Elem()) {
			reflect.Copy(n, src)
		} else {
			for i := 0; i < src.Len(); i++ {
				deepCopy(n.Index(i), src.Index(i))
			}
		}
		dst.Set(n)
	case reflect.Array:
		if isFlat(src.Type().Elem()) {
			dst.Set(src)
			return
		}
		for i := 0; i < src.Len(); i++ {
			deepCopy(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			dst.Set(reflect.Zero(src.Type()))
			return
		}
		n := reflect.MakeMapWithSize(src.Type(), src.Len())
		for it := src.MapRange(); it.Next(); {
			e := reflect.New(src.Type().Elem()).Elem()
			tmp := reflect.New(src.Type().Elem()).Elem()
			tmp.Set(it.Value())
			deepCopy(e, tmp)
			n.SetMapIndex(it.Key(), e)
		}
		dst.Set(n)
	case reflect.Struct:
		if isOpaque(src.Type()) {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			deepCopy(dst.Field(i), src.Field(i))
		}
	case reflect.Pointer:
		if src.IsNil() || isOpaque(src.Type().Elem()) {
			dst.Set(src)
			return
		}
		n := reflect.New(src.Type().Elem())
		deepCopy(n.Elem(), src.Elem())
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

// isOpaque: values of other packages (errors, locations, flag sets) keep identity.
func isOpaque(t reflect.Type) bool {
	p := t.PkgPath()
	return p != "" && !strings.HasPrefix(p, "lhasim/gen")
}

func isFlat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.String:
		return true
	case reflect.Array:
		return isFlat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !isFlat(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return false
}

func (p *Proc) load() {
	if loadedProc == p {
		return
	}
	if q := loadedProc; q != nil && !q.Dead {
		q.saved = q.saved[:0]
		for _, g := range globals {
			c := reflect.New(g.Type()).Elem()
			c.Set(access(g))
			q.saved = append(q.saved, c)
		}
		q.savedSw = q.savedSw[:0]
		for _, s := range swaps {
			q.savedSw = append(q.savedSw, s.Save())
		}
	}
	loadedProc = p
	if p.loaded {
		for i, g := range globals {
			access(g).Set(p.saved[i])
		}
		for i, s := range swaps {
			s.Load(p.savedSw[i])
		}
		return
	}
	p.loaded = true
	for i, g := range globals {
		if !keepPtr[i] {
			deepCopy(g, pristine[i])
		}
	}
	for _, s := range swaps {
		s.Fresh()
	}
}

// ---- processes and tasks ----

// NewProc starts a process (fresh package variables).
func (w *World) NewProc(name string) *Proc {
	p := &Proc{ID: len(w.Procs), Name: name, Cwd: "/w", handles: map[*Handle]bool{}}
	w.Procs = append(w.Procs, p)
	return p
}

// Spawn adds a task to a process.
func (w *World) Spawn(p *Proc, name string, fn func()) *Task {
	t := &Task{ID: len(w.tasks), Proc: p, Name: name, fn: fn, wake: make(chan struct{})}
	w.tasks = append(w.tasks, t)
	return t
}

// Go is what a go statement of the code under test becomes.
func Go(fn func()) {
	if W == nil || W.cur == nil {
		fn()
		return
	}
	W.Spawn(W.cur.Proc, "go", fn)
	W.yield("go")
}

func (t *Task) main() {
	<-t.wake
	defer func() {
		t.state = done
		W.back <- struct{}{}
	}()
	defer func() {
		if r := recover(); r != nil && !t.Proc.Dead {
			t.Panic = r
			t.PanicAt = trimStack(debug.Stack())
		}
	}()
	t.fn()
}

// RunAll runs the tasks until all are done, under the scheduler.
func (w *World) RunAll() {
	W = w
	old := Countdown
	defer func() { Countdown = old; W = nil }()
	for {
		var run []*Task
		alive := false
		for _, t := range w.tasks {
			if t.state == done {
				continue
			}
			alive = true
			if t.Proc.Dead && !t.started {
				t.state = done
				continue
			}
			if t.Proc.Dead || t.state == ready || t.canRun() {
				run = append(run, t)
			}
		}
		if !alive {
			break
		}
		if len(run) == 0 {
			if w.Deadlock == "" {
				for _, t := range w.tasks {
					if t.state == blocked {
						w.Deadlock += t.Name + " "
					}
				}
				w.note("deadlock %s", w.Deadlock)
			}
			for _, t := range w.tasks {
				t.Proc.Dead = true
			}
			continue
		}
		t := run[0]
		if len(run) > 1 {
			i := w.T.Intn(len(run))
			t = run[i]
			w.Switches++
			w.ilHash = (w.ilHash ^ uint64(t.ID+1)) * 1099511628211
			w.note("run task %d", t.ID)
		}
		t.state = ready
		t.Proc.load()
		w.cur = t
		w.newSlice(len(run) > 1 || len(w.tasks) > 1)
		if !t.started {
			t.started = true
			go t.main()
		}
		t.wake <- struct{}{}
		<-w.back
		w.endSlice()
		w.cur = nil
	}
	w.tasks = nil
}

func (w *World) newSlice(multi bool) {
	left := w.TickBudget - w.TicksUsed
	if left < 0 {
		left = 0
	}
	n := left
	if multi && w.MeanGap > 0 {
		g := int64(w.T.Draw(uint64(2*w.MeanGap))) + 1
		if g < n {
			n = g
		}
	}
	w.sliceStart = n
	Countdown = n
}

func (w *World) endSlice() { w.TicksUsed += w.sliceStart - Countdown; w.sliceStart = Countdown }

func tickSlow() {
	w := W
	if w == nil || w.cur == nil {
		Countdown = 1 << 60
		return
	}
	t := w.cur
	if t.Proc.Dead {
		t.deadTick++
		if t.deadTick > 3 {
			runtime.Goexit()
		}
		Countdown = 1e6
		w.sliceStart = Countdown
		return
	}
	w.endSlice()
	if w.TicksUsed >= w.TickBudget {
		buf := make([]byte, 8192)
		w.Hang = fmt.Sprintf("no end after %d steps at %s", w.TicksUsed, trimStack(buf[:runtime.Stack(buf, false)]))
		w.note("hang")
		for _, p := range w.Procs {
			p.Dead = true
		}
		w.die()
	}
	w.yield("tick")
}

// yield gives the processor back to the scheduler.
func (w *World) yield(why string) {
	t := w.cur
	if t == nil {
		return
	}
	w.back <- struct{}{}
	<-t.wake
	if t.Proc.Dead {
		w.die()
	}
}

// Block waits until cond holds.
func (w *World) Block(cond func() bool) {
	t := w.cur
	if t.Proc.Dead {
		return
	}
	for !cond() {
		t.state = blocked
		t.canRun = cond
		w.yield("block")
	}
}

// die ends the current task at once; its deferred calls meet a dead process.
func (w *World) die() {
	Countdown = 1e6
	w.sliceStart = Countdown
	runtime.Goexit()
}

// Kill ends the process of the current task, as kill -9 does.
func (w *World) Kill(why string) {
	p := w.cur.Proc
	w.note("kill process %d: %s", p.ID, why)
	p.Dead = true
	p.handles = map[*Handle]bool{}
	w.die()
}

// Halt stops the machine: all processes die at this instant.
func (w *World) Halt(why string) {
	w.note("machine stops: %s", why)
	w.Stopped = true
	for _, p := range w.Procs {
		p.Dead = true
		p.handles = map[*Handle]bool{}
	}
	w.die()
}

// Exit is os.Exit.
func Exit(code int) {
	w := W
	if w == nil || w.cur == nil {
		panic(fmt.Sprintf("exit %d outside the simulation", code))
	}
	p := w.cur.Proc
	if p.Dead {
		runtime.Goexit()
	}
	p.Exited, p.ExitCode = true, code
	w.note("exit %d", code)
	p.Dead = true
	p.handles = map[*Handle]bool{}
	w.die()
}

// ---- event log ----

func (w *World) mix(v uint64) {
	w.hash = (w.hash ^ v) * 1099511628211
}

func (w *World) note(format string, a ...any) {
	w.Events++
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		w.mix(uint64(s[i]))
	}
	if w.Verbose && len(w.Trace) < 20000 {
		w.Trace = append(w.Trace, fmt.Sprintf("t=%d.%06ds %s", (w.Now-w.Start)/1e9, (w.Now-w.Start)%1e9/1e3, s))
	}
}

// Note adds a line of the workload to the event log.
func (w *World) Note(format string, a ...any) { w.note(format, a...) }

// Hash identifies the whole execution.
func (w *World) Hash() uint64 { return w.hash }

// Interleaving identifies the order in which tasks ran.
func (w *World) Interleaving() uint64 { return w.ilHash }

// ---- seams ----

// seam is the entry of every simulated system call. It returns the fault to apply.
// crashAfter tells the caller to stop the process once the call has had its effect.
func (w *World) seam(op, path, role string) (f *Fault, dead bool) {
	t := w.cur
	if t != nil && t.Proc.Dead {
		t.deadSeam++
		if t.deadSeam > 10000 {
			runtime.Goexit()
		}
		return nil, true
	}
	w.Now += 1000 + int64(w.SeamN%7)*137
	if w.ClockJump != nil {
		w.ClockJump(w)
	}
	if t != nil && w.SeamSwitch > 0 && w.others() {
		if w.gapRng == nil {
			w.gapRng = NewPRNG(w.T.Seed32() + 1)
		}
		if w.gapRng.Intn(100) < w.SeamSwitch {
			w.yield("seam")
		}
	}
	n := w.SeamN
	w.SeamN++
	class := op + ":" + role
	k := w.Counts[class]
	w.Counts[class] = k + 1
	w.mix(uint64(n))
	if op != "read" {
		w.note("%s %s", op, path)
	} else {
		w.Events++
	}
	if w.LogSeams {
		w.SeamLog = append(w.SeamLog, class)
	}
	if w.CrashSeq >= 0 && n == w.CrashSeq && t != nil {
		w.Fired["machine stop"]++
		w.Halt("power")
	}
	if t != nil && t.Proc == w.KillProc {
		if w.killN == w.KillAt {
			w.Fired["process killed"]++
			w.Kill("kill -9")
		}
		w.killN++
	}
	for _, x := range w.Faults {
		if x.Class == class && x.Nth == k && !x.Fired {
			x.Fired = true
			if x.Crash == 1 {
				w.Fired["process crash"]++
				w.Kill("crash before " + op + " " + path)
			}
			if x.Crash == 0 {
				w.Fired[op+" "+errName(x.Err)]++
				w.note("fault %s on %s %s", errName(x.Err), op, path)
			}
			return x, false
		}
	}
	return nil, false
}

// after runs what follows the effect of a call.
func (w *World) after(f *Fault, op, path string) {
	if f != nil && f.Crash == 2 {
		w.Fired["process crash"]++
		w.Kill("crash after " + op + " " + path)
	}
	if w.OnSeam != nil {
		w.OnSeam(op, path)
	}
}

func (w *World) others() bool {
	n := 0
	for _, t := range w.tasks {
		if t.state != done {
			n++
		}
	}
	return n > 1
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EXDEV:
		return "EXDEV"
	case syscall.EPERM:
		return "EPERM"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.ESTALE:
		return "ESTALE"
	case syscall.EBUSY:
		return "EBUSY"
	}
	return e.Error()
}

func trimStack(b []byte) string {
	/* the frames of the code under test */
	s := string(b)
	out := ""
	line := ""
	lines := []string{}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			lines = append(lines, line)
			line = ""
			continue
		}
		line += string(s[i])
	}
	for i := 0; i+1 < len(lines); i++ {
		if len(lines[i]) > 11 && lines[i][:11] == "lhasim/gen/" && len(out) < 600 {
			fn := lines[i]
			for j := range fn {
				if fn[j] == '(' && j > 0 && fn[j-1] != '.' {
					fn = fn[:j]
					break
				}
			}
			out += fn[11:] + " < "
		}
	}
	return out
}

// PathErr builds the error of a system call.
func PathErr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

// SetStdin gives the process a new standard input.
func (p *Proc) SetStdin(b []byte) { p.Stdin, p.stdinPos = b, 0 }
