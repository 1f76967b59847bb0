// Package checks holds the workloads, fault plans and oracles of the properties.
package checks

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"time"
	_ "time/tzdata" /* the same zones everywhere */

	"lhasim/gen/genreg"
	"lhasim/gen/lha"
	"lhasim/ref"
	shimtime "lhasim/shim/time"
	"lhasim/vsim"
)

// Viol is a broken property.
type Viol struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// Ctx is one scenario: everything it does follows from the tape.
type Ctx struct {
	T       *vsim.Tape
	Verbose bool
	V       *Viol
	Known   map[string]bool
	Probes  map[string]int
	Fired   map[string]int
	SimNS   int64
	Ticks   int64
	Worlds  int
	Hash    uint64
	IL      []uint64
	Desc    []string
	Trace   []string
	Loc     *time.Location
	Thor    bool
	worlds  []*vsim.World
	trivial bool
	assign  map[*ref.Member]*Entry
	packed  map[string][]byte /* what the reference encoder packed */
}

type stop struct{}

// Prop is a property and its check.
type Prop struct {
	ID       string
	Quick    int /* scenarios of the quick tier */
	Thorough int
	Run      func(c *Ctx)
	Rule     string
	Assume   []string
}

var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// IDs lists the properties.
func IDs() []string {
	var r []string
	for k := range Props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() { genreg.Register() }

// Scenario runs a property on a tape.
func Scenario(p *Prop, t *vsim.Tape, verbose, thorough bool) *Ctx {
	c := &Ctx{T: t, Verbose: verbose, Thor: thorough, Probes: map[string]int{}, Fired: map[string]int{}, Loc: time.UTC}
	shimtime.SetZone(time.UTC)
	Arc = "/w/arc/a.lzh"
	if t.Bool(1, 5) {
		Arc = "/w/arc/" + arcNames[t.Intn(len(arcNames))]
		c.Say("archive %s", Arc)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		p.Run(c)
	}()
	for _, w := range c.worlds {
		c.SimNS += w.Now - w.Start
		c.Ticks += w.TicksUsed
		c.Hash = vsim.Mix(c.Hash, w.Hash())
		if w.Switches > 0 {
			c.IL = append(c.IL, w.Interleaving())
		}
		for k, n := range w.Fired {
			c.Fired[k] += n
		}
		c.Trace = append(c.Trace, w.Trace...)
		c.Worlds++
	}
	if c.V != nil {
		c.Hash = vsim.Mix(c.Hash, uint64(len(c.V.Detail)))
	}
	return c
}

// Fail ends the scenario with a violation.
func (c *Ctx) Fail(kind, format string, a ...any) {
	if c.V == nil {
		c.V = &Viol{kind, fmt.Sprintf(format, a...)}
	}
	panic(stop{})
}

// Flag records a violation from within a task.
func (c *Ctx) Flag(kind, format string, a ...any) {
	if c.V == nil {
		c.V = &Viol{kind, fmt.Sprintf(format, a...)}
	}
}

// Check ends the scenario if a task flagged a violation.
func (c *Ctx) Check() {
	if c.V != nil {
		panic(stop{})
	}
}

func (c *Ctx) Probe(name string) { c.Probes[name]++ }

// Say describes the scenario.
func (c *Ctx) Say(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.Desc = append(c.Desc, s)
	if c.Verbose {
		c.Trace = append(c.Trace, "# "+s)
	}
	h := c.Hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.Hash = h
}

// summer are zones with a summer time.
var summer = func() (r []*time.Location) {
	for _, n := range []string{"Europe/Paris", "America/New_York", "Australia/Lord_Howe"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		r = append(r, l)
	}
	return
}()

// Zone draws the time zone of the machine.
func (c *Ctx) Zone() {
	zs := []*time.Location{time.UTC, time.FixedZone("E", 9*3600), time.FixedZone("W", -8*3600), time.FixedZone("H", 5*3600+1800), time.FixedZone("N", -3*3600-1800)}
	k := c.T.Intn(len(zs) + len(summer))
	if k < len(zs) {
		c.Loc = zs[k]
	} else {
		c.Loc = summer[k-len(zs)]
	}
	shimtime.SetZone(c.Loc)
}

// World makes a machine.
func (c *Ctx) World() *vsim.World {
	w := vsim.NewWorld(c.T)
	w.Verbose = c.Verbose
	w.FS.MkdirAll("/w/arc")
	w.FS.MkdirAll("/w/src")
	w.FS.MkdirAll("/tmp")
	w.Role = role
	c.worlds = append(c.worlds, w)
	return w
}

// role groups paths for the fault plans.
func role(p string) string {
	p = path.Clean(p)
	switch {
	case strings.HasSuffix(p, ".bak"):
		return "backup"
	case strings.HasSuffix(p, ".lzh"):
		return "archive"
	case strings.HasPrefix(p, "/w/src"):
		return "source"
	case strings.HasPrefix(p, "/w/out"):
		return "output"
	case strings.HasPrefix(p, "/w/arc/"), strings.HasPrefix(p, "/tmp/"):
		return "temp"
	}
	return "file"
}

// Res is the outcome of an operation.
type Res struct {
	Err     error
	Panic   string
	Exited  bool
	Code    int
	Dead    bool
	Hang    string
	Lock    string
	Out     string
	Errout  string
	Pending bool /* the operation did not return */
}

func (r *Res) String() string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Hang != "":
		return r.Hang
	case r.Lock != "":
		return "deadlock " + r.Lock
	case r.Exited:
		return fmt.Sprintf("exit %d", r.Code)
	case r.Dead:
		return "killed"
	case r.Err != nil:
		return "error: " + r.Err.Error()
	}
	return "success"
}

// OK: the operation reported success.
func (r *Res) OK() bool {
	return r.Panic == "" && r.Hang == "" && r.Lock == "" && !r.Dead && !r.Pending && r.Err == nil && (!r.Exited || r.Code == 0)
}

// Failed: the operation reported a failure in the regular way.
func (r *Res) Failed() bool {
	return r.Panic == "" && r.Hang == "" && r.Lock == "" && !r.Dead && !r.Pending && (r.Err != nil || r.Exited && r.Code != 0)
}

// Sane fails the scenario if the operation ended in no regular way.
func (c *Ctx) Sane(r *Res, what string) {
	if r.Panic != "" {
		c.Fail("panic", "%s: panic %s", what, r.Panic)
	}
	if r.Hang != "" {
		c.Fail("hang", "%s: %s", what, r.Hang)
	}
	if r.Lock != "" {
		c.Fail("deadlock", "%s: %s", what, r.Lock)
	}
	if r.Pending {
		c.Fail("no return", "%s did not return", what)
	}
}

// Need fails the scenario unless the operation succeeded.
func (c *Ctx) Need(r *Res, what string) {
	c.Sane(r, what)
	if !r.OK() {
		c.Fail("refused", "%s: %s", what, r)
	}
}

// Do runs one operation in a process.
func (c *Ctx) Do(w *vsim.World, p *vsim.Proc, what string, fn func() error) *Res {
	w.Note("%s", what)
	r := &Res{Pending: true}
	o, e := len(p.Stdout), len(p.Stderr)
	t := w.Spawn(p, what, func() {
		err := fn()
		r.Err = err
		r.Pending = false
	})
	w.RunAll()
	r.finish(w, t)
	r.Out, r.Errout = string(p.Stdout[o:]), string(p.Stderr[e:])
	w.Note("%s: %s", what, cut(r.String()))
	return r
}

func cut(s string) string {
	if i := strings.IndexByte(s, 0); i >= 0 {
		s = s[:i]
	}
	if len(s) > 150 {
		s = s[:150]
	}
	return s
}

func (r *Res) finish(w *vsim.World, t *vsim.Task) {
	p := t.Proc
	if t.Panic != nil {
		r.Panic = fmt.Sprintf("%v at %s", t.Panic, t.PanicAt)
		r.Pending = false
	}
	r.Hang, r.Lock = w.Hang, w.Deadlock
	if p.Exited {
		r.Exited, r.Code = true, p.ExitCode
		r.Pending = false
	} else if p.Dead {
		r.Dead = true
		r.Pending = false
	}
}

// CLI runs the command in a process of its own.
func (c *Ctx) CLI(w *vsim.World, stdin string, args ...string) *Res {
	p := w.NewProc("lharc")
	return c.CLIIn(w, p, stdin, args...)
}

func (c *Ctx) CLIIn(w *vsim.World, p *vsim.Proc, stdin string, args ...string) *Res {
	p.Args = append([]string{"lharc"}, args...)
	p.Stdin = []byte(stdin)
	r := c.Do(w, p, "lharc "+strings.Join(args, " "), func() error { genreg.Main(); return nil })
	if !r.Exited && r.OK() {
		r.Exited = true /* main returned */
	}
	return r
}

// Hdr is what a header says.
type Hdr struct {
	Name, Method, Target string
	Size, Packed, Level  int
	CRC                  int
	HasCRC               bool
	Time                 int64
	Mode                 int
	UID, GID             int
	User, Group          string
}

func cstr(b []byte) string {
	for i, x := range b {
		if x == 0 {
			return string(b[:i])
		}
	}
	return string(b)
}

func toHdr(h *lha.LzHeader) Hdr {
	r := Hdr{Name: cstr(h.Name), Method: string(h.Method), Size: h.OriginalSize, Packed: h.PackedSize, Level: int(h.HeaderLevel),
		CRC: int(h.Crc), HasCRC: h.HasCrc, Time: h.UnixLastModifiedStamp, Mode: int(h.UnixMode), UID: int(h.UnixUID), GID: int(h.UnixGid), User: cstr(h.User), Group: cstr(h.Group)}
	if r.Mode&0170000 == 0120000 {
		r.Target = cstr(h.Realname)
	}
	return r
}

// named makes the header of a request for a member.
func named(name string) *lha.LzHeader {
	h := lha.NewLzHeader()
	h.Name = append([]byte(name), 0)
	return h
}

// Headers lists an archive.
func (c *Ctx) Headers(w *vsim.World, p *vsim.Proc, arc string) ([]Hdr, *Res) {
	var hs []Hdr
	r := c.Do(w, p, "Headers "+arc, func() error {
		l := lha.NewLha(arc)
		x, err := l.Headers()
		for _, h := range x {
			hs = append(hs, toHdr(h))
		}
		return err
	})
	return hs, r
}

// Bytes extracts a member to memory.
func (c *Ctx) Bytes(w *vsim.World, p *vsim.Proc, arc, name string) ([]byte, *Res) {
	var b []byte
	r := c.Do(w, p, "DecompresBytes "+name, func() error {
		l := lha.NewLha(arc)
		x, err := l.DecompresBytes(named(name))
		b = append([]byte{}, x...)
		return err
	})
	return b, r
}

// File is a file to archive.
type File struct {
	Path  string
	Data  []byte
	Mode  os.FileMode
	Mtime int64 /* s */
	Kind  string
	As    string   /* != "": the name of the member */
	To    string   /* of a link */
	Up    []string /* the directories it is found in by recursion */
	Spell string   /* != "": how the argument names /w/src/, the working directory */
}

// Regular: neither a directory nor a link.
func (f *File) Regular() bool { return f.Kind != "dir" && f.Kind != "link" }

func (f *File) Base() string {
	if f.As != "" {
		return f.As
	}
	return f.Path[strings.LastIndexByte(f.Path, '/')+1:]
}

func (f *File) put(w *vsim.World) {
	switch f.Kind {
	case "dir":
		w.FS.Drop(f.Path)
		n := w.FS.MkdirAll(f.Path)
		n.Perm, n.Mtime = f.Mode, f.Mtime*1e9+f.frac()
		return
	case "link":
		w.FS.Symlink(f.To, f.Path)
		w.FS.Get(f.Path).Mtime = f.Mtime*1e9 + f.frac()
		return
	}
	w.FS.Put(f.Path, f.Data, f.Mode, f.Mtime*1e9+f.frac())
}

// frac is the part of a second of the modification time.
func (f *File) frac() int64 {
	switch x := (f.Mtime/7 + int64(len(f.Data))) % 5; x {
	case 0, 1:
		return 0
	case 2:
		return 999999999
	default:
		return (f.Mtime%1000)*999983 + x
	}
}

func show(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%d bytes %q...", len(b), b[:24])
	}
	return fmt.Sprintf("%d bytes %q", len(b), b)
}

// diff tells where two byte strings part.
func diff(got, want []byte) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("%d bytes instead of %d, first difference at %d", len(got), len(want), i)
		}
	}
	return fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
}

func eq(a, b []byte) bool { return string(a) == string(b) }

func rnd(seed uint64) func(int) int {
	p := vsim.NewPRNG(seed)
	return func(n int) int { return p.Intn(n) }
}

// Trivial: the scenario did not reach what the property is about.
func (c *Ctx) Trivial() bool { return c.trivial }
