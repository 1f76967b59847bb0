package checks

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"

	"lhasim/gen/lha"
	"lhasim/ref"
	"lhasim/vsim"
)

// Arc is the archive of the scenario; there is one scenario at a time.
var Arc = "/w/arc/a.lzh"

var arcNames = []string{"b", "c.d.lzh", ".hidden", "é x.LZH", "-a.lzh", "archive.lha", "a,b.lzh", "lzh"}

// Add is one operation that writes to an archive.
type Add struct {
	API     string /* Compress, CompressBytes, CommandAdd, CLI */
	Files   []*File
	Method  int
	Level   int
	Sort    bool
	New     bool
	Update  bool
	Backup  bool
	Move    bool
	Noexec  bool
	Generic bool
	Recurse bool
	Exclude []string
	Arc     string
	Args    []string /* != nil: the arguments; Files are what they lead to */
	Rel     bool     /* arguments relative to /w/src, the working directory */
	Auto    bool     /* no arguments: the members are updated from the working directory */
}

func (a *Add) String() string {
	s := a.API
	for _, x := range []struct {
		b bool
		n string
	}{{a.Sort, "sort"}, {a.New, "new"}, {a.Update, "update"}, {a.Backup, "backup"}, {a.Move, "move"}, {a.Noexec, "noexec"}, {a.Generic, "generic"}, {a.Recurse, "recurse"}, {a.Auto, "auto"}} {
		if x.b {
			s += " " + x.n
		}
	}
	s += fmt.Sprintf(" method %d level %d:", a.Method, a.Level)
	for _, f := range a.Files {
		s += " " + cut(f.Base()) + "=" + f.Kind
	}
	if a.Rel {
		s += " (relative)"
	}
	if len(a.Exclude) > 0 {
		s += fmt.Sprintf(" exclude %q", a.Exclude)
	}
	return s
}

func (a *Add) arc() string {
	if a.Arc != "" {
		return a.Arc
	}
	return Arc
}

// ops lists the calls the operation is made of; all but those of Compress and
// CompressBytes with several files are one call.
func (a *Add) ops() []func() error {
	switch a.API {
	case "Compress":
		var r []func() error
		for _, f := range a.Files {
			f := f
			r = append(r, func() error {
				l := a.lha()
				return l.Compress(a.path(f), a.Method, a.Level)
			})
		}
		return r
	case "CompressBytes":
		var r []func() error
		for _, f := range a.Files {
			f := f
			r = append(r, func() error {
				l := a.lha()
				return l.CompressBytes(f.Path, f.Data, a.Method, a.Level)
			})
		}
		return r
	}
	return []func() error{func() error {
		l := a.lha()
		l.CompressMethod = a.Method
		l.HeaderLevel = a.Level
		l.CmdFilev = a.paths()
		l.CmdFilec = len(l.CmdFilev)
		return lha.CommandAdd(a.arc(), l)
	}}
}

func (a *Add) paths() []string {
	if a.Auto {
		return nil
	}
	if a.Args != nil {
		return append([]string{}, a.Args...)
	}
	var r []string
	for _, f := range a.Files {
		r = append(r, a.path(f))
	}
	return r
}

// path is how the argument names the file.
func (a *Add) path(f *File) string {
	if f.Spell != "" && strings.HasPrefix(f.Path, "/w/src/") {
		return f.Spell + f.Path[len("/w/src/"):]
	}
	if a.Rel && strings.HasPrefix(f.Path, "/w/src/") {
		return f.Path[len("/w/src/"):]
	}
	return f.Path
}

func (a *Add) lha() *lha.Lha {
	lha.GenericFormat = a.Generic
	l := lha.NewLha(a.arc())
	if a.API == "CommandAdd" && (a.Method+a.Level+len(a.Files))%2 == 0 {
		l = lha.NewLha("/w/arc/another.lzh") /* the archive is an argument */
	}
	l.SortContents = a.Sort
	l.NewArchive = a.New
	l.UpdateIfNewer = a.Update
	l.BackupOldArchive = a.Backup
	l.DeleteAfterAppend = a.Move
	l.Noexec = a.Noexec
	l.RecursiveArchiving = a.Recurse
	l.ExcludeFiles = a.Exclude
	return l
}

// args is the command line; it takes one file, or two with New.
func (a *Add) args() []string {
	r := []string{"-archive", a.arc()}
	for i, f := range a.paths() {
		if i == 0 && a.New {
			r = append(r, "-c", f)
		} else {
			r = append(r, "-a", f)
		}
	}
	if a.Update {
		r = append(r, "-u")
	}
	if a.Move {
		r = append(r, "-m")
	}
	if a.Noexec {
		r = append(r, "-n")
	}
	if len(a.Exclude) > 0 {
		r = append(r, "-x", strings.Join(a.Exclude, ","))
	}
	switch {
	case a.Method != 5 && a.Method > 1: /* the options give level 0 or 1 */
		r = append(r, "-o", fmt.Sprint(a.Method))
		if a.Level == 1 {
			r = append(r, "-h", "1")
		}
		if !a.Generic {
			r = append(r, "-g", "5")
		}
	case !a.Generic:
		r = append(r, "-g", "5")
		if a.Level == 1 {
			r = append(r, "-h", "1")
		}
	case a.Level != 2:
		r = append(r, "-g", fmt.Sprint(a.Level))
	}
	return r
}

// add runs an operation; with several calls, the first that fails ends it.
func (c *Ctx) add(w *vsim.World, p *vsim.Proc, a *Add) *Res {
	if a.API == "CLI" {
		if p != nil && p.Unused() {
			return c.CLIIn(w, p, "", a.args()...)
		}
		q := w.NewProc("lharc")
		if p != nil {
			q.Cwd = p.Cwd
		}
		return c.CLIIn(w, q, "", a.args()...)
	}
	var r *Res
	for i, op := range a.ops() {
		r = c.Do(w, p, fmt.Sprintf("%s %d", a.API, i), op)
		if !r.OK() {
			break
		}
	}
	return r
}

// drawAdd draws an operation on some of the files. one: a single call.
func (c *Ctx) drawAdd(files []*File, one bool) *Add {
	a := &Add{Method: c.Method(), Level: c.Level()}
	a.API = []string{"CommandAdd", "Compress", "CLI", "CompressBytes"}[c.T.Intn(4)]
	a.Files = append(a.Files, files...)
	a.Generic = c.T.Bool(1, 4)
	switch a.API {
	case "CLI":
		a.Sort = true
		if len(a.Files) > 2 {
			a.Files = a.Files[:2]
		}
		if len(a.Files) == 2 {
			a.New = true
			/* the command sorts its arguments */
		}
		if a.Method < 5 {
			a.Method = 5
		}
		if a.Method != 5 {
			a.Level = min(a.Level, 1)
		} else if !a.Generic {
			a.Level = min(a.Level, 1)
		}
	case "CommandAdd":
		a.Sort = c.T.Bool(1, 3)
	default:
		if one {
			a.Files = a.Files[:1]
		}
	}
	a.Level = fit(a.Level, bases(a.Files)...)
	return a
}

func (c *Ctx) drawOne(f *File) *Add { return c.drawAdd([]*File{f}, true) }

// Entry is what an archive is expected to hold.
type Entry struct {
	Name  string
	Data  []byte
	Raw   []byte /* != nil: the member must be these bytes */
	Stamp int64
	To    string
	Any   bool /* the content is not known */
	hdr   int  /* the length of the header */
}

// Model is the expected archive; nil Old means that there is none.
type Model struct {
	E []*Entry
}

func (m *Model) clone() *Model { return &Model{append([]*Entry{}, m.E...)} }

func (m *Model) find(name string) *Entry {
	for _, e := range m.E {
		if e.Name == name {
			return e
		}
	}
	return nil
}

// excluded is the rule of -x.
func excluded(name string, ex []string) bool {
	for _, x := range ex {
		if strings.EqualFold(x, path.Base(name)) {
			return true
		}
	}
	return false
}

// apply yields the archive after the operation, and the files that it takes.
func (m *Model) apply(w *vsim.World, a *Add) (*Model, []*File) {
	var take []*File
	for _, f := range a.Files {
		if a.API != "CompressBytes" {
			out := excluded(f.Path, a.Exclude)
			for _, u := range f.Up {
				out = out || excluded(u, a.Exclude)
			}
			if out {
				continue
			}
			if w.FS.Get(f.Path) == nil || f.Path == a.arc() {
				continue
			}
			if a.Auto && m.find(f.Base()) == nil {
				continue
			}
			if e := m.find(f.Base()); a.Update && e != nil && e.Stamp >= f.Mtime {
				continue
			}
		}
		take = append(take, f)
	}
	n := &Model{}
	if !a.New {
		for _, e := range m.E {
			hit := false
			for _, f := range take {
				if f.Base() == e.Name {
					hit = true
				}
			}
			if !hit {
				n.E = append(n.E, e)
			}
		}
	}
	for _, f := range take {
		n.E = append(n.E, &Entry{Name: f.Base(), Data: f.Data, Stamp: f.Mtime, To: f.To})
	}
	return n, take
}

// load reads an archive with the reference reader into the model.
func (c *Ctx) load(b []byte) *Model {
	ms, err := ref.Parse(b)
	if err != nil {
		panic("the workload made a bad archive: " + err.Error())
	}
	m := &Model{}
	for _, x := range ms {
		d, ok := c.packed[x.Method+string(x.Packed)]
		if !ok {
			d, err = x.Content()
		}
		if err != nil {
			panic("the workload made a bad archive: " + err.Error())
		}
		m.E = append(m.E, &Entry{Name: x.Name, Data: d, Raw: append([]byte{}, x.Raw...), Stamp: x.Stamp(c.Loc), hdr: len(x.Raw) - len(x.Packed)})
	}
	return m
}

// match tells how archive bytes differ from the model ("" : not at all).
func (c *Ctx) match(b []byte, m *Model) (string, []*ref.Member) {
	ms, err := ref.Parse(b)
	if err != nil {
		return "not a valid archive: " + err.Error(), nil
	}
	/* two files of one base name are two members of one name */
	left := map[string][]int{}
	for i, x := range ms {
		left[x.Name] = append(left[x.Name], i)
	}
	c.assign = map[*ref.Member]*Entry{}
	last := -1
	for _, e := range m.E {
		l := left[e.Name]
		if len(l) == 0 {
			return fmt.Sprintf("no member %q (%d members)", e.Name, len(ms)), ms
		}
		why := ""
		for k, i := range l {
			x := ms[i]
			bad := e.differs(x)
			if bad == "" {
				why = ""
				left[e.Name] = append(append([]int{}, l[:k]...), l[k+1:]...)
				c.assign[x] = e
				if e.Raw != nil { /* the members that stay keep their order */
					if i < last {
						return fmt.Sprintf("member %q changed its place", e.Name), ms
					}
					last = i
				}
				break
			}
			if why == "" {
				why = bad
			}
		}
		if why != "" {
			return why, ms
		}
	}
	for _, x := range ms {
		if c.assign[x] != nil {
			continue
		}
		if m.find(x.Name) != nil {
			return fmt.Sprintf("member %q twice", x.Name), ms
		}
		return fmt.Sprintf("unexpected member %q", x.Name), ms
	}
	return "", ms
}

// differs tells how a member differs from what is expected.
func (e *Entry) differs(x *ref.Member) string {
	if e.Raw != nil {
		if !eq(e.Raw, x.Raw) {
			return fmt.Sprintf("member %q, which is not replaced, changed: %s", e.Name, diff(x.Raw, e.Raw))
		}
		return ""
	}
	d, err := x.Content()
	if err != nil {
		return fmt.Sprintf("member %q: %v", e.Name, err)
	}
	if !e.Any && x.Target != e.To {
		return fmt.Sprintf("member %q leads to %q instead of %q", e.Name, x.Target, e.To)
	}
	if !e.Any && !eq(d, e.Data) {
		return fmt.Sprintf("member %q: %s", e.Name, diff(d, e.Data))
	}
	return ""
}

// settle makes the model remember the bytes now in the archive, which were matched
// with it.
func (c *Ctx) settle(ms []*ref.Member) *Model {
	n := &Model{}
	for _, x := range ms {
		e := c.assign[x]
		n.E = append(n.E, &Entry{Name: x.Name, Data: e.Data, Raw: append([]byte{}, x.Raw...), Stamp: x.Stamp(c.Loc), To: x.Target})
	}
	return n
}

// twice: a name is that of several members.
func (m *Model) twice() bool {
	seen := map[string]bool{}
	for _, e := range m.E {
		if seen[e.Name] {
			return true
		}
		seen[e.Name] = true
	}
	return false
}

// refArchive makes an archive of the files with the reference encoder.
func (c *Ctx) refArchive(files []*File) []byte {
	var out []byte
	for _, f := range files {
		out = append(out, c.refMember(f)...)
	}
	return append(out, 0)
}

func (c *Ctx) refMember(f *File) []byte {
	r := rnd(c.T.Seed32())
	m := &ref.Member{Name: f.Base(), Level: c.T.Intn(4), Attr: 0x20, OS: 'U', HasMode: true, HasTime: true, Time: f.Mtime, Mode: 0100000 | int(f.Mode.Perm()), Orig: len(f.Data), CRC: ref.CRC16(f.Data)}
	if m.Level == 0 && len(m.Name) > 180 {
		m.Level = 2
	}
	if f.Kind == "dir" {
		m.Method, m.Mode = "-lhd-", 040000|int(f.Mode.Perm())
		return m.Build(c.Loc, r)
	}
	k := ref.Methods[0]
	if len(f.Data) > 0 {
		k = ref.Methods[c.T.Intn(len(ref.Methods))]
		ts := k.Parse(f.Data, r)
		if !eq(k.Expand(ts), f.Data) {
			k = ref.Methods[0]
			ts = k.Parse(f.Data, r)
		}
		m.Packed = k.Pack(ts, r)
	}
	m.Method = k.ID
	if c.packed == nil {
		c.packed = map[string][]byte{}
	}
	c.packed[k.ID+string(m.Packed)] = f.Data
	return m.Build(c.Loc, r)
}

// ---- fault plans ----

var errnos = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EDQUOT, syscall.EPERM}

// classes lists the calls of a run, as the classes that satisfy keep, sorted.
func classes(w *vsim.World, keep func(class string) bool) []string {
	var r []string
	for k := range w.Counts {
		if keep == nil || keep(k) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// fault draws a fault among the calls that a fault-free run made.
func (c *Ctx) fault(dry map[string]int, keep func(class string) bool) *vsim.Fault {
	var ks []string
	for k := range dry {
		if keep == nil || keep(k) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return nil
	}
	sort.Strings(ks)
	k := ks[c.T.Intn(len(ks))]
	n := dry[k]
	i := 0
	switch c.T.Intn(4) {
	case 0:
		i = n - 1
	case 1:
		i = 0
	default:
		i = c.T.Intn(n)
	}
	f := &vsim.Fault{Class: k, Nth: i}
	op := k[:strings.IndexByte(k, ':')]
	switch op {
	case "open", "create":
		f.Err = []syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOSPC, syscall.EROFS}[c.T.Intn(5)]
	case "read", "seek", "fstat", "stat", "lstat", "readdir", "readlink":
		f.Err = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ESTALE}[c.T.Intn(3)]
	case "write":
		f.Err = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}[c.T.Intn(3)]
		f.Partial = []int{0, 50, 99, 100}[c.T.Intn(4)]
	case "close", "sync", "truncate":
		f.Err = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}[c.T.Intn(3)]
	default:
		f.Err = errnos[c.T.Intn(len(errnos))]
	}
	return f
}

// fileFault: calls on files, not on the standard streams.
func fileFault(k string) bool {
	return !strings.HasSuffix(k, ":stdout") && !strings.HasSuffix(k, ":stderr")
}

// diffCounts is the calls made since before.
func diffCounts(after, before map[string]int) map[string]int {
	r := map[string]int{}
	for k, n := range after {
		if n > before[k] {
			r[k] = n - before[k]
		}
	}
	return r
}

func copyCounts(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// snapDiff names the paths that differ between two snapshots, apart from some.
func snapDiff(a, b map[string]string, except func(p string) bool) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if except != nil && except(k) {
			continue
		}
		x, ok := a[k]
		y, ok2 := b[k]
		if ok && !ok2 {
			return k + " disappeared"
		}
		if !ok && ok2 {
			return k + " appeared (" + y + ")"
		}
		if x != y {
			return k + " changed from " + x + " to " + y
		}
	}
	return ""
}

var _ = os.ModePerm
