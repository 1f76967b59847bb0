package vsim

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Kind int

const (
	KFile Kind = iota
	KDir
	KLink
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	ID       int
	Kind     Kind
	Perm     os.FileMode
	UID, GID int
	Mtime    int64 /* ns */
	Data     []byte
	Entries  map[string]*Inode
	Target   string
	Dev      int

	synced  []byte /* content that survives a power loss */
	dirty   bool
	Writes  int /* number of changes to the content */
	MetaChg int
}

type metaOp struct {
	op         string
	dir, dir2  int
	name, nam2 string
	node       *Inode
}

// FS is the simulated file system.
type FS struct {
	w       *World
	Root    *Inode
	next    int
	base    map[int]*durNode
	journal []metaOp
	minDur  int /* journal entries known to be durable */
	Cap     int /* bytes of file data, 0: no limit */
	used    int
	Mounts  map[string]int
	Mut     int /* number of changes of any kind */
	MutLog  []string
}

type durNode struct {
	node    *Inode
	entries map[string]int
}

func NewFS(w *World) *FS {
	f := &FS{w: w}
	f.Root = f.node(KDir, 0755)
	return f
}

func (f *FS) node(k Kind, perm os.FileMode) *Inode {
	f.next++
	n := &Inode{ID: f.next, Kind: k, Perm: perm}
	if f.w != nil {
		n.Mtime = f.w.Now
		n.UID, n.GID = f.w.Euid, f.w.Euid
	}
	if k == KDir {
		n.Entries = map[string]*Inode{}
	}
	return n
}

// ---- set-up by the workload, without faults ----

func (f *FS) MkdirAll(p string) *Inode {
	n := f.Root
	for _, e := range split(p) {
		c := n.Entries[e]
		if c == nil {
			c = f.node(KDir, 0755)
			n.Entries[e] = c
		}
		n = c
	}
	return n
}

func (f *FS) Put(p string, data []byte, perm os.FileMode, mtime int64) *Inode {
	d := f.MkdirAll(path.Dir(p))
	n := f.node(KFile, perm)
	n.Data = append([]byte{}, data...)
	n.synced = n.Data
	n.Mtime = mtime
	d.Entries[path.Base(p)] = n
	f.used += len(data)
	return n
}

// Link gives a file that is there another name.
func (f *FS) Link(old, p string) {
	f.MkdirAll(path.Dir(p)).Entries[path.Base(p)] = f.Get(old)
}

func (f *FS) Symlink(target, p string) {
	d := f.MkdirAll(path.Dir(p))
	n := f.node(KLink, 0777)
	n.Target = target
	d.Entries[path.Base(p)] = n
}

func split(p string) []string {
	var r []string
	for _, e := range strings.Split(p, "/") {
		if e != "" && e != "." {
			r = append(r, e)
		}
	}
	return r
}

// Get looks a path up without following a final link and without side effects.
func (f *FS) Get(p string) *Inode {
	n := f.Root
	for _, e := range split(p) {
		if n == nil || n.Kind != KDir {
			return nil
		}
		n = n.Entries[e]
	}
	return n
}

func (f *FS) Content(p string) ([]byte, bool) {
	n := f.Get(p)
	if n == nil || n.Kind != KFile {
		return nil, false
	}
	return n.Data, true
}

// Snapshot lists every path with kind, content and attributes.
func (f *FS) Snapshot() map[string]string {
	r := map[string]string{}
	f.walk("", f.Root, func(p string, n *Inode) {
		r[p] = n.describe()
	})
	return r
}

// Full is a snapshot with every attribute.
func (f *FS) Full() map[string]string {
	r := map[string]string{}
	f.walk("", f.Root, func(p string, n *Inode) {
		r[p] = n.describe() + " " + strconv.Itoa(n.UID) + "/" + strconv.Itoa(n.GID)
		if n.Kind == KDir {
			r[p] += " " + time.Unix(0, n.Mtime).UTC().Format(time.RFC3339Nano)
		}
	})
	return r
}

// CopyTo puts all that is in the file system into another one.
func (f *FS) CopyTo(g *FS) {
	f.Walk(func(p string, n *Inode) {
		switch n.Kind {
		case KDir:
			x := g.MkdirAll(p)
			x.Perm, x.UID, x.GID, x.Mtime = n.Perm, n.UID, n.GID, n.Mtime
		case KLink:
			g.Symlink(n.Target, p)
		default:
			x := g.Put(p, n.Data, n.Perm, n.Mtime)
			x.UID, x.GID = n.UID, n.GID
		}
	})
}

func (n *Inode) describe() string {
	switch n.Kind {
	case KDir:
		return "dir " + n.Perm.String()
	case KLink:
		return "link " + n.Target
	}
	return "file " + n.Perm.String() + " " + time.Unix(0, n.Mtime).UTC().Format(time.RFC3339Nano) + " " + HashHex(n.Data)
}

// HashHex is a digest of b.
func HashHex(b []byte) string {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	const d = "0123456789abcdef"
	s := ""
	for i := 0; i < 16; i++ {
		s += string(d[h>>60])
		h <<= 4
	}
	return s
}

func (f *FS) walk(p string, n *Inode, fn func(string, *Inode)) {
	if p != "" {
		fn(p, n)
	}
	if n.Kind != KDir {
		return
	}
	for _, k := range sortedKeys(n.Entries) {
		f.walk(p+"/"+k, n.Entries[k], fn)
	}
}

// Walk visits every path.
func (f *FS) Walk(fn func(string, *Inode)) { f.walk("", f.Root, fn) }

func sortedKeys(m map[string]*Inode) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// List names the entries of a directory.
func (f *FS) List(p string) []string {
	n := f.Get(p)
	if n == nil {
		return nil
	}
	return sortedKeys(n.Entries)
}

// Freeze makes the present state durable: what a power loss can lose comes later.
func (f *FS) Freeze() {
	f.base = map[int]*durNode{}
	f.journal = nil
	f.minDur = 0
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if f.base[n.ID] != nil {
			return
		}
		d := &durNode{node: n}
		f.base[n.ID] = d
		if n.Kind == KFile {
			n.synced = append([]byte{}, n.Data...)
			n.dirty = false
		}
		if n.Kind == KDir {
			d.entries = map[string]int{}
			for k, c := range n.Entries {
				d.entries[k] = c.ID
				rec(c)
			}
		}
	}
	rec(f.Root)
}

// PowerLoss yields the file system found at the next boot: an ordered prefix of
// the directory changes, and for data never synced any of the outcomes disks show.
func (f *FS) PowerLoss(t *Tape) *FS {
	nodes := map[int]*Inode{}
	ents := map[int]map[string]int{}
	for id, d := range f.base {
		nodes[id] = d.node
		if d.entries != nil {
			m := map[string]int{}
			for k, v := range d.entries {
				m[k] = v
			}
			ents[id] = m
		}
	}
	k := f.minDur
	if len(f.journal) > k {
		k = len(f.journal) - t.Intn(len(f.journal)-k+1)
	}
	for _, j := range f.journal[:k] {
		switch j.op {
		case "link":
			nodes[j.node.ID] = j.node
			if j.node.Kind == KDir && ents[j.node.ID] == nil {
				ents[j.node.ID] = map[string]int{}
			}
			ents[j.dir][j.name] = j.node.ID
		case "unlink":
			delete(ents[j.dir], j.name)
		case "rename":
			ents[j.dir2][j.nam2] = ents[j.dir][j.name]
			delete(ents[j.dir], j.name)
		}
	}
	n := &FS{w: f.w, next: f.next}
	made := map[int]*Inode{}
	var build func(id int) *Inode
	build = func(id int) *Inode {
		if made[id] != nil {
			return made[id]
		}
		o := nodes[id]
		c := &Inode{ID: o.ID, Kind: o.Kind, Perm: o.Perm, UID: o.UID, GID: o.GID, Mtime: o.Mtime, Target: o.Target}
		made[id] = c
		switch o.Kind {
		case KFile:
			c.Data = o.Data
			if o.dirty {
				c.Data = torn(o, t)
			}
			c.Data = append([]byte{}, c.Data...)
			c.synced = c.Data
			n.used += len(c.Data)
		case KDir:
			c.Entries = map[string]*Inode{}
			var names []string
			for k := range ents[id] {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				c.Entries[k] = build(ents[id][k])
			}
		}
		return c
	}
	n.Root = build(f.Root.ID)
	return n
}

// torn is the content of a file that was not synced.
func torn(o *Inode, t *Tape) []byte {
	switch t.Intn(5) {
	case 0: /* all of it had been written back */
		return o.Data
	case 1: /* none of it */
		return o.synced
	case 2: /* a part, the size is there */
		k := t.Intn(len(o.Data) + 1)
		d := make([]byte, len(o.Data))
		copy(d, o.Data[:k])
		return d
	case 3: /* a part */
		return o.Data[:t.Intn(len(o.Data)+1)]
	}
	/* blocks in any order */
	d := append([]byte{}, o.Data...)
	for i := 0; i < len(d); i += 512 {
		if t.Bool(1, 2) {
			for j := i; j < len(d) && j < i+512; j++ {
				d[j] = 0
			}
		}
	}
	return d
}

// ---- path resolution ----

func (f *FS) abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	cwd := "/w"
	if f.w.cur != nil {
		cwd = f.w.cur.Proc.Cwd
	}
	return cwd + "/" + p
}

// lookup resolves p to its directory, last name and node (nil if absent).
func (f *FS) lookup(p string, follow bool) (dir *Inode, name string, n *Inode, err error) {
	return f.resolve(p, follow, 0)
}

func (f *FS) resolve(p string, follow bool, depth int) (*Inode, string, *Inode, error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	if len(p) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	trail := strings.HasSuffix(p, "/")
	p = f.abs(p)
	stack := []*Inode{f.Root}
	dir, name := f.Root, "."
	cur := f.Root
	els := strings.Split(p, "/")
	var rest []string
	for _, e := range els {
		if e != "" && e != "." {
			rest = append(rest, e)
		}
	}
	if len(els) > 0 && els[len(els)-1] == "." {
		trail = true
	}
	links := 0
	for len(rest) > 0 {
		e := rest[0]
		rest = rest[1:]
		top := stack[len(stack)-1]
		if top.Kind != KDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if e == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			cur = stack[len(stack)-1]
			dir, name = cur, "."
			continue
		}
		if len(e) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		c := top.Entries[e]
		last := len(rest) == 0
		if c == nil {
			if last {
				return top, e, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		if c.Kind == KLink && (!last || follow || trail) {
			links++
			if links > 40 {
				return nil, "", nil, syscall.ELOOP
			}
			var add []string
			for _, x := range strings.Split(c.Target, "/") {
				if x != "" && x != "." {
					add = append(add, x)
				}
			}
			if c.Target == "" {
				return nil, "", nil, syscall.ENOENT
			}
			if strings.HasPrefix(c.Target, "/") {
				stack = stack[:1]
				cur = f.Root
				dir, name = f.Root, "."
			}
			rest = append(add, rest...)
			continue
		}
		dir, name, cur = top, e, c
		if !last && c.Kind != KDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		stack = append(stack, c)
	}
	if trail && cur.Kind != KDir {
		return nil, "", nil, syscall.ENOTDIR
	}
	return dir, name, cur, nil
}

func (f *FS) changed(what, p string) {
	f.Mut++
	if len(f.MutLog) < 10000 {
		f.MutLog = append(f.MutLog, what+" "+f.abs(p))
	}
}

func (f *FS) link(d *Inode, name string, n *Inode) {
	d.Entries[name] = n
	d.Mtime = f.w.Now
	f.journal = append(f.journal, metaOp{op: "link", dir: d.ID, name: name, node: n})
}

func (f *FS) unlink(d *Inode, name string) {
	delete(d.Entries, name)
	d.Mtime = f.w.Now
	f.journal = append(f.journal, metaOp{op: "unlink", dir: d.ID, name: name})
}

func (f *FS) dev(d *Inode) int { return d.Dev }

// ---- handles ----

// Handle is an open file.
type Handle struct {
	w      *World
	Path   string
	role   string
	n      *Inode
	proc   *Proc
	pos    int64
	rd, wr bool
	app    bool
	closed bool
	std    int /* 1 stdin, 2 stdout, 3 stderr */
	dirpos int
	short  *PRNG
	lost   bool
}

func (w *World) fsErr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

// OpenFile is open(2).
func OpenFile(name string, flag int, perm os.FileMode) (*Handle, error) {
	w := W
	if w == nil {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOSYS}
	}
	role := w.Role(w.FS.abs(name))
	op := "open"
	if flag&(os.O_CREATE|os.O_WRONLY|os.O_RDWR|os.O_TRUNC) != 0 {
		op = "create"
	}
	f, dead := w.seam(op, name, role)
	if dead {
		return nil, w.fsErr("open", name, syscall.EIO)
	}
	if f != nil && f.Crash == 0 {
		return nil, w.fsErr("open", name, f.Err)
	}
	p := w.cur.Proc
	if len(p.handles) >= w.HandleLimit {
		w.Fired["open EMFILE natural"]++
		return nil, w.fsErr("open", name, syscall.EMFILE)
	}
	dir, base, n, err := w.FS.lookup(name, flag&syscall.O_NOFOLLOW == 0 && flag&(os.O_CREATE|os.O_EXCL) != os.O_CREATE|os.O_EXCL)
	if err != nil {
		return nil, w.fsErr("open", name, err)
	}
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, w.fsErr("open", name, syscall.ENOENT)
		}
		if strings.HasSuffix(name, "/") {
			return nil, w.fsErr("open", name, syscall.EISDIR)
		}
		n = w.FS.node(KFile, perm.Perm()&^022)
		w.FS.link(dir, base, n)
		w.FS.changed("create", name)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, w.fsErr("open", name, syscall.EEXIST)
		}
		if n.Kind == KDir && (wr || flag&os.O_CREATE != 0) {
			return nil, w.fsErr("open", name, syscall.EISDIR)
		}
		if n.Kind == KLink {
			return nil, w.fsErr("open", name, syscall.ELOOP)
		}
		if wr && flag&os.O_TRUNC != 0 && n.Kind == KFile {
			w.FS.setData(n, nil)
			w.FS.changed("truncate", name)
		}
	}
	h := &Handle{w: w, Path: name, role: role, n: n, proc: p, rd: flag&os.O_WRONLY == 0, wr: wr, app: flag&os.O_APPEND != 0}
	if w.ShortSeed != 0 {
		h.short = NewPRNG(Mix(w.ShortSeed, uint64(w.SeamN)))
	}
	p.handles[h] = true
	w.after(f, op, name)
	return h, nil
}

func (f *FS) setData(n *Inode, d []byte) {
	f.used += len(d) - len(n.Data)
	n.Data = d
	n.dirty = true
	n.Writes++
	n.Mtime = f.w.Now
}

func (h *Handle) bad(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return &os.PathError{Op: op, Path: h.Path, Err: os.ErrClosed}
	}
	return nil
}

// seamH is seam for an open file.
func (h *Handle) seam(op string) (*Fault, error) {
	if err := h.bad(op); err != nil {
		return nil, err
	}
	f, dead := h.w.seam(op, h.Path, h.role)
	if dead {
		return nil, &os.PathError{Op: op, Path: h.Path, Err: syscall.EIO}
	}
	return f, nil
}

func (h *Handle) Read(b []byte) (int, error) {
	n, err := h.read(b, h.pos, true)
	return n, err
}

func (h *Handle) read(b []byte, at int64, move bool) (int, error) {
	f, err := h.seam("read")
	if err != nil {
		return 0, err
	}
	if f != nil && f.Crash == 0 {
		return 0, &os.PathError{Op: "read", Path: h.Path, Err: f.Err}
	}
	if h.std == 1 {
		p := h.w.cur.Proc
		if len(b) == 0 {
			return 0, nil
		}
		if p.stdinPos >= len(p.Stdin) {
			if p.StdinErr != nil {
				return 0, p.StdinErr
			}
			return 0, io.EOF
		}
		n := copy(b, p.Stdin[p.stdinPos:])
		/* a terminal gives at most one line */
		for i := 0; i < n; i++ {
			if b[i] == '\n' {
				n = i + 1
				break
			}
		}
		p.stdinPos += n
		return n, nil
	}
	if h.std != 0 || !h.rd {
		return 0, &os.PathError{Op: "read", Path: h.Path, Err: syscall.EBADF}
	}
	if h.n.Kind == KDir {
		return 0, &os.PathError{Op: "read", Path: h.Path, Err: syscall.EISDIR}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if at >= int64(len(h.n.Data)) {
		return 0, io.EOF
	}
	n := len(b)
	if h.short != nil && n > 1 {
		switch h.short.Intn(4) {
		case 0:
			n = 1
			h.w.Fired["short read"]++
		case 1:
			n = 1 + h.short.Intn(n)
			h.w.Fired["short read"]++
		}
	}
	n = copy(b[:n], h.n.Data[at:])
	h.w.mix(uint64(at)<<20 ^ uint64(n))
	if move {
		h.pos += int64(n)
	}
	h.w.after(f, "read", h.Path)
	return n, nil
}

func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	got := 0
	for got < len(b) {
		n, err := h.read(b[got:], off+int64(got), false)
		got += n
		if err != nil {
			return got, err
		}
	}
	return got, nil
}

func (h *Handle) Write(b []byte) (int, error) { return h.write(b, -1) }

func (h *Handle) WriteAt(b []byte, off int64) (int, error) { return h.write(b, off) }

func (h *Handle) write(b []byte, off int64) (int, error) {
	if h != nil && h.std > 1 {
		return h.writeStd(b)
	}
	f, err := h.seam("write")
	if err != nil {
		return 0, err
	}
	if !h.wr || h.n.Kind != KFile {
		return 0, &os.PathError{Op: "write", Path: h.Path, Err: syscall.EBADF}
	}
	n := len(b)
	var werr error
	if f != nil && f.Crash == 0 {
		n = n * f.Partial / 100
		if n == len(b) && n > 0 {
			n--
		}
		werr = f.Err
	}
	pos := h.pos
	if off >= 0 {
		pos = off
	}
	if h.app {
		pos = int64(len(h.n.Data))
	}
	if fs := h.w.FS; fs.Cap > 0 {
		grow := int(pos) + n - len(h.n.Data)
		if grow > 0 && fs.used+grow > fs.Cap {
			room := fs.Cap - fs.used
			if room < 0 {
				room = 0
			}
			n = n - (grow - room)
			if n < 0 {
				n = 0
			}
			werr = syscall.ENOSPC
			h.w.Fired["disk full"]++
		}
	}
	if n > 0 {
		h.w.FS.writeData(h.n, pos, b[:n])
		h.w.FS.changed("write", h.Path)
		h.w.mix(uint64(pos))
		for _, c := range b[:n] {
			h.w.mix(uint64(c))
		}
		if off < 0 {
			h.pos = pos + int64(n)
		}
	}
	if werr != nil {
		return n, &os.PathError{Op: "write", Path: h.Path, Err: werr}
	}
	h.w.after(f, "write", h.Path)
	return n, nil
}

func (h *Handle) writeStd(b []byte) (int, error) {
	if err := h.bad("write"); err != nil {
		return 0, err
	}
	w := h.w
	if w == nil {
		w = W
	}
	if w == nil || w.cur == nil {
		return len(b), nil
	}
	p := w.cur.Proc
	if p.Dead {
		return 0, syscall.EIO
	}
	name := "stdout"
	if h.std == 3 {
		name = "stderr"
	}
	f, dead := w.seam("write", name, name)
	if dead {
		return 0, syscall.EIO
	}
	if f != nil && f.Crash == 0 {
		return 0, &os.PathError{Op: "write", Path: name, Err: f.Err}
	}
	if h.std == 2 {
		p.Stdout = append(p.Stdout, b...)
	} else {
		p.Stderr = append(p.Stderr, b...)
	}
	w.after(f, "write", name)
	return len(b), nil
}

func (f *FS) writeData(n *Inode, pos int64, b []byte) {
	end := int(pos) + len(b)
	if end > len(n.Data) {
		f.used += end - len(n.Data)
		if end <= cap(n.Data) && n.dirty {
			n.Data = n.Data[:end]
		} else {
			d := make([]byte, end, end+end/2+64)
			copy(d, n.Data)
			n.Data = d
		}
	} else if !n.dirty {
		n.Data = append([]byte{}, n.Data...)
	}
	copy(n.Data[pos:], b)
	n.dirty = true
	n.Writes++
	n.Mtime = f.w.Now
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	f, err := h.seam("seek")
	if err != nil {
		return 0, err
	}
	if f != nil && f.Crash == 0 {
		return 0, &os.PathError{Op: "seek", Path: h.Path, Err: f.Err}
	}
	if h.std != 0 {
		return 0, &os.PathError{Op: "seek", Path: h.Path, Err: syscall.ESPIPE}
	}
	switch whence {
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += int64(len(h.n.Data))
	}
	if off < 0 {
		return 0, &os.PathError{Op: "seek", Path: h.Path, Err: syscall.EINVAL}
	}
	h.pos = off
	h.w.after(f, "seek", h.Path)
	return off, nil
}

func (h *Handle) Truncate(size int64) error {
	f, err := h.seam("truncate")
	if err != nil {
		return err
	}
	if f != nil && f.Crash == 0 {
		return &os.PathError{Op: "truncate", Path: h.Path, Err: f.Err}
	}
	if !h.wr || h.n.Kind != KFile || size < 0 {
		return &os.PathError{Op: "truncate", Path: h.Path, Err: syscall.EINVAL}
	}
	h.w.FS.truncate(h.n, int(size))
	h.w.FS.changed("truncate", h.Path)
	h.w.after(f, "truncate", h.Path)
	return nil
}

func (f *FS) truncate(n *Inode, size int) {
	d := make([]byte, size)
	copy(d, n.Data)
	f.setData(n, d)
}

func (h *Handle) Sync() error {
	f, err := h.seam("sync")
	if err != nil {
		return err
	}
	if f != nil && f.Crash == 0 {
		/* what had not been written is gone */
		h.w.FS.lose(h.n)
		return &os.PathError{Op: "sync", Path: h.Path, Err: f.Err}
	}
	if h.std == 0 {
		if h.n.Kind == KFile {
			h.n.synced = append([]byte{}, h.n.Data...)
			h.n.dirty = false
		} else if h.n.Kind == KDir {
			h.w.FS.minDur = len(h.w.FS.journal)
		}
	}
	h.w.after(f, "sync", h.Path)
	return nil
}

// lose drops a part of the data that was never synced.
func (f *FS) lose(n *Inode) {
	if n == nil || n.Kind != KFile || !n.dirty {
		return
	}
	k := len(n.Data) / 2
	d := make([]byte, k)
	copy(d, n.Data)
	f.setData(n, d)
}

func (h *Handle) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return &os.PathError{Op: "close", Path: h.Path, Err: os.ErrClosed}
	}
	if h.std != 0 {
		return nil
	}
	f, dead := h.w.seam("close", h.Path, h.role)
	h.closed = true
	if dead {
		return nil
	}
	delete(h.proc.handles, h)
	if f != nil && f.Crash == 0 {
		h.w.FS.lose(h.n)
		return &os.PathError{Op: "close", Path: h.Path, Err: f.Err}
	}
	h.w.after(f, "close", h.Path)
	return nil
}

func (h *Handle) Stat() (fs.FileInfo, error) {
	f, err := h.seam("fstat")
	if err != nil {
		return nil, err
	}
	if f != nil && f.Crash == 0 {
		return nil, &os.PathError{Op: "stat", Path: h.Path, Err: f.Err}
	}
	if h.std != 0 {
		return info(h.Path, &Inode{Kind: KFile}), nil
	}
	return info(path.Base(h.Path), h.n), nil
}

// meta changes the attributes of the open file.
func (h *Handle) meta(op string, fn func(n *Inode)) error {
	f, err := h.seam(op)
	if err != nil {
		return err
	}
	if f != nil && f.Crash == 0 {
		return &os.PathError{Op: op, Path: h.Path, Err: f.Err}
	}
	if h.n != nil {
		fn(h.n)
		h.n.MetaChg++
		h.w.FS.changed(op, h.Path)
	}
	h.w.after(f, op, h.Path)
	return nil
}

func (h *Handle) Chmod(mode os.FileMode) error {
	return h.meta("chmod", func(n *Inode) {
		n.Perm = mode.Perm() | mode&(os.ModeSetuid|os.ModeSetgid|os.ModeSticky)
	})
}

func (h *Handle) Chown(uid, gid int) error {
	return h.meta("chown", func(n *Inode) {
		if uid >= 0 {
			n.UID = uid
		}
		if gid >= 0 {
			n.GID = gid
		}
	})
}

func (h *Handle) ReadDir(n int) ([]fs.DirEntry, error) {
	f, err := h.seam("readdir")
	if err != nil {
		return nil, err
	}
	if f != nil && f.Crash == 0 {
		return nil, &os.PathError{Op: "readdir", Path: h.Path, Err: f.Err}
	}
	if h.std != 0 || h.n.Kind != KDir {
		return nil, &os.PathError{Op: "readdir", Path: h.Path, Err: syscall.ENOTDIR}
	}
	names := sortedKeys(h.n.Entries)
	var r []fs.DirEntry
	for h.dirpos < len(names) && (n <= 0 || len(r) < n) {
		r = append(r, fs.FileInfoToDirEntry(info(names[h.dirpos], h.n.Entries[names[h.dirpos]])))
		h.dirpos++
	}
	if n > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	return r, nil
}

// ---- calls on paths ----

type fileInfo struct {
	name string
	n    Inode
	size int64
}

func info(name string, n *Inode) fs.FileInfo {
	s := int64(len(n.Data))
	switch n.Kind {
	case KLink:
		s = int64(len(n.Target))
	case KDir:
		s = 4096
	}
	c := *n
	c.Data, c.synced, c.Entries = nil, nil, nil
	return &fileInfo{name, c, s}
}
func (i *fileInfo) Name() string { return i.name }
func (i *fileInfo) Size() int64  { return i.size }
func (i *fileInfo) Mode() fs.FileMode {
	switch i.n.Kind {
	case KDir:
		return i.n.Perm | fs.ModeDir
	case KLink:
		return i.n.Perm | fs.ModeSymlink
	}
	return i.n.Perm
}
func (i *fileInfo) ModTime() time.Time { return time.Unix(0, i.n.Mtime) }
func (i *fileInfo) IsDir() bool        { return i.n.Kind == KDir }
func (i *fileInfo) Sys() any {
	st := &syscall.Stat_t{Ino: uint64(i.n.ID), Uid: uint32(i.n.UID), Gid: uint32(i.n.GID), Size: i.size, Nlink: 1,
		Mode: uint32(i.n.Perm.Perm())}
	switch i.n.Kind {
	case KDir:
		st.Mode |= syscall.S_IFDIR
	case KLink:
		st.Mode |= syscall.S_IFLNK
	default:
		st.Mode |= syscall.S_IFREG
	}
	st.Mtim = syscall.NsecToTimespec(i.n.Mtime)
	return st
}

// SameFile compares two results of Stat.
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok && ok2 && x.n.ID == y.n.ID
}

// call wraps a call on a path.
func call(op, name string, effect func(w *World) error) error {
	w := W
	if w == nil {
		return &os.PathError{Op: op, Path: name, Err: syscall.ENOSYS}
	}
	f, dead := w.seam(op, name, w.Role(w.FS.abs(name)))
	if dead {
		return &os.PathError{Op: op, Path: name, Err: syscall.EIO}
	}
	if f != nil && f.Crash == 0 {
		return &os.PathError{Op: op, Path: name, Err: f.Err}
	}
	if err := effect(w); err != nil {
		if _, ok := err.(syscall.Errno); ok {
			return &os.PathError{Op: op, Path: name, Err: err}
		}
		return err
	}
	w.after(f, op, name)
	return nil
}

func Stat(name string, follow bool) (fi fs.FileInfo, err error) {
	op := "lstat"
	if follow {
		op = "stat"
	}
	err = call(op, name, func(w *World) error {
		_, base, n, err := w.FS.lookup(name, follow)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		if base == "." {
			base = path.Base(name)
		}
		fi = info(path.Base(name), n)
		return nil
	})
	return
}

func Remove(name string) error {
	return call("remove", name, func(w *World) error {
		d, base, n, err := w.FS.lookup(name, false)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		if base == "." {
			return syscall.EINVAL
		}
		if n.Kind == KDir && len(n.Entries) > 0 {
			return syscall.ENOTEMPTY
		}
		if n.Kind == KFile {
			w.FS.used -= len(n.Data)
		}
		w.FS.unlink(d, base)
		w.FS.changed("remove", name)
		return nil
	})
}

func Rename(from, to string) error {
	err := call("rename", from, func(w *World) error {
		d1, b1, n, err := w.FS.lookup(from, false)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		d2, b2, m, err := w.FS.lookup(to, false)
		if err != nil {
			return err
		}
		if b1 == "." || b2 == "." {
			return syscall.EBUSY
		}
		if d1.Dev != d2.Dev {
			return syscall.EXDEV
		}
		if m != nil {
			if m == n {
				return nil
			}
			if m.Kind == KDir && n.Kind != KDir {
				return syscall.EISDIR
			}
			if m.Kind != KDir && n.Kind == KDir {
				return syscall.ENOTDIR
			}
			if m.Kind == KDir && len(m.Entries) > 0 {
				return syscall.ENOTEMPTY
			}
			if m.Kind == KFile {
				w.FS.used -= len(m.Data)
			}
		}
		delete(d1.Entries, b1)
		d2.Entries[b2] = n
		w.FS.journal = append(w.FS.journal, metaOp{op: "rename", dir: d1.ID, name: b1, dir2: d2.ID, nam2: b2})
		w.FS.changed("rename-from", from)
		w.FS.changed("rename-to", to)
		w.note("  to %s", to)
		return nil
	})
	if pe, ok := err.(*os.PathError); ok {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: pe.Err}
	}
	return err
}

func Link(from, to string) error {
	return call("link", to, func(w *World) error {
		_, _, n, err := w.FS.lookup(from, false)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		d, b, m, err := w.FS.lookup(to, false)
		if err != nil {
			return err
		}
		if m != nil {
			return syscall.EEXIST
		}
		if n.Kind == KDir {
			return syscall.EPERM
		}
		w.FS.link(d, b, n)
		w.FS.changed("link", to)
		return nil
	})
}

func Mkdir(name string, perm os.FileMode) error {
	return call("mkdir", name, func(w *World) error {
		d, b, n, err := w.FS.lookup(name, false)
		if err != nil {
			return err
		}
		if n != nil {
			return syscall.EEXIST
		}
		c := w.FS.node(KDir, perm.Perm()&^022)
		c.Dev = d.Dev
		w.FS.link(d, b, c)
		w.FS.changed("mkdir", name)
		return nil
	})
}

func Symlink(target, name string) error {
	err := call("symlink", name, func(w *World) error {
		if target == "" || strings.IndexByte(target, 0) >= 0 {
			return syscall.ENOENT
		}
		d, b, n, err := w.FS.lookup(name, false)
		if err != nil {
			return err
		}
		if n != nil {
			return syscall.EEXIST
		}
		if strings.HasSuffix(name, "/") {
			return syscall.ENOENT
		}
		c := w.FS.node(KLink, 0777)
		c.Target = target
		w.FS.link(d, b, c)
		w.FS.changed("symlink", name)
		return nil
	})
	if pe, ok := err.(*os.PathError); ok {
		return &os.LinkError{Op: "symlink", Old: target, New: name, Err: pe.Err}
	}
	return err
}

func Readlink(name string) (t string, err error) {
	err = call("readlink", name, func(w *World) error {
		_, _, n, err := w.FS.lookup(name, false)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		if n.Kind != KLink {
			return syscall.EINVAL
		}
		t = n.Target
		return nil
	})
	return
}

func onNode(op, name string, follow bool, fn func(w *World, n *Inode) error) error {
	return call(op, name, func(w *World) error {
		_, _, n, err := w.FS.lookup(name, follow)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		if err := fn(w, n); err != nil {
			return err
		}
		n.MetaChg++
		w.FS.changed(op, name)
		return nil
	})
}

func Chmod(name string, mode os.FileMode) error {
	return onNode("chmod", name, true, func(w *World, n *Inode) error {
		n.Perm = mode.Perm() | mode&(os.ModeSetuid|os.ModeSetgid|os.ModeSticky)
		return nil
	})
}

func Chown(name string, uid, gid int, follow bool) error {
	op := "chown"
	if !follow {
		op = "lchown"
	}
	return onNode(op, name, follow, func(w *World, n *Inode) error {
		if uid >= 0 {
			n.UID = uid
		}
		if gid >= 0 {
			n.GID = gid
		}
		return nil
	})
}

func Chtimes(name string, mtime time.Time) error {
	return onNode("chtimes", name, true, func(w *World, n *Inode) error {
		if !mtime.IsZero() {
			n.Mtime = mtime.UnixNano()
		}
		return nil
	})
}

func Truncate(name string, size int64) error {
	return onNode("truncate", name, true, func(w *World, n *Inode) error {
		if n.Kind != KFile {
			return syscall.EISDIR
		}
		w.FS.truncate(n, int(size))
		return nil
	})
}

func Chdir(name string) error {
	return call("chdir", name, func(w *World) error {
		_, _, n, err := w.FS.lookup(name, true)
		if err != nil {
			return err
		}
		if n == nil {
			return syscall.ENOENT
		}
		if n.Kind != KDir {
			return syscall.ENOTDIR
		}
		w.cur.Proc.Cwd = path.Clean(w.FS.abs(name))
		return nil
	})
}

// Std are the standard streams.
func Std(i int) *Handle {
	return &Handle{std: i, Path: [...]string{"", "/dev/stdin", "/dev/stdout", "/dev/stderr"}[i]}
}

// bind gives a standard stream its world.
func (h *Handle) Bind() *Handle {
	if h != nil && h.std != 0 {
		h.w = W
		h.role = h.Path[5:]
	}
	return h
}

// CurProc is the running process.
func CurProc() *Proc {
	if W == nil || W.cur == nil {
		return nil
	}
	return W.cur.Proc
}

func (h *Handle) IsStd() bool { return h.std != 0 }

// TempName yields the next random part of a temporary name.
func TempName() string {
	if W == nil {
		return "0"
	}
	W.TmpSeq++
	x := Mix(uint64(W.TmpSeq), 77) % 1000000000
	s := ""
	for i := 0; i < 9; i++ {
		s = string(byte('0'+x%10)) + s
		x /= 10
	}
	return s
}

// Fires adds to the count of a fault kind.
func (w *World) Fire(kind string) { w.Fired[kind]++ }

// Drop removes a tree, without faults.
func (f *FS) Drop(p string) {
	d := f.Get(path.Dir(p))
	if d != nil && d.Kind == KDir {
		delete(d.Entries, path.Base(p))
	}
}

// Used is the space that file data takes.
func (f *FS) Used() int { return f.used }

// Poke changes the content of a file from outside of the simulated processes.
func (f *FS) Poke(n *Inode, d []byte) {
	f.used += len(d) - len(n.Data)
	n.Data = d
	n.Writes++
	if f.w != nil {
		n.Mtime = f.w.Now
	}
}
