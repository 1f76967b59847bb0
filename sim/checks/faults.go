package checks

import (
	"fmt"
	"os"
	"strings"

	"lhasim/ref"
	"lhasim/vsim"
)

func init() {
	register(&Prop{ID: "C07", Quick: 22000, Thorough: 1320000, Run: runCrash,
		Rule: "an update is stopped at a drawn system call by a crash of the process or a power loss (an ordered prefix of the directory changes survives, data never synced is lost or torn), what is then found is judged, and the update is run again; the states visible to others are judged at every system call of the undisturbed run too; non-trivial: the stop fell within the update"})
	register(&Prop{ID: "C08", Quick: 26000, Thorough: 1560000, Run: func(c *Ctx) { runFaulty(c, "C08") },
		Rule: "1 to 3 system calls of an update fail, or the disk is full, or the archive is damaged or a name does not fit into the header; when the update reports a failure what it left is compared with what was there, and it is run again without faults; non-trivial: a fault fired and a failure was reported"})
	register(&Prop{ID: "C09", Quick: 30000, Thorough: 1800000, Run: func(c *Ctx) { runFaulty(c, "C09") },
		Rule: "1 to 3 system calls of an update fail, or the disk is full; when the update reports success the archive is compared with the model; non-trivial: a fault fired"})
	register(&Prop{ID: "C28", Quick: 20000, Thorough: 1200000, Run: runPerms,
		Rule: "an archive of drawn permissions is updated, undisturbed, with failing calls and with crashes; its permissions are looked at after every system call; non-trivial: there was an old archive"})
	register(&Prop{ID: "C17", Quick: 30000, Thorough: 1800000, Run: runMove,
		Rule: "files are moved into an archive while system calls fail, the process crashes or the power is lost; every source is looked for in its place and in the archive; non-trivial: at least one file was to be moved"})
	register(&Prop{ID: "C18", Quick: 26000, Thorough: 1560000, Run: runBackup,
		Rule: "updates that keep a backup, undisturbed, with failing calls and with crashes; the bytes of the old archive are looked for after every system call; non-trivial: there was an old archive"})
}

// plan is an update and what it finds.
type plan struct {
	start []byte /* nil: no archive */
	bak   []byte
	files []*File
	a     *Add
	short uint64
	other []*File /* files that the update has nothing to do with */
	old   *Model
}

// drawPlan draws an update of one call.
func (c *Ctx) drawPlan(big int) *plan {
	pl := &plan{old: &Model{}}
	names := c.pool(4)
	if c.T.Bool(3, 4) {
		var fs []*File
		for _, n := range names[:1+c.T.Intn(3)] {
			fs = append(fs, c.source(n, big))
		}
		pl.start = c.refArchive(fs)
		pl.old = c.load(pl.start)
	}
	for _, n := range names[c.T.Intn(3):] {
		pl.files = append(pl.files, c.source(n, big))
	}
	pl.a = c.drawAdd(pl.files, true)
	c.odd(pl.a)
	c.respell(pl.a)
	pl.other = []*File{{Path: "/w/src/bystander", Data: []byte("not concerned"), Mode: 0600, Mtime: 5e8}, {Path: "/w/arc/notes.txt", Data: []byte("n"), Mode: 0644, Mtime: 6e8}}
	if c.T.Bool(1, 3) {
		pl.short = 1 + c.T.Seed32()
	}
	return pl
}

func (pl *plan) world(c *Ctx) (*vsim.World, *vsim.Proc) {
	w := c.World()
	w.ShortSeed = pl.short
	for _, f := range append(append([]*File{}, pl.files...), pl.other...) {
		if f.Kind == "dir" && f.Mode == 0 {
			w.FS.MkdirAll(f.Path)
			continue
		}
		f.put(w)
	}
	if pl.start != nil {
		w.FS.Put(Arc, pl.start, 0644, 7e17)
	}
	if pl.bak != nil {
		w.FS.Put(Arc+".bak", pl.bak, 0644, 7e17)
	}
	w.FS.Freeze()
	p := w.NewProc("p")
	p.Cwd = "/w/src"
	return w, p
}

// state tells what is at the path of the archive: old, new, none or what is wrong.
func (c *Ctx) state(w *vsim.World, pl *plan, want *Model) (string, string) {
	n := w.FS.Get(Arc)
	if n == nil {
		return "none", ""
	}
	if n.Kind != vsim.KFile {
		return "bad", "not a file"
	}
	if pl.start != nil && eq(n.Data, pl.start) {
		return "old", ""
	}
	why, _ := c.match(n.Data, want)
	if why == "" {
		return "new", ""
	}
	return "bad", why
}

// done tells whether the archive is the updated one; an update may well write the
// bytes that were there.
func (c *Ctx) done(w *vsim.World, pl *plan, want *Model) (string, string) {
	s, why := c.state(w, pl, want)
	if s == "old" {
		if why, _ := c.match(pl.start, want); why == "" {
			return "new", ""
		}
	}
	return s, why
}

// watch judges the archive after every system call of an undisturbed run.
func (c *Ctx) watch(w *vsim.World, pl *plan, want *Model) {
	var last *vsim.Inode
	writes := -1
	seen := false
	w.OnSeam = func(op, p string) {
		if c.V != nil {
			return
		}
		n := w.FS.Get(Arc)
		k := 0
		if n != nil {
			k = n.Writes
		}
		if seen && n == last && k == writes {
			return
		}
		seen, last, writes = true, n, k
		s, why := c.state(w, pl, want)
		switch {
		case s == "bad":
			c.Flag("visible state", "after %s %s the archive is neither the old nor the new one: %s", op, cut(p), why)
		case s == "none" && pl.start != nil:
			if b, ok := w.FS.Content(Arc + ".bak"); !ok || !eq(b, pl.start) {
				c.Flag("visible state", "after %s %s there is no archive and no backup", op, cut(p))
			}
		}
	}
}

// dry runs the update undisturbed.
func (c *Ctx) dry(pl *plan, watch bool) (*Model, []*File, *vsim.World) {
	w, p := pl.world(c)
	w.LogSeams = true
	want, take := pl.old.apply(w, pl.a)
	if watch {
		c.watch(w, pl, want)
	}
	res := c.add(w, p, pl.a)
	c.Check()
	c.Need(res, pl.a.API)
	if s, why := c.done(w, pl, want); s != "new" && !(s == "old" && len(take) == 0) {
		c.Fail("model", "undisturbed %s: the archive is %s: %s", pl.a, s, why)
	}
	return want, take, w
}

// crashPoint draws the index of a system call.
func (c *Ctx) crashPoint(log []string) int {
	if c.T.Bool(1, 4) {
		return c.T.Intn(len(log))
	}
	/* mostly about the calls that change something */
	var at []int
	for i, k := range log {
		op := k[:strings.IndexByte(k, ':')]
		switch op {
		case "create", "write", "rename", "remove", "sync", "close", "truncate", "mkdir", "link":
			if op == "write" && len(at) > 0 && i+1 < len(log) && log[i+1] == k && c.T.Bool(1, 2) {
				continue
			}
			at = append(at, i)
			if i+1 < len(log) {
				at = append(at, i+1)
			}
		}
	}
	if len(at) == 0 {
		return c.T.Intn(len(log))
	}
	if c.T.Bool(1, 3) { /* the last ones matter most */
		k := min(12, len(at))
		return at[len(at)-1-c.T.Intn(k)]
	}
	return at[c.T.Intn(len(at))]
}

// reboot brings the machine up again after a stop; power: the disk lost what was
// not on it.
func (c *Ctx) reboot(w *vsim.World, power bool) *vsim.Proc {
	if power {
		w.FS = w.FS.PowerLoss(c.T)
		w.Fire("power loss")
	} else {
		w.Fire("process crash")
	}
	w.CrashSeq = -1
	w.Stopped = false
	w.Faults = nil
	w.OnSeam = nil
	w.FS.Freeze()
	p := w.NewProc("after")
	p.Cwd = "/w/src"
	return p
}

func runCrash(c *Ctx) {
	c.Zone()
	pl := c.drawPlan(6000)
	pl.a.Backup = pl.a.API != "CLI" && c.T.Bool(1, 4)
	c.Say("%s on %d bytes", pl.a, len(pl.start))
	want, _, d := c.dry(pl, true)
	w, p := pl.world(c)
	w.CrashSeq = c.crashPoint(d.SeamLog)
	power := c.T.Bool(2, 3)
	if c.T.Bool(1, 8) { /* the power goes once the update has returned */
		w.CrashSeq, power = len(d.SeamLog), true
	}
	at := append(d.SeamLog, "the end")[w.CrashSeq]
	c.Say("stop at call %d of %d (%s), power loss %v", w.CrashSeq, len(d.SeamLog), at, power)
	res := c.add(w, p, pl.a)
	if res.Panic != "" || res.Hang != "" {
		c.Sane(res, pl.a.API)
	}
	if at == "the end" {
		c.Need(res, pl.a.API)
	} else {
		c.trivial = !w.Stopped
	}
	q := c.reboot(w, power)
	s, why := c.state(w, pl, want)
	c.Probe("found " + s)
	switch s {
	case "bad":
		c.Fail("torn archive", "stopped at %s: %s", at, why)
	case "none":
		if pl.start != nil {
			if b, ok := w.FS.Content(Arc + ".bak"); !pl.a.Backup || !ok || !eq(b, pl.start) {
				c.Fail("lost archive", "the archive is gone")
			}
			return
		}
	}
	for _, f := range append(append([]*File{}, pl.files...), pl.other...) {
		if !inPlace(w, f) {
			c.Fail("source", "%s is gone or changed", f.Path)
		}
	}
	/* and the work can go on */
	c.Need(c.add(w, q, pl.a), "the same update after the stop")
	if s == "new" {
		/* the members that were added are replaced by themselves */
		b, _ := w.FS.Content(Arc)
		if why, _ := c.match(b, want); why != "" {
			c.Fail("after restart", "%s", why)
		}
		return
	}
	if s, why := c.done(w, pl, want); s != "new" {
		c.Fail("after restart", "the archive is %s: %s", s, why)
	}
}

// inject draws the faults of a run.
func (c *Ctx) inject(w *vsim.World, dry map[string]int, keep func(string) bool) {
	if c.T.Bool(1, 7) {
		w.FS.Cap = w.FS.Used() + c.T.Intn(5000)
		c.Say("disk full at %d more bytes", w.FS.Cap-w.FS.Used())
		return
	}
	n := 1
	if c.T.Bool(1, 4) {
		n += 1 + c.T.Intn(2)
	}
	for i := 0; i < n; i++ {
		if f := c.fault(dry, keep); f != nil {
			w.Faults = append(w.Faults, f)
			c.Say("fault %v", f)
		}
	}
}

func fired(w *vsim.World, class string) bool {
	for _, f := range w.Faults {
		if f.Fired && f.Class == class {
			return true
		}
	}
	return false
}

func anyFired(w *vsim.World) bool {
	for _, f := range w.Faults {
		if f.Fired {
			return true
		}
	}
	return w.Fired["disk full"] > 0
}

// runRefused: updates that fail for another reason than a failing call.
func runRefused(c *Ctx) {
	pl := c.drawPlan(3000)
	why := []string{"name", "cut", "flip", "text"}[c.T.Intn(4)]
	if pl.start == nil {
		why = "name"
	}
	switch why {
	case "name": /* the longest a header of level 0 holds is 233 bytes */
		f := c.source(strings.Repeat("n", 234+c.T.Intn(22)), 2000)
		pl.files = append(pl.files, f)
		pl.a.Files = append([]*File{f}, pl.a.Files...)
		if pl.a.API == "Compress" || pl.a.API == "CompressBytes" {
			pl.a.Files = pl.a.Files[:1]
		}
		if pl.a.API == "CLI" {
			pl.a.New = pl.a.New && len(pl.a.Files) == 2
			pl.a.Files = pl.a.Files[:1]
			pl.a.Generic = pl.a.Generic && pl.a.Method == 5
		}
		pl.a.Level = 0
	case "cut":
		pl.start = pl.start[:1+c.T.Intn(len(pl.start)-1)]
	case "flip":
		r := rnd(c.T.Seed32())
		pl.start = append([]byte{}, pl.start...)
		for i := 1 + r(3); i > 0; i-- {
			pl.start[r(len(pl.start))] ^= byte(1 + r(255))
		}
	case "text":
		pl.start = makeContent("text", 30+c.T.Intn(500), c.T.Seed32())
	}
	pl.a.Backup = pl.a.API != "CLI" && c.T.Bool(1, 5)
	pl.a.Move = c.T.Bool(1, 4)
	c.Say("%s on %d bytes, refused because of %s", pl.a, len(pl.start), why)
	w, p := pl.world(c)
	before := w.FS.Snapshot()
	res := c.add(w, p, pl.a)
	c.Sane(res, pl.a.API)
	c.trivial = res.OK()
	if res.OK() {
		if why == "name" {
			c.Fail("long name", "%s: a name of %d bytes fits into no header of level 0", pl.a, len(pl.a.Files[0].Base()))
		}
		return
	}
	c.Probe("refused: " + why)
	if x := snapDiff(before, w.FS.Snapshot(), nil); x != "" {
		c.Fail("debris", "%s failed (%s) and %s", pl.a, res, x)
	}
}

func runFaulty(c *Ctx, id string) {
	c.Zone()
	if id == "C08" && c.T.Bool(1, 6) {
		runRefused(c)
		return
	}
	pl := c.drawPlan(6000)
	if pl.a.API != "CLI" {
		pl.a.Backup = c.T.Bool(1, 5)
	}
	if pl.a.API == "CommandAdd" {
		pl.a.Move = c.T.Bool(1, 8)
		if c.T.Bool(1, 8) {
			w0 := c.World()
			c.recurse(w0, pl.a)
			for _, f := range pl.a.Files {
				if f.Kind != "dir" && strings.HasPrefix(f.Path, "/w/src/dir") {
					pl.files = append(pl.files, f)
				}
			}
			pl.a.Move = false
		}
	}
	c.Say("%s on %d bytes", pl.a, len(pl.start))
	want, take, d := c.dry(pl, false)
	w, p := pl.world(c)
	c.inject(w, d.Counts, fileFault)
	before := w.FS.Snapshot()
	res := c.add(w, p, pl.a)
	c.Sane(res, pl.a.API)
	hit := anyFired(w)
	c.trivial = !hit || id == "C08" && res.OK()
	if res.OK() {
		c.Probe("success")
		if id == "C08" {
			return
		}
		s, why := c.done(w, pl, want)
		if s != "new" && !(s == "old" && len(take) == 0) {
			c.Fail("silent failure", "%s reported success but the archive is %s: %s", pl.a, s, why)
		}
		if pl.a.Backup && pl.start != nil {
			if b, ok := w.FS.Content(Arc + ".bak"); !ok || !eq(b, pl.start) {
				c.Fail("silent failure", "%s reported success but there is no backup", pl.a)
			}
		}
		for _, f := range take {
			if pl.a.Move && w.FS.Get(f.Path) != nil {
				c.Fail("silent failure", "%s reported success but %s was not removed", pl.a, f.Path)
			}
		}
		return
	}
	c.Probe("failure")
	if !hit {
		c.Fail("refused", "%s: %s without a fault", pl.a, res)
	}
	if id == "C09" {
		return
	}
	moved := pl.a.Move && fired(w, "remove:source")
	s, why := c.state(w, pl, want)
	switch {
	case s == "old" || s == "none" && pl.start == nil:
	case moved && s == "new":
		s = "moved"
	case pl.a.Backup && fired(w, "rename:backup") && s == "none":
		if b, ok := w.FS.Content(Arc + ".bak"); !ok || !eq(b, pl.start) {
			c.Fail("old archive", "%s failed (%s) and the old archive is lost", pl.a, res)
		}
		return
	default:
		c.Fail("old archive", "%s failed (%s) and the archive is %s: %s", pl.a, res, s, why)
	}
	except := func(x string) bool {
		if fired(w, "remove:temp") && role(x) == "temp" {
			return true
		}
		return s == "moved" && (x == Arc || x == Arc+".bak" || role(x) == "source")
	}
	if x := snapDiff(before, w.FS.Snapshot(), except); x != "" {
		c.Fail("debris", "%s failed (%s) and %s", pl.a, res, x)
	}
	if s == "moved" {
		return
	}
	/* the failure leaves nothing behind in the process either */
	w.Faults = nil
	w.FS.Cap = 0
	c.Need(c.add(w, p, pl.a), "the same update without faults")
	if s, why := c.done(w, pl, want); s != "new" && !(s == "old" && len(take) == 0) {
		c.Fail("retry", "after a failure %s leaves the archive %s: %s", pl.a, s, why)
	}
}

// ---- moving files ----

// kept looks for each file in its place and in the archive.
func (c *Ctx) kept(w *vsim.World, files []*File, when string) {
	var in map[string][]byte
	for _, f := range files {
		if inPlace(w, f) {
			continue
		}
		if in == nil {
			in = map[string][]byte{}
			if a, ok := w.FS.Content(Arc); ok {
				ms, _ := ref.Parse(a)
				for _, m := range ms {
					if d, err := m.Content(); err == nil {
						in[m.Name] = append([]byte(m.Target), d...)
					}
				}
			}
		}
		d, ok := in[f.Base()]
		if !ok || !eq(d, append([]byte(f.To), f.Data...)) {
			c.Fail("lost file", "%s: %s is neither in its place nor in the archive", when, f.Path)
		}
	}
}

// inPlace: the file is there with its content.
func inPlace(w *vsim.World, f *File) bool {
	n := w.FS.Get(f.Path)
	if n == nil {
		return false
	}
	switch f.Kind {
	case "dir":
		return n.Kind == vsim.KDir
	case "link":
		return n.Kind == vsim.KLink && n.Target == f.To
	}
	return n.Kind == vsim.KFile && eq(n.Data, f.Data)
}

func runMove(c *Ctx) {
	c.Zone()
	pl := c.drawPlan(5000)
	a := pl.a
	if a.API == "CompressBytes" {
		a.API = "Compress"
	}
	a.Move = true
	if a.API == "CommandAdd" || a.API == "CLI" {
		if c.T.Bool(1, 4) {
			a.Update = true
		}
		if x := a.Files[0].Base(); c.T.Bool(1, 6) && !strings.Contains(x, ",") {
			a.Exclude = []string{x}
		}
		a.New = a.New || c.T.Bool(1, 6)
	}
	if a.API != "CLI" {
		a.Backup = c.T.Bool(1, 6)
	}
	if a.API == "CommandAdd" && c.T.Bool(1, 6) {
		a.Args = append(a.paths(), c.spelling())
		c.Probe("the archive among the sources")
	} else if a.API == "CommandAdd" && c.T.Bool(1, 5) {
		n := len(a.Files)
		c.recurse(c.World(), a)
		pl.files = append(pl.files, a.Files[n:]...)
	}
	/* a directory from which not all is taken cannot go */
	partly := false
	for _, f := range a.Files {
		if f.Kind == "dir" && c.T.Bool(1, 3) && !a.Recurse {
			pl.other = append(pl.other, &File{Path: f.Path + "/inner", Data: []byte("stays"), Mode: 0600, Mtime: 5e8})
		}
	}
	c.Say("%s on %d bytes", a, len(pl.start))
	/* undisturbed, judged at every removal */
	w, p := pl.world(c)
	w.LogSeams = true
	_, take := pl.old.apply(w, a)
	c.trivial = len(take) == 0
	taken := map[string]bool{}
	for _, f := range take {
		taken[f.Path] = true
	}
	for _, f := range append(append([]*File{}, pl.files...), pl.other...) {
		for _, g := range take {
			if !taken[f.Path] && g.Kind == "dir" && strings.HasPrefix(f.Path, g.Path+"/") {
				partly = true
			}
		}
	}
	var stay []*File
	for _, f := range append(append([]*File{}, pl.files...), pl.other...) {
		if !taken[f.Path] {
			stay = append(stay, f)
		}
	}
	w.OnSeam = func(op, x string) {
		if c.V != nil || op != "remove" && op != "rename" && op != "truncate" && op != "create" {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stop); !ok {
						panic(r)
					}
				}
			}()
			c.kept(w, take, "after "+op+" "+cut(x))
		}()
	}
	res := c.add(w, p, a)
	c.Check()
	if partly { /* whether that is a failure is not the question here */
		c.Sane(res, a.API)
		c.Probe("a directory that cannot go")
	} else {
		c.Need(res, a.API)
	}
	rest := func(w *vsim.World, when string) {
		for _, f := range stay {
			if !inPlace(w, f) {
				c.Fail("file not moved", "%s: %s, which is not to be moved, is gone or changed", when, f.Path)
			}
		}
	}
	for _, f := range take {
		if w.FS.Get(f.Path) != nil && !partly {
			c.Fail("not moved", "%s is still there", f.Path)
		}
	}
	c.kept(w, take, "after success")
	rest(w, "after success")
	log, counts := w.SeamLog, copyCounts(w.Counts)
	/* disturbed */
	w, p = pl.world(c)
	mode := c.T.Intn(3)
	switch mode {
	case 0:
		c.inject(w, counts, fileFault)
	default:
		w.CrashSeq = c.crashPoint(log)
		c.Say("stop at call %d of %d (%s), power loss %v", w.CrashSeq, len(log), log[w.CrashSeq], mode == 2)
	}
	res = c.add(w, p, a)
	when := fmt.Sprintf("%s, stopped at call %d", a, w.CrashSeq)
	if mode == 0 {
		c.Sane(res, a.API)
		when = fmt.Sprintf("%s: %s", a, res)
		if res.OK() && !partly {
			for _, f := range take {
				if w.FS.Get(f.Path) != nil {
					c.Fail("not moved", "%s: %s is still there", when, f.Path)
				}
			}
		}
	} else {
		if res.Panic != "" || res.Hang != "" {
			c.Sane(res, a.API)
		}
		c.reboot(w, mode == 2)
	}
	c.kept(w, take, when)
	rest(w, when)
}

// ---- backups ----

func runBackup(c *Ctx) {
	c.Zone()
	pl := c.drawPlan(4000)
	a := pl.a
	if a.API == "CLI" {
		a.API = "CommandAdd"
	}
	if a.API == "CommandAdd" {
		a.New = c.T.Bool(1, 5)
		a.Update = c.T.Bool(1, 5)
		a.Move = c.T.Bool(1, 8)
	}
	a.Backup = !c.T.Bool(1, 6)
	if c.T.Bool(1, 2) {
		pl.bak = []byte("an older backup")
	}
	c.Say("%s on %d bytes", a, len(pl.start))
	c.trivial = pl.start == nil
	held := func(w *vsim.World) bool {
		for _, x := range []string{Arc, Arc + ".bak"} {
			if b, ok := w.FS.Content(x); ok && eq(b, pl.start) {
				return true
			}
		}
		return false
	}
	w, p := pl.world(c)
	w.LogSeams = true
	want, take := pl.old.apply(w, a)
	if a.Backup && pl.start != nil {
		w.OnSeam = func(op, x string) {
			if op != "read" && op != "write" && c.V == nil && !held(w) {
				c.Flag("lost backup", "after %s %s the old archive is nowhere", op, cut(x))
			}
		}
	}
	res := c.add(w, p, a)
	c.Check()
	c.Need(res, a.API)
	if s, why := c.done(w, pl, want); s != "new" && !(s == "old" && len(take) == 0) {
		c.Fail("model", "%s: the archive is %s: %s", a, s, why)
	}
	b, ok := w.FS.Content(Arc + ".bak")
	switch {
	case a.Backup && pl.start != nil:
		if !ok || !eq(b, pl.start) {
			c.Fail("no backup", "%s: the backup is not the old archive (there %v)", a, ok)
		}
		c.Probe("backup made")
	case ok != (pl.bak != nil) || !eq(b, pl.bak):
		c.Fail("wrong backup", "%s changed the backup", a)
	}
	if !a.Backup || pl.start == nil {
		return
	}
	log, counts := w.SeamLog, copyCounts(w.Counts)
	w, p = pl.world(c)
	if mode := c.T.Intn(3); mode == 0 {
		c.inject(w, counts, fileFault)
		res = c.add(w, p, a)
		c.Sane(res, a.API)
		if res.OK() {
			if b, ok := w.FS.Content(Arc + ".bak"); !ok || !eq(b, pl.start) {
				c.Fail("no backup", "%s reported success without a backup", a)
			}
		}
	} else {
		w.CrashSeq = c.crashPoint(log)
		c.Say("stop at call %d of %d (%s), power loss %v", w.CrashSeq, len(log), log[w.CrashSeq], mode == 2)
		res = c.add(w, p, a)
		c.reboot(w, mode == 2)
	}
	if !held(w) {
		c.Fail("lost backup", "%s (%s): the old archive is nowhere", a, res)
	}
}

// ---- permissions of the archive ----

func runPerms(c *Ctx) {
	c.Zone()
	pl := c.drawPlan(2500)
	a := pl.a
	if pl.start == nil && c.T.Bool(7, 8) {
		pl.start = c.refArchive([]*File{c.source("fa", 500)})
		pl.old = c.load(pl.start)
	}
	if a.API == "CommandAdd" || a.API == "CLI" {
		a.Update = c.T.Bool(1, 5)
		a.Move = c.T.Bool(1, 8)
		a.New = a.New || c.T.Bool(1, 6)
	}
	if a.API != "CLI" {
		a.Backup = c.T.Bool(1, 5)
	}
	mode := []os.FileMode{0644, 0640, 0600, 0664, 0666, 0444, 0755, 0604, 0400, 0777}[c.T.Intn(10)]
	c.Say("%s on %d bytes of mode %o", a, len(pl.start), mode)
	c.trivial = pl.start == nil
	if pl.start == nil {
		return
	}
	wrong := func(w *vsim.World) string {
		for _, x := range []string{Arc, Arc + ".bak"} {
			if n := w.FS.Get(x); n != nil && n.Perm != mode {
				return fmt.Sprintf("the permissions of %s are %o instead of %o", x, n.Perm, mode)
			}
		}
		return ""
	}
	w, p := pl.world(c)
	w.FS.Get(Arc).Perm = mode
	w.LogSeams = true
	w.OnSeam = func(op, x string) {
		if op == "read" || op == "write" || c.V != nil {
			return
		}
		if s := wrong(w); s != "" {
			c.Flag("permissions", "after %s %s %s", op, cut(x), s)
		}
	}
	c.Need(c.add(w, p, a), a.API)
	c.Check()
	log, counts := w.SeamLog, copyCounts(w.Counts)
	w, p = pl.world(c)
	w.FS.Get(Arc).Perm = mode
	if how := c.T.Intn(3); how == 0 {
		c.inject(w, counts, fileFault)
		c.Sane(c.add(w, p, a), a.API)
	} else {
		w.CrashSeq = c.crashPoint(log)
		c.Say("stop at call %d of %d (%s), power loss %v", w.CrashSeq, len(log), log[w.CrashSeq], how == 2)
		c.add(w, p, a)
		c.reboot(w, how == 2)
	}
	if s := wrong(w); s != "" {
		c.Fail("permissions", "%s: %s", a, s)
	}
}
