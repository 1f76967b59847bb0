package checks

import (
	"fmt"
	"sort"
	"strings"

	"lhasim/gen/lha"
	"lhasim/vsim"
)

func init() {
	register(&Prop{ID: "C04", Quick: 18000, Thorough: 1080000, Run: runHistory,
		Rule: "a process performs 2 to 6 operations of every kind (all methods and levels, several archives, intact and damaged ones, some with failing system calls, on kept and on new Lha objects); each is run too, alone, in a fresh process on a copy of the machine, and results, standard output and files are compared; non-trivial: at least one operation after another was compared"})
	register(&Prop{ID: "C05", Quick: 18000, Thorough: 1080000, Run: runThreads,
		Rule: "2 or 3 goroutines of one process, each with its own Lha object, are preempted at drawn statements and system calls; with archives of their own each must end as it does alone, with one archive in common the outcome must be that of some order; non-trivial: the scheduler switched at least once between two that could both run"})
	register(&Prop{ID: "C20", Quick: 50000, Thorough: 3000000, Run: runHandles,
		Rule: "every operation, undisturbed, with failing system calls and on damaged archives; the descriptors left open afterwards are counted; non-trivial: a file was opened"})
	register(&Prop{ID: "C21", Quick: 13000, Thorough: 780000, Run: runProcs,
		Rule: "1 or 2 writing processes and 0 to 2 reading ones work on one archive, interleaved at drawn system calls, some killed on the way; each outcome is looked for among those of the runs one after another; non-trivial: the scheduler switched at least once between two that could both run"})
	register(&Prop{ID: "C27", Quick: 26000, Thorough: 1560000, Run: runRacingSource,
		Rule: "another process appends to, shortens, overwrites, replaces or removes the sources between the system calls of an update; non-trivial: a source changed during the update"})
}

// seen is what the files look like: times only where they are restored ones.
func seen(f *vsim.FS, times bool, keep func(p string) bool) map[string]string {
	r := map[string]string{}
	f.Walk(func(p string, n *vsim.Inode) {
		if keep != nil && !keep(p) {
			return
		}
		switch n.Kind {
		case vsim.KDir:
			r[p] = "dir"
		case vsim.KLink:
			r[p] = "link " + n.Target
		default:
			r[p] = fmt.Sprintf("file %v %d bytes %s", n.Perm, len(n.Data), vsim.HashHex(n.Data))
			if times && strings.HasPrefix(p, "/w/out") {
				r[p] += fmt.Sprint(" ", n.Mtime)
			}
		}
	})
	return r
}

// step is a call on an Lha object.
type step struct {
	kind    string
	arc     string
	out     string
	name    string
	data    []byte
	method  int
	level   int
	generic bool
	files   []string
	flags   int
	ask     bool   /* before a file is replaced */
	answers string /* to what is asked */
	kept    bool   /* the object has these settings */
	got     string
}

var stepKinds = []string{"Headers", "DecompresBytes", "Decompress", "Compress", "CompressBytes", "CommandAdd", "CommandExtract", "CommandList"}

func (s *step) String() string {
	return fmt.Sprintf("%s %s %.30q method %d level %d flags %d %q ask %v %q", s.kind, s.arc, s.name, s.method, s.level, s.flags, s.files, s.ask, s.answers)
}

func (s *step) writes() bool {
	return s.kind == "Compress" || s.kind == "CompressBytes" || s.kind == "CommandAdd"
}

// on performs the step; everything that a user sets is set.
func (s *step) on(l *lha.Lha) error {
	lha.GenericFormat = s.generic
	if !s.kept {
		l.ExtractDirectory = s.out
		l.Force = !s.ask
		l.SortContents = s.flags&1 != 0
		l.VerboseListing = s.flags&2 != 0
		l.Verbose = s.flags&4 != 0
		l.IgnoreDirectory = s.flags&8 != 0
		l.BackupOldArchive = s.flags&16 != 0
		l.CmdFilev, l.CmdFilec = append([]string{}, s.files...), len(s.files)
	}
	s.got = ""
	switch s.kind {
	case "Headers":
		hs, err := l.Headers()
		for _, h := range hs {
			s.got += fmt.Sprintf("%+v\n", toHdr(h))
		}
		return err
	case "DecompresBytes":
		b, err := l.DecompresBytes(named(s.name))
		if err == nil {
			s.got = string(b)
		}
		return err
	case "Decompress":
		return l.Decompress(named(s.name))
	case "Compress":
		return l.Compress("/w/src/"+s.name, s.method, s.level)
	case "CompressBytes":
		return l.CompressBytes(s.name, s.data, s.method, s.level)
	case "CommandAdd":
		l.CompressMethod, l.HeaderLevel = s.method, s.level
		return lha.CommandAdd(s.arc, l)
	case "CommandExtract":
		return lha.CommandExtract(s.arc, l)
	}
	return lha.CommandList(s.arc, l)
}

// drawStep draws a step on an archive; names are those it may hold, srcs those of
// the files there are.
func (c *Ctx) drawStep(arc, out string, names, srcs []string, kinds []string) *step {
	s := &step{kind: kinds[c.T.Intn(len(kinds))], arc: arc, out: out, method: c.Method(), level: fit(c.Level(), srcs...), generic: c.T.Bool(1, 3)}
	switch s.kind {
	case "Decompress", "DecompresBytes":
		s.name = names[c.T.Intn(len(names))]
	case "Compress":
		s.name = srcs[c.T.Intn(len(srcs))]
	case "CompressBytes":
		s.name = srcs[c.T.Intn(len(srcs))]
		s.data, _ = c.Content(4000)
	case "CommandAdd":
		for _, n := range srcs {
			if c.T.Bool(1, 2) {
				s.files = append(s.files, "/w/src/"+n)
			}
		}
		if len(s.files) == 0 {
			s.files = []string{"/w/src/" + srcs[0]}
		}
	case "CommandExtract":
		if c.T.Bool(1, 3) {
			s.files = []string{names[c.T.Intn(len(names))]}
		}
	}
	s.flags = c.T.Intn(32)
	return s
}

func runHistory(c *Ctx) {
	c.Zone()
	w := c.World()
	c.Short(w)
	names := c.pool(4)
	var srcs []string
	for _, n := range names[1:] {
		c.source(n, 20000).put(w)
		srcs = append(srcs, n)
	}
	arcs := []string{"/w/arc/a.lzh", "/w/arc/b.lzh", "/w/arc/new.lzh"}
	w.FS.Put(arcs[0], c.refArchive([]*File{c.source(names[0], 6000), c.source(names[1], 6000)}), 0644, 7e17)
	w.FS.Put(arcs[1], c.refArchive([]*File{c.source(names[2], 6000)}), 0644, 7e17)
	if c.T.Bool(1, 3) { /* a damaged one */
		b := c.refArchive([]*File{c.source(names[0], 3000), c.source(names[3], 3000)})
		r := rnd(c.T.Seed32())
		for i := 1 + r(4); i > 0; i-- {
			b[r(len(b))] ^= byte(1 + r(255))
		}
		if r(3) == 0 {
			b = b[:r(len(b))]
		}
		w.FS.Put("/w/arc/bad.lzh", b, 0644, 7e17)
		arcs = append(arcs, "/w/arc/bad.lzh")
	}
	w.FS.MkdirAll(Out)
	p := w.NewProc("p")
	objs := map[string]*lha.Lha{}
	sets := map[string]*step{} /* the settings of those */
	n := 2 + c.T.Intn(5)
	c.trivial = true
	for i := 0; i < n; i++ {
		arc := arcs[c.T.Intn(len(arcs))]
		s := c.drawStep(arc, Out, names, srcs, stepKinds)
		keep := c.T.Bool(1, 2)
		if c.T.Bool(1, 3) {
			s.ask = true
			for k := c.T.Intn(4); k > 0; k-- {
				s.answers += []string{"y\n", "n\n", "a\n", "s\n"}[c.T.Intn(4)]
			}
		}
		if t := sets[arc]; keep && t != nil && c.T.Bool(1, 2) {
			/* what the user set before still stands */
			s.kept, s.out, s.ask, s.flags, s.files = true, t.out, t.ask, t.flags, t.files
		}
		c.Say("%s, kept object %v, kept settings %v", s, keep, s.kept)
		/* alone */
		w2 := c.World()
		w.FS.CopyTo(w2.FS)
		w2.Now, w2.Start = w.Now, w.Now
		p2 := w2.NewProc("alone")
		p2.Cwd = p.Cwd
		p.SetStdin([]byte(s.answers))
		p2.SetStdin([]byte(s.answers))
		s2 := *s
		s2.kept = false
		r2 := c.Do(w2, p2, s.String(), func() error { return s2.on(lha.NewLha(arc)) })
		if r2.Panic != "" || r2.Hang != "" {
			if arc != "/w/arc/bad.lzh" {
				c.Sane(r2, s.kind)
			}
			return /* not a matter of the history */
		}
		faulty := c.T.Bool(1, 5)
		if faulty {
			before := copyCounts(w.Counts)
			if f := c.fault(w2.Counts, fileFault); f != nil {
				f.Nth += before[f.Class]
				w.Faults = []*vsim.Fault{f}
				c.Say("fault %v", f)
			}
		}
		r := c.Do(w, p, s.String(), func() error {
			l := objs[arc]
			if l == nil || !keep {
				l = lha.NewLha(arc)
			}
			if keep {
				objs[arc], sets[arc] = l, s
			}
			return s.on(l)
		})
		w.Faults = nil
		if faulty {
			if p.Dead {
				return
			}
			if r.Panic != "" || r.Hang != "" {
				return /* others judge that */
			}
			continue
		}
		c.Sane(r, s.kind)
		if i > 0 {
			c.trivial = false
		}
		if r.OK() != r2.OK() {
			c.Fail("history", "step %d, %s: %s, but alone: %s", i, s, r, r2)
		}
		if r.Out != r2.Out {
			c.Fail("history", "step %d, %s: standard output, against that alone: %s", i, s, diff([]byte(r.Out), []byte(r2.Out)))
		}
		if s.got != s2.got {
			c.Fail("history", "step %d, %s: result, against that alone: %s", i, s, diff([]byte(s.got), []byte(s2.got)))
		}
		if x := snapDiff(seen(w2.FS, r.OK(), nil), seen(w.FS, r.OK(), nil), nil); x != "" {
			c.Fail("history", "step %d, %s: against the same alone, %s", i, s, x)
		}
		if r.OK() {
			c.Probe("compared success")
		} else {
			c.Probe("compared failure")
		}
	}
}

// ---- goroutines ----

func (c *Ctx) drawSched(w *vsim.World) {
	w.MeanGap = []int64{0, 100, 1000, 10000, 100000}[c.T.Intn(5)]
	w.SeamSwitch = []int{10, 30, 60, 100, 3}[c.T.Intn(5)]
}

func runThreads(c *Ctx) {
	c.Zone()
	n := 2 + c.T.Intn(2)
	shared := c.T.Bool(1, 3)
	generic := c.T.Bool(1, 4)
	names := c.pool(4)
	var srcs []*File
	for _, x := range names {
		srcs = append(srcs, c.source(x, 5000))
	}
	var start [3][]byte
	for i := range start {
		if i == 0 || c.T.Bool(2, 3) {
			start[i] = c.refArchive([]*File{c.source("old-"+names[0], 3000), c.source("old-"+names[1], 3000)})
		}
	}
	olds := []string{"old-" + names[0], "old-" + names[1]}
	var prog [3][]*step
	for i := 0; i < n; i++ {
		arc, out := fmt.Sprintf("/w/arc/t%d.lzh", i), fmt.Sprintf("%s/t%d", Out, i)
		kinds := stepKinds
		mine := names
		if shared {
			arc = "/w/arc/t0.lzh"
			mine = names[i : i+1]
			kinds = []string{"Headers", "DecompresBytes", "Compress", "CommandAdd", "CompressBytes"}
		}
		for j := 1 + c.T.Intn(2); j > 0; j-- {
			s := c.drawStep(arc, out, olds, mine, kinds)
			s.generic = generic
			s.flags &^= 16
			if shared {
				s.flags &^= 1
			}
			if start[i] == nil && !s.writes() && !shared {
				s.kind, s.name = "Compress", mine[0]
			}
			prog[i] = append(prog[i], s)
			c.Say("goroutine %d: %s", i, s)
		}
	}
	setup := func() (*vsim.World, *vsim.Proc) {
		w := c.World()
		for _, f := range srcs {
			f.put(w)
		}
		for i := 0; i < n; i++ {
			if start[i] != nil && (i == 0 || !shared) {
				w.FS.Put(fmt.Sprintf("/w/arc/t%d.lzh", i), start[i], 0644, 7e17)
			}
			w.FS.MkdirAll(fmt.Sprintf("%s/t%d", Out, i))
		}
		p := w.NewProc("p")
		p.Cwd = "/w/src"
		return w, p
	}
	run := func(steps []*step, errs []error) {
		for j, s := range steps {
			errs[j] = s.on(lha.NewLha(s.arc))
		}
	}
	/* alone */
	var alone [3]map[string]string
	var aloneGot [3][]string
	var aloneErr [3][]error
	if !shared {
		for i := 0; i < n; i++ {
			w, p := setup()
			errs := make([]error, len(prog[i]))
			r := c.Do(w, p, fmt.Sprintf("goroutine %d alone", i), func() error { run(prog[i], errs); return nil })
			c.Need(r, "alone")
			i := i
			alone[i] = seen(w.FS, true, func(p string) bool { return mineOf(p, i) })
			aloneErr[i] = errs
			for _, s := range prog[i] {
				aloneGot[i] = append(aloneGot[i], s.got)
			}
		}
	}
	w, p := setup()
	c.Short(w)
	c.drawSched(w)
	var errs [3][]error
	var ts []*vsim.Task
	done := 0
	for i := 0; i < n; i++ {
		i := i
		errs[i] = make([]error, len(prog[i]))
		ts = append(ts, w.Spawn(p, fmt.Sprintf("goroutine %d", i), func() { run(prog[i], errs[i]); done++ }))
	}
	w.RunAll()
	for i, t := range ts {
		r := &Res{}
		r.finish(w, t)
		c.Sane(r, fmt.Sprintf("goroutine %d", i))
	}
	if done != n {
		c.Fail("no return", "%d of %d goroutines ended", done, n)
	}
	c.trivial = w.Switches == 0
	if !shared {
		for i := 0; i < n; i++ {
			for j, s := range prog[i] {
				if (errs[i][j] == nil) != (aloneErr[i][j] == nil) {
					c.Fail("isolation", "goroutine %d, %s: %v, but alone: %v", i, s, errs[i][j], aloneErr[i][j])
				}
				if s.got != aloneGot[i][j] {
					c.Fail("isolation", "goroutine %d, %s: result, against that alone: %s", i, s, diff([]byte(s.got), []byte(aloneGot[i][j])))
				}
			}
			i := i
			if x := snapDiff(alone[i], seen(w.FS, true, func(p string) bool { return mineOf(p, i) }), nil); x != "" {
				c.Fail("isolation", "goroutine %d: against the same alone, %s", i, x)
			}
		}
		return
	}
	c.Probe("one archive")
	/* one archive: all updates are there, what was read is of some moment */
	m := c.load(start[0])
	for i := 0; i < n; i++ {
		for j, s := range prog[i] {
			if errs[i][j] != nil {
				c.Fail("one archive", "goroutine %d, %s: %v", i, s, errs[i][j])
			}
			if !s.writes() {
				continue
			}
			d := s.data
			if s.kind != "CompressBytes" {
				d = srcs[i].Data
			}
			if e := m.find(names[i]); e != nil {
				e.Data = d
			} else {
				m.E = append(m.E, &Entry{Name: names[i], Data: d})
			}
		}
	}
	b, _ := w.FS.Content("/w/arc/t0.lzh")
	if why, _ := c.match(b, m); why != "" {
		c.Fail("one archive", "%s", why)
	}
	for i := 0; i < n; i++ {
		for _, s := range prog[i] {
			if s.kind == "DecompresBytes" && !eq([]byte(s.got), m.find(s.name).Data) {
				c.Fail("one archive", "goroutine %d, %s: %s", i, s, diff([]byte(s.got), m.find(s.name).Data))
			}
			if s.kind == "Headers" {
				for _, o := range olds {
					if !strings.Contains(s.got, "Name:"+o+" ") {
						c.Fail("one archive", "goroutine %d, %s: %q is not listed", i, s, o)
					}
				}
			}
		}
	}
	if x := w.FS.List("/w/arc"); len(x) != 1 {
		c.Fail("one archive", "left beside it: %v", x)
	}
}

func mineOf(p string, i int) bool {
	return strings.HasPrefix(p, fmt.Sprintf("/w/arc/t%d", i)) || strings.HasPrefix(p, fmt.Sprintf("%s/t%d", Out, i))
}

// ---- descriptors ----

func runHandles(c *Ctx) {
	c.Zone()
	open := func(w *vsim.World, p *vsim.Proc, r *Res, what string) {
		if r.Panic != "" || r.Hang != "" {
			return /* others judge that */
		}
		if x := p.OpenHandles(); len(x) > 0 {
			c.Fail("open file", "%s (%s) left open: %v", what, r, x)
		}
	}
	opened := func(w *vsim.World) bool {
		for k := range w.Counts {
			if strings.HasPrefix(k, "open:") || strings.HasPrefix(k, "create:") {
				return true
			}
		}
		return false
	}
	if c.T.Bool(1, 2) {
		arc, items := c.items(3, 2000)
		r := c.drawRead(items)
		if r.Kind[0] == '-' { /* a process that ends closes everything */
			r.Kind = "CommandExtract"
		}
		if c.T.Bool(1, 4) {
			g := rnd(c.T.Seed32())
			arc[g(len(arc))] ^= byte(1 + g(255))
			if g(2) == 0 {
				arc = arc[:g(len(arc))]
			}
			c.Probe("damaged")
		}
		if r.Item != nil && c.T.Bool(1, 8) {
			r.Item = &Item{Name: "no such member"}
		}
		c.Say("%s", r)
		w, p := c.readWorld(arc, c.drawShort())
		res := r.run(c, w, p)
		open(w, p, res, r.Kind)
		c.trivial = !opened(w)
		dry := copyCounts(w.Counts)
		w, p = c.readWorld(arc, 0)
		c.inject(w, dry, fileFault)
		res = r.run(c, w, p)
		open(w, p, res, r.Kind)
		return
	}
	pl := c.drawPlan(2000)
	a := pl.a
	if a.API == "CLI" {
		a.API = "CommandAdd"
	}
	if a.API == "CommandAdd" {
		a.Update = c.T.Bool(1, 4)
		a.Auto = a.Update && pl.start != nil && c.T.Bool(1, 2)
		a.Move = c.T.Bool(1, 6)
		a.New = !a.Auto && c.T.Bool(1, 5)
		a.Noexec = c.T.Bool(1, 8)
	}
	a.Backup = c.T.Bool(1, 5)
	if pl.start != nil && c.T.Bool(1, 5) {
		g := rnd(c.T.Seed32())
		pl.start = append([]byte{}, pl.start...)
		pl.start[g(len(pl.start))] ^= byte(1 + g(255))
		if g(2) == 0 {
			pl.start = pl.start[:g(len(pl.start))]
		}
		c.Probe("damaged")
	}
	c.Say("%s on %d bytes", a, len(pl.start))
	w, p := pl.world(c)
	res := c.add(w, p, a)
	open(w, p, res, a.API)
	c.trivial = !opened(w)
	dry := copyCounts(w.Counts)
	w, p = pl.world(c)
	c.inject(w, dry, fileFault)
	res = c.add(w, p, a)
	open(w, p, res, a.API)
}

// ---- processes ----

type actor struct {
	name string
	a    *Add
	r    *Read
	res  *Res
}

func (x *actor) run(c *Ctx, p *vsim.Proc) func() {
	return func() {
		if x.a != nil {
			for _, op := range x.a.ops() {
				if x.res.Err = op(); x.res.Err != nil {
					break
				}
			}
		} else {
			x.res.Err = x.r.call()
		}
		x.res.Pending = false
	}
}

// outcome is what a reader got.
func (x *actor) outcome(w *vsim.World, p *vsim.Proc) string {
	s := x.res.String() + "\n" + string(p.Stdout) + "\n" + string(x.r.got) + "\n"
	for _, h := range x.r.hs {
		s += fmt.Sprintf("%+v\n", h)
	}
	m := seen(w.FS, true, func(q string) bool { return strings.HasPrefix(q, x.r.dir()) })
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += k + " " + m[k] + "\n"
	}
	return s
}

func runProcs(c *Ctx) {
	c.Zone()
	names := c.pool(4)
	var fs []*File
	for _, n := range names[:2] {
		fs = append(fs, c.source(n, 3000))
	}
	start := c.refArchive(fs)
	var ws []*actor
	var files []*File
	nw := 1 + c.T.Intn(2)
	for i := 0; i < nw; i++ {
		/* they may replace the same member, from files of their own */
		var mine []*File
		for _, n := range names[i : i+1+c.T.Intn(3)] {
			f := c.source(n, 3000)
			f.Path = fmt.Sprintf("/w/src/p%d/%s", i, n)
			mine = append(mine, f)
		}
		files = append(files, mine...)
		a := c.drawAdd(mine, true)
		if a.API == "CLI" {
			a.API = "CommandAdd"
		}
		if a.API == "CommandAdd" {
			a.New = c.T.Bool(1, 6)
			a.Update = c.T.Bool(1, 5)
		}
		ws = append(ws, &actor{name: fmt.Sprintf("writer%d", i), a: a})
		c.Say("writer %d: %s", i, a)
	}
	setup := func(b []byte) *vsim.World {
		w := c.World()
		for _, f := range files {
			f.put(w)
		}
		w.FS.Put(Arc, b, 0644, 7e17)
		w.FS.MkdirAll(Out)
		return w
	}
	/* the states that there can be */
	states := [][]byte{start}
	var after func(b []byte, done int)
	after = func(b []byte, done int) {
		for i, x := range ws {
			if done&(1<<uint(i)) != 0 {
				continue
			}
			w := setup(b)
			p := w.NewProc(x.name)
			x.res = &Res{Pending: true}
			r := c.Do(w, p, x.name, func() error { x.run(c, p)(); return x.res.Err })
			c.Need(r, x.name+" alone")
			n, _ := w.FS.Content(Arc)
			states = append(states, n)
			after(n, done|1<<uint(i))
		}
	}
	after(start, 0)
	var rs []*actor
	for i := c.T.Intn(3); i > 0; i-- {
		r := &Read{Kind: []string{"CommandExtract", "Decompress", "DecompresBytes", "Headers", "CommandList"}[c.T.Intn(5)], Dir: fmt.Sprintf("%s/r%d", Out, i), Force: true}
		r.Item = &Item{Name: names[c.T.Intn(2)]}
		rs = append(rs, &actor{name: fmt.Sprintf("reader%d", i), r: r})
		c.Say("reader: %s", r)
	}
	wants := make([]map[string]bool, len(rs))
	for k, x := range rs {
		wants[k] = map[string]bool{}
		for _, b := range states {
			w := setup(b)
			w.FS.MkdirAll(x.r.dir())
			p := w.NewProc(x.name)
			x.res = &Res{Pending: true}
			x.r.got, x.r.hs = nil, nil
			r := c.Do(w, p, x.name, func() error { x.run(c, p)(); return x.res.Err })
			c.Sane(r, x.name+" alone")
			wants[k][x.outcome(w, p)] = true
		}
	}
	/* together */
	w := setup(start)
	c.Short(w)
	c.drawSched(w)
	w.MeanGap = 0 /* they meet at system calls only */
	if w.SeamSwitch < 10 {
		w.SeamSwitch = 10
	}
	all := append(append([]*actor{}, ws...), rs...)
	var ps []*vsim.Proc
	var ts []*vsim.Task
	for _, x := range all {
		p := w.NewProc(x.name)
		x.res = &Res{Pending: true}
		if x.r != nil {
			w.FS.MkdirAll(x.r.dir())
			x.r.got, x.r.hs = nil, nil
		}
		ps = append(ps, p)
		ts = append(ts, w.Spawn(p, x.name, x.run(c, p)))
	}
	killed := -1
	if len(all) > 1 && c.T.Bool(1, 3) {
		killed = c.T.Intn(nw)
		n := c.T.Intn(60)
		if c.T.Bool(1, 2) {
			n = c.T.Intn(12)
		}
		w.KillProc, w.KillAt = ps[killed], n
		c.Say("%s is killed at its call %d", all[killed].name, n)
	}
	bad := ""
	w.OnSeam = func(op, p string) {
		if bad != "" || op == "read" || op == "lstat" || op == "stat" {
			return
		}
		b, ok := w.FS.Content(Arc)
		if !ok {
			bad = "after " + op + " " + cut(p) + " there is no archive"
			return
		}
		for _, s := range states {
			if eq(s, b) {
				return
			}
		}
		bad = "after " + op + " " + cut(p) + " the archive is that of no order of the updates"
	}
	w.RunAll()
	c.trivial = w.Switches == 0
	if bad != "" {
		c.Fail("visible state", "%s", bad)
	}
	for i, x := range all {
		if ps[i].Dead && i == killed {
			c.Probe("killed")
			continue
		}
		x.res.finish(w, ts[i])
		c.Sane(x.res, x.name)
		if x.a != nil && !x.res.OK() {
			c.Fail("writer", "%s: %s", x.name, x.res)
		}
		if x.r != nil {
			k := i - len(ws)
			if o := x.outcome(w, ps[i]); !wants[k][o] {
				c.Fail("reader", "%s (%s) saw what no order of the updates explains: %.300q", x.name, x.r, o)
			}
		}
	}
	b, _ := w.FS.Content(Arc)
	if killed < 0 || !ps[killed].Dead {
		if eq(b, start) && nw == 1 && len(states) > 1 && !eq(states[1], start) {
			c.Fail("writer", "the update had no effect")
		}
		if x := w.FS.List("/w/arc"); len(x) != 1 {
			c.Fail("debris", "left beside the archive: %v", x)
		}
	}
}

// ---- sources that change ----

func runRacingSource(c *Ctx) {
	c.Zone()
	pl := c.drawPlan(9000)
	a := pl.a
	if a.API == "CompressBytes" || a.API == "CLI" {
		a.API = "CommandAdd"
	}
	c.Say("%s on %d bytes", a, len(pl.start))
	w, p := pl.world(c)
	r := rnd(c.T.Seed32())
	n := 1 + c.T.Intn(4)
	at := map[int]bool{}
	span := 10 + c.T.Intn(120)
	for i := 0; i < n; i++ {
		at[c.T.Intn(span)] = true
	}
	k, hits := 0, 0
	vers := map[string][][]byte{} /* what each file held at some time */
	for _, f := range a.Files {
		vers[f.Base()] = [][]byte{f.Data}
	}
	w.OnSeam = func(op, x string) {
		k++
		if !at[k-1] {
			return
		}
		f := a.Files[r(len(a.Files))]
		nd := w.FS.Get(f.Path)
		if nd == nil || nd.Kind != vsim.KFile {
			return
		}
		hits++
		kind := r(6)
		w.Fire([]string{"source grows", "source shrinks", "source emptied", "source overwritten", "source replaced", "source removed"}[kind])
		switch kind {
		case 0:
			w.FS.Poke(nd, append(append([]byte{}, nd.Data...), makeContent("text", 1+r(5000), uint64(r(1<<30)))...))
		case 1:
			w.FS.Poke(nd, append([]byte{}, nd.Data[:r(len(nd.Data)+1)]...))
		case 2:
			w.FS.Poke(nd, nil)
		case 3:
			w.FS.Poke(nd, makeContent("random", len(nd.Data), uint64(r(1<<30))))
		case 4:
			w.FS.Drop(f.Path)
			w.FS.Put(f.Path, makeContent("text", r(6000), uint64(r(1<<30))), 0644, w.Now)
		case 5:
			w.FS.Drop(f.Path)
		}
		var now []byte
		if nd = w.FS.Get(f.Path); nd != nil {
			now = append(now, nd.Data...)
		}
		vers[f.Base()] = append(vers[f.Base()], now)
	}
	res := c.add(w, p, a)
	w.OnSeam = nil
	c.Sane(res, a.API)
	c.trivial = hits == 0
	b, ok := w.FS.Content(Arc)
	if !res.OK() {
		c.Probe("failure")
		if ok != (pl.start != nil) || !eq(b, pl.start) {
			c.Fail("old archive", "%s failed (%s) and the archive changed", a, res)
		}
		return
	}
	c.Probe("success")
	/* each member is whole; those that stay are as they were */
	want := &Model{}
	for _, e := range pl.old.E {
		hit := false
		for _, f := range a.Files {
			hit = hit || f.Base() == e.Name
		}
		hit = hit || a.New
		if !hit {
			want.E = append(want.E, e)
		}
	}
	if !ok {
		if len(want.E) > 0 {
			c.Fail("archive", "%s reported success and there is no archive", a)
		}
		return
	}
	why, ms := c.match(b, want)
	if strings.HasPrefix(why, "not a valid") {
		c.Fail("archive", "%s: %s", a, why)
	}
	raw := map[string][]byte{}
	for _, x := range ms {
		raw[x.Name] = x.Raw
	}
	stay := want
	want = &Model{}
	for _, e := range pl.old.E {
		/* a member stays, too, if its source is gone by then */
		if stay.find(e.Name) != nil || eq(raw[e.Name], e.Raw) {
			want.E = append(want.E, e)
		}
	}
	for _, x := range ms {
		if want.find(x.Name) == nil {
			want.E = append(want.E, &Entry{Name: x.Name, Any: true})
		}
	}
	if why, _ := c.match(b, want); why != "" {
		c.Fail("archive", "%s: %s", a, why)
	}
	for _, f := range a.Files { /* those left alone are there */
		if len(vers[f.Base()]) == 1 && raw[f.Base()] == nil {
			c.Fail("archive", "%s: no member %q", a, f.Base())
		}
	}
	for _, x := range ms { /* every byte is one that the file held there */
		vs := vers[x.Name]
		if stay.find(x.Name) != nil || vs == nil || x.Dir() {
			continue
		}
		if e := pl.old.find(x.Name); e != nil && eq(e.Raw, x.Raw) && len(vs) > 1 {
			continue
		}
		d, _ := x.Content()
	bytes:
		for i, v := range d {
			for _, o := range vs {
				if i < len(o) && o[i] == v {
					continue bytes
				}
			}
			c.Fail("archive", "%s: byte %d of %q is none of those that the file held there", a, i, x.Name)
		}
		if len(vs) == 1 && len(d) != len(vs[0]) {
			c.Fail("archive", "%s: %q, which did not change: %s", a, x.Name, diff(d, vs[0]))
		}
	}
}
