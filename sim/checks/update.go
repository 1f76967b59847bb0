package checks

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"lhasim/ref"
	"lhasim/vsim"
)

func init() {
	register(&Prop{ID: "C06", Quick: 16000, Thorough: 960000, Run: runUpdates,
		Rule: "a history of 1 to 6 operations (add, replace, create anew, update if newer, exclude, sort, recursion, missing sources) on an archive that is absent or made by the reference encoder is compared, after each one, with a model; non-trivial: at least one operation on an archive that held members"})
	register(&Prop{ID: "C22", Quick: 50000, Thorough: 3000000, Run: runNewer,
		Rule: "files around the recorded time (equal, one second off, two seconds off, far) meet update-if-newer under a drawn time zone, header level, writer and clock that jumps; non-trivial: a member and a file of the same name met"})
	register(&Prop{ID: "C25", Quick: 20000, Thorough: 1200000, Run: runRepro,
		Rule: "the same operation is run on two machines with different clocks, jumps, temporary names, map orders and read sizes, and the archives are compared byte by byte; non-trivial: an archive of more than 64 bytes"})
}

// source draws a new version of a file.
func (c *Ctx) source(name string, big int) *File {
	f := &File{Path: "/w/src/" + name, Mode: modes[c.T.Intn(len(modes))], Mtime: c.Mtime()}
	f.Data, f.Kind = c.Content(big)
	return f
}

// pool draws names that differ.
func (c *Ctx) pool(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, c.Name(i))
	}
	return r
}

// startArchive puts an archive of some files of the pool.
func (c *Ctx) startArchive(w *vsim.World, names []string, big int) *Model {
	var fs []*File
	for _, n := range names {
		fs = append(fs, c.source(n, big))
	}
	b := c.refArchive(fs)
	w.FS.Put(Arc, b, 0644, w.Now)
	c.Say("archive of %d members: %.100q", len(fs), names)
	return c.load(b)
}

func sorted(ms []*ref.Member) bool {
	return sort.SliceIsSorted(ms, func(i, j int) bool { return ms[i].Name < ms[j].Name })
}

func runUpdates(c *Ctx) {
	c.Zone()
	w := c.World()
	c.Short(w)
	big := 8000
	if c.T.Bool(1, 10) {
		big = 80000
	}
	names := c.pool(5)
	if c.T.Bool(1, 12) { /* another file with the name of the archive */
		names[4] = path.Base(Arc)
	}
	if c.T.Bool(1, 8) {
		names[3] = ".dot"
	}
	m := &Model{}
	if c.T.Bool(3, 4) {
		k := 1 + c.T.Intn(4)
		st := append([]string{}, names[:k]...)
		if c.T.Bool(1, 2) {
			sort.Strings(st)
		}
		m = c.startArchive(w, st, big)
	}
	c.trivial = true
	var p *vsim.Proc
	nops := 1 + c.T.Intn(6)
	for i := 0; i < nops; i++ {
		if p == nil || p.Exited || c.T.Bool(1, 3) {
			p = w.NewProc(fmt.Sprintf("p%d", i))
		}
		p.Cwd = "/w/src"
		/* the sources of this operation */
		var files []*File
		k := 1 + c.T.Intn(3)
		off := c.T.Intn(len(names))
		for j := 0; j < k; j++ {
			f := c.source(names[(off+j*2)%len(names)], big)
			if j == 1 && (off+2)%len(names) == off {
				break
			}
			if c.T.Bool(1, 8) {
				w.FS.Drop(f.Path)
				f.Kind = "missing"
			} else {
				f.put(w)
			}
			files = append(files, f)
		}
		a := c.drawAdd(files, true)
		c.odd(a)
		for _, f := range a.Files {
			if !f.Regular() {
				f.put(w)
				c.Probe(f.Kind + " as a source")
			}
		}
		if a.API == "CommandAdd" || a.API == "CLI" {
			a.New = a.New || c.T.Bool(1, 8)
			a.Update = c.T.Bool(1, 4) && !m.twice()
			if c.T.Bool(1, 5) {
				x := a.Files[c.T.Intn(len(a.Files))].Base()
				if !strings.Contains(x, ",") {
					a.Exclude = append(append([]string{}, []string{"nothing", "*", "src", "f"}[:c.T.Intn(5)]...), strings.ToUpper(x))
					if y := a.Files[c.T.Intn(len(a.Files))].Base(); c.T.Bool(1, 3) && !strings.Contains(y, ",") {
						a.Exclude = append(a.Exclude, y)
					}
				}
			}
			if a.Update && len(a.Exclude) == 0 && c.T.Bool(1, 3) {
				a.Auto, a.New = true, false
				a.Files = nil
				for _, n := range append([]string{"dir0", "dir1"}, names...) {
					if x := w.FS.Get("/w/src/" + n); x != nil {
						f := &File{Path: "/w/src/" + n, Data: x.Data, Mode: x.Perm, Mtime: x.Mtime / 1e9}
						if x.Kind == vsim.KDir {
							f.Kind, f.Data = "dir", nil
						}
						if x.Kind == vsim.KLink {
							f.Kind, f.Data, f.To = "link", nil, x.Target
							if a.Generic {
								a.Generic = false
								if a.API == "CLI" {
									a.Level = min(a.Level, 1)
								}
							}
						}
						a.Files = append(a.Files, f)
					}
				}
				if len(m.E) == 0 {
					a.Auto, a.Files = false, files[:1]
				}
			}
		}
		if a.API != "CompressBytes" && c.T.Bool(1, 4) {
			a.Rel = true
		}
		c.respell(a)
		if a.API == "CommandAdd" && !a.Auto && !a.Update && c.T.Bool(1, 12) { /* two files of one base name */
			f := c.source("x", 2000)
			f.Path = "/w/else/" + a.Files[0].Base()
			f.put(w)
			a.Files = append(a.Files, f)
			c.Probe("two files of one base name")
		}
		if a.API == "CommandAdd" && !a.Auto && c.T.Bool(1, 8) {
			a.Args = append(a.paths(), c.spelling()) /* the archive is not put into itself */
			c.Probe("the archive among the sources")
		}
		if a.API == "CommandAdd" && !a.Auto && a.Args == nil && c.T.Bool(1, 10) { /* a file named twice */
			x := a.Files[c.T.Intn(len(a.Files))]
			a.Args = append(a.paths(), []string{x.Path, "./" + x.Base(), "/w/src//" + x.Base()}[c.T.Intn(3)])
			c.Probe("a file named twice")
		}
		if a.API == "CommandAdd" && !a.Auto && a.Args == nil && c.T.Bool(1, 5) {
			c.recurse(w, a)
		}
		a.Level = fit(a.Level, bases(a.Files)...)
		for _, f := range a.Files {
			a.Level = fit(a.Level, f.Base()+"|"+f.To)
		}
		had := len(m.E)
		wasSorted := true
		for j := 1; j < len(m.E); j++ {
			if m.E[j-1].Name >= m.E[j].Name {
				wasSorted = false
			}
		}
		want, take := m.apply(w, a)
		c.Say("%s, takes %d", a, len(take))
		res := c.add(w, p, a)
		c.Need(res, a.API)
		b, ok := w.FS.Content(Arc)
		if !ok {
			c.Fail("archive", "no archive after %s", a)
		}
		why, ms := c.match(b, want)
		if why != "" {
			c.Fail("model", "after operation %d (%s): %s", i, a, why)
		}
		if a.Sort && (wasSorted || a.New) && !sorted(ms) {
			c.Fail("order", "after operation %d (%s): the sorted archive is no longer sorted", i, a)
		}
		if had > 0 {
			c.trivial = false
			c.Probe("operation on an archive with members")
		}
		if len(take) < len(a.Files) {
			c.Probe("some sources not taken")
		}
		if len(want.E) < had+len(take) {
			c.Probe("a member replaced")
		}
		if x := w.FS.List("/w/arc"); len(x) != 1 {
			c.Fail("debris", "after operation %d: %v beside the archive", i, x)
		}
		m = c.settle(ms)
	}
	/* the archiver itself agrees */
	q := w.NewProc("reader")
	hs, res := c.Headers(w, q, Arc)
	c.Need(res, "Headers")
	if len(hs) != len(m.E) {
		c.Fail("listing", "%d members listed instead of %d", len(hs), len(m.E))
	}
	for i, h := range hs {
		if strings.TrimRight(h.Name, "/") != m.E[i].Name {
			c.Fail("listing", "member %d is %q instead of %q", i, h.Name, m.E[i].Name)
		}
	}
	if len(m.E) > 0 {
		e := m.E[c.T.Intn(len(m.E))]
		if e.Data != nil && !m.twice() {
			d, res := c.Bytes(w, q, Arc, e.Name)
			c.Need(res, "DecompresBytes")
			if !eq(d, e.Data) {
				c.Fail("content", "%q: %s", e.Name, diff(d, e.Data))
			}
		}
	}
}

// spelling is a path of the archive, seen from the directory of the sources.
func (c *Ctx) spelling() string {
	return []string{"/w/arc/", "../arc/", "/w/./arc/", "/w//arc/", "../../w/arc/"}[c.T.Intn(5)] + path.Base(Arc)
}

// respell makes the arguments of an operation in /w/src name their files in other ways.
func (c *Ctx) respell(a *Add) {
	if a.API == "CompressBytes" || !c.T.Bool(1, 5) {
		return
	}
	for _, f := range a.Files {
		f.Spell = ways[c.T.Intn(len(ways))]
	}
	c.Probe("other spellings of the sources")
}

var ways = []string{"", "./", "../src/", "/w//src/", "/w/arc/../src/", "././//./", "/w/src/./"}

// recurse makes the operation add a directory with what it holds.
func (c *Ctx) recurse(w *vsim.World, a *Add) {
	a.Recurse = true
	id := fmt.Sprint(c.T.Intn(2))
	d := "/w/src/dir" + id
	w.FS.Drop(d)
	top := &File{Path: d, Kind: "dir", Mode: 0755, Mtime: c.Mtime()}
	top.Spell = ways[c.T.Intn(len(ways))]
	args := a.paths()
	a.Args = append(args, a.path(top))
	dirs := []*File{top}
	w.FS.MkdirAll(d)
	var in []*File
	n := c.T.Intn(4)
	many := c.T.Bool(1, 12)
	if many { /* more than a table may expect */
		n = 20 + c.T.Intn(120)
		c.Probe("many files in a directory")
	}
	sub := top
	for j := n; j > 0; j-- {
		if len(dirs) < 4 && (many && j%50 == 0 || !many && c.T.Bool(1, 4)) {
			sub = &File{Path: sub.Path + "/sub" + id + fmt.Sprint(len(dirs)), Kind: "dir", Mode: 0700, Mtime: c.Mtime(), Up: append(append([]string{}, sub.Up...), sub.Path)}
			if c.T.Bool(1, 3) {
				sub.Path = sub.Up[len(sub.Up)-1] + "/.s" + id + fmt.Sprint(len(dirs))
			}
			w.FS.MkdirAll(sub.Path)
			dirs = append(dirs, sub)
		}
		big := 2000
		if many {
			big = 60
		}
		f := c.source("x", big)
		f.Path = fmt.Sprintf("%s/%sin%s%d", sub.Path, []string{"", ".", "IN-", "a b "}[c.T.Intn(4)], id, j)
		f.Up = append(append([]string{}, sub.Up...), sub.Path)
		f.put(w)
		in = append(in, f)
	}
	for _, x := range dirs {
		w.FS.Get(x.Path).Mtime = x.Mtime * 1e9
	}
	all := append(dirs, in...)
	if len(a.Exclude) == 0 && c.T.Bool(1, 4) {
		a.Exclude = []string{strings.ToUpper(all[c.T.Intn(len(all))].Base())}
		c.Probe("exclusion in recursion")
	}
	if len(a.Exclude) == 0 && len(in) > 0 && c.T.Bool(1, 4) { /* and a file in it by itself, before it */
		x := *in[c.T.Intn(len(in))]
		x.Spell = ways[c.T.Intn(len(ways))]
		a.Args = append(append([]string{}, args...), a.path(&x), a.path(top))
		c.Probe("a file and its directory")
	}
	a.Files = append(a.Files, all...)
	c.Probe("recursion")
}

// ---- update if newer ----

func runNewer(c *Ctx) {
	c.Zone()
	w := c.World()
	if c.T.Bool(1, 2) { /* any clock */
		w.Now = []int64{0, 315532800, 946684800, 1e9, 2147483647, 4102444800, 1600000000}[c.T.Intn(7)] * 1e9
		w.Start = w.Now
	}
	if c.T.Bool(1, 3) {
		r := vsim.NewPRNG(c.T.Seed32())
		w.ClockJump = func(w *vsim.World) {
			if r.Intn(6) == 0 {
				d := int64(r.Intn(7200)-3600) * 1e9
				w.Now, w.Start = w.Now+d, w.Start+d
				if w.Now < 0 {
					w.Now = 0
				}
				w.Fire("clock jump")
			}
		}
	}
	names := c.pool(3)
	auto, foreign := false, c.T.Bool(1, 3)
	if foreign && c.T.Bool(1, 2) { /* members in directories, updated as what they are */
		auto = true
		for i, n := range names {
			names[i] = []string{"dd/", "", "dd/e.e/"}[(i+len(n))%3] + n
		}
	}
	tree := !auto && c.T.Bool(1, 4) /* all in a directory that is archived recursively */
	src := "/w/src/"
	if tree {
		src += "dd/"
		c.Probe("recursion")
	}
	var m *Model
	/* the archive: of the reference encoder or of the archiver */
	var fs []*File
	for _, n := range names {
		f := c.source(n, 600)
		f.As = n
		f.Path = src + n
		fs = append(fs, f)
	}
	if tree {
		fs = append(fs, &File{Path: "/w/src/dd", Kind: "dir", Mode: 0755, Mtime: c.Mtime()})
	}
	dir := auto && c.T.Bool(1, 2)
	if dir {
		fs = append(fs, &File{Path: "/w/src/dd", As: "dd/", Kind: "dir", Mode: 0755, Mtime: c.Mtime()})
	}
	p := w.NewProc("p")
	p.Cwd = "/w/src"
	if foreign {
		w.FS.Put(Arc, c.refArchive(fs), 0644, 0)
	} else {
		for _, f := range fs {
			if !tree || f.Kind != "dir" {
				f.put(w)
			}
		}
		a := &Add{API: "CommandAdd", Files: fs, Method: c.Method(), Level: fit(c.Level(), names...), Generic: c.T.Bool(1, 2)}
		if tree {
			w.FS.MkdirAll("/w/src/dd").Mtime = fs[len(fs)-1].Mtime * 1e9
			a.Recurse, a.Args = true, []string{"dd"}
		}
		c.Say("%s zone %v", a, c.Loc)
		c.Need(c.add(w, p, a), "CommandAdd")
	}
	b, _ := w.FS.Content(Arc)
	m = c.load(b)
	c.stamps(b, fs)
	if !tree && c.T.Bool(1, 4) { /* extraction restores the time: nothing is newer then */
		w.FS.Drop("/w/src")
		w.FS.MkdirAll("/w/src")
		q := w.NewProc("x")
		q.Cwd = "/w/src"
		c.Need(c.CLIIn(w, q, "", "-archive", Arc, "-e", "-f"), "lharc -e")
		a := &Add{API: "CLI", Auto: true, Update: true, Method: 5, Level: 2, Generic: true, Sort: true}
		p = w.NewProc("u")
		p.Cwd = "/w/src"
		c.Need(c.add(w, p, a), "lharc -u")
		b2, _ := w.FS.Content(Arc)
		if !eq(b, b2) {
			why, _ := c.match(b2, m)
			c.Fail("idempotence", "the archive changed although the files had just been extracted: %s", why)
		}
		c.Probe("extract then update")
		return
	}
	/* new versions around the recorded time */
	var up []*File
	for i, n := range names {
		e := m.find(n)
		f := c.source(n, 600)
		f.As = n
		f.Path = src + n
		f.Mtime = e.Stamp + []int64{0, 1, -1, 2, -2, 3600, -3600, 86400, -86400, 1 << 20, -1 << 20, 1 << 31, -1 << 31}[c.T.Intn(13)]
		if f.Mtime < 0 {
			f.Mtime = 0
		}
		if f.Mtime > 1<<32-1 {
			f.Mtime = 1<<32 - 1
		}
		f.put(w)
		if c.T.Bool(1, 8) {
			w.FS.Drop(f.Path)
		}
		x := w.FS.Get(f.Path)
		if x != nil && c.T.Bool(1, 3) { /* parts of a second do not count */
			x.Mtime = f.Mtime*1e9 + 999999999
		}
		up = append(up, f)
		_ = i
	}
	if dir {
		n := w.FS.MkdirAll("/w/src/dd")
		f := &File{Path: "/w/src/dd", As: "dd/", Kind: "dir", Mode: 0755, Mtime: m.find("dd/").Stamp + int64(c.T.Intn(3)-1)}
		if f.Mtime < 0 || f.Mtime >= 1<<32 {
			f.Mtime = 5
		}
		n.Mtime = f.Mtime * 1e9
		up = append(up, f)
		c.Probe("a directory to update")
	}
	if tree {
		f := &File{Path: "/w/src/dd", Kind: "dir", Mode: 0755, Mtime: m.find("dd").Stamp + int64(c.T.Intn(3)-1)}
		if f.Mtime < 0 || f.Mtime >= 1<<32 {
			f.Mtime = 5
		}
		w.FS.MkdirAll("/w/src/dd").Mtime = f.Mtime * 1e9
		up = append(up, f)
	}
	if c.T.Bool(1, 3) { /* and a file that is not in the archive */
		f := c.source("zz-new", 300)
		f.put(w)
		up = append(up, f)
	}
	a := &Add{API: []string{"CommandAdd", "CLI"}[c.T.Intn(2)], Files: up, Method: 5, Level: fit(c.Level(), names...), Generic: true, Sort: true, Update: true}
	if tree {
		a.API, a.Recurse, a.Args = "CommandAdd", true, []string{"dd"}
		if len(up) > len(names)+1 {
			a.Args = append(a.Args, "zz-new")
		}
	} else if auto || a.API == "CLI" && c.T.Bool(1, 2) || c.T.Bool(1, 4) {
		a.Auto = true
	} else if a.API == "CLI" {
		a.Files = up[:1]
	}
	if a.API == "CommandAdd" && c.T.Bool(1, 6) { /* a link has a time too */
		f := up[0]
		if w.FS.Get(f.Path) != nil && f.Kind != "dir" && !strings.Contains(f.Base(), "|") {
			f.Kind, f.Data, f.To = "link", nil, []string{"nowhere", "fa", "/w/src", "."}[c.T.Intn(4)]
			w.FS.Drop(f.Path)
			f.put(w)
			a.Generic = false
			a.Level = fit(a.Level, f.Base()+"|"+f.To)
			c.Probe("a link to update")
		}
	}
	p = w.NewProc("u")
	p.Cwd = "/w/src"
	want, take := m.apply(w, a)
	c.Say("%s, takes %d of %d", a, len(take), len(a.Files))
	c.Probe(fmt.Sprintf("takes %d", len(take)))
	c.Need(c.add(w, p, a), a.API)
	b, _ = w.FS.Content(Arc)
	if why, _ := c.match(b, want); why != "" {
		c.Fail("model", "%s (zone %v): %s", a, c.Loc, why)
	}
	c.stamps(b, take)
}

// stamps: the members record the times of their files, as the header can hold them.
func (c *Ctx) stamps(b []byte, files []*File) {
	ms, err := ref.Parse(b)
	if err != nil {
		c.Fail("model", "not a valid archive: %v", err)
	}
	for _, f := range files {
		for _, m := range ms {
			if m.Name != f.Base() {
				continue
			}
			if m.HasTime && m.Time != f.Mtime || !m.HasTime && m.DosTime != ref.DOSTime(f.Mtime, c.Loc) {
				c.Fail("stamp", "%q is of %d, its member records %d", f.Base(), f.Mtime, m.Stamp(c.Loc))
			}
		}
	}
}

// ---- reproducible archives ----

func runRepro(c *Ctx) {
	c.Zone()
	names := c.pool(4)
	var start []byte
	if c.T.Bool(1, 2) {
		var fs []*File
		for _, n := range names[:1+c.T.Intn(3)] {
			fs = append(fs, c.source(n, 3000))
		}
		start = c.refArchive(fs)
	}
	var files []*File
	for _, n := range names[c.T.Intn(3):] {
		files = append(files, c.source(n, 20000))
	}
	a := c.drawAdd(files, true)
	if a.API == "CompressBytes" {
		a.API = "Compress"
	}
	if a.API == "CommandAdd" && start != nil && c.T.Bool(1, 3) {
		a.Update = true
		a.Auto = c.T.Bool(1, 2)
	}
	c.odd(a)
	if a.API == "CommandAdd" && !a.Auto && c.T.Bool(1, 4) {
		c.recurse(c.World(), a)
	}
	files = a.Files
	c.Say("%s on %d bytes", a, len(start))
	var out [2][]byte
	for i := range out {
		w := c.World()
		w.TmpSeq = i * 1000
		if i == 1 {
			w.Now += int64(c.T.Intn(1000000000)) * 1e9
			w.Start = w.Now
			c.Short(w)
			r := vsim.NewPRNG(c.T.Seed32())
			w.ClockJump = func(w *vsim.World) {
				if r.Intn(4) == 0 {
					d := int64(r.Intn(7200)-3600) * 1e9
					w.Now, w.Start = w.Now+d, w.Start+d
					w.Fire("clock jump")
				}
			}
		}
		for _, f := range files {
			f.put(w)
		}
		for _, f := range files {
			if f.Kind == "dir" {
				w.FS.Get(f.Path).Mtime = f.Mtime * 1e9
			}
		}
		if start != nil {
			w.FS.Put(Arc, start, 0644, 0)
		}
		p := w.NewProc("p")
		p.Cwd = "/w/src"
		c.Need(c.add(w, p, a), a.API)
		out[i], _ = w.FS.Content(Arc)
	}
	c.trivial = len(out[0]) <= 64
	if !eq(out[0], out[1]) {
		c.Fail("reproducible", "%s: the archives differ: %s", a, diff(out[1], out[0]))
	}
}
