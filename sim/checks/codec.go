package checks

import (
	"fmt"
	"path"

	"lhasim/gen/lha"
	"lhasim/ref"
	"lhasim/vsim"
)

func init() {
	register(&Prop{ID: "C01", Quick: 15000, Thorough: 900000, Run: runRound,
		Rule: "1 to 4 files (content kind, size 0 to 300 KB, name, mode, time drawn) are added through one of Compress, CompressBytes, CommandAdd and the command line, over whole or short reads, and read back through every reading interface; non-trivial: a file of more than 64 bytes"})
	register(&Prop{ID: "C02", Quick: 14000, Thorough: 840000, Run: runStandard,
		Rule:   "as C01, with names at the limits of the headers too, but the archive is read by an independent strict reader and decoder; non-trivial: a file of more than 64 bytes",
		Assume: []string{"the independent reader (sim/ref) follows the format"}})
}

func (c *Ctx) drawBig() int {
	switch c.T.Intn(12) {
	case 10:
		return 150000
	case 11:
		return 300000
	}
	return 40000
}

// nontrivial: some file has more than 64 bytes.
func (c *Ctx) sized(files []*File) {
	c.trivial = true
	for _, f := range files {
		if len(f.Data) > 64 {
			c.trivial = false
		}
	}
}

// readAll reads every member back through every interface and compares.
func (c *Ctx) readAll(w *vsim.World, arc string, files []*File, how int) {
	p := w.NewProc("reader")
	hs, res := c.Headers(w, p, arc)
	c.Need(res, "Headers")
	if len(hs) != len(files) {
		c.Fail("members", "%d members listed instead of %d", len(hs), len(files))
	}
	by := map[string]Hdr{}
	for _, h := range hs {
		by[h.Name] = h
	}
	for _, f := range files {
		h, ok := by[f.Base()]
		if f.Kind == "link" && h.Target != f.To {
			c.Fail("header fields", "link %q: leads to %q instead of %q", f.Base(), h.Target, f.To)
		}
		if !ok {
			c.Fail("members", "no member %q", f.Base())
		}
		if h.Size != len(f.Data) {
			c.Fail("header fields", "member %q: size %d instead of %d", f.Base(), h.Size, len(f.Data))
		}
	}
	for _, f := range files {
		if !f.Regular() {
			continue
		}
		b, res := c.Bytes(w, p, arc, f.Base())
		c.Need(res, "DecompresBytes "+f.Base())
		if !eq(b, f.Data) {
			c.Fail("content", "DecompresBytes %q (%s): %s", f.Base(), f.Kind, diff(b, f.Data))
		}
	}
	dir := "/w/out"
	switch how {
	case 0:
		res = c.Do(w, p, "CommandExtract", func() error {
			l := lha.NewLha(arc)
			l.ExtractDirectory = dir
			return lha.CommandExtract(arc, l)
		})
		c.Need(res, "CommandExtract")
	case 1:
		for _, f := range files {
			f := f
			res = c.Do(w, p, "Decompress", func() error {
				l := lha.NewLha(arc)
				l.ExtractDirectory = dir
				return l.Decompress(named(f.Base()))
			})
			c.Need(res, "Decompress "+f.Base())
		}
	case 2:
		w.FS.MkdirAll(dir)
		q := w.NewProc("lharc")
		q.Cwd = dir
		res = c.CLIIn(w, q, "", "-archive", arc, "-e")
		c.Need(res, "lharc -e")
	case 3:
		res = c.CLI(w, "", "-archive", arc, "-t")
		c.Need(res, "lharc -t")
		return
	case 4:
		res = c.CLI(w, "", "-archive", arc, "-p")
		c.Need(res, "lharc -p")
		want := ""
		for _, h := range hs {
			for _, f := range files {
				if f.Base() == h.Name && f.Regular() {
					want += fmt.Sprintf("::::::::\n%s\n::::::::\n%s", h.Name, f.Data)
				}
			}
		}
		if res.Out != want {
			c.Fail("content", "lharc -p: %s", diff([]byte(res.Out), []byte(want)))
		}
		return
	}
	for _, f := range files {
		if !f.Regular() {
			n := w.FS.Get(dir + "/" + f.Base())
			if n == nil || n.Kind != map[string]vsim.Kind{"dir": vsim.KDir, "link": vsim.KLink}[f.Kind] || n.Target != f.To {
				c.Fail("extracted "+f.Kind, "%q: %+v instead of %q", f.Base(), n, f.To)
			}
			c.Probe("extracted " + f.Kind)
			continue
		}
		b, ok := w.FS.Content(dir + "/" + f.Base())
		if !ok || !eq(b, f.Data) {
			c.Fail("extracted file", "%q (%s): there %v, %s", f.Base(), f.Kind, ok, diff(b, f.Data))
		}
	}
	if n := len(w.FS.List(dir)); n != len(files) {
		c.Fail("extracted file", "%d files in the directory instead of %d", n, len(files))
	}
}

// drawWrite draws files and how they are added.
func (c *Ctx) drawWrite() (*Add, []*File) {
	n := 1 + c.T.Intn(4)
	files := c.Files(n, c.drawBig(), "/w/src")
	a := c.drawAdd(files, false)
	c.odd(a)
	c.Say("%s", a)
	c.sized(a.Files)
	return a, a.Files
}

func runRound(c *Ctx) {
	c.Zone()
	a, files := c.drawWrite()
	w := c.World()
	c.Short(w)
	for _, f := range files {
		f.put(w)
	}
	p := w.NewProc("writer")
	if c.T.Bool(1, 3) { /* relative names */
		p.Cwd = "/w/arc"
		a.Arc = path.Base(Arc)
	}
	res := c.add(w, p, a)
	c.Need(res, a.API)
	c.Probe("write " + a.API)
	for _, f := range files { /* only the archive is left */
		if !inPlace(w, f) {
			c.Fail("source", "the source %q changed", f.Path)
		}
	}
	w.FS.Drop("/w/src")
	how := c.T.Intn(5)
	c.Probe(fmt.Sprintf("read %d", how))
	c.readAll(w, Arc, files, how)
}

func runStandard(c *Ctx) {
	c.Zone()
	a, files := c.drawWrite()
	over := false
	if c.T.Bool(1, 12) { /* names that level 0 cannot hold */
		a.Level = 0
		for _, f := range files {
			if f.Regular() && c.T.Bool(1, 2) {
				i := c.T.Intn(26)
				f.Path = "/w/src/" + longName(f.Base()[:1]+"n", 214+c.T.Intn(42), i)
			}
			name := f.Base()
			switch f.Kind {
			case "dir":
				name += "/"
			case "link":
				name += "|" + f.To
			}
			limit := 255 - 34 /* what else the header holds */
			if a.Generic {
				limit = 255 - 22
			}
			if len(name) > limit {
				over = true
			}
		}
		if a.API == "CompressBytes" && c.T.Bool(1, 2) { /* names that no file has */
			a.Level = 1 + c.T.Intn(2)
			over = true
			n := 900 + c.T.Intn(3500)
			if c.T.Bool(1, 2) {
				n = 1018 + c.T.Intn(12)
			}
			files[0].Path = "/w/src/" + longName("n", n, 1)
		}
		c.Say("level %d: %s", a.Level, a)
	}
	w := c.World()
	c.Short(w)
	w.Euid = []int{0, 1000, 65534, 60001}[c.T.Intn(4)] /* the owner of the files too */
	for _, f := range files {
		f.put(w)
	}
	p := w.NewProc("writer")
	t0 := w.Now / 1e9
	res := c.add(w, p, a)
	if over && !res.OK() {
		c.Sane(res, a.API)
		one := a.API == "CLI" || a.API == "CommandAdd" || len(files) == 1
		for _, x := range w.FS.List(path.Dir(Arc)) {
			if one || x != path.Base(Arc) {
				c.Fail("debris", "%v left by an update that was refused", x)
			}
		}
		if b, ok := w.FS.Content(Arc); ok { /* of the calls before */
			ms, err := ref.Parse(b)
			if err != nil || len(ms) >= len(files) {
				c.Fail("format", "%d members, %v after an update that was refused", len(ms), err)
			}
			for i, m := range ms {
				if m.Name != files[i].Base() && m.Name != files[i].Base()+"/" {
					c.Fail("members", "%q instead of %q after an update that was refused", m.Name, files[i].Base())
				}
			}
		}
		c.Probe("name refused")
		return
	}
	c.Need(res, a.API)
	t1 := w.Now / 1e9
	b, ok := w.FS.Content(Arc)
	if !ok {
		c.Fail("archive", "there is no archive")
	}
	ms, err := ref.Parse(b)
	if err != nil {
		c.Fail("format", "%v", err)
	}
	if len(ms) != len(files) {
		c.Fail("members", "%d members instead of %d", len(ms), len(files))
	}
	by := map[string]*ref.Member{}
	for _, m := range ms {
		by[m.Name] = m
	}
	for _, f := range files {
		m := by[f.Base()]
		if m == nil {
			c.Fail("members", "no member %q", f.Base())
		}
		if m.Level != a.Level {
			c.Fail("header level", "%q: level %d instead of %d", f.Base(), m.Level, a.Level)
		}
		if m.Orig != len(f.Data) {
			c.Fail("header size", "%q: size %d instead of %d", f.Base(), m.Orig, len(f.Data))
		}
		if len(m.Packed) > m.Orig {
			c.Fail("expansion", "%q: %d bytes packed into %d", f.Base(), m.Orig, len(m.Packed))
		}
		id := fmt.Sprintf("-lh%d-", a.Method)
		if f.Kind == "link" && (!m.Link || m.Target != f.To) {
			c.Fail("link", "%q: leads to %q instead of %q", f.Base(), m.Target, f.To)
		}
		ft := 0100000
		if !f.Regular() {
			id = "-lhd-"
			ft = map[string]int{"dir": 040000, "link": 0120000}[f.Kind]
			if m.Method != id {
				c.Fail("header method", "%q: method %s instead of %s", f.Base(), m.Method, id)
			}
		}
		if m.Method != id && m.Method != "-lh0-" {
			c.Fail("header method", "%q: method %s instead of %s", f.Base(), m.Method, id)
		}
		if m.CRC != ref.CRC16(f.Data) {
			c.Fail("header CRC", "%q: CRC %04x instead of %04x", f.Base(), m.CRC, ref.CRC16(f.Data))
		}
		d, err := m.Content()
		if err != nil {
			c.Fail("content", "%q (%s, %s): %v", f.Base(), m.Method, f.Kind, err)
		}
		if !eq(d, f.Data) {
			c.Fail("content", "%q (%s, %s): %s", f.Base(), m.Method, f.Kind, diff(d, f.Data))
		}
		if m.Method != "-lh0-" && f.Regular() {
			c.Probe("compressed " + m.Method)
		}
		c.Probe(fmt.Sprintf("level %d generic %v", m.Level, a.Generic))
		if a.API == "CompressBytes" {
			if st := m.Stamp(c.Loc); m.HasTime && (st < t0 || st > t1) {
				c.Fail("header time", "%q: time %d, it was %d", f.Base(), st, t0)
			}
			continue
		}
		if m.HasTime {
			if m.Time != f.Mtime {
				c.Fail("header time", "%q: time %d instead of %d", f.Base(), m.Time, f.Mtime)
			}
		} else if m.DosTime != ref.DOSTime(f.Mtime, c.Loc) {
			c.Fail("header time", "%q: MS-DOS time %08x instead of %08x", f.Base(), m.DosTime, ref.DOSTime(f.Mtime, c.Loc))
		}
		if m.HasMode && f.Kind != "link" && m.Mode != ft|int(f.Mode.Perm()) {
			c.Fail("header mode", "%q: mode %o instead of %o", f.Base(), m.Mode, f.Mode)
		}
		if m.HasMode && a.API != "CompressBytes" && (m.UID != w.Euid || m.GID != w.Euid) {
			c.Fail("header owner", "%q: owner %d/%d instead of %d", f.Base(), m.UID, m.GID, w.Euid)
		}
		if !a.Generic && !m.HasMode {
			c.Fail("header mode", "%q: no mode recorded", f.Base())
		}
	}
	if x := path.Dir(Arc); len(w.FS.List(x)) != 1 {
		c.Fail("debris", "%v beside the archive", w.FS.List(x))
	}
}
