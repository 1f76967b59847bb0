package checks

import (
	"fmt"
	"os"
	"path"
	"runtime"
	"strings"
	"syscall"

	"lhasim/gen/lha"
	"lhasim/ref"
	"lhasim/vsim"
)

func init() {
	register(&Prop{ID: "C12", Quick: 100000, Thorough: 6000000, Run: runGarbage,
		Rule: "archives of random bytes, with bytes changed, with pieces cut out, moved or repeated, with packed data that no encoder made, and with extended headers of odd kinds and sizes are given to every operation, over short reads and failing calls; non-trivial: the archive is not valid"})
	register(&Prop{ID: "C13", Quick: 160000, Thorough: 9600000, Run: runPlace,
		Rule: "members named with .., absolute paths, every separator, NUL, through links that are there or that the archive itself makes, as files, directories and links, are extracted with and without force; all that lies outside of the directory is compared with what was there; non-trivial: a name or a link that points elsewhere"})
	register(&Prop{ID: "C14", Quick: 90000, Thorough: 5400000, Run: runConsent,
		Rule: "members meet files, links and directories of their names; the answers (yes, no, all, skip, nonsense, end of input, failing input) are drawn; what was replaced is compared with a model of the questions, over two operations of one object; non-trivial: a question was due"})
	register(&Prop{ID: "C15", Quick: 90000, Thorough: 5400000, Run: runReadOnly,
		Rule: "every operation that only reads, and every operation under no-execute, on intact and damaged archives, with and without failing calls; every change of the file system is logged; non-trivial: always"})
	register(&Prop{ID: "C23", Quick: 120000, Thorough: 7200000, Run: runMeta,
		Rule: "files, directories and links with modes, owners and times, made by the reference encoder or by the archiver itself, in any order and nesting, are extracted under any zone and clock; the attributes found are compared with those recorded; non-trivial: a member with a recorded mode"})
	register(&Prop{ID: "C24", Quick: 50000, Thorough: 3000000, Run: runListing,
		Rule: "archives of the reference encoder, some then updated by the archiver, are listed in every form; names, order, sizes, methods, CRCs, modes and totals are compared with the members; non-trivial: more than one member"})
}

// ---- arbitrary bytes ----

func (c *Ctx) garbage() ([]byte, []*Item) {
	r := rnd(c.T.Seed32())
	var items []*Item
	n := 1 + c.T.Intn(3)
	var b []byte
	for i := 0; i < n; i++ {
		m, d := c.foreignMember(i, 2000)
		mode := c.T.Intn(6)
		switch mode {
		case 1, 2: /* packed data that no encoder made */
			k := 1 + r(400)
			m.Packed = makeContent([]string{"random", "zero", "sparse", "runs", "skewed"}[r(5)], k, uint64(r(1<<30)))
			m.Orig = []int{0, 1, k, 5 * k, 70000, 300000}[r(6)]
		case 3: /* sizes that do not fit */
			m.Orig = []int{0, 1, m.Orig + 1, m.Orig * 2, m.Orig / 2, 1 << 20, 3 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r(10)]
		case 4: /* extended headers of odd sizes */
			for j := 1 + r(4); j > 0; j-- {
				e := make([]byte, 1+[]int{0, 1, 2, 3, 7, 8, 40, 300, 3000}[r(9)])
				for k := range e {
					e[k] = byte(r(256))
				}
				e[0] = []byte{0, 1, 2, 0x3f, 0x40, 0x41, 0x42, 0x50, 0x51, 0x52, 0x53, 0x54, 0x7f, 0xff}[r(14)]
				m.Extra = append(m.Extra, e)
			}
			if m.Level == 0 {
				m.Level = 1 + r(3)
			}
		case 5: /* a method that is none, a directory, a link */
			m.Method = []string{"-lhd-", "-lh9-", "-lhx-", "-pc1-", "xxxxx", "-lz9-"}[r(6)]
			if r(2) == 0 {
				m.HasMode = true
				m.Mode = r(1 << 16)
			}
			if r(3) == 0 {
				m.AsIs, m.RawDir, m.RawBase = true, []string{"", "\xff", "/", "a\xffb\xff", "\\"}[r(5)], []string{"", "|", "x|", "|y", "a|b", "\x00", "\xff"}[r(7)]
			}
		}
		h := m.Build(c.Loc, r)
		items = append(items, &Item{m.Name, d, m, len(b), len(h)})
		b = append(b, h...)
	}
	if !c.T.Bool(1, 4) {
		b = append(b, 0)
	}
	switch c.T.Intn(7) {
	case 1: /* some bytes */
		for j := 1 + r(6); j > 0; j-- {
			b[r(len(b))] = byte(r(256))
		}
	case 2: /* bytes of the header, which is then made right as far as a sum goes */
		it := items[r(len(items))]
		for j := 1 + r(3); j > 0; j-- {
			at := it.Off + 2 + r(max(1, min(it.M.HdrLen, it.Len)-2))
			b[at] = []byte{0, 1, 0xff, 0x7f, byte(r(256)), byte(r(256))}[r(6)]
		}
		if h := b[it.Off:]; len(h) > int(h[0])+2 && len(h) > 21 && h[20] < 2 {
			s := byte(0)
			for _, x := range h[2 : int(h[0])+2] {
				s += x
			}
			h[1] = s
		}
	case 3: /* cut, or with a piece moved */
		k := r(len(b) + 1)
		if r(2) == 0 {
			b = b[:k]
		} else {
			b = append(append([]byte{}, b[k:]...), b[:k]...)
		}
	case 4: /* a piece is missing, or there twice */
		i := r(len(b) + 1)
		j := i + r(len(b)-i+1)
		if r(2) == 0 {
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		} else {
			b = append(append([]byte{}, b[:j]...), b[i:]...)
		}
	case 5: /* anything */
		if r(3) == 0 {
			b = makeContent("random", r(3000), uint64(r(1<<30)))
		}
	}
	return b, items
}

func runGarbage(c *Ctx) {
	c.Zone()
	b, items := c.garbage()
	_, err := ref.Parse(b)
	c.trivial = err == nil
	if err != nil {
		c.Probe("not valid")
	}
	w, p := c.readWorld(b, c.drawShort())
	w.TickBudget = 150e6
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	alloc := ms.TotalAlloc
	big := 0
	mem := func(what string) {
		runtime.ReadMemStats(&ms)
		/* what the simulated disk and the oracles take is small beside this */
		if d := ms.TotalAlloc - alloc; d > 400<<20+uint64(40*len(b)) && big < 64<<20 {
			c.Fail("memory", "%s of %d bytes of archive allocated %d MB", what, len(b), d>>20)
		}
		alloc = ms.TotalAlloc
	}
	for _, it := range items {
		if it.M.Orig > big {
			big = it.M.Orig
		}
	}
	for k := 1 + c.T.Intn(2); k > 0; k-- {
		if c.T.Bool(1, 4) {
			f := c.source("fa", 500)
			f.put(w)
			a := c.drawOne(f)
			if a.API == "CommandAdd" {
				a.Update = c.T.Bool(1, 3)
			}
			c.Say("%s on %d bytes", a, len(b))
			old, _ := w.FS.Content(Arc)
			res := c.add(w, p, a)
			c.Sane(res, a.API)
			mem(a.API)
			if now, ok := w.FS.Content(Arc); !res.OK() && (!ok || !eq(now, old)) {
				c.Fail("old archive", "%s failed (%s) and the archive changed", a, res)
			}
			if x := w.FS.List("/w/arc"); !res.OK() && len(x) != 1 {
				c.Fail("debris", "%s failed (%s) and left %v", a, res, x)
			}
			continue
		}
		r := c.drawRead(items)
		r.Force = c.T.Bool(1, 2)
		c.Say("%s on %d bytes", r, len(b))
		res := r.run(c, w, p)
		c.Sane(res, r.Kind)
		mem(r.Kind)
		if res.OK() {
			c.Probe("success")
		} else {
			c.Probe("failure")
		}
	}
}

// ---- where files go ----

// hostile draws a name.
func (c *Ctx) hostile(m *ref.Member, r func(int) int) string {
	seps := []string{"/", "\\", "\xff"}
	sep := seps[r(3)]
	if m.Level == 0 && sep == "\xff" {
		sep = "\\"
	}
	if m.Level > 0 && r(3) > 0 {
		sep = "\xff"
	}
	elem := func() string {
		return []string{"..", "..", "d", "link", "up", "self", ".", "", "...", "..d", "new", "secret", "w", "dl"}[r(14)]
	}
	var es []string
	for k := 1 + r(4); k > 0; k-- {
		es = append(es, elem())
	}
	dir := strings.Join(es, sep) + sep
	switch r(8) {
	case 0:
		dir = sep + dir
	case 1:
		dir = sep + "w" + sep + "secret" + sep
	case 2:
		dir = "link" + sep
	case 3:
		dir = ".." + sep + "secret" + sep
	case 4:
		dir = ""
	}
	base := []string{"f", "keep", "..", ".", "flink", "link", "d", "new", "g|h", "", "../f", "..\\f", "/w/secret/f", "d/../../secret/f", "up", "f\x00/../../x", "~", "C:\\f"}[r(18)]
	if r(3) == 0 {
		base = "f"
	}
	m.AsIs, m.RawDir, m.RawBase = true, dir, base
	return dir + base
}

func runPlace(c *Ctx) {
	c.Zone()
	w := c.World()
	/* what must not be touched */
	w.FS.Put("/w/secret/f", []byte("secret"), 0600, 4e17)
	w.FS.Put("/w/secret/keep", []byte("keep"), 0600, 4e17)
	w.FS.Put("/w/f", []byte("outer"), 0600, 4e17)
	w.FS.Put("/f", []byte("root"), 0600, 4e17)
	w.FS.MkdirAll("/w/secret/d").Mtime = 4e17
	for i := 0; i < 6; i++ {
		w.FS.Put(fmt.Sprintf("/w/secret/hard%d", i), []byte("hard"), 0600, 4e17)
	}
	w.FS.MkdirAll(Out)
	r := rnd(c.T.Seed32())
	if c.T.Bool(1, 2) { /* links that are there already */
		w.FS.Symlink("/w/secret", Out+"/link")
		w.FS.Symlink("/w/secret/f", Out+"/flink")
		w.FS.Symlink("..", Out+"/up")
		w.FS.Symlink("/w/secret/none", Out+"/dl")
		w.FS.MkdirAll(Out + "/d")
		w.FS.Symlink("../../secret", Out+"/d/link")
		c.Probe("links there")
	}
	if c.T.Bool(1, 3) { /* other names of files that lie outside */
		for i, n := range []string{"f0", "f1", "f", "new", "d/f", "flink"} {
			if c.T.Bool(1, 2) {
				w.FS.Link(fmt.Sprintf("/w/secret/hard%d", i), Out+"/"+n)
			}
		}
		c.Probe("hard links there")
	}
	var b []byte
	var names []string
	n := 1 + c.T.Intn(4)
	for i := 0; i < n; i++ {
		m := &ref.Member{Method: "-lh0-", Level: c.T.Intn(4), Name: "f" + fmt.Sprint(i), Attr: 0x20, OS: 'U', HasMode: true, HasTime: true,
			Mode: 0100000 | r(01000), UID: r(3), GID: r(3), Time: 1e9 + int64(r(1000))}
		name := m.Name
		switch c.T.Intn(4) {
		case 1, 2:
			name = c.hostile(m, r)
		case 3:
			m.Name = []string{"link", "d/link", "new", "up", "flink"}[r(5)] + []string{"", "/f", "/new/f"}[r(3)]
			name = m.Name
		}
		switch c.T.Intn(4) {
		case 0: /* a link */
			m.Method = "-lhd-"
			m.Mode = 0120777
			m.Link = true
			m.Target = []string{"/w/secret", "..", "../secret", "/w/secret/f", ".", "d", "/w/none"}[r(7)]
			if m.Level >= 2 && !m.AsIs && strings.HasPrefix(m.Target, "/w/") && c.T.Bool(1, 4) { /* the same place, spelled at length */
				m.Target = "/w" + strings.Repeat("/.", 10+r(200)) + m.Target[2:]
			}
			if m.AsIs {
				m.RawBase += "|" + m.Target
			}
		case 1: /* a directory */
			m.Method = "-lhd-"
			m.Mode = 040000 | r(01000)
			if m.AsIs && m.RawDir == "" {
				m.RawDir, m.RawBase = m.RawBase+"/", ""
			} else if !m.AsIs {
				m.Name += "/"
			}
		default:
			d := []byte("from the archive " + fmt.Sprint(i))
			m.Packed, m.Orig, m.CRC = d, len(d), ref.CRC16(d)
			if c.T.Bool(1, 8) {
				m.Mode = []int{0, 010644, 020644, 060644, 0140644}[r(5)] /* odd kinds */
			}
		}
		if m.Level > 0 && c.T.Bool(1, 5) {
			m.OS = []byte{'M', 'K', 'X', 'm', 'w', 0}[r(6)]
		}
		c.Say("member %s %q level %d mode %o target %q", m.Method, name, m.Level, m.Mode, m.Target)
		names = append(names, m.Name, cstr([]byte(strings.ReplaceAll(name, "\xff", "/"))))
		b = append(b, m.Build(c.Loc, r)...)
	}
	b = append(b, 0)
	w.FS.Put(Arc, b, 0644, 7e17)
	c.Short(w)
	before := w.FS.Full()
	inside := func(p string) bool { return p == Out || strings.HasPrefix(p, Out+"/") }
	p := w.NewProc("p")
	for k := 1 + c.T.Intn(2); k > 0; k-- { /* the second extraction meets the links of the first */
		force := c.T.Bool(2, 3)
		var res *Res
		how := c.T.Intn(4)
		flat := c.T.Bool(1, 6)
		rel := c.T.Bool(1, 4)
		lh := func() *lha.Lha {
			l := lha.NewLha(Arc)
			l.ExtractDirectory = Out
			if rel {
				l.ExtractDirectory = "out"
			}
			l.Force = force
			l.IgnoreDirectory = flat
			return l
		}
		p.Stdin = []byte(strings.Repeat("y\n", 20))
		switch how {
		case 0, 1:
			q := w.NewProc("lharc")
			q.Cwd = Out
			args := []string{"-archive", Arc, "-e"}
			if force {
				args = append(args, "-f")
			}
			res = c.CLIIn(w, q, strings.Repeat("y\n", 20), args...)
		case 2:
			res = c.Do(w, p, "CommandExtract", func() error { return lha.CommandExtract(Arc, lh()) })
		default:
			for _, n := range names {
				n := n
				res = c.Do(w, p, "Decompress", func() error { return lh().Decompress(named(n)) })
				c.Sane(res, "Decompress")
			}
		}
		c.Sane(res, "extraction")
		if res.OK() {
			c.Probe("success")
		} else {
			c.Probe("failure")
		}
		if x := snapDiff(before, w.FS.Full(), inside); x != "" {
			c.Fail("outside", "extraction (%s): %s", res, x)
		}
	}
}

// ---- consent ----

func runConsent(c *Ctx) {
	c.Zone()
	arc, items := c.items(5, 300)
	if c.T.Bool(1, 4) { /* the same name again, with another content */
		it := items[c.T.Intn(len(items))]
		d := []byte("the second of that name")
		m := &ref.Member{Method: "-lh0-", Level: 2, Name: it.Name, OS: 'U', HasTime: true, Time: 1e9, Packed: d, Orig: len(d), CRC: ref.CRC16(d)}
		arc = append(append(arc[:len(arc)-1], m.Build(c.Loc, rnd(1))...), 0)
		items = append(items, &Item{Name: it.Name, Data: d, M: m})
	}
	for _, x := range items {
		for _, y := range items {
			if strings.HasPrefix(y.Name, x.Name+"/") {
				c.trivial = true
				return /* a name that is a file and a directory */
			}
		}
	}
	w, p := c.readWorld(arc, c.drawShort())
	w.FS.Put("/w/elsewhere", []byte("behind a link"), 0644, 5e17)
	type there struct {
		data string
		kind string
	}
	at := map[string]*there{}
	for _, it := range items {
		q := Out + "/" + it.Name
		if at[q] != nil || w.FS.Get(q) != nil {
			continue
		}
		switch c.T.Intn(10) {
		case 0, 1, 2, 3, 4:
			d := "precious " + it.Name
			w.FS.Put(q, []byte(d), 0640, 5e17)
			at[q] = &there{d, "file"}
		case 5:
			if c.T.Bool(1, 3) {
				w.FS.Symlink("/w/elsewhere", q)
				at[q] = &there{"", "link"}
			} else if c.T.Bool(1, 2) {
				w.FS.MkdirAll(q)
				at[q] = &there{"", "dir"}
			}
		}
	}
	how := c.T.Intn(3)
	var obj *lha.Lha
	was := false
	for round := 0; round < 2; round++ {
		force := c.T.Bool(1, 6)
		kept := round == 1 && how != 0 && c.T.Bool(1, 2)
		if kept { /* what was set before still stands, whatever was answered */
			force = was
		}
		was = force
		var lines []string
		for k := c.T.Intn(8); k > 0; k-- {
			lines = append(lines, []string{"y", "n", "Y", "N", "", "a", "s", "A", "S", "maybe", "1", "yes", "no", "All"}[c.T.Intn(14)])
		}
		in := ""
		for _, l := range lines {
			in += l + "\n"
		}
		ioerr := c.T.Bool(1, 8)
		before := w.FS.Full()
		c.Say("how %d force %v answers %q input fails %v", how, force, lines, ioerr)
		var sel []*Item
		var res *Res
		q := p
		switch how {
		case 0:
			q = w.NewProc("lharc")
			q.Cwd = Out
			if ioerr {
				q.StdinErr = syscall.EIO
			}
			args := []string{"-archive", Arc, "-e"}
			if force {
				args = append(args, "-f")
			}
			sel = items
			res = c.CLIIn(w, q, in, args...)
		default:
			if obj == nil {
				obj = lha.NewLha(Arc)
			}
			p.SetStdin([]byte(in))
			p.StdinErr = nil
			if ioerr {
				p.StdinErr = syscall.EIO
			}
			sel = items
			pick := ""
			if how == 2 {
				pick = items[c.T.Intn(len(items))].Name
				sel = nil
				for _, it := range items {
					if it.Name == pick {
						sel = append(sel, it)
					}
				}
			}
			res = c.Do(w, p, "extract", func() error {
				obj.ExtractDirectory = Out
				if !kept {
					obj.Force = force
				}
				if how == 2 {
					return obj.Decompress(named(pick))
				}
				return lha.CommandExtract(Arc, obj)
			})
		}
		c.Sane(res, "extraction")
		/* the model of the questions */
		f, skip, asked := force, false, 0
		stopped := false
		touched := map[string]bool{}
		answer := func() byte {
			for {
				if len(lines) == 0 {
					return 'n'
				}
				l := lines[0]
				lines = lines[1:]
				if l == "" {
					return 'n'
				}
				switch x := l[0] | 32; x {
				case 'y', 'n', 'a', 's':
					return x
				}
			}
		}
		for _, it := range sel {
			q := Out + "/" + it.Name
			e := at[q]
			if e != nil && e.kind == "dir" || e != nil && !f && !skip && e.kind == "link" {
				if skip && !f {
					continue
				}
				stopped = true /* a failure: nothing after it */
				break
			}
			if e != nil && !f {
				if skip {
					continue
				}
				asked++
				switch answer() {
				case 'n':
					continue
				case 's':
					skip = true
					continue
				case 'a':
					f = true
				}
			}
			at[q] = &there{string(it.Data), "file"}
			touched[q] = true
		}
		c.Probe(fmt.Sprintf("questions %d", min(asked, 4)))
		if round == 0 {
			c.trivial = asked == 0
		}
		if res.OK() == stopped {
			c.Fail("outcome", "%s (a directory or link in the way: %v)", res, stopped)
		}
		for _, it := range items {
			q := Out + "/" + it.Name
			e := at[q]
			n := w.FS.Get(q)
			if e == nil {
				if n != nil {
					c.Fail("consent", "%s appeared", q)
				}
				continue
			}
			if e.kind == "file" {
				if n == nil || n.Kind != vsim.KFile || string(n.Data) != e.data {
					c.Fail("consent", "%s: is not %.40q", q, e.data)
				}
			}
			if !touched[q] {
				x := map[string]string{q: before[q]}
				y := map[string]string{q: w.FS.Full()[q]}
				if s := snapDiff(x, y, nil); s != "" {
					c.Fail("consent", "without consent, %s", s)
				}
			}
		}
		if d, _ := w.FS.Content("/w/elsewhere"); string(d) != "behind a link" {
			c.Fail("consent", "the file behind a link changed")
		}
	}
}

// ---- reading changes nothing ----

func runReadOnly(c *Ctx) {
	c.Zone()
	names := c.pool(4)
	var fs []*File
	for _, n := range names[:3] {
		fs = append(fs, c.source(n, 800))
	}
	var arc []byte
	if c.T.Bool(1, 2) {
		arc = c.refArchive(fs)
	} else {
		arc, _ = c.mixed(3, 800, true)
	}
	if c.T.Bool(1, 4) {
		r := rnd(c.T.Seed32())
		for j := 1 + r(3); j > 0; j-- {
			arc[r(len(arc))] ^= byte(1 + r(255))
		}
		if r(3) == 0 {
			arc = arc[:r(len(arc))]
		}
		c.Probe("damaged")
	}
	var src []*File
	for _, n := range names[c.T.Intn(2) : 2+c.T.Intn(2)] {
		src = append(src, c.source(n, 800))
	}
	mode := []string{"Headers", "DecompresBytes", "CommandList", "-l", "-lv", "-t", "-p", "noexec extract", "noexec Decompress", "-n -e", "noexec add"}[c.T.Intn(11)]
	a := c.drawAdd(src, true)
	a.Noexec = true
	if a.API == "CommandAdd" || a.API == "CLI" {
		a.New = a.New || c.T.Bool(1, 5)
		a.Update = c.T.Bool(1, 4)
	}
	if a.API != "CompressBytes" {
		a.Move = c.T.Bool(1, 3)
	}
	if a.API != "CLI" {
		a.Backup = c.T.Bool(1, 4)
	}
	exists := !c.T.Bool(1, 8)
	c.Say("%s, %s", mode, a)
	c.Probe(mode)
	verbose := c.T.Bool(1, 4)
	force := c.T.Bool(1, 3)
	quiet := c.T.Bool(1, 4)
	short := c.drawShort()
	var dry map[string]int
	for round := 0; round < 2; round++ {
		w, p := c.readWorld(arc, short)
		p.Cwd = "/w/src"
		for _, f := range src {
			f.put(w)
		}
		w.FS.Put(Out+"/"+names[0], []byte("there"), 0600, 5e17)
		if !exists {
			w.FS.Drop(Arc)
		}
		if round == 1 {
			c.inject(w, dry, fileFault)
		}
		before := w.FS.Full()
		w.FS.MutLog = nil
		lh := func() *lha.Lha {
			lha.Quiet = quiet
			l := lha.NewLha(Arc)
			l.ExtractDirectory = Out
			l.Verbose = verbose
			l.Force = force
			return l
		}
		cli := func(args ...string) *Res {
			q := w.NewProc("lharc")
			q.Cwd = Out
			if verbose {
				args = append(args, "-v")
			}
			if force {
				args = append(args, "-f")
			}
			return c.CLIIn(w, q, "y\ny\ny\n", append([]string{"-archive", Arc}, args...)...)
		}
		p.SetStdin([]byte("y\ny\ny\n"))
		var res *Res
		switch mode {
		case "Headers":
			_, res = c.Headers(w, p, Arc)
		case "DecompresBytes":
			_, res = c.Bytes(w, p, Arc, names[0])
		case "CommandList":
			res = c.Do(w, p, mode, func() error { return lha.CommandList(Arc, lh()) })
		case "noexec extract":
			res = c.Do(w, p, mode, func() error { l := lh(); l.Noexec = true; return lha.CommandExtract(Arc, l) })
		case "noexec Decompress":
			res = c.Do(w, p, mode, func() error { l := lh(); l.Noexec = true; return l.Decompress(named(names[0])) })
		case "noexec add":
			res = c.add(w, p, a)
		case "-n -e":
			res = cli("-n", "-e")
		default:
			res = cli(mode)
		}
		c.Sane(res, mode)
		if x := snapDiff(before, w.FS.Full(), nil); x != "" {
			c.Fail("changed", "%s (%s): %s", mode, res, x)
		}
		for _, m := range w.FS.MutLog {
			if !strings.Contains(m, " /tmp/") {
				c.Fail("changed", "%s (%s): %s", mode, res, m)
			}
		}
		dry = copyCounts(w.Counts)
	}
}

// ---- attributes ----

func runMeta(c *Ctx) {
	c.Zone()
	w := c.World()
	c.Short(w)
	if c.T.Bool(1, 3) {
		r := vsim.NewPRNG(c.T.Seed32())
		w.ClockJump = func(w *vsim.World) {
			if r.Intn(6) == 0 {
				d := int64(r.Intn(7200)-3600) * 1e9
				w.Now, w.Start = w.Now+d, w.Start+d
				w.Fire("clock jump")
			}
		}
	}
	type want struct {
		path  string
		kind  vsim.Kind
		mode  int /* -1: not recorded */
		stamp int64
		slack int64
		uid   int
		gid   int
		to    string
	}
	var ws []*want
	if c.T.Bool(1, 3) { /* by the archiver */
		var fs []*File
		for _, n := range c.pool(1 + c.T.Intn(3)) {
			fs = append(fs, c.source(n, 300))
		}
		a := c.drawAdd(fs, true)
		if a.API == "CompressBytes" {
			a.API = "Compress"
		}
		c.odd(a)
		for _, f := range fs {
			f.put(w)
		}
		p := w.NewProc("add")
		p.Cwd = "/w/src"
		w.Euid = 0
		c.Say("%s", a)
		c.Need(c.add(w, p, a), a.API)
		for _, f := range a.Files {
			x := &want{path: f.Base(), mode: -1, stamp: f.Mtime, uid: -1, to: f.To}
			x.kind = map[string]vsim.Kind{"dir": vsim.KDir, "link": vsim.KLink}[f.Kind]
			if a.Generic && a.Level < 2 {
				x.slack = 1
				if f.Mtime < 315532800+86400 {
					x.slack = 1 << 40 /* before what the header can tell */
				}
			}
			if !a.Generic && f.Kind != "link" {
				x.mode = int(f.Mode.Perm())
				c.Probe("own archive with modes")
			}
			ws = append(ws, x)
		}
	} else {
		var b []byte
		var ms []*ref.Member
		r := rnd(c.T.Seed32())
		mk := func(name string, kind vsim.Kind) {
			m := &ref.Member{Method: "-lh0-", Level: c.T.Intn(4), Name: name, Attr: 0x20, OS: 'U', HasMode: true, HasTime: true, Time: c.Mtime(),
				UID: c.T.Intn(70000) & 0xffff, GID: c.T.Intn(1000)}
			x := &want{path: strings.TrimSuffix(name, "/"), kind: kind, stamp: m.Time, uid: m.UID, gid: m.GID}
			switch kind {
			case vsim.KFile:
				d, _ := c.Content(200)
				m.Packed, m.Orig, m.CRC = d, len(d), ref.CRC16(d)
				m.Mode = 0100000 | c.T.Intn(01000)
				x.mode = m.Mode & 0777
				if c.T.Bool(1, 4) {
					m.OS, m.HasMode, x.mode, x.uid = 'M', false, -1, -1
					if m.Level == 0 {
						m.HasTime = false
						x.slack = 1
						m.Time &^= 1
						x.stamp = m.Time
						if m.Time < 315532800+86400 {
							x.slack = 1 << 40
						}
					}
				}
			case vsim.KDir:
				m.Method = "-lhd-"
				m.Mode = 040000 | c.T.Intn(01000)
				x.mode = m.Mode & 0777
				switch c.T.Intn(8) {
				case 6:
					m.OS, m.HasMode, x.mode, x.uid = []byte{'M', 'H', 'w'}[c.T.Intn(3)], false, -1, -1
					if m.Level == 0 {
						m.HasTime = false
						x.slack = 1
						if m.Time < 315532800+86400 {
							x.slack = 1 << 40
						}
					}
				case 7:
					if m.Level > 0 {
						m.OS, m.HasMode, x.mode, x.uid = 'A', false, -1, -1
						m.Method = "-lh0-"
					}
				}
			case vsim.KLink:
				m.Method = "-lhd-"
				m.Mode = 0120777
				m.Link, m.Target = true, []string{"a", "../x", "no/where", "/abs/path"}[c.T.Intn(4)]
				x.to = m.Target
				x.mode = -1
			}
			ms = append(ms, m)
			ws = append(ws, x)
		}
		for i := 1 + c.T.Intn(6); i > 0; i-- {
			dir := []string{"", "d/", "d/e/", "g/"}[c.T.Intn(4)]
			switch c.T.Intn(4) {
			case 0, 1:
				mk(dir+fmt.Sprintf("f%d", i), vsim.KFile)
			case 2:
				mk(dir+fmt.Sprintf("l%d", i), vsim.KLink)
			case 3:
				n := dir
				if n == "" || c.T.Bool(1, 3) {
					n += fmt.Sprintf("s%d/", i)
				}
				dup := false
				for _, m := range ms {
					dup = dup || m.Name == n
				}
				if !dup {
					mk(n, vsim.KDir)
				}
			}
		}
		for _, i := range perm(len(ms), r) {
			m := ms[i]
			c.Say("member %s %q level %d mode %o time %d", m.Method, m.Name, m.Level, m.Mode, m.Time)
			b = append(b, m.Build(c.Loc, r)...)
		}
		w.FS.Put(Arc, append(b, 0), 0644, 7e17)
	}
	w.FS.MkdirAll(Out)
	var res *Res
	if c.T.Bool(1, 2) {
		q := w.NewProc("lharc")
		q.Cwd = Out
		res = c.CLIIn(w, q, "", "-archive", Arc, "-e")
	} else {
		p := w.NewProc("p")
		res = c.Do(w, p, "CommandExtract", func() error {
			l := lha.NewLha(Arc)
			l.ExtractDirectory = Out
			return lha.CommandExtract(Arc, l)
		})
	}
	c.Need(res, "extraction")
	c.trivial = true
	known := map[string]bool{}
	for _, x := range ws {
		known[x.path] = true
	}
	for _, x := range ws {
		for d := path.Dir(x.path); d != "."; d = path.Dir(d) {
			if n := w.FS.Get(Out + "/" + d); !known[d] && (n == nil || n.Kind != vsim.KDir || n.Perm&0700 != 0700) {
				c.Fail("attributes", "the directory %q, which is not recorded, is not accessible", d)
			}
		}
	}
	for _, x := range ws {
		if x.mode >= 0 {
			c.trivial = false
		}
		n := w.FS.Get(Out + "/" + x.path)
		if n == nil {
			c.Fail("attributes", "%q is not there", x.path)
		}
		if n.Kind != x.kind {
			c.Fail("attributes", "%q is of another kind", x.path)
		}
		if x.kind == vsim.KLink {
			if n.Target != x.to {
				c.Fail("attributes", "%q leads to %q instead of %q", x.path, n.Target, x.to)
			}
		} else {
			d := n.Mtime/1e9 - x.stamp
			if d < -x.slack || d > x.slack {
				c.Fail("attributes", "%q: time %d instead of %d (zone %v)", x.path, n.Mtime/1e9, x.stamp, c.Loc)
			}
		}
		if x.mode >= 0 && n.Perm&os.ModePerm != os.FileMode(x.mode) {
			c.Fail("attributes", "%q: mode %o instead of %o", x.path, n.Perm, x.mode)
		}
		if x.uid >= 0 && (n.UID != x.uid || n.GID != x.gid) {
			c.Fail("attributes", "%q: owner %d/%d instead of %d/%d", x.path, n.UID, n.GID, x.uid, x.gid)
		}
	}
}

func perm(n int, r func(int) int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---- listings ----

func runListing(c *Ctx) {
	c.Zone()
	arc, items := c.items(5, 1500)
	var ms []*ref.Member
	for _, it := range items {
		ms = append(ms, it.M)
	}
	for i := c.T.Intn(3) - 1; i >= 0; i-- { /* directories and links */
		m := &ref.Member{Method: "-lhd-", Level: c.T.Intn(4), Name: fmt.Sprintf("x%d", i), Attr: 0x20, OS: 'U', HasMode: true, HasTime: true, Time: c.Mtime(),
			Mode: 040000 | c.T.Intn(010000), UID: c.T.Intn(1000), GID: c.T.Intn(1000)}
		if c.T.Bool(1, 2) {
			m.Link, m.Target, m.Mode = true, []string{"a", "../x", "no/where", "/abs/path"}[c.T.Intn(4)], 0120777
		} else {
			m.Name += "/"
		}
		ms = append(ms, m)
		arc = append(arc[:len(arc)-1], m.Build(c.Loc, rnd(c.T.Seed32()))...)
		arc = append(arc, 0)
	}
	add := func(m *ref.Member) {
		ms = append(ms, m)
		arc = append(append(arc[:len(arc)-1], m.Build(c.Loc, rnd(uint64(len(ms))))...), 0)
	}
	forged := c.T.Bool(1, 4)
	if forged { /* a listing does not read the data */
		for i := 1 + c.T.Intn(2); i > 0; i-- {
			m := &ref.Member{Method: "-lh5-", Level: c.T.Intn(4), Name: fmt.Sprintf("huge%d", i), Attr: 0x20, OS: 'U', HasMode: true, HasTime: true, Time: 1e9, Mode: 0100644,
				Packed: make([]byte, c.T.Intn(100)), Orig: []int{999999, 9999999, 10000000, 123456789, 1<<31 - 1, 1 << 31, 1<<32 - 1, 3000000000}[c.T.Intn(8)]}
			c.Say("%s of %d bytes, it says", m.Name, m.Orig)
			add(m)
		}
	}
	if c.T.Bool(1, 16) {
		for i := 30 + c.T.Intn(250); i > 0; i-- {
			add(few(i))
		}
	}
	w, p := c.readWorld(arc, c.drawShort())
	p.Cwd = "/w/src"
	if c.T.Bool(1, 3) {
		var fs []*File
		for i := 0; i < 1+c.T.Intn(2); i++ {
			f := c.source(fmt.Sprintf("new%d", i), 1500)
			f.put(w)
			fs = append(fs, f)
		}
		a := c.drawAdd(fs, true)
		if a.API == "CLI" {
			a.API = "CommandAdd"
		}
		a.New = false
		c.Say("%s", a)
		c.Need(c.add(w, p, a), a.API)
		b, _ := w.FS.Content(Arc)
		var err error
		if ms, err = ref.Parse(b); err != nil {
			return /* others judge that */
		}
		c.Probe("updated")
	}
	c.trivial = len(ms) < 2
	var res *Res
	if !forged {
		var hs []Hdr
		hs, res = c.Headers(w, p, Arc)
		c.Need(res, "Headers")
		if len(hs) != len(ms) {
			c.Fail("headers", "%d members instead of %d", len(hs), len(ms))
		}
		for i := range ms {
			c.headerOf(hs[i], ms[i], "Headers")
		}
	}
	verb, vl := c.T.Bool(1, 3), c.T.Bool(1, 2)
	var sel []*ref.Member
	var ask []string
	for _, m := range ms {
		if c.T.Bool(1, 2) {
			sel = append(sel, m)
			ask = append(ask, m.Name)
		}
	}
	cli := c.T.Bool(1, 2)
	if cli || len(sel) == 0 || c.T.Bool(1, 2) {
		sel, ask = ms, nil
	}
	if cli {
		q := w.NewProc("lharc")
		args := []string{"-archive", Arc, "-l"}
		if vl {
			args[2] = "-lv"
		}
		if verb {
			args = append(args, "-v")
		}
		res = c.CLIIn(w, q, "", args...)
	} else {
		res = c.Do(w, p, "CommandList", func() error {
			l := lha.NewLha([]string{Arc, "/w/arc/another.lzh"}[len(ask)&1])
			l.Verbose, l.VerboseListing = verb, vl
			l.CmdFilev, l.CmdFilec = ask, len(ask)
			return lha.CommandList(Arc, l)
		})
	}
	c.Need(res, "listing")
	out := strings.ReplaceAll(res.Out, "\x00", "")
	c.Say("verbose %v listing %v cli %v of %d", verb, vl, cli, len(sel))
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	per := 1
	if verb {
		per = 2
	}
	if len(lines) != 2+per*len(sel)+2 {
		c.Fail("listing", "%d lines for %d members:\n%s", len(lines), len(sel), out)
	}
	sum, psum := 0, 0
	for i, m := range sel {
		l := lines[2+per*i+per-1]
		shown := m.Name
		if m.Link {
			shown += " -> " + m.Target
		}
		if verb {
			if lines[2+per*i] != shown {
				c.Fail("listing", "the line of %q is %q", m.Name, lines[2+per*i])
			}
			if !strings.HasSuffix(l, fmt.Sprintf("[%d]", m.Level)) {
				c.Fail("listing", "%q: level %d in %q", m.Name, m.Level, l)
			}
		} else if !strings.HasSuffix(l, " "+shown) {
			c.Fail("listing", "the line of %q is %q", m.Name, l)
		}
		rest := strings.TrimSuffix(l, shown)
		num := fmt.Sprintf(" %d ", m.Orig)
		if vl {
			if strings.Join(strings.Fields(rest), " ") == "" {
				c.Fail("listing", "%q: nothing in %q", m.Name, l)
			}
			num = fmt.Sprintf(" %d %d ", len(m.Packed), m.Orig)
			crc := fmt.Sprintf(" %s %04x ", m.Method, m.CRC)
			if m.NoCRC {
				crc = fmt.Sprintf(" %s **** ", m.Method)
			}
			if !strings.Contains(squeeze(rest), crc) {
				c.Fail("listing", "%q: no%sin %q", m.Name, crc, l)
			}
		}
		if !strings.Contains(squeeze(rest), num) {
			c.Fail("listing", "%q: no%sin %q", m.Name, num, l)
		}
		if m.HasMode && m.OS == 'U' && !strings.HasPrefix(l, perms(m.Mode)) {
			c.Fail("listing", "%q: no %s in %q", m.Name, perms(m.Mode), l)
		}
		if m.HasMode && (m.OS == 'K' || m.OS == 'X') && !strings.HasPrefix(l, oskPerms(m.Mode)) {
			c.Fail("listing", "%q: no %s in %q", m.Name, oskPerms(m.Mode), l)
		}
		owner := ""
		if m.HasMode && (m.OS == 'U' || m.OS == 'K' || m.OS == 'X') {
			owner = fmt.Sprintf(" %d/%d ", m.UID, m.GID)
			switch {
			case m.User != "" && m.Group != "":
				owner = fmt.Sprintf(" %.5s/%.5s ", m.User, m.Group)
			case m.User != "":
				owner = fmt.Sprintf(" %.5s/%d ", m.User, m.GID)
			case m.Group != "":
				owner = fmt.Sprintf(" %d/%.5s ", m.UID, m.Group)
			}
		}
		if owner != "" && !strings.Contains(squeeze(rest), owner) {
			c.Fail("listing", "%q: no%sin %q", m.Name, owner, l)
		}
		if o := systems[m.OS]; o != "" && !strings.HasPrefix(l, o) && !(m.Level == 0 && strings.HasPrefix(l, "[generic]")) {
			c.Fail("listing", "%q: no %s in %q", m.Name, o, l)
		}
		if x := ratio(len(m.Packed), m.Orig); !strings.Contains(squeeze(rest), x) {
			c.Fail("listing", "%q: no%sin %q", m.Name, x, l)
		}
		sum += m.Orig
		psum += len(m.Packed)
	}
	t := squeeze(lines[len(lines)-1] + " ")
	num := fmt.Sprintf(" %d ", sum)
	if vl {
		num = fmt.Sprintf(" %d %d ", psum, sum)
	}
	if !strings.Contains(t, fmt.Sprintf(" Total %d file", len(sel))) || !strings.Contains(t, num) || !strings.Contains(t, ratio(psum, sum)) {
		c.Fail("listing", "%d members, %s: total line %q", len(sel), num, t)
	}
}

var systems = map[byte]string{0: "[generic]", 'C': "[CP/M]", 'F': "[FLEX]", '9': "[OS-9]", 'M': "[MS-DOS]", 'm': "[Mac OS]", '2': "[OS/2]",
	'H': "[Human68K]", '3': "[OS-386]", 'R': "[Runser]", 'T': "[TownsOS]", 'J': "[JAVA]", 'w': "[unknown]", 'A': "[unknown]"}

func ratio(packed, orig int) string {
	if orig == 0 {
		return " ****** "
	}
	return fmt.Sprintf(" %.1f%% ", float64(packed)*100/float64(orig))
}

func squeeze(s string) string { return " " + strings.Join(strings.Fields(s), " ") + " " }

// perms is the usual form of a mode, with the bits beyond the nine in the places of
// those for execution.
func perms(m int) string {
	b := []byte("-rwxrwxrwx")
	switch m & 0170000 {
	case 040000:
		b[0] = 'd'
	case 0120000:
		b[0] = 'l'
	}
	for i := 0; i < 9; i++ {
		if m>>(8-uint(i))&1 == 0 {
			b[i+1] = '-'
		}
	}
	for i, x := range "sst" {
		if m>>(11-uint(i))&1 != 0 {
			b[3+3*i] = byte(x)
		}
	}
	return string(b)
}

// oskPerms is the form of OS-9.
func oskPerms(m int) string {
	b := []byte("dsewrewr")
	for i := range b {
		if m>>(7-uint(i))&1 == 0 {
			b[i] = '-'
		}
	}
	return string(b)
}
