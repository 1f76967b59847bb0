package checks

import (
	"fmt"
	"path"
	"strings"
	"unicode/utf8"

	"lhasim/gen/lha"
	"lhasim/ref"
	"lhasim/vsim"
)

func init() {
	register(&Prop{ID: "C10", Quick: 36000, Thorough: 2160000, Run: runExtractFaults,
		Rule: "1 to 3 system calls of an extraction, a verification or a listing fail, or the disk is full; when success is reported what was delivered is compared with the members; then it is run again without faults; non-trivial: a fault fired"})
	register(&Prop{ID: "C11", Quick: 90000, Thorough: 5400000, Run: runCorrupt,
		Rule: "bytes of the packed data or of checksummed header fields are changed, or the archive is cut short, and every reading interface is tried; non-trivial: the archive differs from the intact one"})
	register(&Prop{ID: "C26", Quick: 80000, Thorough: 4800000, Run: runSelect,
		Rule: "some members are asked for, by name, through CommandExtract, Decompress and DecompresBytes, with and without directories; the files that appear are compared with those asked for; non-trivial: some but not all members were asked for"})
}

const Out = "/w/out"

// Item is a member of a generated archive and its content.
type Item struct {
	Name string
	Data []byte
	M    *ref.Member
	Off  int /* of the header in the archive */
	Len  int
}

func (it *Item) regular() bool { return it.M == nil || it.M.Method != "-lhd-" }

// lhdMember draws a member that is a directory or a link.
func (c *Ctx) lhdMember(i int) *ref.Member {
	m := &ref.Member{Method: "-lhd-", Level: c.T.Intn(4), Name: fmt.Sprintf("%slhd%d", []string{"", "dd/", "other/place/"}[c.T.Intn(3)], i), Attr: 0x20, OS: 'U',
		HasMode: true, HasTime: true, Time: c.Mtime(), Mode: 040700 | c.T.Intn(01000), UID: c.T.Intn(1000), GID: c.T.Intn(1000), More: c.T.Bool(1, 2)}
	if c.T.Bool(1, 2) {
		m.Link, m.Target, m.Mode = true, []string{"a", "../x", "no/where", "/abs/path"}[c.T.Intn(4)], 0120777
	} else {
		m.Name += "/"
	}
	c.Say("member %s %q %s level %d", m.Method, m.Name, m.Target, m.Level)
	return m
}

// items draws an archive by the reference encoder, of regular files with paths.
func (c *Ctx) items(nmax, big int) ([]byte, []*Item) { return c.mixed(nmax, big, false) }

// mixed draws directories and links too, if lhd; one member at least is a file.
func (c *Ctx) mixed(nmax, big int, lhd bool) ([]byte, []*Item) {
	var out []byte
	var r []*Item
	n := 1 + c.T.Intn(nmax)
	lhd = lhd && c.T.Bool(1, 3)
	for i := 0; i < n; i++ {
		for j := 0; lhd && j < 3 && c.T.Bool(1, 2); j++ {
			m := c.lhdMember(3*i + j)
			b := m.Build(c.Loc, rnd(c.T.Seed32()))
			r = append(r, &Item{m.Name, nil, m, len(out), len(b)})
			out = append(out, b...)
		}
		m, d := c.foreignMember(i, big)
		m.NoCRC = false
		b := m.Build(c.Loc, rnd(c.T.Seed32()))
		r = append(r, &Item{m.Name, d, m, len(out), len(b)})
		out = append(out, b...)
	}
	return append(out, 0), r
}

// Read is one operation that reads an archive.
type Read struct {
	Kind  string
	Item  *Item /* of Decompress and DecompresBytes */
	Force bool
	Dir   string /* where the files go, if not Out */
	Arc   string /* the archive, if not Arc */
	got   []byte
	hs    []Hdr
	res   *Res
}

var readKinds = []string{"CommandExtract", "Decompress", "DecompresBytes", "-e", "-p", "-t", "Headers", "CommandList", "-l"}

func (r *Read) String() string {
	if r.Item != nil {
		return r.Kind + " " + cut(r.Item.Name)
	}
	return r.Kind
}

func (c *Ctx) drawRead(items []*Item) *Read {
	r := &Read{Kind: readKinds[c.T.Intn(len(readKinds))], Force: c.T.Bool(1, 4)}
	if r.Kind == "Decompress" || r.Kind == "DecompresBytes" {
		r.Item = items[c.T.Intn(len(items))]
		if r.Kind == "DecompresBytes" && !r.Item.regular() {
			for _, it := range items { /* a file, if there is one that is meant to be one */
				if it.regular() {
					r.Item = it
				}
			}
		}
	}
	return r
}

// all: the operation reads the data of every member.
func (r *Read) all() bool {
	return r.Kind == "CommandExtract" || r.Kind == "-e" || r.Kind == "-p" || r.Kind == "-t" || r.Kind == "Headers"
}

func (r *Read) dir() string {
	if r.Dir != "" {
		return r.Dir
	}
	return Out
}

func (r *Read) arc() string {
	if r.Arc != "" {
		return r.Arc
	}
	return Arc
}

func (r *Read) lha() *lha.Lha {
	l := lha.NewLha(r.arc())
	if (r.Kind == "CommandExtract" || r.Kind == "CommandList") && r.Force {
		l = lha.NewLha("/w/arc/another.lzh") /* the archive is an argument */
	}
	l.ExtractDirectory = r.dir()
	l.Force = r.Force
	return l
}

// call performs the operation on the library.
func (r *Read) call() error {
	switch r.Kind {
	case "CommandExtract":
		return lha.CommandExtract(r.arc(), r.lha())
	case "Decompress":
		return r.lha().Decompress(named(r.Item.Name))
	case "DecompresBytes":
		b, err := r.lha().DecompresBytes(named(r.Item.Name))
		r.got = append([]byte{}, b...)
		return err
	case "CommandList":
		return lha.CommandList(r.arc(), r.lha())
	}
	hs, err := r.lha().Headers()
	for _, h := range hs {
		r.hs = append(r.hs, toHdr(h))
	}
	return err
}

func (r *Read) run(c *Ctx, w *vsim.World, p *vsim.Proc) *Res {
	cli := func(args ...string) *Res {
		q := w.NewProc("lharc")
		q.Cwd = r.dir()
		a := append([]string{"-archive", r.arc()}, args...)
		if r.Force {
			a = append(a, "-f")
		}
		return c.CLIIn(w, q, "", a...)
	}
	r.got, r.hs = nil, nil
	if r.Kind[0] == '-' {
		r.res = cli(r.Kind)
	} else {
		r.res = c.Do(w, p, r.Kind, r.call)
	}
	return r.res
}

// delivered compares what a successful operation delivered.
func (r *Read) delivered(w *vsim.World, items []*Item) string {
	file := func(it *Item) string {
		if !it.regular() {
			n := w.FS.Get(r.dir() + "/" + strings.TrimSuffix(it.Name, "/"))
			switch {
			case n == nil:
				return fmt.Sprintf("%q was not extracted", it.Name)
			case it.M.Link && (n.Kind != vsim.KLink || n.Target != it.M.Target), !it.M.Link && n.Kind != vsim.KDir:
				return fmt.Sprintf("%q is something else", it.Name)
			}
			return ""
		}
		b, ok := w.FS.Content(r.dir() + "/" + it.Name)
		if !ok {
			return fmt.Sprintf("%q was not extracted", it.Name)
		}
		if !eq(b, it.Data) {
			return fmt.Sprintf("%q: %s", it.Name, diff(b, it.Data))
		}
		return ""
	}
	switch r.Kind {
	case "CommandExtract", "-e":
		for _, it := range items {
			if s := file(it); s != "" {
				return s
			}
		}
	case "Decompress":
		return file(r.Item)
	case "DecompresBytes":
		if !eq(r.got, r.Item.Data) {
			return fmt.Sprintf("%q: %s", r.Item.Name, diff(r.got, r.Item.Data))
		}
	case "-p":
		want := ""
		for _, it := range items {
			if it.regular() {
				want += fmt.Sprintf("::::::::\n%s\n::::::::\n%s", it.Name, it.Data)
			}
		}
		if r.res.Out != want {
			return "standard output: " + diff([]byte(r.res.Out), []byte(want))
		}
	case "Headers":
		if len(r.hs) != len(items) {
			return fmt.Sprintf("%d members instead of %d", len(r.hs), len(items))
		}
		for i, it := range items {
			if r.hs[i].Name != it.Name {
				return fmt.Sprintf("member %q instead of %q", r.hs[i].Name, it.Name)
			}
		}
	case "-t":
		for _, it := range items {
			if it.regular() && !strings.Contains(r.res.Out+r.res.Errout, it.Name) {
				return fmt.Sprintf("%q was not tested", it.Name)
			}
		}
	case "CommandList", "-l":
		for _, it := range items {
			if !strings.Contains(r.res.Out, it.Name) {
				return fmt.Sprintf("%q is not listed", it.Name)
			}
		}
	}
	return ""
}

func (c *Ctx) readWorld(arc []byte, short uint64) (*vsim.World, *vsim.Proc) {
	w := c.World()
	w.ShortSeed = short
	w.FS.MkdirAll(Out)
	w.FS.Put(Arc, arc, 0644, 7e17)
	return w, w.NewProc("p")
}

func (c *Ctx) drawShort() uint64 {
	if c.T.Bool(1, 3) {
		return 1 + c.T.Seed32()
	}
	return 0
}

func runExtractFaults(c *Ctx) {
	c.Zone()
	arc, items := c.mixed(4, 6000, true)
	r := c.drawRead(items)
	c.Say("%s", r)
	short := c.drawShort()
	w, p := c.readWorld(arc, short)
	c.Need(r.run(c, w, p), r.Kind)
	if s := r.delivered(w, items); s != "" {
		c.Fail("undisturbed", "%s: %s", r, s)
	}
	c.Probe(r.Kind)
	dry := copyCounts(w.Counts)
	w, p = c.readWorld(arc, short)
	keep := fileFault
	if r.Kind == "-p" {
		keep = nil
	}
	c.inject(w, dry, keep)
	res := r.run(c, w, p)
	c.Sane(res, r.Kind)
	hit := anyFired(w)
	c.trivial = !hit
	if res.OK() {
		c.Probe("success")
		if s := r.delivered(w, items); s != "" {
			c.Fail("silent failure", "%s reported success: %s", r, s)
		}
		return
	}
	c.Probe("failure")
	if !hit {
		c.Fail("refused", "%s: %s without a fault", r, res)
	}
	w.Faults = nil
	w.FS.Cap = 0
	r.Force = true
	c.Need(r.run(c, w, p), r.Kind+" without faults")
	if s := r.delivered(w, items); s != "" {
		c.Fail("retry", "after a failure %s: %s", r, s)
	}
}

// ---- damage ----

func runCorrupt(c *Ctx) {
	c.Zone()
	arc, items := c.mixed(3, 3000, true)
	bad := append([]byte{}, arc...)
	k := c.T.Intn(len(items))
	it := items[k]
	mode := c.T.Intn(3)
	what := ""
	switch mode {
	case 0: /* packed data */
		if len(it.M.Packed) == 0 {
			c.trivial = true
			return
		}
		at := it.Off + it.M.HdrLen
		n := len(it.M.Packed)
		switch c.T.Intn(5) {
		case 0, 1: /* a bit */
			i := c.T.Intn(n * 8)
			bad[at+i/8] ^= 1 << uint(i%8)
			what = fmt.Sprintf("bit %d of the data of %q", i, it.Name)
		case 2: /* a byte */
			i := c.T.Intn(n)
			bad[at+i] += byte(1 + c.T.Intn(255))
			what = fmt.Sprintf("byte %d of the data of %q", i, it.Name)
		case 3: /* a block is zero */
			i := c.T.Intn(n)
			l := 1 + c.T.Intn(n-i)
			for j := 0; j < l; j++ {
				bad[at+i+j] = 0
			}
			what = fmt.Sprintf("bytes %d to %d of the data of %q", i, i+l, it.Name)
		case 4: /* a block is something else */
			i := c.T.Intn(n)
			l := 1 + c.T.Intn(n-i)
			r := rnd(c.T.Seed32())
			for j := 0; j < l; j++ {
				bad[at+i+j] = byte(r(256))
			}
			what = fmt.Sprintf("bytes %d to %d of the data of %q at random", i, i+l, it.Name)
		}
	case 1: /* cut */
		i := it.Off + 1 + c.T.Intn(it.Len-1)
		if c.T.Bool(1, 4) {
			i = it.Off + 1 + c.T.Intn(min(40, it.Len-1))
		}
		bad = bad[:i]
		what = fmt.Sprintf("cut at %d, in %q (header %d, all %d)", i-it.Off, it.Name, it.M.HdrLen, it.Len)
	case 2: /* header */
		at := covered(bad[it.Off:], it.M)
		i := at[c.T.Intn(len(at))]
		bad[it.Off+i] ^= byte(1 + c.T.Intn(255))
		if it.M.Level >= 2 && (bad[it.Off] == 0 || ref.CRC16(bad[it.Off:it.Off+it.M.HdrLen]) == 0) {
			c.trivial = true /* the end mark, or the CRC by chance */
			return
		}
		what = fmt.Sprintf("byte %d of the level %d header of %q", i, it.M.Level, it.Name)
	}
	c.Say("%s", what)
	c.trivial = eq(arc, bad)
	if c.trivial {
		return
	}
	c.Probe([]string{"data", "cut", "header"}[mode])
	r := c.drawRead(items)
	c.Say("%s", r)
	w, p := c.readWorld(bad, c.drawShort())
	res := r.run(c, w, p)
	c.Sane(res, r.Kind)
	if !res.OK() {
		c.Probe("reported")
		if res.Out == "" && res.Errout == "" && res.Err == nil {
			c.Fail("unexplained", "%s: %s with no message", r, res)
		}
		switch { /* what comes before the damage is delivered */
		case r.Kind == "CommandExtract" || r.Kind == "-e":
			for _, x := range items[:k] {
				if !x.regular() {
					if w.FS.Get(Out+"/"+strings.TrimSuffix(x.Name, "/")) == nil {
						c.Fail("before the damage", "%s, %s is damaged: %q is not there", r, what, x.Name)
					}
					continue
				}
				if b, ok := w.FS.Content(Out + "/" + x.Name); !ok || !eq(b, x.Data) {
					c.Fail("before the damage", "%s, %s is damaged: %q: there %v, %s", r, what, x.Name, ok, diff(b, x.Data))
				}
				c.Probe("member before the damage")
			}
		case r.Kind == "-p":
			want := ""
			for _, x := range items[:k] {
				if !x.regular() {
					continue
				}
				want += fmt.Sprintf("::::::::\n%s\n::::::::\n%s", x.Name, x.Data)
			}
			if !strings.HasPrefix(res.Out, want) {
				c.Fail("before the damage", "%s, %s is damaged: standard output: %s", r, what, diff([]byte(res.Out), []byte(want)))
			}
		case r.Kind == "Headers":
			if len(r.hs) < k {
				c.Fail("before the damage", "%s, %s is damaged: %d members instead of %d", r, what, len(r.hs), k)
			}
		case r.Kind == "CommandList" || r.Kind == "-l":
			for _, x := range items[:k] {
				if !strings.Contains(res.Out, x.Name) {
					c.Fail("before the damage", "%s, %s is damaged: %q is not listed", r, what, x.Name)
				}
			}
		}
		return
	}
	c.Probe("success")
	switch {
	case mode == 2:
		c.Fail("header damage", "%s reported success although %s is damaged", r, what)
	case mode == 1:
		c.Fail("cut archive", "%s reported success although the archive is %s", r, what)
	case r.Kind == "CommandList" || r.Kind == "-l":
		return /* the data is not looked at */
	case r.Item != nil && r.Item != it:
		if s := r.delivered(w, items); s != "" {
			c.Fail("other member", "%s: %s", r, s)
		}
		return
	}
	/* success: what was delivered must have the recorded size and CRC */
	good := func(b []byte, how string) {
		if len(b) != it.M.Orig || ref.CRC16(b) != it.M.CRC {
			c.Fail("data damage", "%s reported success although %s is damaged: %s delivered %d bytes with CRC %04x, recorded %d and %04x", r, what, how, len(b), ref.CRC16(b), it.M.Orig, it.M.CRC)
		}
		c.Probe("harmless damage")
	}
	switch r.Kind {
	case "CommandExtract", "-e", "Decompress":
		b, _ := w.FS.Content(Out + "/" + it.Name)
		good(b, "it")
	case "DecompresBytes":
		good(r.got, "it")
	default:
		b, res := c.Bytes(w, p, Arc, it.Name)
		c.Sane(res, "DecompresBytes")
		if !res.OK() {
			c.Fail("data damage", "%s reported success although %s is damaged: extraction gives %s", r, what, res)
		}
		good(b, "extraction")
	}
}

// covered lists the header bytes whose change the checksum or CRC of the header
// reveals for certain, and that do not say where the header or its parts end.
func covered(h []byte, m *ref.Member) []int {
	var r []int
	add := func(a, b int) {
		for i := a; i < b; i++ {
			if i != 20 {
				r = append(r, i)
			}
		}
	}
	switch m.Level {
	case 0, 1:
		n := int(h[0]) + 2
		if m.Level == 1 {
			n -= 2 /* the size of the first extended header */
		}
		add(2, 21)
		add(22, n)
		return r
	}
	add(0, m.HdrLen) /* all of it is under the CRC */
	return r
}

// ---- selection ----

// selectTwice: two members of one name.
func (c *Ctx) selectTwice() {
	var fs []*File
	for _, n := range c.pool(3) {
		fs = append(fs, c.source(n, 800))
	}
	twin := c.source(fs[0].Base(), 800)
	at := 1 + c.T.Intn(len(fs))
	fs = append(fs[:at:at], append([]*File{twin}, fs[at:]...)...)
	w, p := c.readWorld(c.refArchive(fs), c.drawShort())
	f := fs[c.T.Intn(len(fs))]
	how := c.T.Intn(3)
	c.Probe("two members of one name")
	c.Say("two members %q, %d asked for %q", twin.Base(), how, f.Base())
	var got []byte
	res := c.Do(w, p, "selection", func() error {
		l := lha.NewLha(Arc)
		l.ExtractDirectory, l.Force = Out, true
		switch how {
		case 0:
			b, err := l.DecompresBytes(named(f.Base()))
			got = append(got, b...)
			return err
		case 1:
			return l.Decompress(named(f.Base()))
		}
		l.CmdFilev, l.CmdFilec = []string{f.Base()}, 1
		return lha.CommandExtract(Arc, l)
	})
	c.Need(res, "selection")
	x := w.FS.List(Out)
	if how > 0 {
		got, _ = w.FS.Content(Out + "/" + f.Base())
		if len(x) != 1 {
			c.Fail("selected", "%d files instead of one", len(x))
		}
	} else if len(x) != 0 {
		c.Fail("selected", "%d files made", len(x))
	}
	ok := false
	for _, g := range fs {
		ok = ok || g.Base() == f.Base() && eq(g.Data, got)
	}
	if !ok {
		c.Fail("selected", "%q is not a member of that name: %s", f.Base(), show(got))
	}
}

func runSelect(c *Ctx) {
	c.Zone()
	if c.T.Bool(1, 16) {
		c.selectTwice()
		return
	}
	arc, items := c.items(4, 800)
	w, p := c.readWorld(arc, c.drawShort())
	var want []*Item
	for _, it := range items {
		if c.T.Bool(1, 2) {
			want = append(want, it)
		}
	}
	if len(want) == 0 {
		want = items[:1]
	}
	c.trivial = len(want) == len(items)
	flat := c.T.Bool(1, 4)
	how := c.T.Intn(4)
	var ask []string
	for _, it := range want {
		ask = append(ask, it.Name)
	}
	if c.T.Bool(1, 5) {
		ask = append(ask, "no such member")
	}
	absent := map[string]bool{"no such member": true}
	for k := c.T.Intn(3); k > 0; k-- { /* names that are like those of members */
		n := items[c.T.Intn(len(items))].Name
		dir, base := path.Split(n)
		x := []string{path.Clean(dir), base, n + "x", n[:len(n)-1], strings.ToUpper(n), strings.ToLower(n), "*", "?" + n[1:], "zz/" + n, dir + "*"}[c.T.Intn(10)]
		hit := x == "" || x == "." || x == "/" || !utf8.ValidString(x)
		for _, it := range items {
			hit = hit || it.Name == x
		}
		if !hit {
			ask = append(ask, x)
			absent[x] = true
			c.Probe("a name that is like that of a member")
		}
	}
	if c.T.Bool(1, 2) {
		for i, k := range perm(len(ask), rnd(c.T.Seed32())) {
			ask[i], ask[k] = ask[k], ask[i]
		}
	}
	c.Say("%d of %d, flat %v, how %d: %.100q", len(want), len(items), flat, how, ask)
	before := w.FS.Snapshot()
	switch how {
	case 0:
		res := c.Do(w, p, "CommandExtract", func() error {
			l := lha.NewLha(Arc)
			l.ExtractDirectory = Out
			l.IgnoreDirectory = flat
			l.CmdFilev, l.CmdFilec = ask, len(ask)
			return lha.CommandExtract(Arc, l)
		})
		c.Need(res, "CommandExtract")
	case 1:
		l := (*lha.Lha)(nil)
		for _, n := range ask {
			n := n
			res := c.Do(w, p, "Decompress", func() error {
				if l == nil {
					l = lha.NewLha(Arc)
					l.ExtractDirectory = Out
					l.IgnoreDirectory = flat
				}
				return l.Decompress(named(n))
			})
			if absent[n] {
				c.Sane(res, "Decompress")
				if res.OK() {
					c.Fail("absent member", "Decompress of an absent member reported success")
				}
			} else {
				c.Need(res, "Decompress "+n)
			}
		}
	case 3:
		res := c.Do(w, p, "CommandExtract", func() error {
			l := lha.NewLha(Arc)
			l.OutputToStdout = true
			l.CmdFilev, l.CmdFilec = ask, len(ask)
			return lha.CommandExtract(Arc, l)
		})
		c.Need(res, "CommandExtract")
		out := ""
		for _, it := range items {
			for _, x := range want {
				if x == it {
					out += "::::::::\n" + it.Name + "\n::::::::\n" + string(it.Data)
				}
			}
		}
		if got := string(p.Stdout); got != out {
			c.Fail("selection", "printed: %s", diff([]byte(got), []byte(out)))
		}
		if x := snapDiff(before, w.FS.Snapshot(), nil); x != "" {
			c.Fail("selection", "printing: %s", x)
		}
	case 2:
		for _, it := range want {
			b, res := c.Bytes(w, p, Arc, it.Name)
			c.Need(res, "DecompresBytes")
			if !eq(b, it.Data) {
				c.Fail("content", "%q: %s", it.Name, diff(b, it.Data))
			}
		}
		for _, n := range ask {
			if !absent[n] {
				continue
			}
			_, res := c.Bytes(w, p, Arc, n)
			c.Sane(res, "DecompresBytes")
			if res.OK() {
				c.Fail("absent member", "DecompresBytes of the absent member %q reported success", n)
			}
		}
		if x := snapDiff(before, w.FS.Snapshot(), nil); x != "" {
			c.Fail("selection", "DecompresBytes: %s", x)
		}
		return
	}
	if how == 3 {
		return
	}
	expect := map[string][]byte{}
	for _, it := range want {
		n := it.Name
		if flat {
			n = n[strings.LastIndexByte(n, '/')+1:]
		}
		expect[Out+"/"+n] = it.Data
	}
	seen := 0
	w.FS.Walk(func(q string, n *vsim.Inode) {
		if n.Kind != vsim.KFile || !strings.HasPrefix(q, Out) || c.V != nil {
			return
		}
		d, ok := expect[q]
		if !ok {
			c.Flag("selection", "%s was extracted but not asked for", q)
			return
		}
		if !eq(d, n.Data) {
			c.Flag("selection", "%s: %s", q, diff(n.Data, d))
		}
		seen++
	})
	c.Check()
	if seen != len(expect) {
		c.Fail("selection", "%d files extracted instead of %d", seen, len(expect))
	}
	if x := snapDiff(before, w.FS.Snapshot(), func(p string) bool { return strings.HasPrefix(p, Out) }); x != "" {
		c.Fail("selection", "outside the directory %s", x)
	}
}
