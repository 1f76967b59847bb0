package checks

import (
	"fmt"
	"path"
	"strings"

	"lhasim/ref"
)

func init() {
	register(&Prop{ID: "C03", Quick: 13000, Thorough: 780000, Run: runForeign,
		Rule:   "an archive of 1 to 4 members made by an independent encoder (method, header level 0-3, extended headers, token mix, block layout drawn per seed) is listed, verified and extracted over short and whole reads; non-trivial: at least one compressed member of more than 64 bytes",
		Assume: []string{"the independent encoder (sim/ref) emits streams that the formats allow"}})
}

// Foreign is an archive of another archiver.
type Foreign struct {
	Bytes []byte
	M     []*ref.Member
	Data  [][]byte
}

var owners = []string{"user", "g", "staff", "somebody", "a.very.long.name.of.an.owner", "o" + strings.Repeat("wner", 40)}

var osIDs = []byte{'U', 'M', 0, 'w', 'J', 'H', 'K', 'X', 'R', 'T', 'C', '9', '2', 'm', 'A', '3', 'F'}

// foreign draws an archive. maxBig limits the size of a member.
func (c *Ctx) foreign(nmax, maxBig int) *Foreign {
	f := &Foreign{}
	n := 1 + c.T.Intn(nmax)
	for i := 0; i < n; i++ {
		if c.T.Bool(1, 8) {
			m := c.lhdMember(i)
			f.Bytes = append(f.Bytes, m.Build(c.Loc, rnd(c.T.Seed32()))...)
			f.M, f.Data = append(f.M, m), append(f.Data, nil)
		}
		m, d := c.foreignMember(i, maxBig)
		r := rnd(c.T.Seed32())
		f.Bytes = append(f.Bytes, m.Build(c.Loc, r)...)
		f.M = append(f.M, m)
		f.Data = append(f.Data, d)
	}
	if c.T.Bool(1, 16) {
		for i := 30 + c.T.Intn(250); i > 0; i-- {
			m := few(i)
			f.Bytes = append(f.Bytes, m.Build(c.Loc, rnd(uint64(i)))...)
			f.M, f.Data = append(f.M, m), append(f.Data, nil)
		}
	}
	if !c.T.Bool(1, 4) {
		f.Bytes = append(f.Bytes, 0)
	}
	return f
}

// few is one of many members: a directory of little interest.
func few(i int) *ref.Member {
	return &ref.Member{Method: "-lhd-", Level: i % 4, Name: fmt.Sprintf("many%d/", i), Attr: 0x20, OS: 'U', HasMode: true, HasTime: true, Time: 1e9 + int64(i), Mode: 040755}
}

func (c *Ctx) foreignMember(i, maxBig int) (*ref.Member, []byte) {
	k := ref.Methods[c.T.Intn(len(ref.Methods))]
	r := rnd(c.T.Seed32())
	size := c.Size(maxBig)
	m := &ref.Member{Method: k.ID, Level: c.T.Intn(4), Name: c.Name(i), Attr: 0x20}
	var data []byte
	desc := ""
	if size > 0 {
		var ts []ref.Token
		if c.T.Bool(1, 3) {
			var d []byte
			d, desc = c.Content(maxBig)
			ts = k.Parse(d, r)
			if len(d) == 0 {
				size = 0
			}
		} else {
			ts = k.Tokens(size, r)
		}
		data = k.Expand(ts)
		if len(data) > 0 {
			m.Packed = k.Pack(ts, r)
		}
	}
	if k.Compressed && len(m.Packed) > 0 && c.T.Bool(1, 6) {
		for j := c.T.Intn(4); j >= 0; j-- { /* some archivers pad */
			m.Packed = append(m.Packed, byte(c.T.Intn(256)))
		}
	}
	m.Orig = len(data)
	m.CRC = ref.CRC16(data)
	m.Time = c.Mtime()
	m.More = c.T.Bool(1, 2)
	m.OS = osIDs[c.T.Intn(len(osIDs))]
	if c.T.Bool(1, 2) {
		m.HasMode = true
		m.Mode = 0100000 | int(modes[c.T.Intn(len(modes))])
		m.UID, m.GID = c.T.Intn(60000), c.T.Intn(60000)
		if m.Level == 0 {
			m.OS = 'U'
		}
	} else if m.Level == 0 && m.OS == 'U' {
		m.OS = 'M'
	}
	if m.Level == 0 {
		m.HasTime = m.HasMode
		if len(m.Name) > 180 {
			m.Name = m.Name[:180]
		}
		if !m.HasMode && c.T.Bool(1, 4) {
			m.NoCRC = true
		}
	} else {
		m.HasTime = m.HasMode || m.Level >= 2
		if c.T.Bool(1, 3) {
			m.User = owners[c.T.Intn(len(owners))]
		}
		if c.T.Bool(1, 3) {
			m.Group = owners[c.T.Intn(len(owners))]
		}
		for c.T.Bool(1, 4) && len(m.Extra) < 5 {
			t := []byte{0x3f, 0x39, 0x7f, 0xc5, 0x10, 0xfe}[c.T.Intn(6)]
			e := make([]byte, 1+c.T.Intn(60))
			for j := range e {
				e[j] = byte(r(256))
			}
			e[0] = t
			m.Extra = append(m.Extra, e)
		}
	}
	if c.T.Bool(1, 3) {
		m.Name = []string{"dd/", "dd/sub/", "deep/er/and/deeper/", "D.I.R/"}[c.T.Intn(4)] + m.Name
	} else if m.Level > 0 && c.T.Bool(1, 20) {
		m.Name = strings.Repeat("long.dirs/", 95+c.T.Intn(50)) + m.Name
		c.Probe("long directory")
	}
	if m.OS == 'm' && m.Level > 0 && !m.HasMode && c.T.Bool(1, 2) { /* a slash is no separator there */
		dir, base := path.Split(m.Name)
		base = base[:min(len(base), 240)]
		m.AsIs, m.RawDir, m.RawBase = true, strings.ReplaceAll(dir, "/", "\xff"), "a/"+base
		m.Name = dir + "a:" + base
	}
	c.Say("member %s %q level %d os %q size %d packed %d mode %v nocrc %v %s", m.Method, m.Name, m.Level, m.OS, m.Orig, len(m.Packed), m.HasMode, m.NoCRC, desc)
	if m.Orig > 64 && k.Compressed {
		c.Probe("compressed member " + k.ID)
	}
	c.Probe(fmt.Sprintf("level %d", m.Level))
	return m, data
}

// headerOf compares a listed header with the member it describes.
func (c *Ctx) headerOf(h Hdr, m *ref.Member, what string) {
	if h.Name != m.Name {
		c.Fail("header name", "%s: name %q instead of %q", what, h.Name, m.Name)
	}
	if h.Method != m.Method || h.Level != m.Level || h.Size != m.Orig || h.Packed != len(m.Packed) {
		c.Fail("header fields", "%s: %q: method %s level %d size %d packed %d instead of %s %d %d %d", what, m.Name,
			h.Method, h.Level, h.Size, h.Packed, m.Method, m.Level, m.Orig, len(m.Packed))
	}
	if m.NoCRC == h.HasCRC || h.HasCRC && h.CRC != int(m.CRC) {
		c.Fail("header CRC", "%s: %q: CRC %v %04x instead of %v %04x", what, m.Name, h.HasCRC, h.CRC, !m.NoCRC, m.CRC)
	}
	if m.HasTime {
		if h.Time != m.Time {
			c.Fail("header time", "%s: %q: time %d instead of %d", what, m.Name, h.Time, m.Time)
		}
	} else if ref.DOSTime(h.Time, c.Loc) != m.DosTime {
		c.Fail("header time", "%s: %q: time %d for MS-DOS time %08x (zone %v)", what, m.Name, h.Time, m.DosTime, c.Loc)
	}
	if m.HasMode && h.Mode != m.Mode {
		c.Fail("header mode", "%s: %q: mode %o instead of %o", what, m.Name, h.Mode, m.Mode)
	}
	if m.HasMode && (h.UID != m.UID || h.GID != m.GID) {
		c.Fail("header owner", "%s: %q: owner %d/%d instead of %d/%d", what, m.Name, h.UID, h.GID, m.UID, m.GID)
	}
	if m.Level > 0 && (h.User != m.User || h.Group != m.Group) {
		c.Fail("header owner", "%s: %q: owner %s/%s instead of %s/%s", what, m.Name, h.User, h.Group, m.User, m.Group)
	}
}

func runForeign(c *Ctx) {
	c.Zone()
	big := 70000
	if c.T.Bool(1, 12) {
		big = 300000
	}
	f := c.foreign(4, big)
	w := c.World()
	c.Short(w)
	w.FS.Put("/w/a.lzh", f.Bytes, 0644, 1e18)
	p := w.NewProc("p")
	hs, res := c.Headers(w, p, "/w/a.lzh")
	c.Need(res, "listing")
	if len(hs) != len(f.M) {
		c.Fail("members", "%d members listed instead of %d", len(hs), len(f.M))
	}
	for i, h := range hs {
		c.headerOf(h, f.M[i], "listing")
	}
	order := c.T.Intn(len(f.M))
	for j := range f.M {
		i := (j + order) % len(f.M)
		m := f.M[i]
		if m.Method == "-lhd-" {
			continue
		}
		b, res := c.Bytes(w, p, "/w/a.lzh", m.Name)
		c.Need(res, "extracting "+m.Name)
		if !eq(b, f.Data[i]) {
			c.Fail("content", "%s %q: %s", m.Method, m.Name, diff(b, f.Data[i]))
		}
	}
	/* by the other interfaces */
	var items []*Item
	for i, m := range f.M {
		items = append(items, &Item{Name: m.Name, Data: f.Data[i], M: m})
	}
	for j := 1 + c.T.Intn(2); j > 0; j-- {
		r := c.drawRead(items)
		r.Arc, r.Dir = "/w/a.lzh", fmt.Sprintf("/w/out%d", j)
		w.FS.MkdirAll(r.Dir)
		c.Need(r.run(c, w, p), r.String())
		if s := r.delivered(w, items); s != "" {
			c.Fail("delivered", "%s: %s", r, s)
		}
		c.Probe(r.Kind)
	}
}
