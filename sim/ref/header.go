package ref

import (
	"fmt"
	"strings"
	"time"
)

// Member is one entry of an archive.
type Member struct {
	Method  string
	Level   int
	Name    string /* whole path, '/' between elements */
	Packed  []byte
	Orig    int
	CRC     uint16
	NoCRC   bool
	Time    int64 /* UNIX; for generic level 0 and 1 headers a multiple of 2 s */
	HasTime bool  /* the time is a UNIX time in the header */
	HasMode bool
	Mode    int
	UID     int
	GID     int
	User    string
	Group   string
	OS      byte
	Target  string /* of a symbolic link */
	Link    bool
	HdrLen  int
	Extra   [][]byte /* further extended headers (type and contents) */
	DosTime uint32
	Attr    byte
	Raw     []byte /* header and packed data as they were read */
	AsIs    bool   /* the name is RawDir and RawBase, byte for byte */
	RawDir  string
	RawBase string
	More    bool /* headers and bytes that are allowed and seldom met */
}

// Dir says whether the member is a directory or a link.
func (m *Member) Dir() bool { return m.Method == "-lhd-" }

func le(b []byte, n int) int {
	v := 0
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | int(b[i])
	}
	return v
}

func put(b *[]byte, n int, v int) {
	for i := 0; i < n; i++ {
		*b = append(*b, byte(v>>uint(8*i)))
	}
}

// DOSTime is the MS-DOS form of a time in zone loc.
func DOSTime(t int64, loc *time.Location) uint32 {
	x := time.Unix(t, 0).In(loc)
	if x.Year() < 1980 {
		return 1<<21 | 1<<16
	}
	return uint32(x.Year()-1980)<<25 | uint32(x.Month())<<21 | uint32(x.Day())<<16 |
		uint32(x.Hour())<<11 | uint32(x.Minute())<<5 | uint32(x.Second()/2)
}

// FromDOS is the time that an MS-DOS time in zone loc stands for.
func FromDOS(d uint32, loc *time.Location) int64 {
	return time.Date(int(d>>25)+1980, time.Month(d>>21&15), int(d>>16&31), int(d>>11&31), int(d>>5&63), int(d&31)*2, 0, loc).Unix()
}

// Stamp is the modification time that the header records.
func (m *Member) Stamp(loc *time.Location) int64 {
	if m.HasTime {
		return m.Time
	}
	return FromDOS(m.DosTime, loc)
}

// full name as it is stored, before the separators are changed
func (m *Member) stored() string {
	if m.Link {
		return m.Name + "|" + m.Target
	}
	return m.Name
}

// Build writes the header and the packed data.
func (m *Member) Build(loc *time.Location, rnd func(int) int) []byte {
	var b []byte
	s := m.stored()
	dir, base := "", s
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		dir, base = s[:i+1], s[i+1:]
	}
	delim := "\xff"
	if m.OS == 'm' && m.Level > 0 && m.More && rnd(2) == 0 {
		delim = ":"
	}
	sep := func(x string) string { return strings.ReplaceAll(x, "/", delim) }
	if m.AsIs {
		dir, base, s = m.RawDir, m.RawBase, m.RawDir+m.RawBase
		sep = func(x string) string { return x }
	}
	if m.Level >= 2 {
		m.HasTime = true
	}
	fsize := 2
	if m.Level == 3 {
		fsize = 4
	}
	var exts [][]byte
	ext := func(t byte, c []byte) { exts = append(exts, append([]byte{t}, c...)) }
	num := func(n int, v ...int) []byte {
		var r []byte
		for _, x := range v {
			put(&r, n, x)
		}
		return r
	}
	crcExt := -1
	nameIn := true
	if m.Level >= 1 {
		if m.Level >= 2 {
			crcExt = 0
			ext(0, num(2, 0))
		}
		for m.More && rnd(4) == 0 && len(exts) > 0 { /* the header of the CRC may hold more */
			exts[0] = append(exts[0], byte(rnd(256)))
		}
		nameIn = m.Level == 1 && len(base) < 220 && rnd(3) > 0
		var rest [][]byte
		if !nameIn {
			rest = append(rest, append([]byte{1}, base...))
		}
		if dir != "" {
			rest = append(rest, append([]byte{2}, sep(dir)...))
		}
		if m.HasMode {
			rest = append(rest, append([]byte{0x50}, num(2, m.Mode)...))
			rest = append(rest, append([]byte{0x51}, num(2, m.GID, m.UID)...))
		}
		if m.Group != "" {
			rest = append(rest, append([]byte{0x52}, m.Group...))
		}
		if m.User != "" {
			rest = append(rest, append([]byte{0x53}, m.User...))
		}
		if m.HasTime && m.Level == 1 {
			if rnd(4) == 0 {
				w := (m.Time+11644473600)*10000000 + []int64{0, 0, 9999999, 5000000, 1}[rnd(5)]
				x := num(8, int(w-7), int(w), int(w+9))
				rest = append(rest, append([]byte{0x41}, x...))
			} else {
				rest = append(rest, append([]byte{0x54}, num(4, int(m.Time))...))
			}
		}
		rest = append(rest, m.Extra...)
		if m.More {
			if rnd(4) == 0 { /* MS-DOS attribute */
				rest = append(rest, []byte{0x40, byte(rnd(64)), 0})
			}
			if rnd(6) == 0 { /* sizes of large files */
				rest = append(rest, append([]byte{0x42}, num(8, len(m.Packed), m.Orig)...))
			}
			if rnd(5) == 0 && m.Level == 1 {
				rest = append(rest, []byte{0, byte(rnd(256)), byte(rnd(256))})
			}
			if rnd(5) == 0 && m.Level >= 2 { /* more precise times */
				w := (m.Time+11644473600)*10000000 + int64(rnd(10000000))
				rest = append(rest, append([]byte{0x41}, num(8, int(w-7), int(w), int(w+9))...))
			}
			if rnd(6) == 0 && m.Level >= 2 {
				rest = append(rest, append([]byte{0x54}, num(4, int(m.Time))...))
			}
		}
		/* any order */
		for i := len(rest) - 1; i > 0; i-- {
			j := rnd(i + 1)
			rest[i], rest[j] = rest[j], rest[i]
		}
		exts = append(exts, rest...)
		if crcExt == 0 && rnd(3) == 0 {
			j := rnd(len(exts))
			exts[0], exts[j] = exts[j], exts[0]
			crcExt = j
		}
	}
	esize := 0
	for _, e := range exts {
		esize += len(e) + fsize
	}
	common := func() {
		b = append(b, m.Method...)
		if m.Level == 1 {
			put(&b, 4, len(m.Packed)+esize)
		} else {
			put(&b, 4, len(m.Packed))
		}
		put(&b, 4, m.Orig)
		if m.Level < 2 {
			m.DosTime = DOSTime(m.Time, loc)
			put(&b, 4, int(m.DosTime))
		} else {
			put(&b, 4, int(m.Time))
		}
		b = append(b, m.Attr, byte(m.Level))
	}
	crcAt := -1
	chain := func(tail int) { /* the first size is already known to the caller */
		for i, e := range exts {
			put(&b, fsize, len(e)+fsize)
			if i == crcExt {
				crcAt = len(b) + 1
			}
			b = append(b, e...)
		}
		put(&b, fsize, 0)
	}
	switch m.Level {
	case 0:
		b = append(b, 0, 0)
		common()
		n := strings.ReplaceAll(s, "/", "\\")
		if m.AsIs || rnd(4) == 0 && m.OS != 'm' {
			n = s
		}
		b = append(b, byte(len(n)))
		b = append(b, n...)
		if !m.NoCRC {
			put(&b, 2, int(m.CRC))
			if m.HasMode {
				b = append(b, m.OS, 0)
				put(&b, 4, int(m.Time))
				put(&b, 2, m.Mode)
				put(&b, 2, m.UID)
				put(&b, 2, m.GID)
			} else if m.OS != 0 {
				b = append(b, m.OS)
			}
			if m.More && m.OS != 0 && rnd(3) == 0 {
				k := rnd(20)
				if !m.HasMode && rnd(3) == 0 && m.OS != 'm' { /* cut short */
					b[len(b)-1] = 'U'
					k = rnd(11)
				}
				for ; k > 0 && len(b) < 250; k-- {
					b = append(b, byte(rnd(256)))
				}
			}
		}
		b[0] = byte(len(b) - 2)
		b[1] = sum(b[2:])
	case 1:
		b = append(b, 0, 0)
		common()
		if nameIn {
			b = append(b, byte(len(base)))
			b = append(b, base...)
		} else {
			b = append(b, 0)
		}
		put(&b, 2, int(m.CRC))
		b = append(b, m.OS)
		if m.More && rnd(4) == 0 {
			for k := 1 + rnd(12); k > 0 && len(b) < 250; k-- {
				b = append(b, byte(rnd(256)))
			}
		}
		at := len(b)
		chain(0)
		b[0] = byte(at + 2 - 2)
		b[1] = sum(b[2 : at+2])
	case 2:
		b = append(b, 0, 0)
		common()
		put(&b, 2, int(m.CRC))
		b = append(b, m.OS)
		chain(0)
		if len(b)&0xff == 0 || rnd(8) == 0 {
			b = append(b, byte(rnd(256)))
			if len(b)&0xff == 0 { /* the padding was not needed */
				b = b[:len(b)-1]
			}
		}
		b[0], b[1] = byte(len(b)), byte(len(b)>>8)
	case 3:
		b = append(b, 4, 0)
		common()
		put(&b, 2, int(m.CRC))
		b = append(b, m.OS)
		put(&b, 4, 32+esize)
		chain(0)
	}
	if crcAt >= 0 {
		c := CRC16(b)
		b[crcAt], b[crcAt+1] = byte(c), byte(c>>8)
	}
	m.HdrLen = len(b)
	return append(b, m.Packed...)
}

func sum(b []byte) byte {
	var s byte
	for _, c := range b {
		s += c
	}
	return s
}

// separators changes those of the archive into '/'.
func (m *Member) separators(s string) string {
	b := []byte(s)
	for i, x := range b {
		switch {
		case x == 0xff, x == '\\' && m.Level == 0, x == ':' && m.OS == 'm':
			b[i] = '/'
		case x == '/' && m.OS == 'm':
			b[i] = ':'
		}
	}
	return string(b)
}

// Parse reads a whole archive, strictly.
func Parse(b []byte) (ms []*Member, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("malformed header: %v", r)
		}
	}()
	return parse(b)
}

func parse(a []byte) ([]*Member, error) {
	var r []*Member
	pos := 0
	bad := func(s string) ([]*Member, error) {
		return r, fmt.Errorf("member %d at byte %d: %s", len(r), pos, s)
	}
	for {
		if pos >= len(a) {
			return bad("no end mark")
		}
		if a[pos] == 0 {
			if pos+1 != len(a) {
				return bad("data after the end mark")
			}
			return r, nil
		}
		h := a[pos:]
		if len(h) < 22 {
			return bad("short header")
		}
		m := &Member{Method: string(h[2:7]), Level: int(h[20]), Attr: h[19], Orig: le(h[11:], 4)}
		if m.Method[0] != '-' || m.Method[4] != '-' {
			return bad("method")
		}
		packed := le(h[7:], 4)
		hlen := 0
		ext, extEnd, fsize := 0, 0, 2
		name, dir := "", ""
		crcAt := -1
		switch m.Level {
		case 0, 1:
			hlen = int(h[0]) + 2
			if len(h) < hlen || hlen < 24 {
				return bad("short header")
			}
			if sum(h[2:hlen]) != h[1] {
				return bad("header checksum")
			}
			m.DosTime = uint32(le(h[15:], 4))
			n := int(h[21])
			if 22+n+2 > hlen {
				return bad("name length")
			}
			name = string(h[22 : 22+n])
			m.CRC = uint16(le(h[22+n:], 2))
			x := h[22+n+2 : hlen]
			if m.Level == 0 {
				if len(x) > 0 {
					m.OS = x[0]
				}
				if m.OS == 'U' && len(x) >= 12 {
					m.Time, m.HasTime, m.HasMode = int64(le(x[2:], 4)), true, true
					m.Mode, m.UID, m.GID = le(x[6:], 2), le(x[8:], 2), le(x[10:], 2)
				}
			} else {
				if len(x) < 3 {
					return bad("level 1 header")
				}
				m.OS = x[0]
				ext = hlen - 2
			}
		case 2:
			hlen = le(h, 2)
			if len(h) < hlen || hlen < 26 {
				return bad("header size")
			}
			m.Time, m.HasTime = int64(le(h[15:], 4)), true
			m.CRC, m.OS = uint16(le(h[21:], 2)), h[23]
			ext, extEnd = 24, hlen
		case 3:
			if len(h) < 32 || le(h, 2) != 4 {
				return bad("level 3 header")
			}
			m.Time, m.HasTime = int64(le(h[15:], 4)), true
			m.CRC, m.OS = uint16(le(h[21:], 2)), h[23]
			hlen = le(h[24:], 4)
			if len(h) < hlen || hlen < 32 {
				return bad("header size")
			}
			ext, extEnd, fsize = 28, hlen, 4
		default:
			return bad("level")
		}
		if ext > 0 {
			p := ext
			total := 0
			for {
				if p+fsize > len(h) {
					return bad("extended header")
				}
				n := le(h[p:], fsize)
				p += fsize
				if n == 0 {
					break
				}
				if n < 1+fsize || p+n > len(h) {
					return bad("extended header size")
				}
				total += n
				c := h[p+1 : p+n-fsize]
				switch h[p] {
				case 0:
					if len(c) < 2 {
						return bad("header CRC")
					}
					crcAt = p + 1
				case 1:
					name = string(c)
				case 2:
					dir = string(c)
				case 0x50:
					m.Mode, m.HasMode = le(c, 2), true
				case 0x51:
					m.GID, m.UID = le(c, 2), le(c[2:], 2)
				case 0x52:
					m.Group = string(c)
				case 0x53:
					m.User = string(c)
				case 0x41:
					if m.Level == 1 && len(c) >= 24 {
						m.Time, m.HasTime = int64(le(c[8:], 8))/10000000-11644473600, true
					}
				case 0x54:
					m.Time, m.HasTime = int64(le(c, 4)), true
				}
				p += n - fsize
			}
			if m.Level == 1 {
				hlen += total
				packed -= total
			} else if extEnd != p && !(m.Level == 2 && extEnd == p+1) {
				return bad("header size and extended headers")
			}
			if m.Level >= 2 {
				if crcAt < 0 {
					return bad("no header CRC")
				}
				c := append([]byte{}, h[:hlen]...)
				c[crcAt], c[crcAt+1] = 0, 0
				if CRC16(c) != uint16(le(h[crcAt:], 2)) {
					return bad("header CRC")
				}
			}
		}
		if packed < 0 || len(h) < hlen+packed {
			return bad("packed size")
		}
		m.Name = m.separators(dir) + name
		if m.Level == 0 || m.OS == 'm' {
			m.Name = m.separators(dir + name)
		}
		if m.HasMode && m.Mode&0170000 == 0120000 {
			i := strings.IndexByte(m.Name, '|')
			if i < 0 {
				return bad("symbolic link without target")
			}
			m.Link, m.Name, m.Target = true, m.Name[:i], m.Name[i+1:]
		}
		m.HdrLen = hlen
		m.Packed = h[hlen : hlen+packed]
		m.Raw = h[:hlen+packed]
		r = append(r, m)
		pos += hlen + packed
	}
}

// Content decodes the member and verifies it.
func (m *Member) Content() (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			b, err = nil, fmt.Errorf("malformed data: %v", r)
		}
	}()
	if m.Dir() {
		return nil, nil
	}
	if m.Orig == 0 {
		if len(m.Packed) != 0 {
			return nil, ErrData
		}
		return []byte{}, nil
	}
	b, err = Unpack(m.Method, m.Packed, m.Orig)
	if err != nil {
		return nil, err
	}
	if CRC16(b) != m.CRC {
		return nil, fmt.Errorf("CRC of %q", m.Name)
	}
	return b, nil
}
