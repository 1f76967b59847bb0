package ref

// Token is a literal (Len 0) or a match.
type Token struct {
	Lit byte
	Len int
	Off int /* distance, from 1 */
}

// Method describes the match model of a method.
type Method struct {
	ID         string
	Dic        int
	Min, Max   int
	MaxOff     func(count int) int /* largest distance allowed after count bytes */
	Init       func(back int) byte /* the byte `back` before the start (from 1) */
	encode     func(t []Token, rnd func(int) int, m *Method) []byte
	fix        func(t *Token)
	Compressed bool
}

func spaces(int) byte { return ' ' }

func lz5Init(back int) byte {
	var d [4096]byte
	for i := 0; i < 256; i++ {
		for j := 0; j < 13; j++ {
			d[18+13*i+j] = byte(i)
		}
		d[256*13+18+i] = byte(i)
		d[256*13+256+18+i] = byte(255 - i)
	}
	for i := 0; i < 128-18; i++ {
		d[256*13+512+128+18+i] = ' '
	}
	for i := 0; i < 18; i++ {
		d[i] = ' ' /* never reached: see MaxOff */
	}
	return d[(4096-back)&4095]
}

func full(n int) func(int) int { return func(int) int { return n } }

// Methods are the documented methods that a reader must decode.
var Methods = []*Method{
	{ID: "-lh0-"}, {ID: "-lz4-"}, {ID: "-pm0-"},
	{ID: "-lh1-", Dic: 4096, Min: 3, Max: 60, MaxOff: full(4096), Init: spaces, encode: encLh1, Compressed: true},
	{ID: "-lh2-", Dic: 8192, Min: 3, Max: 256, MaxOff: lh2Off, Init: spaces, encode: encLh2, Compressed: true},
	{ID: "-lh3-", Dic: 8192, Min: 3, Max: 256, MaxOff: full(8192), Init: spaces, encode: encLh3, Compressed: true},
	{ID: "-lh4-", Dic: 4096, Min: 3, Max: 256, MaxOff: full(4096), Init: spaces, encode: encLh5, Compressed: true},
	{ID: "-lh5-", Dic: 8192, Min: 3, Max: 256, MaxOff: full(8192), Init: spaces, encode: encLh5, Compressed: true},
	{ID: "-lh6-", Dic: 32768, Min: 3, Max: 256, MaxOff: full(32768), Init: spaces, encode: encLh5, Compressed: true},
	{ID: "-lh7-", Dic: 65536, Min: 3, Max: 256, MaxOff: full(65536), Init: spaces, encode: encLh5, Compressed: true},
	{ID: "-lzs-", Dic: 2048, Min: 2, Max: 17, MaxOff: full(2048), Init: spaces, encode: encLzs, Compressed: true},
	{ID: "-lz5-", Dic: 4096, Min: 3, Max: 18, MaxOff: lz5Off, Init: lz5Init, encode: encLz5, Compressed: true},
	{ID: "-pm2-", Dic: 8192, Min: 2, Max: 256, MaxOff: pm2Off, Init: spaces, encode: encPm2, fix: pm2Fix, Compressed: true},
}

// ByID finds a method.
func ByID(id string) *Method {
	for _, m := range Methods {
		if m.ID == id {
			return m
		}
	}
	return nil
}

/* the first 18 bytes of the LArc ring are not defined before they are written */
func lz5Off(count int) int {
	n := count + 4096 - 18
	if n > 4096 {
		n = 4096
	}
	return n
}

/* the position tree of lh2 grows with the text */
func lh2Off(count int) int {
	k := 0
	for j := 1; j < 128; j++ {
		if count > 64*j {
			k = j
		}
	}
	return 64 * (k + 1)
}

// Expand gives the bytes that tokens stand for.
func (m *Method) Expand(ts []Token) []byte {
	var out []byte
	for _, t := range ts {
		if t.Len == 0 {
			out = append(out, t.Lit)
			continue
		}
		for i := 0; i < t.Len; i++ {
			j := len(out) - t.Off
			if j < 0 {
				out = append(out, m.Init(-j))
			} else {
				out = append(out, out[j])
			}
		}
	}
	return out
}

// Pack encodes tokens.
func (m *Method) Pack(ts []Token, rnd func(int) int) []byte {
	if !m.Compressed {
		return m.Expand(ts)
	}
	return m.encode(ts, rnd, m)
}

// Tokens makes a random parse of about n bytes; style varies the mix.
func (m *Method) Tokens(n int, rnd func(int) int) []Token {
	var ts []Token
	count := 0
	litPct := []int{100, 90, 60, 30, 5, 50}[rnd(6)]
	alpha := []int{1, 2, 4, 26, 128, 256}[rnd(6)]
	base := rnd(256)
	skew := rnd(3)
	lenStyle := rnd(4)
	offStyle := rnd(4)
	sym := func() byte {
		x := rnd(alpha)
		for i := 0; i < skew; i++ {
			if y := rnd(alpha); y < x {
				x = y
			}
		}
		return byte(base + x)
	}
	for count < n {
		if !m.Compressed || rnd(100) < litPct || n-count < m.Min {
			ts = append(ts, Token{Lit: sym()})
			count++
			continue
		}
		l := m.Min
		switch lenStyle {
		case 0:
			l += rnd(m.Max - m.Min + 1)
		case 1:
			l += rnd(4)
		case 2:
			l = m.Max - rnd(3)
		case 3:
			for l < m.Max && rnd(3) > 0 {
				l++
			}
		}
		if l > m.Max {
			l = m.Max
		}
		if l < m.Min {
			l = m.Min
		}
		if l > n-count {
			l = n - count
		}
		mo := m.MaxOff(count)
		o := 1
		switch offStyle {
		case 0:
			o = 1 + rnd(mo)
		case 1:
			o = 1 + rnd(1+rnd(mo))
		case 2:
			o = mo - rnd(4)
		case 3:
			o = 1 + rnd(5)
		}
		if rnd(10) == 0 { /* powers of two and their neighbours */
			o = 1<<uint(rnd(17)) - 1 + rnd(3)
		}
		if o < 1 {
			o = 1
		}
		if o > mo {
			o = mo
		}
		t := Token{Len: l, Off: o}
		if m.fix != nil {
			m.fix(&t)
		}
		ts = append(ts, t)
		count += l
	}
	return ts
}

// Parse makes tokens of given text, greedily with some randomness.
func (m *Method) Parse(text []byte, rnd func(int) int) []Token {
	var ts []Token
	last := map[uint32][]int{}
	put := func(i int) {
		if i+3 <= len(text) {
			k := uint32(text[i])<<16 | uint32(text[i+1])<<8 | uint32(text[i+2])
			last[k] = append(last[k], i)
		}
	}
	lazy := rnd(4)
	for i := 0; i < len(text); {
		bl, bo := 0, 0
		if m.Compressed && i+3 <= len(text) {
			k := uint32(text[i])<<16 | uint32(text[i+1])<<8 | uint32(text[i+2])
			ps := last[k]
			for t := 0; t < 8 && t < len(ps); t++ {
				p := ps[len(ps)-1-t]
				if i-p > m.MaxOff(i) || i-p > m.Dic {
					break
				}
				l := 0
				for i+l < len(text) && l < m.Max && text[p+l] == text[i+l] {
					l++
				}
				if l > bl {
					bl, bo = l, i-p
				}
			}
		}
		if m.Compressed && bl >= m.Min && !(lazy == 1 && rnd(8) == 0) {
			if lazy == 2 && bl > m.Min && rnd(2) == 0 {
				bl = m.Min + rnd(bl-m.Min+1)
			}
			t := Token{Len: bl, Off: bo}
			if m.fix != nil && bl == 2 && bo > 64 { /* no such code */
				ts = append(ts, Token{Lit: text[i]})
				put(i)
				i++
				continue
			}
			ts = append(ts, t)
			for j := 0; j < bl; j++ {
				put(i + j)
			}
			i += bl
			continue
		}
		ts = append(ts, Token{Lit: text[i]})
		put(i)
		i++
	}
	return ts
}

// ---- lh4 to lh7 ----

func lh5Params(id string) (np, pbit, dic int) {
	switch id {
	case "-lh4-":
		return 14, 4, 4096
	case "-lh5-":
		return 14, 4, 8192
	case "-lh6-":
		return 16, 5, 32768
	}
	return 17, 5, 65536
}

func bitlen(v int) int {
	n := 0
	for v > 0 {
		n++
		v >>= 1
	}
	return n
}

func writePt(w *bitW, lens []int, nbit, special int, n int) {
	for n > 0 && lens[n-1] == 0 {
		n--
	}
	w.bits(nbit, uint32(n))
	for i := 0; i < n; {
		k := lens[i]
		i++
		if k <= 6 {
			w.bits(3, uint32(k))
		} else {
			w.bits(3, 7)
			for j := 7; j < k; j++ {
				w.bits(1, 1)
			}
			w.bits(1, 0)
		}
		if i == special {
			z := 0
			for i < 6 && i < n && lens[i] == 0 && z < 3 {
				i++
				z++
			}
			w.bits(2, uint32(z))
		}
	}
}

func one(f []int) int {
	s, n := -1, 0
	for i, x := range f {
		if x > 0 {
			s = i
			n++
		}
	}
	if n == 1 {
		return s
	}
	return -1
}

func mkLens(f []int, rnd func(int) int) []int {
	if rnd(4) == 0 {
		return randLens(f, 16, rnd)
	}
	return hufLens(f, 16)
}

func encLh5(ts []Token, rnd func(int) int, m *Method) []byte {
	np, pbit, _ := lh5Params(m.ID)
	w := &bitW{}
	style := rnd(4)
	for len(ts) > 0 {
		n := 65535
		switch style {
		case 0:
			n = 1 + rnd(3000)
		case 1:
			n = 1 + rnd(30)
		case 2:
			n = 16384
		}
		if n > len(ts) {
			n = len(ts)
		}
		blk := ts[:n]
		ts = ts[n:]
		cf := make([]int, 510)
		pf := make([]int, np)
		nm := 0
		for _, t := range blk {
			if t.Len == 0 {
				cf[t.Lit]++
			} else {
				cf[t.Len+253]++
				pf[bitlen(t.Off-1)]++
				nm++
			}
		}
		if one(cf) < 0 && rnd(8) == 0 { /* codes for symbols that do not occur */
			cf[rnd(510)]++
		}
		w.bits(16, uint32(n))
		var cl []int
		if s := one(cf); s >= 0 {
			/* the tree of the tree, then the only symbol */
			w.bits(5, 0)
			w.bits(5, 0)
			w.bits(9, 0)
			w.bits(9, uint32(s))
			cl = make([]int, 510)
		} else {
			cl = mkLens(cf, rnd)
			writeClen(w, cl, rnd)
		}
		cc := codes(cl)
		pl := make([]int, np)
		if s := one(pf); s >= 0 || nm == 0 {
			if s < 0 {
				s = rnd(np)
			}
			w.bits(pbit, 0)
			w.bits(pbit, uint32(s))
		} else {
			pl = mkLens(pf, rnd)
			writePt(w, pl, pbit, -1, np)
		}
		pc := codes(pl)
		for _, t := range blk {
			if t.Len == 0 {
				w.bits(cl[t.Lit], cc[t.Lit])
				continue
			}
			w.bits(cl[t.Len+253], cc[t.Len+253])
			p := t.Off - 1
			b := bitlen(p)
			w.bits(pl[b], pc[b])
			if b > 1 {
				w.bits(b-1, uint32(p)&(1<<uint(b-1)-1))
			}
		}
	}
	return w.finish()
}

func writeClen(w *bitW, cl []int, rnd func(int) int) {
	n := 510
	for cl[n-1] == 0 {
		n--
	}
	/* run lengths */
	type it struct{ s, bits, v int }
	var its []it
	for i := 0; i < n; {
		if cl[i] != 0 {
			its = append(its, it{cl[i] + 2, 0, 0})
			i++
			continue
		}
		z := 0
		for i < n && cl[i] == 0 {
			i++
			z++
		}
		for z > 0 {
			switch {
			case z < 3:
				its = append(its, it{0, 0, 0})
				z--
			case z <= 18:
				its = append(its, it{1, 4, z - 3})
				z = 0
			case z == 19:
				its = append(its, it{0, 0, 0}, it{1, 4, 15})
				z = 0
			default:
				its = append(its, it{2, 9, z - 20})
				z = 0
			}
		}
	}
	tf := make([]int, 19)
	for _, x := range its {
		tf[x.s]++
	}
	tl := make([]int, 19)
	if s := one(tf); s >= 0 {
		w.bits(5, 0)
		w.bits(5, uint32(s))
	} else {
		tl = mkLens(tf, rnd)
		writePt(w, tl, 5, 3, 19)
	}
	tc := codes(tl)
	w.bits(9, uint32(n))
	for _, x := range its {
		w.bits(tl[x.s], tc[x.s])
		w.bits(x.bits, uint32(x.v))
	}
}

func readPt(r *bitR, nn, nbit, special int) (*hufDec, error) {
	n := r.bits(nbit)
	if n == 0 {
		s := r.bits(nbit)
		if s >= nn {
			return nil, ErrData
		}
		return &hufDec{single: s}, nil
	}
	if n > nn {
		return nil, ErrData
	}
	lens := make([]int, nn)
	for i := 0; i < n; {
		k := r.bits(3)
		if k == 7 {
			for r.bit() == 1 {
				k++
				if k > 16 {
					return nil, ErrData
				}
			}
		}
		lens[i] = k
		i++
		if i == special {
			for z := r.bits(2); z > 0; z-- {
				i++
			}
		}
	}
	return newHufDec(lens)
}

func decLh5(in []byte, size int, id string) ([]byte, int, error) {
	np, pbit, dic := lh5Params(id)
	r := &bitR{in: in}
	var out []byte
	left := 0
	var c, p *hufDec
	for len(out) < size {
		if r.over() {
			return out, 0, ErrData
		}
		if left == 0 {
			left = r.bits(16)
			if left == 0 {
				return out, 0, ErrData
			}
			t, err := readPt(r, 19, 5, 3)
			if err != nil {
				return out, 0, err
			}
			n := r.bits(9)
			if n == 0 {
				s := r.bits(9)
				if s >= 510 {
					return out, 0, ErrData
				}
				c = &hufDec{single: s}
			} else {
				lens := make([]int, 510)
				for i := 0; i < n; {
					s, err := t.next(r)
					if err != nil {
						return out, 0, err
					}
					z := 0
					switch s {
					case 0:
						z = 1
					case 1:
						z = 3 + r.bits(4)
					case 2:
						z = 20 + r.bits(9)
					default:
						if i >= 510 {
							return out, 0, ErrData
						}
						lens[i] = s - 2
						i++
					}
					i += z
					if i > n {
						return out, 0, ErrData
					}
				}
				if c, err = newHufDec(lens); err != nil {
					return out, 0, err
				}
			}
			if p, err = readPt(r, np, pbit, -1); err != nil {
				return out, 0, err
			}
		}
		left--
		s, err := c.next(r)
		if err != nil {
			return out, 0, err
		}
		if s < 256 {
			out = append(out, byte(s))
			continue
		}
		b, err := p.next(r)
		if err != nil {
			return out, 0, err
		}
		o := b
		if b > 1 {
			o = 1<<uint(b-1) | r.bits(b-1)
		}
		o++
		if o > dic {
			return out, 0, ErrData
		}
		for i := s - 253; i > 0; i-- {
			j := len(out) - o
			if j < 0 {
				out = append(out, ' ')
			} else {
				out = append(out, out[j])
			}
		}
	}
	if len(out) != size {
		return out, 0, ErrData
	}
	return out, (r.pos + 7) / 8, nil
}

// ---- adaptive codes: lh1 and lh2 ----

// adaptive is a sibling-property tree; nodes are in order of falling weight and the
// two children of an inner node are neighbours.
type adaptive struct {
	freq   []int
	child  []int /* >= 0: index of the second of the pair; < 0: leaf ^symbol */
	parent []int
	leaf   map[int]int
	root   int
}

func newAdaptive(n int) *adaptive {
	t := &adaptive{freq: make([]int, 2*n-1), child: make([]int, 2*n-1), parent: make([]int, 2*n-1), leaf: map[int]int{}}
	for s := 0; s < n; s++ {
		i := 2*n - 2 - s
		t.freq[i], t.child[i] = 1, ^s
		t.leaf[s] = i
	}
	j := 2*n - 2
	for i := n - 2; i >= 0; i-- {
		t.freq[i] = t.freq[j] + t.freq[j-1]
		t.child[i] = j
		t.parent[j], t.parent[j-1] = i, i
		j -= 2
	}
	return t
}

func (t *adaptive) put(w *bitW, s int) {
	var bits []int
	for i := t.leaf[s]; i != t.root; i = t.parent[i] {
		b := 0
		if t.child[t.parent[i]] != i {
			b = 1 /* the heavier sibling */
		}
		bits = append(bits, b)
	}
	for i := len(bits) - 1; i >= 0; i-- {
		w.bits(1, uint32(bits[i]))
	}
}

func (t *adaptive) get(r *bitR) int {
	i := t.root
	for {
		c := t.child[i]
		if c < 0 {
			return ^c
		}
		i = c - r.bit()
	}
}

func (t *adaptive) settle(i int) {
	c := t.child[i]
	if c < 0 {
		t.leaf[^c] = i
	} else {
		t.parent[c], t.parent[c-1] = i, i
	}
}

// inc adds one to the weight of node i, keeping the order; it yields the parent.
func (t *adaptive) inc(i int, first int) int {
	j := i
	for j-1 > first && t.freq[j-1] == t.freq[i] {
		j--
	}
	if j != i {
		t.child[i], t.child[j] = t.child[j], t.child[i]
		t.settle(i)
		t.settle(j)
	}
	t.freq[j]++
	return t.parent[j]
}

func (t *adaptive) update(s int) {
	if t.freq[t.root] == 0x8000 {
		t.rebuild(0, len(t.freq))
	}
	t.freq[t.root]++
	for i := t.leaf[s]; i != t.root; {
		i = t.inc(i, t.root)
	}
}

// rebuild halves the weights and builds the tree anew over nodes [lo,hi).
func (t *adaptive) rebuild(lo, hi int) {
	type lf struct{ f, c int }
	var ls []lf /* from light to heavy */
	for i := hi - 1; i >= lo; i-- {
		if t.child[i] < 0 {
			ls = append(ls, lf{(t.freq[i] + 1) / 2, t.child[i]})
		}
	}
	/* take leaves and pairs in order of weight; a pair comes before heavier nodes and
	   after lighter or equal leaves */
	n := hi - lo
	freq := make([]int, 0, n)
	child := make([]int, 0, n) /* pair index in this light-to-heavy order */
	k, pair := 0, 0
	for len(freq) < n {
		havePair := pair+1 < len(freq)
		switch {
		case !havePair, k < len(ls) && ls[k].f <= freq[pair]+freq[pair+1]:
			freq = append(freq, ls[k].f)
			child = append(child, ls[k].c)
			k++
		default:
			freq = append(freq, freq[pair]+freq[pair+1])
			child = append(child, pair)
			pair += 2
		}
	}
	for x := 0; x < n; x++ {
		i := hi - 1 - x
		t.freq[i] = freq[x]
		if child[x] < 0 {
			t.child[i] = child[x]
		} else {
			t.child[i] = hi - 1 - child[x]
		}
	}
	for i := lo; i < hi; i++ {
		t.settle(i)
	}
}

func fixedPos(kind int) []int {
	cuts := [][]int{{3, 1, 4, 12, 24, 48}, {2, 1, 1, 3, 6, 13, 31, 78}}[kind]
	n := []int{64, 128}[kind]
	l := cuts[0]
	c := cuts[1:]
	lens := make([]int, n)
	for i := range lens {
		for len(c) > 0 && c[0] == i {
			l++
			c = c[1:]
		}
		lens[i] = l
	}
	return lens
}

func encLh1(ts []Token, rnd func(int) int, m *Method) []byte {
	w := &bitW{}
	t := newAdaptive(314)
	pl := fixedPos(0)
	pc := codes(pl)
	for _, k := range ts {
		s := int(k.Lit)
		if k.Len > 0 {
			s = k.Len + 253
		}
		t.put(w, s)
		t.update(s)
		if k.Len > 0 {
			p := k.Off - 1
			w.bits(pl[p>>6], pc[p>>6])
			w.bits(6, uint32(p&63))
		}
	}
	return w.finish()
}

func decLh1(in []byte, size int) ([]byte, int, error) {
	r := &bitR{in: in}
	t := newAdaptive(314)
	pd, _ := newHufDec(fixedPos(0))
	var out []byte
	for len(out) < size {
		if r.over() {
			return out, 0, ErrData
		}
		s := t.get(r)
		t.update(s)
		if s < 256 {
			out = append(out, byte(s))
			continue
		}
		h, err := pd.next(r)
		if err != nil {
			return out, 0, err
		}
		o := h<<6 | r.bits(6)
		for i := s - 253; i > 0; i-- {
			j := len(out) - o - 1
			if j < 0 {
				out = append(out, ' ')
			} else {
				out = append(out, out[j])
			}
		}
	}
	if len(out) != size {
		return out, 0, ErrData
	}
	return out, (r.pos + 7) / 8, nil
}

// posTree is the growing position tree of lh2: node 0 is the root.
type posTree struct {
	adaptive
	total int
}

func newPosTree() *posTree {
	t := &posTree{}
	t.leaf = map[int]int{0: 0}
	t.freq = []int{1}
	t.child = []int{^0}
	t.parent = []int{0}
	return t
}

// grow splits the last node in two: what it held, and the new symbol.
func (t *posTree) grow(s int) {
	last := len(t.freq) - 1
	f := t.freq[last]
	t.freq[0] = 0xffff
	t.freq = append(t.freq, f, 0)
	t.child = append(t.child, t.child[last], ^s)
	t.parent = append(t.parent, last, last)
	t.child[last] = last + 2
	t.settle(last + 1)
	t.settle(last + 2)
	t.bump(s)
}

func (t *posTree) bump(s int) {
	if t.total == 0x8000 {
		t.rebuild(0, len(t.freq))
		t.total = t.freq[0]
		t.freq[0] = 0xffff
	}
	for i := t.leaf[s]; i != 0; {
		i = t.inc(i, 0)
	}
	t.total++
}

func encLh2(ts []Token, rnd func(int) int, m *Method) []byte {
	w := &bitW{}
	t := newAdaptive(286)
	p := newPosTree()
	count, next := 0, 64
	for _, k := range ts {
		s, extra := int(k.Lit), -1
		if k.Len > 0 {
			s = k.Len + 253
			if s >= 285 {
				extra = s - 285
				s = 285
			}
		}
		t.put(w, s)
		t.update(s)
		if extra >= 0 {
			w.bits(8, uint32(extra))
		}
		if k.Len == 0 {
			count++
			continue
		}
		for next < 8192 && count > next {
			p.grow(next / 64)
			next += 64
		}
		q := k.Off - 1
		p.put(w, q>>6)
		p.bump(q >> 6)
		w.bits(6, uint32(q&63))
		count += k.Len
	}
	return w.finish()
}

// ---- lh3 ----

func encLh3(ts []Token, rnd func(int) int, m *Method) []byte {
	w := &bitW{}
	style := rnd(3)
	for len(ts) > 0 {
		n := 65535
		switch style {
		case 0:
			n = 1 + rnd(2000)
		case 1:
			n = 1 + rnd(40)
		}
		if n > len(ts) {
			n = len(ts)
		}
		blk := ts[:n]
		ts = ts[n:]
		cf := make([]int, 286)
		pf := make([]int, 128)
		for _, t := range blk {
			if t.Len == 0 {
				cf[t.Lit]++
			} else {
				s := t.Len + 253
				if s > 285 {
					s = 285
				}
				cf[s]++
				pf[(t.Off-1)>>6]++
			}
		}
		w.bits(16, uint32(n))
		cl := make([]int, 286)
		tree := func(f, l []int, nb int, coded func(int)) {
			if s := one(f); s >= 0 {
				for i := 0; i < 3; i++ {
					coded(1)
				}
				w.bits(nb, uint32(s))
				return
			}
			for {
				copy(l, mkLens(f, rnd))
				if !(l[0] == 1 && l[1] == 1 && l[2] == 1) {
					break
				}
			}
			for _, x := range l {
				coded(x)
			}
		}
		tree(cf, cl, 9, func(x int) {
			if x == 0 {
				w.bits(1, 0)
			} else {
				w.bits(1, 1)
				w.bits(4, uint32(x-1))
			}
		})
		cc := codes(cl)
		pl := fixedPos(1)
		nz := 0
		for _, x := range pf {
			nz += x
		}
		max := 0
		var try []int
		if nz > 0 && one(pf) < 0 {
			try = hufLens(pf, 15)
			for _, x := range try {
				if x > max {
					max = x
				}
			}
		}
		if nz > 0 && rnd(2) == 0 && max <= 15 {
			w.bits(1, 1)
			if s := one(pf); s >= 0 {
				pl = make([]int, 128)
				w.bits(4, 1)
				w.bits(4, 1)
				w.bits(4, 1)
				w.bits(7, uint32(s))
			} else {
				pl = try
				for _, x := range pl {
					w.bits(4, uint32(x))
				}
			}
		} else {
			w.bits(1, 0)
		}
		pc := codes(pl)
		for _, t := range blk {
			if t.Len == 0 {
				w.bits(cl[t.Lit], cc[t.Lit])
				continue
			}
			s, extra := t.Len+253, -1
			if s >= 285 {
				extra = s - 285
				s = 285
			}
			w.bits(cl[s], cc[s])
			if extra >= 0 {
				w.bits(8, uint32(extra))
			}
			p := t.Off - 1
			w.bits(pl[p>>6], pc[p>>6])
			w.bits(6, uint32(p&63))
		}
	}
	return w.finish()
}

// ---- LArc ----

func encLzs(ts []Token, rnd func(int) int, m *Method) []byte {
	w := &bitW{}
	loc := 0
	for _, t := range ts {
		if t.Len == 0 {
			w.bits(1, 1)
			w.bits(8, uint32(t.Lit))
			loc++
			continue
		}
		w.bits(1, 0)
		w.bits(11, uint32((loc-t.Off-17)&2047))
		w.bits(4, uint32(t.Len-2))
		loc += t.Len
	}
	return w.finish()
}

func encLz5(ts []Token, rnd func(int) int, m *Method) []byte {
	var out []byte
	loc := 0
	for len(ts) > 0 {
		n := 8
		if n > len(ts) {
			n = len(ts)
		}
		at := len(out)
		out = append(out, 0)
		for i, t := range ts[:n] {
			if t.Len == 0 {
				out[at] |= 1 << uint(i)
				out = append(out, t.Lit)
				loc++
				continue
			}
			a := (loc - t.Off - 18) & 4095
			out = append(out, byte(a), byte(a>>4&0xf0)|byte(t.Len-3))
			loc += t.Len
		}
		ts = ts[n:]
	}
	return out
}

// Unpack decodes what the archiver itself can write.
func Unpack(id string, in []byte, size int) ([]byte, error) {
	switch id {
	case "-lh0-", "-lz4-", "-pm0-":
		if len(in) != size {
			return nil, ErrData
		}
		return in, nil
	case "-lh1-":
		b, _, err := decLh1(in, size)
		return b, err
	case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
		b, _, err := decLh5(in, size, id)
		return b, err
	}
	return nil, ErrData
}
