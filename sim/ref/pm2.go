package ref

// ---- pm2 ----

var pmHistBase = []int{0, 8, 16, 32, 64, 96, 128, 192, 256}
var pmHistBits = []int{3, 3, 4, 5, 5, 5, 6, 6}
var pmLenBase = []int{17, 25, 33, 65, 129, 257}
var pmLenBits = []int{3, 3, 5, 6, 7}

/* the number of offset classes grows with the text */
func pm2Classes(count int) int {
	switch {
	case count < 0x400:
		return 5
	case count < 0x800:
		return 6
	case count < 0x1000:
		return 7
	}
	return 8
}

func pm2Off(count int) int { return 1 << uint(5+pm2Classes(count)) }

func pm2Fix(t *Token) {
	if t.Len == 2 {
		t.Off = 1 + (t.Off-1)%64
	}
}

func pm2Class(off int) (class, bits, rest int) {
	o := off - 1
	if o < 64 {
		return 0, 6, o
	}
	b := bitlen(o) - 1
	return b - 5, b, o - 1<<uint(b)
}

func pm2Seg(count int) int {
	if count < 0x1000 {
		return pm2Classes(count) - 5
	}
	return 2 + count/0x1000
}

type pmItem struct {
	seg      int
	code     int
	bits, v  int
	class    int /* < 0: none */
	obits, o int
}

func encPm2(ts []Token, rnd func(int) int, m *Method) []byte {
	var items []pmItem
	/* most recently seen byte first */
	var hist []byte
	for _, r := range [][2]int{{0x20, 0x7f}, {0, 0x1f}, {0xa0, 0xdf}, {0x80, 0x9f}, {0xe0, 0xff}} {
		for c := r[0]; c <= r[1]; c++ {
			hist = append(hist, byte(c))
		}
	}
	touch := func(c byte) int {
		for i, x := range hist {
			if x == c {
				copy(hist[1:i+1], hist[:i])
				hist[0] = c
				return i
			}
		}
		return 0
	}
	text := m.Expand(ts)
	count := 0
	use28 := rnd(2) == 0
	for _, t := range ts {
		it := pmItem{seg: pm2Seg(count), class: -1}
		if t.Len == 0 {
			i := touch(t.Lit)
			for pmHistBase[it.code+1] <= i {
				it.code++
			}
			it.bits, it.v = pmHistBits[it.code], i-pmHistBase[it.code]
			count++
			items = append(items, it)
			continue
		}
		c, b, rest := pm2Class(t.Off)
		it.obits, it.o = b, rest
		switch {
		case t.Len == 2:
			it.code = 8
		case t.Len == 256 && t.Off == 1 && use28:
			it.code = 28
			it.obits = 0
		case t.Len <= 16:
			it.code, it.class = t.Len+6, c
		default:
			k := 0
			for pmLenBase[k+1] <= t.Len {
				k++
			}
			it.code, it.bits, it.v, it.class = 23+k, pmLenBits[k], t.Len-pmLenBase[k], c
		}
		for _, c := range text[count : count+t.Len] {
			touch(c)
		}
		count += t.Len
		items = append(items, it)
	}
	nseg := 0
	if len(items) > 0 {
		nseg = items[len(items)-1].seg + 1
	}
	new1 := make([]bool, nseg+1)
	new2 := make([]bool, nseg+1)
	for s := range new1 {
		new1[s] = s == 0 || s >= 3 && rnd(2) == 0
		new2[s] = s <= 3 || new1[s]
	}
	w := &bitW{}
	w.bits(1, uint32(rnd(2)))
	var l1, l2 []int
	var c1, c2 []uint32
	bound := 0
	single := false
	k := 0
	for s := 0; s < nseg; s++ {
		if s >= 3 {
			b := uint32(0)
			if new1[s] {
				b = 1
			}
			w.bits(1, b)
		}
		if new1[s] {
			f := make([]int, 31)
			for _, it := range items[k:] {
				if it.seg > s && newBetween(new1, s+1, it.seg) {
					break
				}
				f[it.code]++
			}
			bound, l1, single = pm2Tree1(w, f, rnd)
			c1 = codes(l1)
		}
		if new2[s] && bound >= 10 && !(bound == 29 && single) {
			n := s + 5
			if n > 8 {
				n = 8
			}
			f := make([]int, 8)
			for _, it := range items[k:] {
				if it.seg > s && newBetween(new2, s+1, it.seg) {
					break
				}
				if it.class >= 0 {
					f[it.class]++
				}
			}
			l2 = make([]int, 8)
			if x := one(f); x >= 0 {
				for i := 0; i < n; i++ {
					if i == x {
						w.bits(3, uint32(1+rnd(7)))
					} else {
						w.bits(3, 0)
					}
				}
			} else {
				nz := 0
				for _, x := range f {
					nz += x
				}
				if nz > 0 {
					l2 = hufLens(f, 7)
				}
				for i := 0; i < n; i++ {
					w.bits(3, uint32(l2[i]))
				}
			}
			c2 = codes(l2)
		}
		for k < len(items) && items[k].seg == s {
			it := items[k]
			k++
			w.bits(l1[it.code], c1[it.code])
			w.bits(it.bits, uint32(it.v))
			if it.class >= 0 {
				w.bits(l2[it.class], c2[it.class])
			}
			w.bits(it.obits, uint32(it.o))
		}
	}
	return w.finish()
}

func newBetween(b []bool, lo, hi int) bool {
	for i := lo; i <= hi; i++ {
		if b[i] {
			return true
		}
	}
	return false
}

func pm2Tree1(w *bitW, f []int, rnd func(int) int) (bound int, lens []int, single bool) {
	lens = make([]int, 31)
	if s := one(f); s >= 0 {
		bound = s + 1
		w.bits(5, uint32(bound))
		w.bits(3, 0)
		return bound, lens, true
	}
	lens = mkLens(f, rnd)
	min, max := 99, 0
	for s, l := range lens {
		if l > 0 {
			bound = s + 1
			if l < min {
				min = l
			}
			if l > max {
				max = l
			}
		}
	}
	nb := bitlen(max - min + 1)
	w.bits(5, uint32(bound))
	w.bits(3, uint32(min))
	w.bits(3, uint32(nb))
	for _, l := range lens[:bound] {
		x := 0
		if l > 0 {
			x = l - min + 1
		}
		w.bits(nb, uint32(x))
	}
	return bound, lens, false
}
