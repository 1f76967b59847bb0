// Package ref is an independent implementation of the LHA formats, written from
// their description: the oracle of the checks. It shares no code with the
// repository.
package ref

import "errors"

var ErrData = errors.New("ref: bad data")

type bitW struct {
	out []byte
	cur byte
	n   uint
}

func (w *bitW) bits(n int, v uint32) {
	for i := n - 1; i >= 0; i-- {
		w.cur = w.cur<<1 | byte(v>>uint(i)&1)
		w.n++
		if w.n == 8 {
			w.out = append(w.out, w.cur)
			w.cur, w.n = 0, 0
		}
	}
}

func (w *bitW) finish() []byte {
	if w.n > 0 {
		w.out = append(w.out, w.cur<<(8-w.n))
		w.cur, w.n = 0, 0
	}
	return w.out
}

type bitR struct {
	in  []byte
	pos int /* in bits */
}

func (r *bitR) bit() int {
	v := 0
	if r.pos>>3 < len(r.in) {
		v = int(r.in[r.pos>>3]>>(7-uint(r.pos&7))) & 1
	}
	r.pos++
	return v
}

func (r *bitR) bits(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v = v<<1 | r.bit()
	}
	return v
}

func (r *bitR) over() bool { return r.pos > 8*len(r.in)+64 }

// CRC16 is CRC-16/ARC, bit by bit.
func CRC16(b []byte) uint16 {
	var c uint16
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

// codes gives the canonical code of each symbol.
func codes(lens []int) []uint32 {
	c := make([]uint32, len(lens))
	code := uint32(0)
	for l := 1; l <= 16; l++ {
		for s, n := range lens {
			if n == l {
				c[s] = code
				code++
			}
		}
		code <<= 1
	}
	return c
}

// complete says whether the lengths fill the code space exactly.
func complete(lens []int) bool {
	sum := 0
	for _, n := range lens {
		if n > 0 {
			sum += 1 << (16 - uint(n))
		}
	}
	return sum == 1<<16
}

type hufDec struct {
	single int /* >= 0: the only symbol, no bits */
	first  [18]int
	count  [18]int
	start  [18]int
	syms   []int
}

func newHufDec(lens []int) (*hufDec, error) {
	h := &hufDec{single: -1}
	if !complete(lens) {
		return nil, ErrData
	}
	for l := 1; l <= 16; l++ {
		h.start[l] = len(h.syms)
		for s, n := range lens {
			if n == l {
				h.syms = append(h.syms, s)
				h.count[l]++
			}
		}
	}
	code := 0
	for l := 1; l <= 16; l++ {
		h.first[l] = code
		code = (code + h.count[l]) << 1
	}
	return h, nil
}

func (h *hufDec) next(r *bitR) (int, error) {
	if h.single >= 0 {
		return h.single, nil
	}
	c := 0
	for l := 1; l <= 16; l++ {
		c = c<<1 | r.bit()
		if c-h.first[l] >= 0 && c-h.first[l] < h.count[l] {
			return h.syms[h.start[l]+c-h.first[l]], nil
		}
	}
	return 0, ErrData
}

// hufLens gives code lengths of at most max bits for the symbols with freq > 0.
// At least two symbols must have one.
func hufLens(freq []int, max int) []int {
	n := len(freq)
	f := append([]int{}, freq...)
	for {
		type nd struct{ w, a, b, s int }
		var nodes []nd
		var heap []int
		for s := 0; s < n; s++ {
			if f[s] > 0 {
				nodes = append(nodes, nd{f[s], -1, -1, s})
				heap = append(heap, len(nodes)-1)
			}
		}
		take := func() int {
			b := 0
			for i := range heap {
				if nodes[heap[i]].w < nodes[heap[b]].w {
					b = i
				}
			}
			x := heap[b]
			heap = append(heap[:b], heap[b+1:]...)
			return x
		}
		for len(heap) > 1 {
			a := take()
			b := take()
			nodes = append(nodes, nd{nodes[a].w + nodes[b].w, a, b, -1})
			heap = append(heap, len(nodes)-1)
		}
		lens := make([]int, n)
		top := 0
		var rec func(i, d int)
		rec = func(i, d int) {
			if nodes[i].s >= 0 {
				lens[nodes[i].s] = d
				if d > top {
					top = d
				}
				return
			}
			rec(nodes[i].a, d+1)
			rec(nodes[i].b, d+1)
		}
		rec(heap[0], 0)
		if top <= max {
			return lens
		}
		for s := range f {
			if f[s] > 0 {
				f[s] = f[s]/2 + 1
			}
		}
	}
}

// randLens gives a random complete code for the symbols with freq > 0.
func randLens(freq []int, max int, rnd func(int) int) []int {
	g := make([]int, len(freq))
	for i, f := range freq {
		if f > 0 {
			g[i] = 1 << uint(rnd(14))
		}
	}
	return hufLens(g, max)
}
