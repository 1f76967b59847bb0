package checks

import (
	"fmt"
	"os"
	"strings"

	"lhasim/ref"
	"lhasim/vsim"
)

// Sizes draws a size; big: at most this.
func (c *Ctx) Size(big int) int {
	switch c.T.Intn(12) {
	case 0:
		return c.T.Intn(12)
	case 1, 2, 3:
		return c.T.Intn(400)
	case 4, 5, 6:
		return min(c.T.Intn(6000), big)
	case 7, 8:
		return min(c.T.Intn(40000), big)
	case 9: /* about the sizes of dictionaries and blocks */
		k := 10 + c.T.Intn(8)
		return min(max(0, 1<<uint(k)-4+c.T.Intn(9)), big)
	case 10:
		d := []int{4096, 8192, 32768, 65536}[c.T.Intn(4)]
		return min(max(0, d+c.T.Intn(600)-300), big)
	}
	return c.T.Intn(big + 1)
}

var kinds = []string{"text", "zero", "random", "skewed", "runs", "periodic", "copies", "fibonacci", "mixed", "ramp", "sparse", "alphabet", "deep", "crc0"}

// Content draws the content of a file.
func (c *Ctx) Content(big int) ([]byte, string) {
	k := kinds[c.T.Intn(len(kinds))]
	n := c.Size(big)
	if k == "deep" && big >= 40000 { /* needs some room */
		n = min(big, 36000+n)
		if big > 100000 {
			n = min(big, 96000+n)
		}
	}
	s := c.T.Seed32()
	return makeContent(k, n, s), fmt.Sprintf("%s/%d/%d", k, n, s)
}

var words = []string{"the", "archive", "of", "files", "lha", "and", "compress", "data", "a", "in", "to", "header", "level", "is", "x", "\n", ".", "value", "0000", "return"}

func makeContent(kind string, n int, seed uint64) []byte {
	r := vsim.NewPRNG(seed)
	b := make([]byte, 0, n+256)
	switch kind {
	case "zero":
		x := byte(seed)
		for len(b) < n {
			b = append(b, x)
		}
	case "random":
		for len(b) < n {
			v := r.Next()
			for i := 0; i < 8; i++ {
				b = append(b, byte(v>>uint(8*i)))
			}
		}
	case "text":
		for len(b) < n {
			b = append(b, words[r.Intn(len(words))]...)
			b = append(b, ' ')
		}
	case "skewed":
		base := r.Intn(256)
		for len(b) < n {
			v := 0
			for v < 255 && r.Intn(3) > 0 {
				v++
			}
			b = append(b, byte(base+v))
		}
	case "runs":
		for len(b) < n {
			x := byte(r.Intn(256))
			l := 1 + r.Intn([]int{3, 20, 300, 2000}[r.Intn(4)])
			for i := 0; i < l; i++ {
				b = append(b, x)
			}
		}
	case "periodic":
		ps := []int{1 + r.Intn(8), 50 + r.Intn(400), 4096 - 2 + r.Intn(5), 8192 - 2 + r.Intn(5), 32768 - 2 + r.Intn(5), 65536 - 2 + r.Intn(5)}
		p := ps[r.Intn(len(ps))]
		for len(b) < n {
			if len(b) >= p {
				b = append(b, b[len(b)-p])
			} else {
				b = append(b, byte(r.Next()>>20))
			}
		}
	case "copies":
		d := []int{300, 4096, 8192, 32768, 65536, 140000}[r.Intn(6)]
		for len(b) < n {
			if len(b) > 0 && r.Intn(3) > 0 {
				o := 1 + r.Intn(d)
				if r.Intn(4) == 0 {
					o = d - r.Intn(3)
				}
				if o > len(b) || o < 1 {
					o = 1 + r.Intn(len(b))
				}
				l := 1 + r.Intn(10)
				if r.Intn(4) == 0 {
					l = 50 + r.Intn(260)
				}
				for i := 0; i < l; i++ {
					b = append(b, b[len(b)-o])
				}
			} else {
				for i := r.Intn(20); i >= 0; i-- {
					b = append(b, byte(r.Next()>>13))
				}
			}
		}
	case "fibonacci":
		/* weights that make the deepest codes, shuffled so that nothing repeats */
		x, y := 1, 1
		base := r.Intn(256)
		for s := 0; s < 30 && len(b) < n; s++ {
			for i := 0; i < x && len(b) < n; i++ {
				b = append(b, byte(base+s*7))
			}
			x, y = y, x+y
		}
		for i := len(b) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			b[i], b[j] = b[j], b[i]
		}
		for len(b) < n {
			b = append(b, byte(base))
		}
	case "crc0": /* the last bytes make the CRC zero, or nearly */
		b = append(b, makeContent([]string{"text", "random", "runs", "zero"}[r.Intn(4)], n, r.Next()%1000000)...)
		if n > 2 {
			x := ref.CRC16(b[:n-2])
			b[n-2], b[n-1] = byte(x), byte(x>>8)
			if r.Intn(4) == 0 {
				b[n-1] ^= 1 << uint(r.Intn(8))
			}
		}
	case "deep":
		/* match lengths with weights that make the deepest codes */
		p := min(n, 6000)
		if n >= 95000 { /* in a block of its own */
			p = 58200
		}
		win := []int{30000, 30000, 6000}[r.Intn(3)]
		for len(b) < p {
			b = append(b, byte(r.Intn(240)))
		}
		var ls []int
		g := 162 + r.Intn(9)
		l0 := 3 + r.Intn(3)
		var w []int
		for x := min(20500, (n-p)/(l0+1)) * (g - 100) / g; x > 0; x = x * 100 / g {
			w = append(w, x)
		}
		top := len(w)
		for i, x := range w {
			for ; x > 0; x-- {
				ls = append(ls, top-1-i)
			}
		}
		for i := len(ls) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ls[i], ls[j] = ls[j], ls[i]
		}
		for i := 0; len(b) < n; i++ {
			l := l0
			if i < len(ls) {
				if ls[i] <= 10 { /* the rarest are bytes */
					b = append(b, byte(240+ls[i]))
				}
				if ls[i] > 10 {
					l += top - 1 - ls[i]
				}
			}
			o := p - 1 - r.Intn(min(p, 6000))
			if len(b) > p+win-6000 {
				o = len(b) - 1 - r.Intn(win)
			}
			for ; l > 0; l-- {
				b = append(b, b[o])
				o++
			}
		}
	case "mixed":
		for len(b) < n {
			k := []string{"text", "random", "runs", "skewed", "zero", "ramp"}[r.Intn(6)]
			b = append(b, makeContent(k, 1+r.Intn(n/3+2), r.Next()%1000000)...)
		}
	case "ramp":
		x := byte(r.Intn(256))
		step := byte(1 + r.Intn(5))
		for len(b) < n {
			b = append(b, x)
			x += step
		}
	case "sparse":
		for len(b) < n {
			if r.Intn(60) == 0 {
				b = append(b, byte(r.Next()))
			} else {
				b = append(b, 0)
			}
		}
	case "alphabet":
		k := 2 + r.Intn(14)
		if n > 60000 {
			k += 8 /* the searches of the encoder take too long */
		}
		for len(b) < n {
			b = append(b, byte('a'+r.Intn(k)))
		}
	}
	return b[:n]
}

var modes = []os.FileMode{0644, 0600, 0755, 0444, 0666, 0777, 0400, 0711, 0640}

// Name draws a file name that no other file of the scenario has.
func (c *Ctx) Name(i int) string {
	b := string(rune('a' + i%26))
	prev := string(rune('a' + (i+25)%26))
	switch c.T.Intn(14) {
	default:
		return "f" + b
	case 3: /* differs from a likely one in case only */
		return "F" + prev
	case 4: /* is longer than a likely one */
		return "f" + prev + []string{".x", ".", " ", "0", "~"}[c.T.Intn(5)]
	case 5:
		return b + ".tar.gz"
	case 6:
		return "Read Me " + b + ".TXT"
	case 7:
		return b + "-é日本" + b
	case 8:
		n := 1 + c.T.Intn(248)
		if c.T.Bool(1, 2) { /* near the limits of the levels */
			n = 216 + c.T.Intn(40)
		}
		return longName(b, n, i)
	case 13: /* bytes that are no text in UTF-8, signs with a meaning to some */
		return b + []string{"\xe9t\xe9", "\x80\xfe", "\x01\x7f", "|x", "\t", "\xa5;", "\xc3", "\"", "{}", "&<>"}[c.T.Intn(10)]
	case 9:
		return b + []string{"~", "'q'", "$x", "#1#", "-f", "%d", "(2)", "[1]*?", ".lh5", "=,;"}[c.T.Intn(10)]
	}
}

func longName(b string, n, i int) string {
	for len(b) < n {
		b += string(rune('A' + (len(b)*7+i)%26))
	}
	return b
}

// Fit raises the header level if a name is too long for level 0.
func fit(level int, names ...string) int {
	for _, n := range names {
		if len(n) > 220 && level == 0 {
			return 1
		}
	}
	return level
}

func bases(files []*File) []string {
	var r []string
	for _, f := range files {
		r = append(r, f.Base())
	}
	return r
}

// Mtime draws a modification time that every header can hold.
func (c *Ctx) Mtime() int64 {
	switch c.T.Intn(4) {
	case 1:
		return 315619200 + int64(c.T.Intn(1500000000)) /* from 1980 on */
	case 2:
		return []int64{1, 0, 315532801, 951782399, 1078099199, 2147483647, 1580515199, 978307199}[c.T.Intn(8)]
	case 3:
		if c.T.Bool(1, 3) { /* after 2038 */
			return 1<<31 + int64(c.T.Intn(1<<31))
		}
		return int64(c.T.Intn(1<<31 - 1))
	}
	return 1500000000 + int64(c.T.Intn(100000000))
}

// Files draws n files in a directory.
func (c *Ctx) Files(n, big int, dir string) []*File {
	var r []*File
	for i := 0; i < n; i++ {
		f := &File{Path: dir + "/" + c.Name(i), Mode: modes[c.T.Intn(len(modes))], Mtime: c.Mtime()}
		f.Data, f.Kind = c.Content(big)
		r = append(r, f)
	}
	return r
}

// odd turns some of the files into directories and links.
func (c *Ctx) odd(a *Add) {
	if a.API == "CompressBytes" {
		return
	}
	for _, f := range a.Files {
		if f.Kind == "missing" {
			continue
		}
		switch c.T.Intn(16) {
		case 14:
			f.Kind, f.Data = "dir", nil
			f.Mode |= 0700
		case 15:
			if a.Generic || strings.Contains(f.Base(), "|") {
				continue
			}
			f.Kind, f.Data = "link", nil
			f.To = []string{"x", "../y/z", "/abs/path", "no where", ".", "a/b/c/", "é", "fa", "x|y", "bystander"}[c.T.Intn(10)]
			if c.T.Bool(1, 6) {
				for n := 1 + c.T.Intn(900); len(f.To) < n; {
					f.To += "/t" + f.To[:1]
				}
			}
			a.Level = fit(a.Level, f.Base()+"|"+f.To)
		}
	}
}

var methodNums = []int{5, 0, 1, 6, 7}

func (c *Ctx) Method() int { return methodNums[c.T.Intn(len(methodNums))] }
func (c *Ctx) Level() int  { return []int{2, 0, 1}[c.T.Intn(3)] }

// Short makes reads come in pieces, in some scenarios.
func (c *Ctx) Short(w *vsim.World) {
	if c.T.Bool(1, 3) {
		w.ShortSeed = 1 + c.T.Seed32()
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
