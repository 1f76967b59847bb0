package checks

import (
	"os"

	"lhasim/vsim"
)

func init() {
	register(&Prop{ID: "C29", Quick: 20000, Thorough: 1200000, Run: runSfx,
		Rule: "an archive behind a program of 0 to 60000 bytes, with strings in it that look like headers, named as programs are, is read through every interface and updated, undisturbed, with failing calls and with crashes; non-trivial: there is a program before the archive"})
}

// program draws the bytes before a self-extracting archive.
func (c *Ctx) program() []byte {
	n := 1 + c.T.Intn(3000)
	if c.T.Bool(1, 4) {
		n = 1 + c.T.Intn(60000)
	}
	b := append([]byte("MZ"), makeContent([]string{"random", "text", "zero", "skewed"}[c.T.Intn(4)], n, c.T.Seed32())...)
	r := rnd(c.T.Seed32())
	for i := r(4); i > 0; i-- { /* what looks like a header at first */
		d := append([]byte{byte(r(256)), byte(r(256))}, []string{"-lh5-", "-lh0-", "-lzs-", "-pm2-", "-l", "-lhd-"}[r(6)]...)
		for len(d) < 32 {
			d = append(d, byte(r(256)))
		}
		d[20] = byte(4 + r(250))
		if r(2) == 0 && d[0] > 20 { /* with a bad sum */
			d[20] = byte(r(2))
			for len(d) < int(d[0])+2 {
				d = append(d, 7)
			}
			var s byte
			for _, x := range d[2 : int(d[0])+2] {
				s += x
			}
			d[1] = s + 1
		}
		at := r(len(b))
		b = append(b[:at:at], append(d, b[at:]...)...)
	}
	/* but nothing that is one */
	for i := 0; i+2 < len(b); i++ {
		p := append(append([]byte{}, b[i:min(len(b), i+300)]...), make([]byte, 300)...)
		if p[2] != '-' || p[6] != '-' || p[20] > 3 {
			continue
		}
		var s byte
		for _, x := range p[2 : int(p[0])+2] {
			s += x
		}
		if p[20] >= 2 || s == p[1] || i+300 > len(b) {
			b[i+2] = '+'
		}
	}
	return b
}

func runSfx(c *Ctx) {
	c.Zone()
	arc := "/w/arc/" + []string{"p.exe", "P.EXE", "tool.com", "q.x", "a.b.X", "n.Exe"}[c.T.Intn(6)]
	std := arc[:len(arc)-len(ext(arc))] + ".lzh"
	names := c.pool(4)
	var fs []*File
	var stub, body []byte
	for i, n := range names[:1+c.T.Intn(3)] {
		f := c.source(n, 3000)
		m := c.refMember(f)
		for i == 0 && m[20] == 3 { /* only the levels 0 to 2 are looked for */
			m = c.refMember(f)
		}
		fs = append(fs, f)
		body = append(body, m...)
	}
	body = append(body, 0)
	old := c.load(body)
	if !c.T.Bool(1, 5) {
		stub = c.program()
		n := 65536 - old.E[0].hdr
		if c.T.Bool(1, 10) && len(stub) < n { /* the first header ends where the search does */
			stub = append(stub, make([]byte, n-len(stub))...)
			c.Probe("header at the end of the search")
		}
	}
	c.trivial = stub == nil
	whole := append(append([]byte{}, stub...), body...)
	short := c.drawShort()
	var items []*Item
	for _, f := range fs {
		items = append(items, &Item{Name: f.Base(), Data: f.Data})
	}
	c.Say("%s: %d bytes before %d members", arc, len(stub), len(fs))
	world := func() (*vsim.World, *vsim.Proc) {
		w := c.World()
		w.ShortSeed = short
		w.FS.MkdirAll(Out)
		w.FS.Put(arc, whole, 0755, 7e17)
		return w, w.NewProc("p")
	}
	w, p := world()
	for i := 1 + c.T.Intn(3); i > 0; i-- {
		r := c.drawRead(items)
		r.Arc, r.Force = arc, true
		c.Say("%s", r)
		c.Need(r.run(c, w, p), r.Kind)
		if s := r.delivered(w, items); s != "" {
			c.Fail("read", "%s of %s: %s", r, arc, s)
		}
		c.Probe("read " + r.Kind)
	}
	/* updates leave the program alone */
	var src []*File
	for _, n := range names[c.T.Intn(3):] {
		src = append(src, c.source(n, 3000))
	}
	a := c.drawAdd(src, true)
	a.Arc = arc
	if a.API == "CLI" {
		a.New, a.Files = false, a.Files[:1]
	} else {
		a.Backup = c.T.Bool(1, 4)
	}
	if a.API == "CommandAdd" || a.API == "CLI" {
		a.Update = c.T.Bool(1, 4)
	}
	target := arc
	if stub != nil {
		target = std
	}
	taken := stub != nil && c.T.Bool(1, 6)
	way := 0
	if taken {
		way = c.T.Intn(4)
	}
	c.Say("%s", a)
	var log []string
	var counts map[string]int
	for round := 0; round < 2; round++ {
		w, p = world()
		for _, f := range src {
			f.put(w)
		}
		if taken {
			switch way {
			case 0:
				w.FS.Put(std, []byte("something else"), 0644, 6e17)
			case 1:
				w.FS.Symlink("nowhere", std)
			case 2:
				w.FS.Symlink("/w/src/"+src[0].Base(), std)
			case 3:
				w.FS.MkdirAll(std)
			}
		}
		w.FS.Freeze()
		w.LogSeams = true
		p.Cwd = "/w/src"
		stop := false
		if round == 1 {
			if c.T.Bool(1, 2) {
				c.inject(w, counts, fileFault)
			} else {
				stop = true
				w.CrashSeq = c.crashPoint(log)
				c.Say("stop at call %d of %d (%s)", w.CrashSeq, len(log), log[w.CrashSeq])
			}
		}
		before := w.FS.Snapshot()
		want, take := old.apply(w, a)
		res := c.add(w, p, a)
		if !stop {
			c.Sane(res, a.API)
		}
		hit := stop && w.Stopped || anyFired(w)
		if stop {
			c.reboot(w, c.T.Bool(1, 2))
		}
		log, counts = w.SeamLog, copyCounts(w.Counts)
		if stub != nil {
			if b, ok := w.FS.Content(arc); !ok || !eq(b, whole) {
				c.Fail("program", "%s changed %s", a, arc)
			}
		}
		if taken {
			n := w.FS.Get(std)
			if n == nil || n.Kind != []vsim.Kind{vsim.KFile, vsim.KLink, vsim.KLink, vsim.KDir}[way] || way == 0 && string(n.Data) != "something else" {
				c.Fail("other file", "%s replaced %s", a, std)
			}
			if !stop && res.OK() {
				c.Fail("other file", "%s reported success although %s is in the way", a, std)
			}
			c.Probe("in the way")
			continue
		}
		b, ok := w.FS.Content(target)
		isOld := ok && target == arc && eq(b, whole) || !ok && (target != arc || a.Backup && hit)
		why, isNew := "nothing there", false
		if ok {
			why, _ = c.match(b, want)
			isNew = why == ""
		}
		switch {
		case !stop && res.OK() && !isNew && !(isOld && len(take) == 0 && target == arc):
			c.Fail("update", "%s of %s reported success, but %s: %s", a, arc, target, why)
		case !isOld && !isNew:
			c.Fail("update", "%s of %s, %s: %s: %s", a, arc, res, target, why)
		case !hit && !res.OK():
			c.Fail("update", "%s of %s: %s", a, arc, res)
		case !stop && !res.OK() && stub != nil && !fired(w, "remove:temp"):
			if x := snapDiff(before, w.FS.Snapshot(), nil); x != "" {
				c.Fail("debris", "%s failed (%s) and %s", a, res, x)
			}
		}
		if isNew {
			c.Probe("updated")
		}
	}
}

func ext(p string) string {
	for i := len(p) - 1; i >= 0 && p[i] != '/'; i-- {
		if p[i] == '.' {
			return p[i:]
		}
	}
	return ""
}

var _ = os.ModePerm
