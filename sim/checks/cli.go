package checks

import "strings"

func init() {
	register(&Prop{ID: "C19", Quick: 90000, Thorough: 5400000, Run: runStatus,
		Rule: "the command is run with drawn options on archives that are intact, missing, cut, damaged or no archives at all, with present and missing sources, with and without failing calls; the exit status and the messages are compared with what was done; non-trivial: the command had a reason to fail, or changed the archive"})
}

func runStatus(c *Ctx) {
	c.Zone()
	names := c.pool(3)
	var fs []*File
	for _, n := range names[:1+c.T.Intn(2)] {
		fs = append(fs, c.source(n, 1500))
	}
	arc := c.refArchive(fs)
	intact := arc
	var items []*Item
	for _, f := range fs {
		items = append(items, &Item{Name: f.Base(), Data: f.Data})
	}
	old := c.load(arc)
	state := []string{"intact", "intact", "intact", "missing", "cut", "text"}[c.T.Intn(6)]
	switch state {
	case "cut":
		at := 1 + c.T.Intn(len(arc)-2)
		if at == len(old.E[0].Raw) {
			at++ /* between two members nothing is missing but the end mark */
		}
		arc = arc[:at]
	case "text":
		arc = makeContent("text", 200+c.T.Intn(500), c.T.Seed32())
	case "missing":
		old = &Model{}
	}
	src := c.source(names[c.T.Intn(len(names))], 1500)
	kind := []string{"-a", "-c", "-e", "-t", "-p", "-l", "-lv", "-u", "-d", "none", "-zz"}[c.T.Intn(11)]
	a := &Add{API: "CLI", Files: []*File{src}, Sort: true, Method: 5, Level: 2, Generic: true}
	gone, bad := false, false
	var args []string
	switch kind {
	case "-a", "-c":
		a = c.drawAdd([]*File{src}, true)
		if a.API != "CLI" {
			a = &Add{API: "CLI", Files: []*File{src}, Sort: true, Method: []int{5, 6, 7}[c.T.Intn(3)], Level: c.T.Intn(2), Generic: c.T.Bool(1, 2)}
		}
		a.Level = fit(a.Level, src.Base())
		a.New = kind == "-c"
		a.Update = c.T.Bool(1, 5)
		a.Move = c.T.Bool(1, 5)
		gone = c.T.Bool(1, 6)
		args = a.args()
	case "-u":
		a.Auto, a.Update = true, true
		args = a.args()
	case "none":
		args = []string{"-archive", Arc}
	default:
		args = []string{"-archive", Arc, kind}
	}
	if kind == "-a" || kind == "-c" || kind == "-u" {
		if c.T.Bool(1, 8) {
			bad = true
			args = append(args, [][]string{{"-o", "9"}, {"-o", "1"}, {"-h", "7"}, {"-h", "-1"}, {"-g", "9", "-o", "0", "-h", "2"}}[c.T.Intn(5)]...)
		}
	}
	c.Say("%s, archive %s, source there %v: %.200q", kind, state, !gone, args)
	c.Probe(kind + " " + state)
	short := c.drawShort()
	var dry map[string]int
	rounds := 1
	if c.T.Bool(1, 2) {
		rounds = 2
	}
	for round := 0; round < rounds; round++ {
		w := c.World()
		w.ShortSeed = short
		w.FS.MkdirAll(Out)
		if state != "missing" {
			w.FS.Put(Arc, arc, 0644, 7e17)
		}
		if !gone {
			src.put(w)
		}
		p := w.NewProc("lharc")
		p.Cwd = Out
		if kind == "-u" {
			p.Cwd = "/w/src"
		}
		if round == 1 {
			keep := fileFault
			if kind == "-p" {
				keep = func(k string) bool { return !strings.HasSuffix(k, ":stderr") }
			}
			c.inject(w, dry, keep)
		}
		want, take := old.apply(w, a)
		res := c.CLIIn(w, p, "", args...)
		c.Sane(res, "lharc")
		if !res.Exited {
			c.Fail("status", "the command did not end")
		}
		dry = copyCounts(w.Counts)
		hit := anyFired(w)
		writes := kind == "-a" || kind == "-c" || kind == "-u"
		/* is there a reason to fail? */
		reason := ""
		switch {
		case hit:
			reason = "a call failed"
		case kind == "-d" || kind == "none" || kind == "-zz":
			reason = "no such command"
		case bad:
			reason = "the value of an option is invalid"
		case state == "missing" && (!writes || kind == "-u"):
			reason = "there is no archive"
		case state == "cut" || state == "text":
			reason = "the archive is " + state
		}
		c.trivial = reason == "" && !writes
		msg := strings.TrimSpace(res.Errout) != ""
		now, ok := w.FS.Content(Arc)
		same := ok == (state != "missing") && (!ok || eq(now, arc))
		if res.Code != 0 {
			c.Probe("failure")
			if reason == "" {
				c.Fail("status", "exit %d without a reason: %q", res.Code, cut(res.Errout))
			}
			if !msg {
				c.Fail("status", "exit %d without a message", res.Code)
			}
			if writes && !same && !(a.Move && fired(w, "remove:source")) {
				c.Fail("status", "exit %d although the archive changed", res.Code)
			}
			if !writes && !same {
				c.Fail("status", "%s changed the archive", kind)
			}
			continue
		}
		c.Probe("success")
		if bad && !hit && len(take) > 0 {
			c.Fail("status", "exit 0 although %s", reason)
		}
		if bad && !hit {
			continue
		}
		if reason != "" && !hit && !(writes && state == "cut") && !(kind == "-c" && state == "text") {
			c.Fail("status", "exit 0 although %s", reason)
		}
		if state == "text" || state == "cut" {
			if kind != "-c" && state == "text" {
				c.Fail("status", "exit 0 although the archive is text")
			}
			continue
		}
		if !writes {
			if !same {
				c.Fail("status", "%s changed the archive", kind)
			}
			k := kind
			if k == "-lv" {
				k = "-l"
			}
			r := &Read{Kind: k, res: res}
			if s := r.delivered(w, items); s != "" {
				c.Fail("status", "%s: exit 0 although %s", kind, s)
			}
			continue
		}
		if kind == "-u" && state == "missing" {
			c.Fail("status", "exit 0 although there is no archive")
		}
		pl := &plan{start: intact}
		if state == "missing" {
			pl.start = nil
		}
		if s, why := c.done(w, pl, want); s != "new" && !(s == "old" && len(take) == 0) && !(s == "none" && len(take) == 0) {
			c.Fail("status", "%s: exit 0 although the archive is %s: %s", kind, s, why)
		}
		if a.Move && len(take) > 0 && w.FS.Get(src.Path) != nil {
			c.Fail("status", "-m: exit 0 although %s is still there", src.Path)
		}
		if gone && !strings.Contains(res.Errout+res.Out, src.Base()) {
			c.Fail("status", "%s is missing and no message says so", src.Base())
		}
	}
}
