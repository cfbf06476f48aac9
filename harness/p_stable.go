package main

import (
	"bytes"
	"fmt"
)

// C18: rebuilding what has been rebuilt changes nothing.

// lumpDiff describes the first difference between two wads, lump by lump.
func lumpDiff(a, b []byte) string {
	wa, err := parseWad(a)
	if err != nil {
		return "first wad: " + err.Error()
	}
	wb, err := parseWad(b)
	if err != nil {
		return "second wad: " + err.Error()
	}
	if wa.Magic != wb.Magic {
		return "signatures differ"
	}
	if len(wa.Lumps) != len(wb.Lumps) {
		return fmt.Sprintf("%d lumps, then %d lumps", len(wa.Lumps), len(wb.Lumps))
	}
	lev := ""
	for i := range wa.Lumps {
		p, q := &wa.Lumps[i], &wb.Lumps[i]
		if levelRank(p.Name) < 0 {
			lev = p.Name
		}
		if p.Raw != q.Raw {
			return fmt.Sprintf("lump %d is %q, then %q", i, p.Name, q.Name)
		}
		if !bytes.Equal(p.Data, q.Data) {
			return fmt.Sprintf("lump %s (after %s) differs: %s", p.Name, lev, bytesDiff(p.Data, q.Data))
		}
	}
	return ""
}

func bytesDiff(a, b []byte) string {
	n := min(len(a), len(b))
	k := 0
	for k < n && a[k] == b[k] {
		k++
	}
	return fmt.Sprintf("%d bytes, then %d bytes, first difference at byte %d: % x, then % x", len(a), len(b), k, a[k:min(k+12, len(a))], b[k:min(k+12, len(b))])
}

// genAllOpts: any mixture of options for nodes, blockmap and reject.
func genAllOpts(d *D, multiPct int) []string {
	var a []string
	no := genNodeOpts(d, multiPct)
	no.NoBlock, no.NoReject = false, false
	a = append(a, no.args()...)
	if d.P(8) {
		a = append(a, "-n-")
	}
	switch d.Pick(8) {
	case 0:
		a = append(a, "-b-")
	case 1, 2, 3:
		s := fmt.Sprintf("-bo=%d,%d", d.Int(0, 128), d.Int(0, 128))
		a = append(a, s)
	case 4, 5:
		a = append(a, "-bo=0")
	}
	if len(a) == 0 || a[len(a)-1] != "-b-" {
		if d.P(50) {
			s := "-b"
			if d.P(50) {
				s += fmt.Sprintf("z=%d", d.Int(0, 3))
			}
			s += pick(d, "", "s", "a", "s?", "a?")
			if s != "-b" {
				a = append(a, s)
			}
		}
		if d.P(15) {
			a = append(a, "-br")
		}
	}
	switch d.Pick(8) {
	case 0:
		a = append(a, "-r-")
	case 1:
		a = append(a, "-rz")
	case 2:
		a = append(a, "-rs=1")
	case 3:
		a = append(a, "-rs=2")
	case 4:
		a = append(a, "-rg")
	}
	return a
}

var _ = reg(&Prop{
	ID: "C18", Title: "Rebuilding is idempotent",
	Rule:  "a case counts when at least one level was rebuilt three times with nodes; distinct by the list of lumps and options",
	Quick: 2500, Thorough: 60000,
	Run: func(c *C) {
		w := genWad(c.D, wadOpts{MaxLevels: 3, Invalid: 5, Messy: 40, Dups: true, Scripts: true, MaxCols: 5})
		args := append([]string{"-d"}, genAllOpts(c.D, 5)...)
		unused := false
		for i := range w.Items {
			it := &w.Items[i]
			if it.Kind == "level" && it.Valid && it.Map.unusedVerts() {
				unused = true
			}
			if it.Kind == "level" && it.Valid && c.P(20) {
				it.Map.shuffleVerts(c.sub(), true)
				unused = true
				for _, l := range it.Map.Lumps() {
					for k := range it.Lumps {
						if it.Lumps[k].Name == l.Name && (l.Name == "VERTEXES" || l.Name == "LINEDEFS") {
							it.Lumps[k].Data = l.Data
						}
					}
				}
			}
		}
		w.build()
		c.Note("wad: %s", w.describe())
		valid := 0
		for _, it := range w.Items {
			if it.Kind == "level" && it.Valid {
				valid++
			}
		}
		if valid == 0 {
			c.Label("nothing to rebuild")
			return
		}
		run := func(in, out string) []byte {
			c.must(append(append([]string{}, args...), in, "-o", out)...)
			return c.Read(out)
		}
		o1 := run(c.Write("in.wad", w.Bytes), c.Path("out1.wad"))
		o2 := run(c.Path("out1.wad"), c.Path("out2.wad"))
		// the blockmap covers unused vertices, which only the first run sees
		if !unused {
			if s := lumpDiff(o1, o2); s != "" {
				c.Failf("changed: building the result of %v again changes it: %s", args, s)
			}
		} else {
			c.Label("with unused vertices")
		}
		o3 := run(c.Path("out2.wad"), c.Path("out3.wad"))
		if s := lumpDiff(o2, o3); s != "" {
			c.Failf("changed: building the result of %v for the third time changes it: %s", args, s)
		}
		if !bytes.Equal(o2, o3) {
			c.Failf("layout: the files of the second and third build hold the same lumps, but differ: %s", bytesDiff(o2, o3))
		}
		if valid > 0 {
			c.NonTrivial(fmt.Sprint(w.describe(), args))
			c.Sample("%s | %v", w.describe(), args)
		}
	},
})

// runWide32: a map as wide as coordinates go, where products of differences of
// coordinates need more than 32 bits, built with the 32-bit program.
func runWide32(c *C) {
	m := genNodeMap(c.D, true, c.P(40))
	stretch(m, c.D)
	args := []string{"-d", fmt.Sprintf("-bo=%d", c.Pick(2)*2)}
	o := genNodeOpts(c.D, 8)
	o.NoReject, o.NoBlock = false, false
	args = append(args, o.args()...)
	if c.P(60) {
		args = append(args, pick(c.D, "-rs=0", "-rs=1", "-rs=2", "-rs=3"))
	}
	if c.P(30) {
		args = append(args, fmt.Sprintf("-bs=%d", c.Pick(3)))
	}
	in := c.Write("in.wad", (&Wad{Lumps: m.Lumps()}).Bytes(nil))
	var out [2][]byte
	for i, bin := range []string{"vb", "vb386"} {
		f := c.Path(bin + ".wad")
		c.okay(c.RunOpt(RunOpt{Bin: bin}, append(append([]string{}, args...), in, "-o", f)...))
		out[i] = c.Read(f)
	}
	if s := lumpDiff(out[0], out[1]); s != "" {
		c.Failf("differs: %v gives another output with the 32-bit build: %s", args, s)
	}
	c.Label("32-bit build, wide map")
	c.NonTrivial(fmt.Sprint(m.describe(), args))
	c.Sample("%s | %v", m.describe(), args)
}

// stretch moves the vertices of m as far apart as the format allows.
func stretch(m *Map, d *D) {
	x0, y0, x1, y1 := 1<<30, 1<<30, -1<<30, -1<<30
	for _, v := range m.Verts {
		x0, y0, x1, y1 = min(x0, v.X), min(y0, v.Y), max(x1, v.X), max(y1, v.Y)
	}
	w, h := d.Int(32000, 65500), d.Int(20000, 65500)
	kx, ky := max(1, w/max(1, x1-x0)), max(1, h/max(1, y1-y0))
	ox, oy := (x0+x1)*kx/2, (y0+y1)*ky/2
	for i, v := range m.Verts {
		m.Verts[i] = V{v.X*kx - ox, v.Y*ky - oy}
	}
	for i := range m.Things {
		t := &m.Things[i]
		t.X, t.Y = int16(int(t.X)*kx-ox), int16(int(t.Y)*ky-oy)
	}
}

// C16: -d makes the output a function of input and options.

// richCase: wad with levels of any size for whole-program comparisons.
func (c *C) richCase() *wadCase {
	o := wadOpts{MaxLevels: 3, Messy: 20, Scripts: true, MaxCols: pick(c.D, 3, 5, 8)}
	if c.P(30) {
		o = wadOpts{MaxLevels: 1, Messy: 20, Scripts: true, MaxCols: 12, LevelsOnly: true}
	}
	return genWad(c.D, o)
}

var _ = reg(&Prop{
	ID: "C16", Title: "Deterministic output",
	Rule:  "a case counts when at least two builds of the same wad under different schedules were compared; distinct by the list of lumps and options",
	Quick: 1500, Thorough: 40000,
	Bins: []string{"vb", "vb386"},
	Run: func(c *C) {
		if c.P(6) {
			runWide32(c)
			return
		}
		w := c.richCase()
		args := []string{"-d"}
		multi := c.P(30)
		if multi {
			args = append(args, fmt.Sprintf("-nm=%d", c.Int(1, 3)))
		}
		args = append(args, genAllOpts(c.D, 0)...)
		if !multi && c.P(40) || c.P(5) {
			// offsets tried concurrently
			args = append(args, pick(c.D, "-bo=2", "-bo=2", "-bo=2e=1", "-bo=2e=2", "-bo=2s", "-bo=2a?"))
		}
		if multi && c.P(30) {
			args = append(args, fmt.Sprintf("--roots=%d", c.Int(1, 9)))
		}
		c.Note("wad: %s", w.describe())
		in := c.Write("in.wad", w.Bytes)
		type variant struct {
			name string
			opt  RunOpt
			add  []string
		}
		vs := []variant{{name: "the same again"}, {"GOMAXPROCS=1", RunOpt{Procs: 1}, nil}, {"-nt=1 -bt=1", RunOpt{}, []string{"-nt=1", "-bt=1"}},
			{"-nt=3 -bt=5", RunOpt{}, []string{"-nt=3", "-bt=5"}}, {"GOMAXPROCS=3", RunOpt{Procs: 3}, nil}, {"-nt=16 -bt=16 GOMAXPROCS=2", RunOpt{Procs: 2}, []string{"-nt=16", "-bt=16"}},
			{"32-bit build", RunOpt{Bin: "vb386"}, nil}}
		c.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		run := func(v variant, out string) []byte {
			// first, so that a -b- or -n- that follows is still in force
			a := append(append([]string{}, v.add...), args...)
			r := c.RunOpt(v.opt, append(a, in, "-o", out)...)
			c.okay(r)
			return c.Read(out)
		}
		ref := run(variant{}, c.Path("ref.wad"))
		n := 2
		for _, v := range vs[:n] {
			o := run(v, c.Path("var.wad"))
			if !bytes.Equal(ref, o) {
				s := lumpDiff(ref, o)
				if s == "" {
					s = "same lumps, " + bytesDiff(ref, o)
				}
				c.Failf("differs: %v gives another output with %s: %s", args, v.name, s)
			}
			c.Label(v.name)
		}
		if multi {
			c.Label("multi-tree")
		}
		c.NonTrivial(fmt.Sprint(w.describe(), args))
		c.Sample("%s | %v", w.describe(), args)
	},
})

var _ = reg(&Prop{
	ID: "C20", Title: "Accelerations do not change the result",
	Rule:  "a case counts when a build with and one without the acceleration were compared; distinct by map size, options and acceleration",
	Quick: 2500, Thorough: 60000,
	Run: func(c *C) {
		m := genNodeMap(c.D, true, c.P(40))
		args := []string{"-d", "-bo=0"}
		o := genNodeOpts(c.D, 0)
		o.NoReject, o.NoBlock, o.Extra = false, false, nil
		kind := c.Pick(4)
		var x, y []string
		switch kind {
		case 0: // collected partitions are replayed
			o.C = pick(c.D, "", "v", "d", "V", "D")
			if c.P(40) {
				o.M = c.Int(1, 3)
			}
			y = []string{"--stknode"}
		case 1:
			o.A = 4
			o.P = -1
			if c.P(40) {
				o.M = c.Int(1, 3)
				x, y = []string{"--sidecache=1"}, []string{pick(c.D, "--sidecache=2", "--sidecache=0")}
			} else {
				y = []string{"--sidecache=2"}
			}
		case 2:
			o.M = c.Int(1, 3)
			x, y = []string{"--speedtree=0"}, []string{"--speedtree=1"}
		case 3:
			args = append(args, fmt.Sprintf("-rs=%d", c.Int(0, 3)))
			y = []string{"--nosymm"}
		}
		if kind < 3 {
			args = append(args, "-r-")
		} else {
			args = append(args, "-n-")
		}
		if c.P(30) {
			args = append(args, fmt.Sprintf("--detailnodes=%d", c.Int(0, 3)))
		}
		if kind < 3 {
			args = append(args, o.nArg())
			if args[len(args)-1] == "-n" {
				args = args[:len(args)-1]
			}
		}
		in := c.Write("in.wad", (&Wad{Lumps: m.Lumps()}).Bytes(nil))
		run := func(add []string, out string) []byte {
			c.must(append(append(append([]string{}, args...), add...), in, "-o", out)...)
			return c.Read(out)
		}
		a, b := run(x, c.Path("a.wad")), run(y, c.Path("b.wad"))
		if s := lumpDiff(a, b); s != "" {
			c.Failf("differs: %v with %v and with %v: %s", args, x, y, s)
		}
		c.Label(y[0])
		c.NonTrivial(fmt.Sprint(m.describe(), args, y))
		c.Sample("%s | %v | %v against %v", m.describe(), args, x, y)
	},
})
