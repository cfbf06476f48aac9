package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
)

// C11: all formats of nodes say the same, and limits of formats are respected.

// sameTree compares two decoded trees; ao: angles and offsets as well.
func sameTree(a, b *BSP, ao bool) error {
	if len(a.Nodes) != len(b.Nodes) || len(a.First) != len(b.First) || len(a.Segs) != len(b.Segs) {
		return fmt.Errorf("%d nodes, %d subsectors, %d segs in format %s, but %d, %d, %d in format %s", len(a.Nodes), len(a.First), len(a.Segs), a.Fmt, len(b.Nodes), len(b.First), len(b.Segs), b.Fmt)
	}
	for i := range a.Nodes {
		if a.Nodes[i] != b.Nodes[i] {
			return fmt.Errorf("node %d is %+v in format %s, %+v in format %s", i, a.Nodes[i], a.Fmt, b.Nodes[i], b.Fmt)
		}
	}
	for i := range a.First {
		if a.Count[i] != b.Count[i] {
			return fmt.Errorf("subsector %d has %d segs in format %s, %d in format %s", i, a.Count[i], a.Fmt, b.Count[i], b.Fmt)
		}
		for k := 0; k < a.Count[i]; k++ {
			p, q := a.First[i]+k, b.First[i]+k
			if p >= len(a.Segs) || q >= len(b.Segs) {
				return fmt.Errorf("subsector %d refers to seg %d/%d of %d", i, p, q, len(a.Segs))
			}
			s, t := a.Segs[p], b.Segs[q]
			if !ao {
				s.Angle, s.Off, t.Angle, t.Off = 0, 0, 0, 0
			}
			if s != t {
				return fmt.Errorf("seg %d of subsector %d is %+v in format %s, %+v in format %s", k, i, s, a.Fmt, t, b.Fmt)
			}
		}
	}
	if len(a.X) != len(b.X) {
		return fmt.Errorf("%d vertices with format %s, %d with format %s", len(a.X), a.Fmt, len(b.X), b.Fmt)
	}
	for i := range a.X {
		if a.X[i] != b.X[i] || a.Y[i] != b.Y[i] {
			return fmt.Errorf("vertex %d is (%g,%g) with format %s, (%g,%g) with format %s", i, a.X[i], a.Y[i], a.Fmt, b.X[i], b.Y[i], b.Fmt)
		}
	}
	return nil
}

// convexLoop: a strictly convex lattice polygon with about n sides.
func convexLoop(n int) []V {
	var vec []V
	for k := 1; len(vec) < n; k++ {
		vec = vec[:0]
		for x := -k; x <= k; x++ {
			for y := -k; y <= k; y++ {
				if gcd(abs(x), abs(y)) == 1 {
					vec = append(vec, V{x, y})
				}
			}
		}
	}
	sort.Slice(vec, func(i, j int) bool {
		return math.Atan2(float64(vec[i].Y), float64(vec[i].X)) < math.Atan2(float64(vec[j].Y), float64(vec[j].X))
	})
	// drop pairs of opposite vectors, which keeps the loop closed
	for len(vec) > n+1 && len(vec) > 4 {
		v := vec[len(vec)/3]
		var r []V
		for _, w := range vec {
			if w != v && (w.X != -v.X || w.Y != -v.Y) {
				r = append(r, w)
			}
		}
		vec = r
	}
	var pts []V
	p := V{}
	for _, v := range vec {
		pts = append(pts, p)
		p = V{p.X + v.X*2, p.Y + v.Y*2}
	}
	return pts
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// genBigMap: a map whose tree is near one of the limits of the vanilla format.
func genBigMap(d *D) (*Map, string) {
	b := &mapBuilder{m: &Map{Name: "MAP01"}, d: d, vid: map[V]int{}}
	m := b.m
	outer := b.sector()
	box := func(h int) {
		p := []V{{-h, -h}, {-h, h}, {h, h}, {h, -h}} // clockwise: sector on the right
		for i := range p {
			b.line(b.v(p[i].X, p[i].Y), b.v(p[(i+1)%4].X, p[(i+1)%4].Y), outer, -1, false)
		}
	}
	m.Things = []Thing{{Type: 1, Flags: 7}}
	class := pick(d, "grid", "grid", "grid", "grid", "grid", "pillars", "vertices", "cells", "cells")
	if class == "cells" { // subsectors exceed a limit long after segs did
		n := 180
		ss := [2]int{b.side(b.sector()), b.side(b.sector())}
		ou := b.side(outer)
		r := d.sub()
		pm := d.Int(8, 60)
		vs := make([]int, (n+1)*(n+1))
		for k := range vs {
			x, y := k%(n+1)*64-90*64, k/(n+1)*64-90*64
			if r.Intn(1000) < pm {
				x, y = x+r.Intn(9)-4, y+r.Intn(9)-4
			}
			vs[k] = b.v(x, y)
		}
		at := func(i, j int) int {
			if i < 0 || j < 0 || i >= n || j >= n {
				return ou
			}
			return ss[(i+j)%2]
		}
		for j := 0; j <= n; j++ {
			for i := 0; i <= n; i++ {
				k := j*(n+1) + i
				if j < n {
					m.Lines = append(m.Lines, Line{V1: vs[k], V2: vs[k+n+1], Front: at(i, j), Back: at(i-1, j), Flags: mlTwoSided})
				}
				if i < n {
					m.Lines = append(m.Lines, Line{V1: vs[k], V2: vs[k+1], Front: at(i, j-1), Back: at(i, j), Flags: mlTwoSided})
				}
			}
		}
		box(8000)
		return m, class
	}
	if class == "grid" {
		// two sectors in turns; sidedefs are shared, or there would be too many
		in := [2]int{b.sector(), b.sector()}
		ss := [3]int{b.side(in[0]), b.side(in[1]), b.side(outer)}
		sideFor := func(k int) int {
			if k < 0 {
				return ss[2]
			}
			return ss[k]
		}
		line := func(p, q V, rs, ls int) {
			if rs == ls {
				return
			}
			m.Lines = append(m.Lines, Line{V1: b.v(p.X, p.Y), V2: b.v(q.X, q.Y), Front: sideFor(rs), Back: sideFor(ls), Flags: mlTwoSided})
		}
		loop := d.Int(3, 600)
		limit := pick(d, 65536, 32768)
		// segs: 4 per cell, the outer side of the border, the loop twice, the box
		want := limit + pick(d, loop/2, loop, 0, loop/2, 2*loop, -loop/2) + d.Near(60)
		cols := pick(d, 128, 120, 100)
		cells := cols
		for 4+2*loop+4*cells+2*(cols+(cells+cols-1)/cols) < want {
			cells++
		}
		step := 64
		ox, oy := -cols*step/2, -6000
		tail := 0
		if d.P(60) { // some more of it behind the loop
			tail = d.Int(1, loop/16)
		}
		rows := (cells + cols - 1) / cols
		// which subsectors come last depends on the directions of lines
		turnH, turnV := d.P(70), d.P(50)
		x0 := pick(d, 0, ox, -ox, ox-800, -ox+800)
		grid := func(cells, rows, oy int) {
			at := func(i, j int) int {
				if i < 0 || j < 0 || i >= cols || j*cols+i >= cells {
					return -1
				}
				return (i + j) % 2
			}
			for j := 0; j <= rows; j++ {
				for i := 0; i <= cols; i++ {
					p := V{ox + i*step, oy + j*step}
					if u := (V{p.X, p.Y + step}); turnV {
						line(u, p, at(i-1, j), at(i, j))
					} else {
						line(p, u, at(i, j), at(i-1, j))
					}
					if u := (V{p.X + step, p.Y}); turnH {
						line(u, p, at(i, j), at(i, j-1))
					} else {
						line(p, u, at(i, j-1), at(i, j))
					}
				}
			}
		}
		grid(cells-tail, rows, oy)
		big := b.sector()
		pts := convexLoop(loop)
		y0 := oy + (rows+4)*step
		minY, maxY := 0, 0
		for _, p := range pts {
			minY, maxY = min(minY, p.Y), max(maxY, p.Y)
		}
		for i, p := range pts {
			q := pts[(i+1)%len(pts)]
			b.line(b.v(x0+p.X, p.Y-minY+y0), b.v(x0+q.X, q.Y-minY+y0), outer, big, false)
		}
		if tail > 0 {
			grid(tail, (tail+cols-1)/cols, y0+maxY-minY+step)
		}
		box(16000)
		if d.P(50) { // the large subsector need not be among the last ones
			m.rotate(d.Int(1, 3))
		}
		return m, class
	}
	n := d.Int(94, 108) // subsectors near 32768
	hide := 0
	if class == "vertices" {
		n = 127
		hide = d.Int(25, 50) // segs stay within limits, vertices may not
	}
	step := 64
	h := n * step / 2
	ss := b.side(outer)
	r := d.sub()
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			cx, cy := -h+i*step+step/2, -h+j*step+step/2
			q := func(v int) int { return v + r.Intn(13) - 6 }
			p := []V{{q(cx - 20), q(cy - 20)}, {q(cx + 20), q(cy - 20)}, {q(cx + 20), q(cy + 20)}, {q(cx - 20), q(cy + 20)}}
			tag := 0
			if r.Intn(100) < hide {
				tag = 998
			}
			v0 := len(m.Verts)
			m.Verts = append(m.Verts, p...)
			for k := range p {
				m.Lines = append(m.Lines, Line{V1: v0 + k, V2: v0 + (k+1)%4, Flags: mlImpassable, Tag: uint16(tag), Front: ss, Back: -1})
			}
		}
	}
	box(h + 100)
	return m, class
}

func (m *Map) rotate(quarters int) {
	for i, v := range m.Verts {
		for k := 0; k < quarters; k++ {
			v = V{-v.Y, v.X}
		}
		m.Verts[i] = v
	}
}

func (b *built) maxFirst() int {
	r := 0
	for _, f := range b.B.First {
		r = max(r, f)
	}
	return r
}

func runFormatLimits(c *C) {
	m, class := genBigMap(c.D)
	detail := fmt.Sprintf("--detailnodes=%d", c.Int(1, 2))
	alg := fmt.Sprintf("-na=%d", pick(c.D, 0, 0, 4))
	common := []string{"-r-", "-b-", "-d", detail, alg}
	if class == "grid" && c.P(25) {
		common = append(common, "-nm="+fmt.Sprint(c.Int(1, 3)), "--roots=2")
	}
	run := func(f string, extra ...string) *built {
		b := c.buildMap(m, append(append(append([]string{}, common...), "-nc="+f), extra...)...)
		b.decode(c)
		return b
	}
	multi := len(common) > 5
	d := run("d")
	if err := d.B.checkStructure(d.Out); err != nil {
		c.Failf("structure: deep nodes: %v", err)
	}
	v := run(pick(c.D, "V", "v"))
	T, M := len(d.B.Segs), 0
	for _, k := range d.B.Count {
		M = max(M, k)
	}
	// a tree of 32768 subsectors would fit, but it would need the one reference
	// some ports mistake for something else
	fits := len(d.B.First) < 32768 && T-M <= 65535 && len(d.B.X) <= 65536
	what := fmt.Sprintf("%d segs, %d subsectors, %d vertices, largest subsector %d segs", T, len(d.B.First), len(d.B.X), M)
	switch {
	case multi:
		// which of the trees are compared differs among formats
		if v.B.Fmt != "empty" {
			if err := v.B.checkStructure(v.Out); err != nil {
				c.Failf("structure: vanilla nodes: %v", err)
			}
		}
	case !fits && v.B.Fmt != "empty":
		c.Failf("limits: the tree (%s) doesn't fit the vanilla format, the lumps should have been emptied", what)
	case fits && v.B.Fmt != "v":
		c.Failf("limits: the tree (%s) fits the vanilla format, but nodes are: %s", what, v.B.Fmt)
	case fits:
		if err := v.B.checkStructure(v.Out); err != nil {
			c.Failf("structure: vanilla nodes (%s): %v", what, err)
		}
		if err := sameTree(d.B, v.B, true); err != nil {
			c.Failf("formats differ: %v", err)
		}
		if T-M <= 32767 && v.maxFirst() > 32767 {
			c.Failf("signed limit: a subsector starts at seg %d, though moving the largest subsector could avoid it (%s)", v.maxFirst(), what)
		}
	}
	c.Labelf("big %s, vanilla %s", class, v.B.Fmt)
	if multi {
		c.Label("big, multi-tree")
	}
	if v.B.Fmt == "v" && v.maxFirst() > 32767 {
		c.Label("unsigned only")
	}
	// with fallback
	f := pick(c.D, "D", "X", "Z", "Z9")
	if class == "cells" && c.P(60) {
		f = "D"
	}
	var nt []string
	if c.P(40) {
		nt = []string{"-nt=1"}
	}
	w := run(f, nt...)
	if multi {
		V := v
		if f == "X" || f[0] == 'Z' {
			V = run("V")
			if V.B.Fmt == "v" {
				if !bytes.Equal(V.W.Bytes(nil), w.W.Bytes(nil)) {
					c.Failf("fallback: result of c=%s differs from that of c=V though a tree fits the vanilla format", f)
				}
			}
		}
		if err := w.B.checkStructure(w.Out); err != nil {
			c.Failf("structure: c=%s: %v", f, err)
		}
		if V.B.Fmt == "empty" && w.B.Fmt == "v" && f != "D" {
			c.Failf("fallback: c=%s gave vanilla nodes, c=V gave none", f)
		}
	} else if fits {
		if !bytes.Equal(v.W.Bytes(nil), w.W.Bytes(nil)) {
			c.Failf("fallback: result of c=%s differs from that of c=v though the tree fits the vanilla format (%s)", f, what)
		}
	} else {
		ref := d
		if f != "D" {
			ref = run(string(f[0]|0x20) + f[1:])
		}
		if !bytes.Equal(ref.W.Bytes(nil), w.W.Bytes(nil)) {
			if w.B.Fmt != ref.B.Fmt {
				c.Failf("fallback: c=%s gave format %s (%s)", f, w.B.Fmt, what)
			}
			c.Failf("fallback: result of c=%s differs from that of c=%s: %v", f, ref.B.Fmt, sameTree(ref.B, w.B, true))
		}
	}
	c.NonTrivial(fmt.Sprint(class, common, f, T, len(d.B.First), len(d.B.X), M))
	c.Sample("%s | %v | %s | vanilla: %s, c=%s: %s", m.describe(), common, what, v.B.Fmt, f, w.B.Fmt)
}

func runFormats(c *C) {
	m := genNodeMap(c.D, true, c.P(40))
	o := genNodeOpts(c.D, 8)
	o.Det = true
	o.Extra = append(o.Extra, fmt.Sprintf("--detailnodes=%d", c.Int(1, 2)))
	run := func(f string) *built {
		o.C = f
		b := c.buildMap(m, o.args()...)
		b.decode(c)
		return b
	}
	a, g := "", ""
	switch c.Pick(4) {
	case 0:
		a, g = "v", "d"
	case 1:
		a, g = pick(c.D, "", "v", "V"), pick(c.D, "D", "X", "Z", "Z3", "V")
	case 2:
		a, g = "x", pick(c.D, "z", "z1", "z9")
	case 3:
		a, g = pick(c.D, "z", "z6"), pick(c.D, "z6", "z1", "z9", "z")
	}
	if c.P(8) { // the option that makes multi-tree with X and Z the one with x and z
		g = pick(c.D, "", "v", "V", "d", "D", "x", "z", "X", "Z")
		a = g
		if o.M > 0 {
			a = map[string]string{"X": "x", "Z": "z"}[g]
			if a == "" {
				a = g
			}
		}
		x := run(a)
		o.Extra = append(o.Extra, "--ableist")
		y := run(g)
		if !bytes.Equal(x.W.Bytes(nil), y.W.Bytes(nil)) {
			c.Failf("formats differ: %v gives another result than c=%s without --ableist", o.args(), a)
		}
		c.Label("--ableist")
		if len(x.B.Nodes) > 0 {
			c.NonTrivial(fmt.Sprint(o.args(), len(x.B.Nodes), len(x.B.Segs)))
		}
		return
	}
	x, y := run(a), run(g)
	if x.B.Fmt == "empty" || y.B.Fmt == "empty" {
		if x.B.Fmt != y.B.Fmt {
			c.Failf("formats differ: c=%s gave %s nodes, c=%s %s", a, x.B.Fmt, g, y.B.Fmt)
		}
		c.Label("nothing to render")
		return
	}
	same := a[:min(1, len(a))] != "x" && a[:min(1, len(a))] != "z" && g != "d" || a == g || a+g == "zz6" || a+g == "z6z"
	if same && !bytes.Equal(x.W.Bytes(nil), y.W.Bytes(nil)) {
		c.Failf("formats differ: the results of c=%s and c=%s should be the same", a, g)
	}
	if err := sameTree(x.B, y.B, true); err != nil {
		c.Failf("formats differ: %v", err)
	}
	for _, n := range []string{"LINEDEFS", "VERTEXES", "THINGS", "SIDEDEFS", "SECTORS", "REJECT", "BLOCKMAP"} {
		if !bytes.Equal(x.Lv.L[n], y.Lv.L[n]) {
			c.Failf("formats differ: %s differs between c=%s and c=%s", n, a, g)
		}
	}
	for _, b := range []*built{x, y} {
		f := a
		if b == y {
			f = g
		}
		want := "v"
		if f == "d" || f == "x" {
			want = f
		} else if f != "" && f[0] == 'z' {
			want = "z"
		}
		if b.B.Fmt != want {
			c.Failf("format: c=%s gave nodes in format %s", f, b.B.Fmt)
		}
		if b.B.Fmt == "z" && len(b.B.ZLevel) == 2 {
			// level class in the zlib header
			lvl := int(b.B.ZLevel[1] >> 6)
			exp := 2
			if len(f) == 2 {
				exp = map[byte]int{'1': 0, '9': 3, '6': 2}[f[1]]
			}
			if lvl != exp {
				c.Failf("compression: c=%s gave a zlib stream of level class %d, expected %d", f, lvl, exp)
			}
		}
	}
	c.Labelf("%s and %s", x.B.Fmt, y.B.Fmt)
	if len(x.B.Nodes) > 0 {
		c.NonTrivial(fmt.Sprint(o.args(), a, g, len(x.B.Nodes), len(x.B.Segs)))
		c.Sample("%s | %v | c=%s and c=%s: %d nodes %d segs", m.describe(), o.args(), a, g, len(x.B.Nodes), len(x.B.Segs))
	}
}

var _ = reg(&Prop{
	ID: "C11", Title: "Node formats agree and their limits are respected",
	Rule:  "a case counts when a tree with at least one node was built in two formats and compared; distinct by options, formats and numbers of nodes and segs",
	Quick: 2000, Thorough: 40000,
	Run: func(c *C) {
		if c.Int(0, 99) >= 98 {
			runFormatLimits(c)
			return
		}
		runFormats(c)
	},
})
