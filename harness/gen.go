package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
)

// Map generators. All of them produce planar, closed maps unless stated
// otherwise: every side of every line faces exactly one sector (or void).

type MapOpts struct {
	MaxCols, MaxRows int
	Hexen            int  // percent chance of Hexen format
	Specials         bool // nodebuilder-specific tags and actions
	SelfRef          bool // lines with the same sector on both sides, self-referencing effects
	ZeroLen          bool // zero-length and duplicate-vertex lines
	Scale            []int
	Islands          bool
	NoFar            bool // keep coordinates within +-8000
	MinSectors       int
	Polyobj          bool
	Walls            bool // walls and windows inside and between sectors
	Tri              int  // percent chance of a triangulation of random points
}

type mapBuilder struct {
	m   *Map
	d   *D
	vid map[V]int
}

func (b *mapBuilder) v(x, y int) int {
	k := V{x, y}
	if i, ok := b.vid[k]; ok {
		return i
	}
	i := len(b.m.Verts)
	b.m.Verts = append(b.m.Verts, k)
	b.vid[k] = i
	return i
}

func (b *mapBuilder) side(sector int) int {
	b.m.Sides = append(b.m.Sides, Side{Up: "-", Lo: "-", Mid: "-", Sector: sector})
	return len(b.m.Sides) - 1
}

// line adds a line from v1 to v2 with sector rs on its right and ls on its left
// (-1 = void). One-sided lines are turned so that their front faces the sector.
func (b *mapBuilder) line(v1, v2, rs, ls int, flip bool) int {
	if rs < 0 && ls < 0 {
		return -1
	}
	if rs < 0 || (ls >= 0 && flip) {
		v1, v2 = v2, v1
		rs, ls = ls, rs
	}
	l := Line{V1: v1, V2: v2, Front: b.side(rs), Back: -1, Flags: mlImpassable}
	if ls >= 0 {
		l.Back = b.side(ls)
		l.Flags = mlTwoSided
	} else {
		b.m.Sides[l.Front].Mid = "STARTAN3"
	}
	b.m.Lines = append(b.m.Lines, l)
	return len(b.m.Lines) - 1
}

func (b *mapBuilder) sector() int {
	b.m.Sectors = append(b.m.Sectors, Sector{Floor: 0, Ceil: 128, FloorTex: "FLOOR4_8", CeilTex: "CEIL3_5", Light: 160})
	return len(b.m.Sectors) - 1
}

var defaultScales = []int{64, 128, 16, 256, 8, 512, 2000}

func genMap(d *D, name string, o MapOpts) *Map {
	if d.P(o.Tri) {
		return genTri(d, name, o)
	}
	b := &mapBuilder{m: &Map{Name: name}, d: d, vid: map[V]int{}}
	m := b.m
	m.Hexen = d.P(o.Hexen)
	if o.MaxCols == 0 {
		o.MaxCols = 5
	}
	if o.MaxRows == 0 {
		o.MaxRows = 5
	}
	scales := o.Scale
	if scales == nil {
		scales = defaultScales
	}
	cols, rows := d.Int(1, o.MaxCols), d.Int(1, o.MaxRows)
	scale := scales[d.Pick(len(scales))]
	jitterPct := pick(d, 0, 0, 10, 22)
	xs := make([]int, cols+1)
	ys := make([]int, rows+1)
	irregular := d.P(50)
	step := func() int {
		if !irregular {
			return scale
		}
		return scale/2 + d.Int(0, scale)
	}
	for i := 1; i <= cols; i++ {
		xs[i] = xs[i-1] + max(2, step())
	}
	for i := 1; i <= rows; i++ {
		ys[i] = ys[i-1] + max(2, step())
	}
	ox, oy := d.Near(1000), d.Near(1000)
	if !o.NoFar {
		switch d.Pick(8) {
		case 6: // hug the negative edge of the coordinate space
			ox, oy = -32768, -32768
		case 7: // hug the positive edge
			ox, oy = 32767-xs[cols], 32767-ys[rows]
		}
	}
	pos := make([][]V, cols+1)
	for i := range pos {
		pos[i] = make([]V, rows+1)
		for j := range pos[i] {
			x, y := xs[i], ys[j]
			if jitterPct > 0 {
				mx, my := 1<<30, 1<<30
				if i > 0 {
					mx = min(mx, xs[i]-xs[i-1])
				}
				if i < cols {
					mx = min(mx, xs[i+1]-xs[i])
				}
				if j > 0 {
					my = min(my, ys[j]-ys[j-1])
				}
				if j < rows {
					my = min(my, ys[j+1]-ys[j])
				}
				mn := min(mx, my)
				x += d.Near(mn * jitterPct / 100)
				y += d.Near(mn * jitterPct / 100)
			}
			x, y = x+ox, y+oy
			x = max(-32768, min(32767, x))
			y = max(-32768, min(32767, y))
			pos[i][j] = V{x, y}
		}
	}
	// sectors of cells
	nsec := d.Int(1, cols*rows)
	if d.P(50) {
		nsec = d.Int(1, min(4, cols*rows))
	}
	if o.MinSectors > 0 {
		nsec = max(nsec, min(o.MinSectors, cols*rows))
	}
	voidPct := pick(d, 0, 20, 45)
	cell := make([][]int, cols)
	any := false
	for i := range cell {
		cell[i] = make([]int, rows)
		for j := range cell[i] {
			cell[i][j] = d.Int(0, nsec-1)
			if d.P(voidPct) {
				cell[i][j] = -1
			} else {
				any = true
			}
		}
	}
	if !any {
		cell[0][0] = 0
	}
	remap := map[int]int{}
	for i := range cell {
		for j := range cell[i] {
			s := cell[i][j]
			if s < 0 {
				continue
			}
			if _, ok := remap[s]; !ok {
				remap[s] = b.sector()
			}
			cell[i][j] = remap[s]
		}
	}
	at := func(i, j int) int {
		if i < 0 || j < 0 || i >= cols || j >= rows {
			return -1
		}
		return cell[i][j]
	}
	innerPct := 0
	if o.SelfRef {
		innerPct = pick(d, 0, 0, 20, 60)
	}
	subdivPct := pick(d, 0, 0, 25)
	wallPct, windowPct := 0, 0
	if o.Walls {
		wallPct, windowPct = pick(d, 0, 20, 50), pick(d, 0, 30, 60)
	}
	edge := func(p, q V, rs, ls int) {
		if rs < 0 && ls < 0 {
			return
		}
		if wallPct+windowPct > 0 && rs >= 0 && ls >= 0 {
			wall := func(a, b2 V) {
				if a != b2 {
					m.Lines[b.line(b.v(a.X, a.Y), b.v(b2.X, b2.Y), rs, ls, d.P(50))].Flags = mlImpassable
				}
			}
			if d.P(wallPct) {
				wall(p, q)
				return
			}
			if d.P(windowPct) {
				f1 := d.Int(0, 15)
				f2 := d.Int(f1+1, 16)
				at := func(f int) V { return V{p.X + (q.X-p.X)*f/16, p.Y + (q.Y-p.Y)*f/16} }
				a, c := at(f1), at(f2)
				wall(p, a)
				if a != c && rs != ls {
					b.line(b.v(a.X, a.Y), b.v(c.X, c.Y), rs, ls, d.P(50))
				}
				wall(c, q)
				return
			}
		}
		if rs == ls && !d.P(innerPct) {
			return
		}
		flip := d.P(50)
		if d.P(subdivPct) {
			// a mid vertex, slightly off the edge
			mx, my := (p.X+q.X)/2, (p.Y+q.Y)/2
			off := int(math.Hypot(float64(q.X-p.X), float64(q.Y-p.Y))) / 16
			mx += d.Near(off)
			my += d.Near(off)
			mid := V{max(-32768, min(32767, mx)), max(-32768, min(32767, my))}
			if mid != p && mid != q {
				b.line(b.v(p.X, p.Y), b.v(mid.X, mid.Y), rs, ls, flip)
				b.line(b.v(mid.X, mid.Y), b.v(q.X, q.Y), rs, ls, d.P(50))
				return
			}
		}
		b.line(b.v(p.X, p.Y), b.v(q.X, q.Y), rs, ls, flip)
	}
	// vertical edges going up: right side is the cell to the right
	for i := 0; i <= cols; i++ {
		for j := 0; j < rows; j++ {
			edge(pos[i][j], pos[i][j+1], at(i, j), at(i-1, j))
		}
	}
	// horizontal edges going right: right side is the cell below
	for j := 0; j <= rows; j++ {
		for i := 0; i < cols; i++ {
			edge(pos[i][j], pos[i+1][j], at(i, j-1), at(i, j))
		}
	}
	if o.Islands {
		islPct := pick(d, 0, 30, 70)
		for i := 0; i < cols; i++ {
			for j := 0; j < rows; j++ {
				if at(i, j) < 0 || !d.P(islPct) {
					continue
				}
				b.island(pos[i][j], pos[i+1][j], pos[i+1][j+1], pos[i][j+1], at(i, j), o)
			}
		}
	}
	b.sectorProps()
	b.finish(o)
	return m
}

// genTri: a triangulation of random points; every triangle is void, a sector of
// its own or one shared with others, every edge between sectors may be a wall.
func genTri(d *D, name string, o MapOpts) *Map {
	b := &mapBuilder{m: &Map{Name: name}, d: d, vid: map[V]int{}}
	m := b.m
	m.Hexen = d.P(o.Hexen)
	scales := o.Scale
	if scales == nil {
		scales = defaultScales
	}
	n := d.Int(3, max(6, min(28, (o.MaxCols+1)*(o.MaxRows+1))))
	w := min(scales[d.Pick(len(scales))]*pick(d, 2, 4, 7), 30000)
	h := max(8, w*pick(d, 2, 4, 6)/4)
	step := pick(d, 1, 1, 8, 16)
	if step > w/8 {
		step = 1
	}
	gap := min(pick(d, 1, 4, 32), w/16)
	ox, oy := d.Near(1000), d.Near(1000)
	if !o.NoFar {
		switch d.Pick(8) {
		case 6:
			ox, oy = -32768, -32768
		case 7:
			ox, oy = 32767-w, 32767-h
		}
	}
	var pts []V
	for i := 0; i < n; i++ {
		p := V{d.Int(0, w) / step * step, d.Int(0, h) / step * step}
		ok := true
		for _, q := range pts {
			ok = ok && (p.X-q.X)*(p.X-q.X)+(p.Y-q.Y)*(p.Y-q.Y) >= max(1, gap*gap)
		}
		if ok {
			pts = append(pts, p)
		}
	}
	cross := func(a, b, c V) int { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }
	flat := true
	for i := 2; i < len(pts); i++ {
		flat = flat && cross(pts[0], pts[1], pts[i]) == 0
	}
	if len(pts) < 3 || flat {
		pts = []V{{0, 0}, {0, h}, {w, 0}}
	}
	var all [][2]int
	for i := range pts {
		for j := 0; j < i; j++ {
			all = append(all, [2]int{i, j})
		}
	}
	r := d.sub()
	for i := len(all) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		all[i], all[j] = all[j], all[i]
	}
	if d.P(70) { // the shortest first: fewer slivers
		l := func(e [2]int) int {
			dx, dy := pts[e[0]].X-pts[e[1]].X, pts[e[0]].Y-pts[e[1]].Y
			return dx*dx + dy*dy
		}
		sort.SliceStable(all, func(i, j int) bool { return l(all[i]) < l(all[j]) })
	}
	sign := func(x int) int {
		switch {
		case x < 0:
			return -1
		case x > 0:
			return 1
		}
		return 0
	}
	var es [][2]int
	adj := make([][]int, len(pts))
	for _, e := range all {
		p, q := pts[e[0]], pts[e[1]]
		ok := true
		for k, t := range pts {
			if k != e[0] && k != e[1] && cross(p, q, t) == 0 && min(p.X, q.X) <= t.X && t.X <= max(p.X, q.X) && min(p.Y, q.Y) <= t.Y && t.Y <= max(p.Y, q.Y) {
				ok = false
			}
		}
		for _, f := range es {
			s, t := pts[f[0]], pts[f[1]]
			if sign(cross(p, q, s))*sign(cross(p, q, t)) < 0 && sign(cross(s, t, p))*sign(cross(s, t, q)) < 0 {
				ok = false
			}
		}
		if ok {
			es = append(es, e)
			adj[e[0]] = append(adj[e[0]], e[1])
			adj[e[1]] = append(adj[e[1]], e[0])
		}
	}
	for i := range adj {
		sort.Slice(adj[i], func(x, y int) bool {
			a, c := pts[adj[i][x]], pts[adj[i][y]]
			return math.Atan2(float64(a.Y-pts[i].Y), float64(a.X-pts[i].X)) < math.Atan2(float64(c.Y-pts[i].Y), float64(c.X-pts[i].X))
		})
	}
	// the face on the right of each directed edge
	face := map[[2]int]int{}
	var secs []int
	voidPct, sharePct := pick(d, 0, 15, 35), pick(d, 0, 20, 60)
	for _, e := range es {
		for _, st := range [][2]int{e, {e[1], e[0]}} {
			if _, ok := face[st]; ok {
				continue
			}
			area, cur := 0, st
			id := len(secs)
			s := -1
			for {
				face[cur] = id
				p, q := pts[cur[0]], pts[cur[1]]
				area += p.X*q.Y - q.X*p.Y
				// a neighbour's sector, perhaps
				if f, ok := face[[2]int{cur[1], cur[0]}]; ok && f != id && secs[f] >= 0 && s < 0 && d.P(sharePct) {
					s = secs[f]
				}
				ns := adj[cur[1]]
				k := 0
				for ns[k] != cur[0] {
					k++
				}
				cur = [2]int{cur[1], ns[(k+1)%len(ns)]}
				if cur == st {
					break
				}
			}
			switch {
			case area > 0 || d.P(voidPct):
				s = -1
			case s < 0:
				s = b.sector()
			}
			secs = append(secs, s)
		}
	}
	if len(m.Sectors) == 0 { // nothing but void: the first triangle is a room
		for i, e := range es {
			_ = i
			a, c := face[e], face[[2]int{e[1], e[0]}]
			area := func(f int) int {
				t := 0
				for k, v := range face {
					if v == f {
						t += pts[k[0]].X*pts[k[1]].Y - pts[k[1]].X*pts[k[0]].Y
					}
				}
				return t
			}
			if area(a) < 0 {
				secs[a] = b.sector()
			} else {
				secs[c] = b.sector()
			}
			break
		}
	}
	wallPct, innerPct := 0, 0
	if o.Walls {
		wallPct = pick(d, 10, 30, 50)
	}
	if o.SelfRef {
		innerPct = pick(d, 0, 0, 20, 60)
	}
	for _, e := range es {
		rs, ls := secs[face[e]], secs[face[[2]int{e[1], e[0]}]]
		v1, v2 := V{ox + pts[e[0]].X, oy + pts[e[0]].Y}, V{ox + pts[e[1]].X, oy + pts[e[1]].Y}
		switch {
		case rs < 0 && ls < 0:
		case rs >= 0 && ls >= 0 && d.P(wallPct):
			m.Lines[b.line(b.v(v1.X, v1.Y), b.v(v2.X, v2.Y), rs, ls, d.P(50))].Flags = mlImpassable
		case rs != ls || d.P(innerPct):
			b.line(b.v(v1.X, v1.Y), b.v(v2.X, v2.Y), rs, ls, d.P(50))
		}
	}
	b.sectorProps()
	b.finish(o)
	return m
}

func (b *mapBuilder) sectorProps() {
	d, m := b.d, b.m
	for i := range m.Sectors {
		s := &m.Sectors[i]
		if d.P(40) {
			s.Floor = int16(8 * d.Int(0, 10))
			s.Ceil = int16(int(s.Floor) + 8*d.Int(0, 20))
			s.Light = uint16(16 * d.Int(0, 15))
			if d.P(30) {
				s.FloorTex = "NUKAGE1"
			}
			s.Tag = uint16(d.Int(0, 5))
			s.Special = uint16(pick(d, 0, 0, 9, 1))
		}
	}
}

// island puts a convex polygon in the middle of a cell: a pillar (void), a
// sector of its own, a self-referencing sector, or a ring of the same sector.
func (b *mapBuilder) island(c0, c1, c2, c3 V, outer int, o MapOpts) {
	d := b.d
	cx := (c0.X + c1.X + c2.X + c3.X) / 4
	cy := (c0.Y + c1.Y + c2.Y + c3.Y) / 4
	// inscribed radius, conservatively
	r := 1e9
	cs := []V{c0, c1, c2, c3}
	for k := range cs {
		p, q := cs[k], cs[(k+1)%4]
		dx, dy := float64(q.X-p.X), float64(q.Y-p.Y)
		l := math.Hypot(dx, dy)
		if l == 0 {
			return
		}
		r = math.Min(r, math.Abs(dx*float64(cy-p.Y)-dy*float64(cx-p.X))/l)
	}
	// mid-edge displacement is at most 1/16+ of an edge, keep clear of it
	r *= 0.4
	if r < 3 {
		return
	}
	k := d.Int(3, pick(d, 4, 8, 12))
	ph := float64(d.Int(0, 59)) / 60 * 2 * math.Pi
	var pts []V
	for i := 0; i < k; i++ {
		a := ph + 2*math.Pi*float64(i)/float64(k)
		p := V{cx + int(math.Round(r*math.Cos(a))), cy + int(math.Round(r*math.Sin(a)))}
		if len(pts) > 0 && pts[len(pts)-1] == p {
			continue
		}
		pts = append(pts, p)
	}
	for len(pts) > 1 && pts[0] == pts[len(pts)-1] {
		pts = pts[:len(pts)-1]
	}
	if len(pts) < 3 || !strictlyConvex(pts) {
		return
	}
	kind := d.Pick(3)
	if o.SelfRef {
		kind = d.Pick(5)
	}
	in := -1
	selfIn := false
	switch kind {
	case 0: // pillar
	case 1, 2:
		in = b.sector()
	case 3: // ring of the same sector
		in = outer
	case 4: // self-referencing sector: both sides refer to a sector of its own
		in = b.sector()
		selfIn = true
	}
	// pts run counterclockwise: the left side of each edge faces inwards
	for i := range pts {
		p, q := pts[i], pts[(i+1)%len(pts)]
		rs, ls := outer, in
		if selfIn {
			rs = in
		}
		b.line(b.v(p.X, p.Y), b.v(q.X, q.Y), rs, ls, d.P(50))
	}
}

func strictlyConvex(pts []V) bool {
	n := len(pts)
	for i := 0; i < n; i++ {
		a, b, c := pts[i], pts[(i+1)%n], pts[(i+2)%n]
		if (b.X-a.X)*(c.Y-b.Y)-(b.Y-a.Y)*(c.X-b.X) <= 0 {
			return false
		}
	}
	return true
}

func (b *mapBuilder) finish(o MapOpts) {
	d, m := b.d, b.m
	// texture and flag variety
	for i := range m.Lines {
		l := &m.Lines[i]
		if l.Back >= 0 {
			switch d.Pick(6) {
			case 1:
				l.Flags |= mlImpassable
			case 2:
				m.Sides[l.Front].Mid = "MIDGRATE"
			case 3:
				m.Sides[l.Front].Up, m.Sides[l.Back].Lo = "STONE2", "STONE3"
			case 4:
				l.Flags |= uint16(pick(d, 2, 8, 16, 32, 64, 128, 256))
			case 5:
				m.Sides[l.Back].Mid = "MIDGRATE"
			}
		} else if d.P(10) {
			l.Flags |= uint16(pick(d, 2, 8, 16, 32, 64, 128, 256))
		}
		if d.P(15) {
			m.Sides[l.Front].XOff = int16(d.Near(300))
			m.Sides[l.Front].YOff = int16(d.Near(128))
		}
		if d.P(8) {
			if m.Hexen {
				l.Action = uint16(pick(d, 10, 11, 70, 80, 121))
				for k := range l.Args {
					l.Args[k] = uint8(d.Int(0, 255))
				}
			} else {
				l.Action = uint16(pick(d, 1, 11, 31, 97, 2000))
				l.Tag = uint16(d.Int(0, 20))
			}
		}
	}
	if o.ZeroLen && d.P(40) && len(m.Lines) > 0 {
		for k := d.Int(1, 3); k > 0; k-- {
			src := m.Lines[d.Pick(len(m.Lines))]
			v := m.Verts[src.V1]
			// a second vertex at the same place
			v2 := len(m.Verts)
			m.Verts = append(m.Verts, v)
			nl := src
			nl.V2 = v2
			nl.Front = b.side(m.Sides[src.Front].Sector)
			if src.Back >= 0 {
				nl.Back = b.side(m.Sides[src.Back].Sector)
			}
			m.Lines = append(m.Lines, nl)
		}
	}
	if o.Specials && !m.Hexen && d.P(60) {
		for i := range m.Lines {
			if !d.P(15) {
				continue
			}
			l := &m.Lines[i]
			switch d.Pick(10) {
			case 0:
				l.Tag = 999
			case 1:
				l.Tag = 998
			case 2:
				l.Tag = uint16(900 + d.Int(0, 90))
			case 3:
				l.Action = 1084
			case 4:
				l.Action = 1085
			case 5:
				l.Action = 1086
			case 6:
				l.Action, l.Tag = 1080, uint16(d.Int(0, 359))
			case 7:
				l.Action, l.Tag = 1081, uint16(d.Int(0, 359))
			case 8:
				l.Action, l.Tag = 1082, uint16(d.Int(0, 65535))
			case 9:
				l.Action, l.Tag = 1083, uint16(d.Int(0, 65535))
			}
		}
		if d.P(4) { // next to nothing is rendered
			keep := d.Int(0, 3)
			k0 := d.Pick(len(m.Lines))
			for i := range m.Lines {
				if (i-k0+len(m.Lines))%len(m.Lines) >= keep {
					m.Lines[i].Tag = 998
				} else {
					m.Lines[i].Action, m.Lines[i].Tag = uint16(pick(d, 0, 1084, 1085)), 0
				}
			}
		}
		for i := range m.Sides {
			if d.P(3) {
				m.Sides[i].Lo = "BSPNOSEG"
			}
		}
		for i := range m.Sectors {
			if d.P(6) {
				m.Sectors[i].Tag = uint16(900 + d.Int(0, 20))
			}
		}
	}
	// things
	for k := d.Int(0, 4); k >= 0; k-- {
		v := m.Verts[d.Pick(len(m.Verts))]
		m.Things = append(m.Things, Thing{X: int16(v.X + d.Near(40)), Y: int16(v.Y + d.Near(40)), Type: int16(pick(d, 1, 11, 2001, 9, 14)), Angle: int16(45 * d.Int(0, 7)), Flags: 7})
	}
	if o.Polyobj && m.Hexen && d.P(60) {
		// explicit polyobject lines, plus a spawn spot
		for k := d.Int(1, 3); k > 0; k-- {
			l := &m.Lines[d.Pick(len(m.Lines))]
			l.Action = uint16(pick(d, 1, 5))
			l.Args = [5]uint8{uint8(k), 1}
			x1, y1 := m.Verts[l.V1].X, m.Verts[l.V1].Y
			m.Things = append(m.Things, Thing{X: int16(x1 + d.Near(60)), Y: int16(y1 + d.Near(60)), Type: int16(pick(d, 3001, 3002, 9301, 9302)), Angle: int16(k), Flags: 7})
		}
	}
	// orders of vertices and lines carry no meaning: shuffle them
	if d.P(50) {
		m.shuffleVerts(d.sub(), d.P(40))
	}
	if d.P(50) {
		r := d.sub()
		for i := len(m.Lines) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			m.Lines[i], m.Lines[j] = m.Lines[j], m.Lines[i]
		}
	}
}

// shuffleVerts permutes vertices; with extra, leaves unreferenced vertices in.
func (m *Map) shuffleVerts(r *rng, extra bool) {
	vs := append([]V{}, m.Verts...)
	perm := make([]int, len(vs))
	for i := range perm {
		perm[i] = i
	}
	for i := len(perm) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	out := []V{}
	newIdx := make([]int, len(vs))
	for _, p := range perm {
		if extra && r.Intn(4) == 0 {
			out = append(out, V{r.Intn(65536) - 32768, r.Intn(65536) - 32768})
		}
		newIdx[p] = len(out)
		out = append(out, vs[p])
	}
	if extra {
		out = append(out, V{r.Intn(65536) - 32768, 17})
	}
	m.Verts = out
	for i := range m.Lines {
		m.Lines[i].V1 = newIdx[m.Lines[i].V1]
		m.Lines[i].V2 = newIdx[m.Lines[i].V2]
	}
}

// unusedVerts tells whether some vertex belongs to no line.
func (m *Map) unusedVerts() bool {
	used := make([]bool, len(m.Verts))
	for i := range m.Lines {
		used[m.Lines[i].V1], used[m.Lines[i].V2] = true, true
	}
	return slices.Contains(used, false)
}

// genSoup makes arbitrary line geometry (crossing, overlapping, anything): good
// enough for a blockmap, meaningless as rooms.
func genSoup(d *D, name string, maxLines int) *Map {
	b := &mapBuilder{m: &Map{Name: name}, d: d, vid: map[V]int{}}
	m := b.m
	m.Hexen = d.P(20)
	s := b.sector()
	span := pick(d, 300, 1000, 128, 4000, 2000, 8000)
	if d.P(6) {
		span = pick(d, 20000, 32767)
	} else if d.P(6) {
		span = 12000
	}
	cx, cy := 0, 0
	if span < 20000 {
		cx, cy = d.Near(2000), d.Near(2000)
		if d.P(20) {
			cx = pick(d, 32767-span, -32768+span)
			cy = pick(d, 32767-span, -32768+span)
		}
	}
	n := d.Int(1, maxLines)
	// coordinates that hug block boundaries are the interesting ones
	coord := func(c int) int {
		v := c + d.Near(span)
		switch d.Pick(5) {
		case 3:
			v = v &^ 127
		case 4:
			v = v&^127 + d.Near(1)
		}
		return max(-32768, min(32767, v))
	}
	bigN := n
	for i := 0; i < bigN; i++ {
		x1, y1 := coord(cx), coord(cy)
		x2, y2 := coord(cx), coord(cy)
		switch d.Pick(6) {
		case 1:
			x2 = x1
		case 2:
			y2 = y1
		case 3: // diagonal
			k := x2 - x1
			y2 = max(-32768, min(32767, y1+k))
			x2 = x1 + (y2 - y1)
		case 4: // short
			x2 = max(-32768, min(32767, x1+d.Near(40)))
			y2 = max(-32768, min(32767, y1+d.Near(40)))
		}
		v1, v2 := b.v(x1, y1), b.v(x2, y2)
		ls := -1
		if d.P(50) {
			ls = s
		}
		b.line(v1, v2, s, ls, false)
	}
	for i := range m.Lines {
		l := &m.Lines[i]
		if l.Back >= 0 && d.P(30) {
			l.Flags |= mlImpassable
		}
		if d.P(10) {
			l.Flags |= uint16(pick(d, 2, 64, 256))
		}
		if !m.Hexen && d.P(10) {
			l.Tag = uint16(pick(d, 999, 998, 1, 7, 900))
		}
		if d.P(10) {
			l.Action = uint16(pick(d, 1, 11, 5))
		}
	}
	m.Things = append(m.Things, Thing{Type: 1, Flags: 7})
	return m
}

func (m *Map) describe() string {
	two := 0
	for _, l := range m.Lines {
		if l.Back >= 0 {
			two++
		}
	}
	x0, y0, x1, y1 := m.bounds()
	f := "doom"
	if m.Hexen {
		f = "hexen"
	}
	return fmt.Sprintf("%s %s verts=%d lines=%d(two-sided %d) sides=%d sectors=%d bounds=(%d,%d)-(%d,%d)", m.Name, f, len(m.Verts), len(m.Lines), two, len(m.Sides), len(m.Sectors), x0, y0, x1, y1)
}

// genBundle: few places, many lines in each, so that the lists of many blocks
// are alike or subsets of each other, and line numbers exceed the number of
// blocks. With axis, only lines along the axes.
func genBundle(d *D, name string, axis bool) *Map {
	b := &mapBuilder{m: &Map{Name: name}, d: d, vid: map[V]int{}}
	m := b.m
	m.Hexen = d.P(15)
	s := b.sector()
	span := pick(d, 200, 400, 700, 1500)
	if d.P(2) {
		span = 26000
	}
	x0, y0 := d.Near(3000), d.Near(3000)
	if d.P(10) {
		x0, y0 = -32768+d.Int(0, 60), -32768+d.Int(0, 60)
	}
	groups := d.Int(1, 5)
	for g := 0; g < groups; g++ {
		n := d.Int(1, pick(d, 3, 12, 40))
		x1, y1 := x0+d.Int(0, span), y0+d.Int(0, span)
		x2, y2 := x0+d.Int(0, span), y0+d.Int(0, span)
		k := d.Pick(4)
		if k == 3 && !axis { // through the corners of blocks
			y2 = y1 + x2 - x1
		}
		if axis && k == 3 || k == 1 || axis && k == 0 {
			x2 = x1
		} else if k == 2 {
			y2 = y1
		}
		for i := 0; i < n; i++ {
			j := 0
			if d.P(30) {
				j = d.Near(pick(d, 3, 130))
			}
			a1, b1, a2, b2 := x1, y1, x2, y2
			if x1 == x2 {
				a1 += j
				a2 += j
			} else {
				b1 += j
				b2 += j
			}
			c := func(v int) int { return max(-32768, min(32767, v)) }
			v1, v2 := b.v(c(a1), c(b1)), b.v(c(a2), c(b2))
			ls := -1
			if d.P(50) {
				ls = s
			}
			b.line(v1, v2, s, ls, false)
		}
	}
	if !m.Hexen && d.P(30) {
		for i := range m.Lines {
			if d.P(10) {
				m.Lines[i].Tag = 999
			}
		}
	}
	m.Things = append(m.Things, Thing{Type: 1, Flags: 7})
	m.Things[0].X, m.Things[0].Y = int16(m.Verts[0].X), int16(m.Verts[0].Y)
	return m
}

// genDense: few blocks and more lines than words in the offset table, some of
// them crossing many blocks; the last block gets few lines or none, so that its
// list is often empty, or contained in others.
func genDense(d *D, name string) *Map {
	b := &mapBuilder{m: &Map{Name: name}, d: d, vid: map[V]int{}}
	m := b.m
	s := b.sector()
	w, h := d.Int(1, 5), d.Int(1, 4)
	x0, y0 := d.Near(2000), d.Near(2000)
	W, H := w*128-d.Int(1, 60), h*128-d.Int(1, 60)
	n := w*h + d.Int(1, 50)
	shared := d.Int(0, 4) // lines that may reach the last block
	lx, ly := (w-1)*128-40, (h-1)*128-40
	for i := 0; i < n; i++ {
		var x1, y1, x2, y2 int
		if i < 4 { // the bounds
			x1, y1, x2, y2 = 0, 0, max(0, lx-d.Int(0, 60)), 0
			switch i {
			case 1:
				x2, y2 = 0, max(0, ly-d.Int(0, 60))
			case 2:
				x1, x2, y2 = W, W, max(0, ly-d.Int(0, 30))
			case 3:
				y1, y2, x2 = H, H, max(0, lx-d.Int(0, 30))
			}
		} else {
			x1, y1, x2, y2 = d.Int(0, W), d.Int(0, H), d.Int(0, W), d.Int(0, H)
			switch d.Pick(4) {
			case 1:
				x2 = x1
			case 2:
				y2 = y1
			}
			if i >= 4+shared {
				c := func(x, y *int) {
					if *x > lx && *y > ly {
						if d.P(50) && lx > 0 {
							*x = d.Int(0, lx)
						} else {
							*y = d.Int(0, max(ly, 0))
						}
					}
				}
				c(&x1, &y1)
				c(&x2, &y2)
			}
		}
		ls := -1
		if d.P(50) {
			ls = s
		}
		b.line(b.v(x0+x1, y0+y1), b.v(x0+x2, y0+y2), s, ls, false)
	}
	perm := make([]int, len(m.Lines))
	for i := range perm {
		perm[i] = i
	}
	d.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	ls := make([]Line, len(perm))
	for i, p := range perm {
		ls[i] = m.Lines[p]
	}
	m.Lines = ls
	m.Things = append(m.Things, Thing{Type: 1, Flags: 7})
	m.Things[0].X, m.Things[0].Y = int16(m.Verts[0].X), int16(m.Verts[0].Y)
	return m
}

// genRooms: rooms in a grid with walls between them, narrow doorways, and
// pillars and screens inside, so that what can be seen depends on detail.
func genRooms(d *D, name string, selfref bool) *Map {
	b := &mapBuilder{m: &Map{Name: name}, d: d, vid: map[V]int{}}
	m := b.m
	m.Hexen = d.P(10)
	nc, nr := d.Int(2, pick(d, 3, 5, 6)), d.Int(1, pick(d, 3, 5, 6))
	cut := func(n int) []int {
		a := make([]int, n+1)
		for i := 1; i <= n; i++ {
			a[i] = a[i-1] + d.Int(64, pick(d, 100, 256, 500))
		}
		return a
	}
	xs, ys := cut(nc), cut(nr)
	ka, kb, q := 0, 0, 16
	if d.P(50) {
		ka, kb = d.Near(12), d.Near(12)
	}
	ox, oy := d.Near(3000), d.Near(3000)
	v := func(x, y int) int {
		return b.v(ox+x+y*ka/q, oy+y+x*kb/q/2)
	}
	sec := make([]int, nc*nr)
	merge := pick(d, 0, 0, 15)
	for i := range sec {
		sec[i] = -1
		if i > 0 && d.P(merge) {
			sec[i] = sec[i-1]
		}
		if sec[i] < 0 {
			sec[i] = b.sector()
		}
	}
	solid, open := pick(d, 0, 20, 45), pick(d, 0, 10, 40)
	// few loops: a tree of rooms and some more doors
	var door map[[2]int]bool
	if d.P(60) {
		door = map[[2]int]bool{}
		grp := make([]int, nc*nr)
		for i := range grp {
			grp[i] = i
		}
		var all [][2]int
		for i := range grp {
			if i%nc+1 < nc {
				all = append(all, [2]int{i, i + 1})
			}
			if i+nc < len(grp) {
				all = append(all, [2]int{i, i + nc})
			}
		}
		d.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		extra := d.Int(1, 3)
		for _, e := range all {
			a, z := grp[e[0]], grp[e[1]]
			if a == z {
				if extra == 0 {
					continue
				}
				extra--
			}
			for i := range grp {
				if grp[i] == a {
					grp[i] = z
				}
			}
			door[e] = true
		}
		solid, open = 0, min(open, 10)
	}
	line := d.P(40) // doors are in line
	dw := d.Int(8, 60)
	// edge from (x1,y1) to (x2,y2), r on its right
	edge := func(x1, y1, x2, y2, r, l, cr, cl int) {
		if r == l && !selfref {
			return
		}
		if r < 0 || l < 0 {
			b.line(v(x1, y1), v(x2, y2), r, l, false)
			return
		}
		L := max(abs(x2-x1), abs(y2-y1))
		at := func(t int) int { return v(x1+(x2-x1)*t/L, y1+(y2-y1)*t/L) }
		wall := func(s, t int) {
			if s < t {
				if i := b.line(at(s), at(t), r, l, d.P(50)); i >= 0 {
					m.Lines[i].Flags = mlImpassable
				}
			}
		}
		switch k := d.Int(0, 99); {
		case k < solid, door != nil && !door[[2]int{min(cr, cl), max(cr, cl)}]:
			wall(0, L)
		case k < solid+open:
			b.line(at(0), at(L), r, l, d.P(50))
		case line && k < 90:
			s := 8
			e := min(s+dw, L-8)
			wall(0, s)
			b.line(at(s), at(e), r, l, d.P(50))
			wall(e, L)
		default:
			t := 0
			for n := pick(d, 1, 1, 1, 2, 3); n > 0 && t+12 < L; n-- {
				s := d.Int(t, L-8)
				if d.P(10) {
					s = t
				}
				e := d.Int(s+8, min(L, s+pick(d, 12, 40, 100)))
				wall(t, s)
				b.line(at(s), at(e), r, l, d.P(50))
				t = e
			}
			wall(t, L)
		}
	}
	for j := 0; j <= nr; j++ {
		for i := 0; i <= nc; i++ {
			get := func(i, j int) int {
				if i < 0 || j < 0 || i >= nc || j >= nr {
					return -1
				}
				return sec[j*nc+i]
			}
			if i < nc { // bottom edge of cell (i,j), from left to right: right is below
				edge(xs[i], ys[j], xs[i+1], ys[j], get(i, j-1), get(i, j), (j-1)*nc+i, j*nc+i)
			}
			if j < nr { // left edge, upwards: right is the cell
				edge(xs[i], ys[j], xs[i], ys[j+1], get(i, j), get(i-1, j), j*nc+i, j*nc+i-1)
			}
			if i < nc && j < nr {
				w, h := xs[i+1]-xs[i], ys[j+1]-ys[j]
				s := get(i, j)
				switch d.Pick(4) {
				case 1: // pillar
					x1, y1 := xs[i]+d.Int(8, w-24), ys[j]+d.Int(8, h-24)
					x2, y2 := d.Int(x1+8, xs[i+1]-8), d.Int(y1+8, ys[j+1]-8)
					p := []V{{x1, y1}, {x2, y1}, {x2, y2}, {x1, y2}}
					if d.P(30) { // three corners
						p = append(p[:d.Int(0, 2)], p[3:]...)
						if len(p) < 3 {
							p = []V{{x1, y1}, {x2, y1}, {x2, y2}}
						}
					}
					for k := range p { // counterclockwise: right is outside
						n := p[(k+1)%len(p)]
						b.line(v(p[k].X, p[k].Y), v(n.X, n.Y), s, -1, false)
					}
				case 2: // screens
					for n := d.Int(1, 2); n > 0; n-- {
						x1, y1 := xs[i]+d.Int(8, w-8), ys[j]+d.Int(8, h-8)
						x2, y2 := xs[i]+d.Int(8, w-8), ys[j]+d.Int(8, h-8)
						if n == 2 {
							x1, x2 = xs[i]+d.Int(8, w/2-4), xs[i]+d.Int(8, w/2-4)
						} else {
							x1, x2 = xs[i]+d.Int(w/2+4, w-8), xs[i]+d.Int(w/2+4, w-8)
						}
						if x1 == x2 && y1 == y2 {
							continue
						}
						if i := b.line(v(x1, y1), v(x2, y2), s, s, false); i >= 0 {
							m.Lines[i].Flags = mlImpassable
						}
					}
				}
			}
		}
	}
	m.shuffleVerts(d.sub(), false)
	perm := make([]Line, len(m.Lines))
	idx := make([]int, len(m.Lines))
	for i := range idx {
		idx[i] = i
	}
	d.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	for i, p := range idx {
		perm[i] = m.Lines[p]
	}
	m.Lines = perm
	m.Things = append(m.Things, Thing{Type: 1, Flags: 7, X: int16(ox + xs[0] + 4), Y: int16(oy + ys[0] + 4)})
	return m
}
