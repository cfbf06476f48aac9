package main

import (
	"fmt"
	"math"
)

// C26: what is protected from splits. Sides of lines tagged >= 900 (Doom) and
// those facing a sector with a polyobject (Hexen) are split only where every
// other partition is worse in the same respect; sectors tagged >= 900 share a
// subsector when they are convex together.

// piece: the part of one side of a line that is below a node.
type piece struct {
	ls     lineSide
	x1, y1 float64
	x2, y2 float64
}

func (b *BSP) pieces(m *Map, leaf bool, c int) (o []piece, at map[lineSide]int) {
	at = map[lineSide]int{}
	b.below(leaf, c, func(j int) {
		s := &b.Segs[j]
		ls := lineSide{s.Line, s.Flip}
		p := piece{ls, b.X[s.V1], b.Y[s.V1], b.X[s.V2], b.Y[s.V2]}
		k, ok := at[ls]
		if !ok {
			at[ls] = len(o)
			o = append(o, p)
			return
		}
		// in the direction of the side
		x1, y1, x2, y2 := m.xy(s.Line)
		dx, dy := float64(x2-x1), float64(y2-y1)
		if s.Flip == 1 {
			dx, dy = -dx, -dy
		}
		q := &o[k]
		if p.x1*dx+p.y1*dy < q.x1*dx+q.y1*dy {
			q.x1, q.y1 = p.x1, p.y1
		}
		if p.x2*dx+p.y2*dy > q.x2*dx+q.y2*dy {
			q.x2, q.y2 = p.x2, p.y2
		}
	})
	return
}

func (p *piece) len() float64 { return math.Hypot(p.x2-p.x1, p.y2-p.y1) }

// dist: signed distances of the ends of q from the line of p, > 0 on the left.
func (p *piece) dist(q *piece) (float64, float64) {
	dx, dy, l := p.x2-p.x1, p.y2-p.y1, p.len()
	return (dx*(q.y1-p.y1) - dy*(q.x1-p.x1)) / l, (dx*(q.y2-p.y1) - dy*(q.x2-p.x1)) / l
}

// protected: sides that are not to be split; nil when that is not certain.
func protected(m *Map) map[lineSide]bool {
	o := map[lineSide]bool{}
	want := rendered(m)
	if !m.Hexen {
		for i := range m.Lines {
			if t := m.Lines[i].Tag; t >= 900 && t != 998 && t != 999 {
				for f := 0; f < 2; f++ {
					if want[lineSide{i, f}] {
						o[lineSide{i, f}] = true
					}
				}
			}
		}
		return o
	}
	po := map[int]bool{}
	zdoom, any := false, false
	for _, t := range m.Things {
		zdoom = zdoom || t.Type == 9301 || t.Type == 9302
	}
	for i := range m.Lines {
		any = any || m.Lines[i].Action == 1 || m.Lines[i].Action == 5
	}
	if !any {
		return nil
	}
	for _, t := range m.Things {
		if zdoom && t.Type != 9301 && t.Type != 9302 || !zdoom && t.Type != 3001 && t.Type != 3002 {
			continue
		}
		s, ok := m.pointSector(float64(t.X), float64(t.Y))
		if !ok || s < 0 {
			return nil
		}
		po[s] = true
	}
	for ls := range want {
		if s := m.sectorOf(m.sideOf(ls.line, ls.flip)); po[s] {
			o[ls] = true
		}
	}
	return o
}

// near: the distance of a point from the nearest line.
func (m *Map) near(x, y float64) float64 {
	r := math.Inf(1)
	for i := range m.Lines {
		r = min(r, m.lineDist(i, x, y))
	}
	return r
}

// betterRoot: a piece along which the pieces could be divided without splitting
// a protected one or passing through its end; everything about it is clear of
// rounding. -1 if there is none.
func betterRoot(ps []piece, prot map[lineSide]bool) int {
next:
	for k := range ps {
		p := &ps[k]
		if p.len() < 16 {
			continue
		}
		var left, right, splits int
		for j := range ps {
			if j == k {
				continue
			}
			q := &ps[j]
			a, b := p.dist(q)
			zero := func(d float64) bool { return math.Abs(d) < 1e-6 }
			if !zero(a) && math.Abs(a) < 4 || !zero(b) && math.Abs(b) < 4 {
				continue next
			}
			switch {
			case zero(a) && zero(b):
			case zero(a) || zero(b):
				if prot[q.ls] {
					continue next
				}
				if a+b > 0 {
					left++
				} else {
					right++
				}
			case a > 0 && b > 0:
				left++
			case a < 0 && b < 0:
				right++
			default:
				if t := q.len() * math.Abs(a) / (math.Abs(a) + math.Abs(b)); prot[q.ls] || t < 4 || q.len()-t < 4 {
					continue next
				}
				splits++
			}
		}
		if left > 0 && right > 0 && splits < 12 {
			return k
		}
	}
	return -1
}

var _ = reg(&Prop{
	ID: "C26", Title: "Protected lines and sectors are split only when they must be",
	Rule:  "a case counts when, at some node, protected lines were below it and some partition would have split one of them, or when sectors tagged 900 and above ended up in one subsector; distinct by map and options",
	Quick: 12000, Thorough: 150000,
	Run: func(c *C) {
		d := c.D
		a := pick(d, -1, 0, 1, 2, 3, 4)
		no := nodeOpts{A: a, P: -1, C: pick(d, "x", "x", "z"), Extra: []string{"-d", "-r-", "-b-"}}
		if (a == 2 || a == 4) && d.P(70) {
			no.P = d.Int(0, 2)
		}
		if d.P(20) {
			no.Extra = append(no.Extra, pick(d, "--stknode=1", "--sidecache=2", "-nt=1", "--speedtree=1"))
		}
		if d.P(25) {
			runCoalesce(c, no)
			return
		}
		o := MapOpts{Tri: 30, MaxCols: pick(d, 2, 3, 4), MaxRows: pick(d, 2, 3, 4), Islands: true, Walls: d.P(30), NoFar: true, Hexen: 40}
		m := genMap(d, "MAP01", o)
		if len(m.Lines) > 90 {
			c.Discard()
		}
		m.Things = nil
		if m.Hexen {
			x1, y1, x2, y2 := m.bounds()
			zdoom := d.P(40)
			if d.P(92) {
				m.Lines[d.Pick(len(m.Lines))].Action = uint16(pick(d, 1, 5))
			}
			for k := d.Int(1, 3); k > 0; k-- {
				for try := 0; try < 8; try++ {
					x, y := d.Int(x1, x2), d.Int(y1, y2)
					if s, ok := m.pointSector(float64(x), float64(y)); ok && s >= 0 && m.near(float64(x), float64(y)) > 24 {
						m.Things = append(m.Things, Thing{X: int16(x), Y: int16(y), Type: int16(pick(d, 3001, 3002, 3001, 3002, 14)), Angle: int16(k), Flags: 7})
						if t := &m.Things[len(m.Things)-1]; zdoom && t.Type != 14 && d.P(80) {
							t.Type += 6300
						}
						break
					}
				}
			}
		} else {
			for k := d.Int(1, 6); k > 0; k-- {
				l := &m.Lines[d.Pick(len(m.Lines))]
				l.Tag, l.Action = uint16(pick(d, 900, 901, 997, 1000, 5000, 65535)), 0
			}
		}
		prot := protected(m)
		if len(prot) == 0 {
			c.Discard()
		}
		in := c.Write("in.wad", (&Wad{Lumps: m.Lumps()}).Bytes(nil))
		build := func(mt int) (*BSP, *Map, []string) {
			n := no
			n.M = mt
			out := c.Path("out.wad")
			r := c.must(append(n.args(), in, "-o", out)...)
			b := c.load(m, out, r)
			bsp := b.decode(c)
			if bsp.Fmt == "empty" || len(bsp.Nodes) == 0 {
				c.Discard()
			}
			return bsp, b.Out, n.args()
		}
		b, om, args := build(0)
		bad, forced := 0, 0
		risk := false
		for i := range b.Nodes {
			n := &b.Nodes[i]
			lp, l := b.pieces(om, n.Leaf[0], n.Child[0])
			rp, r := b.pieces(om, n.Leaf[1], n.Child[1])
			var split *lineSide
			for ls := range l {
				// that short ends are cut off is not noticed before
				if k, both := r[ls]; both && prot[ls] && lp[l[ls]].len() > 4 && rp[k].len() > 4 && (split == nil || ls.line < split.line) {
					ls := ls
					split = &ls
				}
			}
			all, _ := b.pieces(om, false, i)
			if split == nil {
				if !risk {
					for k := range all {
						for j := range all {
							if prot[all[j].ls] && all[k].len() > 1 {
								if x, y := all[k].dist(&all[j]); x > 4 && y < -4 || x < -4 && y > 4 {
									risk = true
								}
							}
						}
					}
				}
				continue
			}
			bad++
			if k := betterRoot(all, prot); k >= 0 {
				c.Failf("split: %v: node %d splits protected linedef %d (side %d), a partition along linedef %d would not", args, i, split.line, split.flip, all[k].ls.line)
			}
			forced++
		}
		if forced > 0 {
			c.Label("split without alternative")
		}
		if m.Hexen {
			c.Label("polyobjects")
		} else {
			c.Label("tagged lines")
		}
		if d.P(25) {
			cnt := func(b *BSP) (n int) {
				seen := map[lineSide]bool{}
				for j := range b.Segs {
					ls := lineSide{b.Segs[j].Line, b.Segs[j].Flip}
					if prot[ls] && seen[ls] {
						n++
					}
					seen[ls] = true
				}
				return
			}
			b3, _, args3 := build(3)
			s0, s3 := cnt(b), cnt(b3)
			s1 := -1
			if s3 > 0 && s0 > 0 {
				b1, _, _ := build(d.Int(1, 2))
				s1 = cnt(b1)
			}
			if s3 > 0 && (s0 == 0 || s1 == 0) {
				c.Failf("tree: %v splits protected lines (%d times), although another tree does not", args3, s3)
			}
			c.Label("multi-tree")
			if s3 == 0 && s0 > 0 {
				c.Label("multi-tree avoided splits")
			}
		}
		if risk || bad > 0 {
			c.NonTrivial(fmt.Sprint(m.describe(), args, len(b.Segs), bad))
			c.Sample("%s | %v | %d protected sides, %d split, %d nodes", m.describe(), args, len(prot), bad, len(b.Nodes))
		}
	},
})

// runCoalesce: rooms the walls of which belong to different sectors.
func runCoalesce(c *C, no nodeOpts) {
	d := c.D
	m := genMap(d, "MAP01", MapOpts{Tri: 30, MaxCols: pick(d, 1, 2, 3), MaxRows: pick(d, 1, 2, 3), Islands: d.P(40), NoFar: true, Hexen: 20})
	m.Things = nil
	n0 := len(m.Sectors)
	room := map[int]bool{}
	for s := 0; s < n0; s++ {
		if d.P(60) {
			room[s] = true
			m.Sectors[s].Tag = uint16(d.Int(900, 1200))
		} else if m.Sectors[s].Tag >= 900 {
			m.Sectors[s].Tag = 0
		}
	}
	for i := range m.Lines {
		l := &m.Lines[i]
		if l.Back >= 0 || l.Front < 0 || !d.P(50) {
			continue
		}
		s := m.Sides[l.Front].Sector
		sec := m.Sectors[s]
		if d.P(20) {
			sec.Floor += 8
		}
		m.Sides = append(m.Sides, m.Sides[l.Front])
		l.Front = len(m.Sides) - 1
		if extra := len(m.Sectors) - n0; extra > 0 && d.P(50) {
			if q := n0 + d.Pick(extra); (m.Sectors[q].Tag >= 900) == room[s] {
				m.Sides[l.Front].Sector = q
				continue
			}
		}
		m.Sides[l.Front].Sector = len(m.Sectors)
		m.Sectors = append(m.Sectors, sec)
	}
	in := c.Write("in.wad", (&Wad{Lumps: m.Lumps()}).Bytes(nil))
	no.M = pick(d, 0, 0, 0, 1, 2, 3)
	out := c.Path("out.wad")
	r := c.must(append(no.args(), in, "-o", out)...)
	bl := c.load(m, out, r)
	b := bl.decode(c)
	if b.Fmt == "empty" {
		c.Discard()
	}
	om := bl.Out
	tag := func(ls lineSide) bool { return om.Sectors[om.sectorOf(om.sideOf(ls.line, ls.flip))].Tag >= 900 }
	// there is always a root, even of a single room
	for i := range b.Nodes[:max(0, len(b.Nodes)-1)] {
		all, _ := b.pieces(om, false, i)
		ok := true
		for k := range all {
			ok = ok && tag(all[k].ls)
		}
		if !ok {
			continue
		}
	convex:
		for k := range all {
			for j := range all {
				p, q := &all[k], &all[j]
				x, y := p.dist(q)
				// what is collinear but for the rounding of split vertices is
				// left open
				whole := func(v ...float64) bool {
					for _, f := range v {
						if f != math.Floor(f) {
							return false
						}
					}
					return true
				}
				round := func(d, x, y float64) bool {
					return d > -0.01 && !(x == p.x1 && y == p.y1) && !(x == p.x2 && y == p.y2) && !whole(x, y, p.x1, p.y1, p.x2, p.y2)
				}
				if x > 1e-9 || y > 1e-9 || round(x, q.x1, q.y1) || round(y, q.x2, q.y2) {
					ok = false
					break convex
				}
			}
		}
		if ok {
			c.Failf("coalesce: %v: node %d divides %d sides of sectors tagged 900 and above that are convex together", no.args(), i, len(all))
		}
	}
	mixed := 0
	for s := range b.First {
		secs, tagged := map[int]bool{}, false
		for j := b.First[s]; j < b.First[s]+b.Count[s]; j++ {
			ls := lineSide{b.Segs[j].Line, b.Segs[j].Flip}
			secs[om.segSector(&b.Segs[j])] = true
			tagged = tagged || tag(ls)
		}
		if len(secs) > 1 {
			if !tagged {
				c.Failf("mixed: %v: subsector %d has segs of %d sectors, none of which is tagged 900 and above", no.args(), s, len(secs))
			}
			mixed++
		}
	}
	c.Label("sectors to join")
	if mixed > 0 {
		c.Label("joined sectors")
		c.NonTrivial(fmt.Sprint(m.describe(), no.args(), mixed, len(b.Segs)))
		c.Sample("%s | %v | %d subsectors of several sectors", m.describe(), no.args(), mixed)
	}
}
