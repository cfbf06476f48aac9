package main

import (
	"fmt"
	"sort"
)

// C25: which lines -br takes out of the blockmap and -ni= out of the nodes.

const (
	lnOne   = iota // one-sided
	lnDiff         // between two sectors
	lnPool         // perimeter of a self-referencing sector
	lnInner        // same sector on both sides, inside that sector or inside a pool
	lnFree         // the same, an open chain of lines that touches nothing else
	lnOpen         // open chain with another sector than the surrounding one
)

type cullMap struct {
	*Map
	class []int
	pools bool
}

// genCull: a grid of rectangular rooms; pools (self-referencing sectors),
// same-sector polygons and chains inside.
func genCull(d *D, name string) *cullMap {
	b := &mapBuilder{m: &Map{Name: name}, d: d, vid: map[V]int{}}
	m := b.m
	cm := &cullMap{Map: m}
	m.Hexen = d.P(12)
	nc, nr := d.Int(1, 4), d.Int(1, 3)
	cut := func(n int) []int {
		a := make([]int, n+1)
		for i := 1; i <= n; i++ {
			a[i] = a[i-1] + d.Int(100, 300)
		}
		return a
	}
	xs, ys := cut(nc), cut(nr)
	ox, oy := d.Near(3000), d.Near(3000)
	v := func(x, y int) int { return b.v(ox+x, oy+y) }
	add := func(a, z, r, l int, class int) int {
		i := b.line(a, z, r, l, d.P(40))
		if i < 0 {
			return i
		}
		cm.class = append(cm.class, class)
		return i
	}
	sec := make([]int, nc*nr)
	equal, pools := d.P(50), d.P(70)
	for i := range sec {
		switch {
		case i > 0 && d.P(12): // joined with some other room, next to this one or not
			sec[i] = sec[d.Pick(i)]
		default:
			sec[i] = b.sector()
			s := &m.Sectors[sec[i]]
			if !equal {
				s.Floor = int16(8 * d.Int(0, 2))
				s.Ceil = int16(128 + 8*d.Int(0, 1))
			}
			if d.P(10) {
				s.Tag = uint16(d.Int(1, 3))
			}
			if d.P(12) {
				s.Special = uint16(pick(d, 10, 14, 9, 1))
			}
		}
	}
	get := func(i, j int) int {
		if i < 0 || j < 0 || i >= nc || j >= nr {
			return -1
		}
		return sec[j*nc+i]
	}
	edge := func(x1, y1, x2, y2, r, l int) {
		c := lnOne
		if r >= 0 && l >= 0 {
			c = lnDiff
			if r == l {
				c = lnInner
				if d.P(50) {
					return
				}
			} else if d.P(15) { // a wall with two sides but without the flag
				i := add(v(x1, y1), v(x2, y2), r, l, lnOne)
				m.Lines[i].Flags = mlImpassable
				return
			}
		}
		add(v(x1, y1), v(x2, y2), r, l, c)
	}
	for j := 0; j <= nr; j++ {
		for i := 0; i <= nc; i++ {
			if i < nc {
				edge(xs[i], ys[j], xs[i+1], ys[j], get(i, j-1), get(i, j))
			}
			if j < nr {
				edge(xs[i], ys[j], xs[i], ys[j+1], get(i, j), get(i-1, j))
			}
		}
	}
	for j := 0; j < nr; j++ {
		for i := 0; i < nc; i++ {
			for q := 0; q < 4; q++ {
				k := d.Pick(10)
				if !pools && k > 3 && k < 7 {
					k += 3
				}
				if k < 4 {
					continue
				}
				// a quarter of the room
				w, h := (xs[i+1]-xs[i])/2, (ys[j+1]-ys[j])/2
				x0, y0 := xs[i]+q%2*w+6, ys[j]+q/2*h+6
				w, h = w-12, h-12
				own := get(i, j)
				// convex polygon in it
				ps := []V{{x0 + d.Int(0, w/3), y0 + d.Int(0, h/3)}, {x0 + w - d.Int(0, w/3), y0 + d.Int(0, h/3)},
					{x0 + w - d.Int(0, w/3), y0 + h - d.Int(0, h/3)}, {x0 + d.Int(0, w/3), y0 + h - d.Int(0, h/3)}}
				free := lnFree
				if d.P(25) { // touches a corner of the room
					ps[[4]int{0, 1, 3, 2}[q]] = V{xs[i+q%2], ys[j+q/2]}
					free = lnInner
				}
				if d.P(30) {
					o := d.Pick(4)
					ps = append(ps[:o:o], ps[o+1:]...)
				}
				if d.P(50) {
					for a, z := 0, len(ps)-1; a < z; a, z = a+1, z-1 {
						ps[a], ps[z] = ps[z], ps[a]
					}
				}
				other := -1
				for t := 0; t < 4; t++ {
					if s := sec[d.Pick(len(sec))]; s != own {
						other = s
					}
				}
				switch {
				case k == 4 || k == 5 && other < 0: // a sector of its own
					other = b.sector()
					fallthrough
				case k == 5 || k == 6 && other >= 0: // joined with another room
					cm.pools = true
					part := [4]int{other, other, other, other}
					if len(ps) == 4 && d.P(20) { // two sectors, side by side
						two := b.sector()
						part[2], part[3] = two, two
						r, l := other, two
						// ps[1] on the left of ps[0]-ps[2]?
						if (ps[2].X-ps[0].X)*(ps[1].Y-ps[0].Y)-(ps[2].Y-ps[0].Y)*(ps[1].X-ps[0].X) > 0 {
							r, l = l, r
						}
						add(v(ps[0].X, ps[0].Y), v(ps[2].X, ps[2].Y), r, l, lnDiff)
					}
					for p := range ps {
						n := ps[(p+1)%len(ps)]
						add(v(ps[p].X, ps[p].Y), v(n.X, n.Y), part[p], part[p], lnPool)
					}
					cx, cy := 0, 0
					for _, p := range ps {
						cx, cy = cx+p.X, cy+p.Y
					}
					e := V{cx / len(ps), cy / len(ps)}
					switch {
					case part[0] != part[2]:
					case d.P(40): // a line across or ending inside
						if d.P(50) && len(ps) == 4 {
							e = ps[2]
						}
						add(v(ps[0].X, ps[0].Y), v(e.X, e.Y), other, other, lnInner)
					case d.P(30): // one inside the other
						in := b.sector()
						if d.P(30) && own != other {
							in = own
						}
						var qs []V
						for _, p := range ps {
							qs = append(qs, V{(p.X + e.X) / 2, (p.Y + e.Y) / 2})
						}
						for p := range qs {
							n := qs[(p+1)%len(qs)]
							add(v(qs[p].X, qs[p].Y), v(n.X, n.Y), in, in, lnPool)
						}
					}
				case k == 7: // decoration
					for p := range ps {
						n := ps[(p+1)%len(ps)]
						add(v(ps[p].X, ps[p].Y), v(n.X, n.Y), own, own, lnInner)
					}
				default: // open chain
					s, c := own, free
					if k == 9 && pools && other >= 0 && d.P(50) {
						s, c = other, lnOpen
					}
					for p := 0; p < d.Int(1, len(ps)-1); p++ {
						add(v(ps[p].X, ps[p].Y), v(ps[p+1].X, ps[p+1].Y), s, s, c)
					}
				}
			}
		}
	}
	special := pick(d, 0, 0, 0, 7, 8, 9, 100, 127, 106, 107, 256, 257, 258, 259, 146, 155, 191, 0x3000, 0x33FF, 0x3123, 0x2FFF, 0x3400, 126, 255, 260)
	busy := pick(d, 0, 5, 15)
	for i := range m.Lines {
		l := &m.Lines[i]
		if d.P(busy) {
			l.Flags |= pick(d, uint16(1), 2, 64, 32, 0x1000, 0x2000)
		}
		if d.P(busy) {
			l.Action = uint16(pick(d, 1, 97, 11, 260))
			if m.Hexen {
				l.Action = uint16(pick(d, 10, 70, 80))
			}
		}
		if d.P(busy) && l.Back >= 0 {
			s := &m.Sides[pick(d, l.Front, l.Back)]
			*pick(d, &s.Mid, &s.Up, &s.Lo) = "MIDGRATE"
		}
		if d.P(busy) && !m.Hexen {
			l.Tag = uint16(pick(d, 1, 899, 900, 950, 999, 997, 1001))
		}
	}
	if special != 0 && !m.Hexen {
		m.Lines[d.Pick(len(m.Lines))].Action = uint16(special)
	}
	if d.P(50) { // another order of lines
		ord := make([]int, len(m.Lines))
		for i := range ord {
			ord[i] = i
		}
		d.Shuffle(len(ord), func(i, j int) { ord[i], ord[j] = ord[j], ord[i] })
		ls, cs := make([]Line, len(ord)), make([]int, len(ord))
		for i, o := range ord {
			ls[i], cs[i] = m.Lines[o], cm.class[o]
		}
		m.Lines, cm.class = ls, cs
	}
	m.Things = append(m.Things, Thing{Type: 1, Flags: 7})
	m.Things[0].X, m.Things[0].Y = int16(ox+xs[1]/2), int16(oy+ys[1]/2)
	return cm
}

func (m *Map) multiSector() bool {
	for i := range m.Lines {
		switch a := int(m.Lines[i].Action); {
		case a == 7 || a == 8 || a == 9 || a == 100 || a == 127, a == 106 || a == 107, a >= 256 && a <= 259,
			a == 146 || a == 155 || a == 191, a >= 0x3000 && a <= 0x33FF:
			return true
		}
	}
	return false
}

// passable: nothing about the line itself could collide.
func (m *Map) passable(i int) bool {
	l := &m.Lines[i]
	return l.Back >= 0 && l.Flags&mlTwoSided != 0 && l.Flags&(1|2|0x1000|0x2000) == 0 && l.Action == 0
}

// sameHeight: neither heights nor anything that might change them tell the two
// sides apart.
func (m *Map) sameHeight(i int) bool {
	f, b := &m.Sectors[m.front(i)], &m.Sectors[m.back(i)]
	return f.Floor == b.Floor && f.Ceil == b.Ceil && f.Tag == 0 && b.Tag == 0 &&
		f.Special != 10 && f.Special != 14 && b.Special != 10 && b.Special != 14
}

// invisible: two-sided, one sector, no textures, not precious.
func (m *Map) invisible(i int) bool {
	l := &m.Lines[i]
	if l.Back < 0 || l.Flags&mlTwoSided == 0 || m.front(i) != m.back(i) {
		return false
	}
	if !m.Hexen && l.Tag >= 900 && l.Tag != 998 && l.Tag != 999 {
		return false
	}
	for _, s := range []int{l.Front, l.Back} {
		x := &m.Sides[s]
		if x.Up != "-" || x.Mid != "-" || x.Lo != "-" {
			return false
		}
	}
	return true
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = reg(&Prop{
	ID: "C25", Title: "Culling takes out only lines that do not matter",
	Rule:  "a case counts when at least one line was taken out of the blockmap or the nodes; distinct by options, numbers of lines of each class and numbers taken out",
	Quick: 4000, Thorough: 80000,
	Run: func(c *C) {
		d := c.D
		cm := genCull(d, "MAP01")
		m := cm.Map
		base := []string{"-d", "-bo=0", "-bz=0"}
		no := genNodeOpts(d, 3)
		no.NoReject, no.NoBlock = false, false
		base = append(base, no.args()...)
		in := c.Write("in.wad", (&Wad{Lumps: m.Lumps()}).Bytes(nil))
		run := func(extra ...string) *built {
			out := c.Path("out.wad")
			args := append(append(append([]string{}, base...), extra...), in, "-o", out)
			return c.load(m, out, c.must(args...))
		}
		ref := run()
		count := map[int]int{}
		for _, k := range cm.class {
			count[k]++
		}

		// blockmap
		cull := run("-br")
		for _, n := range []string{"NODES", "SEGS", "SSECTORS", "REJECT", "LINEDEFS"} {
			if string(cull.Lv.L[n]) != string(ref.Lv.L[n]) {
				c.Failf("effect: -br changes %s", n)
			}
		}
		bm0, err := decodeBlockmap(ref.Lv.L["BLOCKMAP"])
		if err != nil {
			c.Failf("blockmap: %v", err)
		}
		bm1, err := decodeBlockmap(cull.Lv.L["BLOCKMAP"])
		if err != nil {
			c.Failf("blockmap with -br: %v", err)
		}
		blocks := func(bm *BMap) [][]int {
			r := make([][]int, len(m.Lines))
			for q, list := range bm.Lists {
				bx, by := bm.X+q%bm.W*128, bm.Y+q/bm.W*128
				for _, l := range list {
					if l >= len(m.Lines) {
						c.Failf("blockmap: line %d listed of %d", l, len(m.Lines))
					}
					r[l] = append(r[l], bx, by)
				}
			}
			return r
		}
		b0, b1 := blocks(bm0), blocks(bm1)
		multi := m.Hexen || m.multiSector()
		sameSector := map[int]bool{} // sectors with lines that have it on both sides
		for i := range m.Lines {
			if l := &m.Lines[i]; l.Back >= 0 && m.front(i) == m.back(i) {
				sameSector[m.front(i)] = true
			}
		}
		removed := 0
		for i := range m.Lines {
			l := &m.Lines[i]
			if !m.Hexen && l.Tag == 999 {
				if len(b0[i])+len(b1[i]) > 0 {
					c.Failf("blockmap: linedef %d with tag 999 is in the blockmap", i)
				}
				continue
			}
			what := fmt.Sprintf("linedef %d (class %d, action %d, flags %#x)", i, cm.class[i], l.Action, l.Flags)
			same := l.Back >= 0 && m.front(i) == m.back(i)
			may := m.passable(i) && (same && cm.class[i] != lnPool || !same && !multi && m.sameHeight(i))
			must := m.passable(i) && (cm.class[i] == lnFree || !same && !multi && m.sameHeight(i) && !sameSector[m.front(i)] && !sameSector[m.back(i)])
			if len(b0[i]) == 0 {
				c.Failf("blockmap: %s is missing without -br", what)
			}
			gone := len(b1[i]) == 0
			if gone {
				removed++
				if !may {
					c.Failf("removed: -br removed %s, which is not one to be removed", what)
				}
			} else {
				if must {
					c.Failf("kept: -br kept %s", what)
				}
				a, z := append([]int{}, b0[i]...), append([]int{}, b1[i]...)
				if bm0.X == bm1.X && bm0.Y == bm1.Y && !sameInts(a, z) {
					c.Failf("blocks: %s is in other blocks with -br", what)
				}
			}
		}

		// nodes
		mode := pick(d, 1, 2, 2)
		nod := run(fmt.Sprintf("-ni=%d", mode))
		for _, n := range []string{"REJECT", "BLOCKMAP", "LINEDEFS"} {
			if string(nod.Lv.L[n]) != string(ref.Lv.L[n]) {
				c.Failf("effect: -ni=%d changes %s", mode, n)
			}
		}
		want := rendered(m)
		bsp := nod.decode(c)
		if bsp.Fmt == "empty" {
			c.Failf("nodes: empty")
		}
		has := map[lineSide]bool{}
		for j := range bsp.Segs {
			has[lineSide{bsp.Segs[j].Line, bsp.Segs[j].Flip}] = true
		}
		culled := 0
		// outlines of what -ni=1 looks at
		type box struct{ x0, y0, x1, y1 int }
		boxes := func(in func(i int) bool) map[int]*box {
			r := map[int]*box{}
			for i := range m.Lines {
				if !in(i) {
					continue
				}
				x1, y1, x2, y2 := m.xy(i)
				for _, s := range []int{m.front(i), m.back(i)} {
					if s < 0 {
						continue
					}
					if r[s] == nil {
						r[s] = &box{1 << 30, 1 << 30, -1 << 30, -1 << 30}
					}
					b := r[s]
					b.x0, b.x1 = min(b.x0, x1, x2), max(b.x1, x1, x2)
					b.y0, b.y1 = min(b.y0, y1, y2), max(b.y1, y1, y2)
				}
			}
			return r
		}
		inv := boxes(func(i int) bool { return m.invisible(i) })
		vis := boxes(func(i int) bool { return m.front(i) != m.back(i) })
		// sectors that are other than rooms somewhere
		for i := range m.Lines {
			if !want[lineSide{i, 0}] {
				continue
			}
			what := fmt.Sprintf("linedef %d (class %d)", i, cm.class[i])
			gone := !has[lineSide{i, 0}]
			if m.Lines[i].Back >= 0 && want[lineSide{i, 1}] && gone == has[lineSide{i, 1}] {
				c.Failf("culled: only one side of %s has segs with -ni=%d", what, mode)
			}
			if !gone {
				if mode == 2 && cm.class[i] == lnFree && m.invisible(i) {
					c.Failf("kept: -ni=2 did not cull %s", what)
				}
				continue
			}
			culled++
			delete(want, lineSide{i, 0})
			delete(want, lineSide{i, 1})
			if !m.invisible(i) {
				c.Failf("culled: %s is not invisible, -ni=%d left it out", what, mode)
			}
			if cm.class[i] == lnPool {
				if mode == 2 {
					c.Failf("culled: -ni=2 left out %s, which makes a self-referencing sector", what)
				}
				s := m.front(i)
				v, n := vis[s], inv[s]
				if v == nil || n.x0 < v.x0 || n.y0 < v.y0 || n.x1 > v.x1 || n.y1 > v.y1 {
					c.Failf("culled: -ni=1 left out %s, which makes a self-referencing sector and is not within the box of other lines of its sector", what)
				}
			}
		}
		if err := bsp.checkStructure(nod.Out); err != nil {
			c.Failf("structure: %v", err)
		}
		if _, err := bsp.checkCoverage(nod.Out, want); err != nil {
			c.Failf("coverage: %v", err)
		}
		// without self-referencing sectors the tree still tells where one is
		if !cm.pools && count[lnOpen] == 0 {
			r := d.sub()
			x0, y0, x1, y1 := m.bounds()
			for k := 0; k < 60; k++ {
				x, y := float64(x0)+r.F()*float64(x1-x0), float64(y0)+r.F()*float64(y1-y0)
				s, ok := m.pointSector(x, y)
				if !ok || s < 0 {
					continue
				}
				// as in C09: leaves with hardly any segs are slivers along partition lines
				ss, margin := bsp.locate(x, y)
				if margin < 4 || bsp.leafLen(ss) < 16 {
					continue
				}
				if got := m.segSector(&bsp.Segs[bsp.First[ss]]); got != s {
					c.Failf("point: (%.1f,%.1f) is in sector %d, the tree with -ni=%d leads to sector %d", x, y, s, mode, got)
				}
			}
			c.Label("points located")
		}
		if removed > 0 {
			c.Label("-br removed lines")
		}
		if culled > 0 {
			c.Labelf("-ni=%d culled lines", mode)
		}
		if culled+removed > 0 {
			var ks []string
			for k, n := range count {
				ks = append(ks, fmt.Sprint(k, ":", n))
			}
			sort.Strings(ks)
			c.NonTrivial(fmt.Sprint(base, mode, ks, removed, culled))
			c.Sample("%s | %v | lines by class %v, -br removed %d, -ni=%d left out %d", m.describe(), base, ks, removed, mode, culled)
		}
	},
})
