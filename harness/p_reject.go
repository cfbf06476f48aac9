package main

import (
	"fmt"
)

// C13, C14, C24: REJECT.

type rejectLump struct {
	n int
	b []byte
}

func (r rejectLump) hidden(a, b int) bool { k := a*r.n + b; return r.b[k>>3]>>(k&7)&1 == 1 }

func (c *C) getReject(b *built) rejectLump {
	n := len(b.In.Sectors)
	r := b.Lv.L["REJECT"]
	if len(r) != (n*n+7)/8 {
		c.Failf("size: REJECT is %d bytes, %d sectors need %d", len(r), n, (n*n+7)/8)
	}
	return rejectLump{n, r}
}

func (r rejectLump) count() (hidden int) {
	for i := 0; i < r.n; i++ {
		for j := 0; j < r.n; j++ {
			if r.hidden(i, j) {
				hidden++
			}
		}
	}
	return
}

func genRejectMap(d *D, selfref bool) *Map {
	if d.P(40) {
		return genRooms(d, "MAP01", selfref)
	}
	o := MapOpts{MaxCols: pick(d, 3, 5, 7), Hexen: 15, Walls: d.P(80), Islands: true, SelfRef: selfref, ZeroLen: d.P(20), MinSectors: pick(d, 1, 4, 30), Tri: 40}
	o.MaxRows = o.MaxCols
	if d.P(10) {
		o.MaxCols, o.MaxRows = 12, 12
		o.MinSectors = 144
	}
	return genMap(d, "MAP01", o)
}

var _ = reg(&Prop{
	ID: "C13", Title: "REJECT never hides what can be seen",
	Rule:  "a case counts when at least one pair of sectors is hidden and sight lines between two sectors that are not neighbours were found; distinct by map, options and number of pairs",
	Quick: 2500, Thorough: 60000,
	Run: func(c *C) {
		selfref := c.P(35)
		m := genRejectMap(c.D, selfref)
		rs := c.Int(0, 3)
		args := []string{"-n-", "-b-", fmt.Sprintf("-rs=%d", rs)}
		if c.P(25) {
			args = append(args, "-rg-")
		}
		if c.P(20) {
			args = append(args, "--nosymm")
		}
		b := c.buildMap(m, args...)
		r := c.getReject(b)
		v := newVis(m, rs != 3, nil, 0)
		sub := c.sub()
		for _, delta := range []float64{2.2} {
			v.cast(sub, 6000, delta, delta-0.2)
		}
		far := 0
		for i := 0; i < r.n; i++ {
			for j := 0; j < r.n; j++ {
				if !v.vis[i*r.n+j] {
					continue
				}
				if i != j {
					far++
				}
				if r.hidden(i, j) {
					w := v.how[i*r.n+j]
					c.Failf("hidden: REJECT says sector %d cannot see sector %d, but nothing is between (%.3f,%.3f) and (%.3f,%.3f) (%v)", i, j, w[0], w[1], w[2], w[3], args)
				}
			}
		}
		h := r.count()
		if h > 0 && far > 0 {
			c.NonTrivial(fmt.Sprint(m.describe(), args, h, far))
			c.Sample("%s | %v | %d of %d pairs hidden, %d pairs with a sight line", m.describe(), args, h, r.n*r.n, far)
		}
		c.Label(fmt.Sprintf("rs=%d", rs))
		if selfref {
			c.Label("lines with one sector on both sides")
		}
	},
})

var _ = reg(&Prop{
	ID: "C24", Title: "REJECT hides what cannot be seen",
	Rule:  "a case (mostly six maps) counts when at least one pair of sectors is hidden; distinct by maps, options and number of pairs",
	Quick: 1000, Thorough: 12000,
	Run: func(c *C) {
		// Blocking by several walls together is approximate in the tool, so
		// that now and then a map has a few pairs taken for visible.
		n := 1
		if c.P(90) {
			n = 6
		}
		var open []string
		key := ""
		for i := 0; i < n; i++ {
			s, k := c.hiddenPairs()
			if s != "" {
				open = append(open, s)
			}
			key += k
		}
		if key != "" {
			c.NonTrivial(key)
		}
		if len(open) > 2 {
			c.Failf("visible: in %d of %d maps REJECT says of pairs that one sector might see the other, but walls are between them everywhere: %s", len(open), n, open)
		}
	},
})

// hiddenPairs builds a map and checks what its REJECT table hides. It returns
// the pairs that the tool takes for visible though nothing can be seen.
// The second result describes the table if it hides anything.
func (c *C) hiddenPairs() (string, string) {
	m := genRejectMap(c.D, false)
	args := []string{"-n-", "-b-"}
	if c.P(20) {
		args = append(args, "-rg-")
	}
	b := c.buildMap(m, args...)
	r := c.getReject(b)
	h := r.count()
	v := newVis(m, false, nil, 0)
	if len(v.trans) == 0 {
		if h > 0 {
			c.Failf("zero: REJECT should be zero-filled when no two-sided line separates two sectors")
		}
		c.Label("zero-filled")
		return "", ""
	}
	grp := make([]int, r.n)
	for i := range grp {
		grp[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		for grp[i] != i {
			i = grp[i]
		}
		return i
	}
	for i := range m.Lines {
		if m.between(i) {
			grp[find(m.front(i))] = find(m.back(i))
		}
	}
	apart, far := 0, 0
	var open [][2]int
	for i := 0; i < r.n; i++ {
		for j := 0; j < r.n; j++ {
			switch {
			case i == j:
			case find(i) != find(j) && len(args) == 2:
				apart++
				if !r.hidden(i, j) {
					c.Failf("apart: REJECT says sector %d might see sector %d, but there is no way from one to the other (%v)", i, j, args)
				}
			case r.hidden(i, j):
				far++
			default:
				open = append(open, [2]int{i, j})
			}
		}
	}
	spare := max(12, (far+apart)/8)
	res := ""
	if len(open) > 0 && len(m.Lines) <= 120 {
		sub := c.sub()
		v.cast(sub, 20000, 0.1, 0.03)
		cnt := 0
		for _, p := range open {
			if !v.vis[p[0]*r.n+p[1]] {
				cnt++
			}
		}
		var bad [][2]int
		if cnt > 0 {
			t := newVis(m, false, nil, 1.5)
			t.cast(sub, 1<<30, 0.01, 1e-7)
			for _, p := range open {
				if !t.vis[p[0]*r.n+p[1]] {
					bad = append(bad, p)
				}
			}
		}
		if len(bad) > spare {
			c.Failf("visible: REJECT says that in %d pairs one sector might see the other, but walls are between them everywhere (only %d pairs are hidden, %v): %v", len(bad), far+apart, args, bad[:5])
		}
		if len(bad) > 0 {
			c.Label("pairs taken for visible")
			res = fmt.Sprintf("(%s: %v)", m.describe(), bad[:min(len(bad), 5)])
		}
	}
	if apart > 0 {
		c.Label("sectors with no way from one to the other")
	}
	if far > 0 {
		c.Label("sectors that cannot see each other, but with a way between")
	}
	key := ""
	if apart+far > 0 {
		key = fmt.Sprint(m.describe(), args, h)
		c.Sample("%s | %v | of %d pairs hidden: %d with no way between, %d with walls across", m.describe(), args, r.n*r.n, apart, far)
	}
	return res, key
}

// clone copies the parts that variants of a map change.
func (m *Map) clone() *Map {
	n := *m
	n.Verts = append([]V(nil), m.Verts...)
	n.Lines = append([]Line(nil), m.Lines...)
	n.Sides = append([]Side(nil), m.Sides...)
	n.Sectors = append([]Sector(nil), m.Sectors...)
	n.Things = append([]Thing(nil), m.Things...)
	return &n
}

// sly: a two-sided line with the same sector on both sides.
func (m *Map) sly(i int) bool {
	l := &m.Lines[i]
	return l.Flags&mlTwoSided != 0 && l.Front >= 0 && l.Back >= 0 && m.front(i) == m.back(i) && !m.zeroLen(i)
}

// between: a two-sided line between two sectors.
func (m *Map) between(i int) bool {
	l := &m.Lines[i]
	return l.Flags&mlTwoSided != 0 && l.Front >= 0 && l.Back >= 0 && m.front(i) != m.back(i) && !m.zeroLen(i)
}

var _ = reg(&Prop{
	ID: "C14", Title: "REJECT form, symmetry and constants",
	Rule:  "a case counts when the table hides at least one pair of sectors, or must be all zero; distinct by map, options and number of pairs",
	Quick: 1500, Thorough: 40000,
	Run: func(c *C) {
		selfref := c.P(50)
		m := genRejectMap(c.D, selfref)
		rs := c.Int(0, 3)
		var args []string
		if c.P(85) {
			args = append(args, fmt.Sprintf("-rs=%d", rs))
		} else {
			rs = 0
		}
		if c.P(20) {
			args = append(args, "-rg-")
		}
		if c.P(20) {
			args = append(args, "--nosymm")
		}
		plain := []string{"-n-", "-b-"}
		if c.P(8) {
			b := c.buildMap(m, append(plain, "-rz")...)
			r := c.getReject(b)
			if r.count() > 0 {
				c.Failf("zero: -rz left bits set in REJECT")
			}
			c.Label("-rz")
			c.NonTrivial(fmt.Sprint(m.describe(), "-rz", r.n))
			return
		}
		b := c.buildMap(m, append(append([]string{}, plain...), args...)...)
		r := c.getReject(b)
		n := r.n
		trans, sees, sly := 0, make([]bool, n), make([]bool, n)
		slyLines := 0
		for i := range m.Lines {
			switch {
			case m.between(i):
				trans++
				f, bk := m.front(i), m.back(i)
				sees[f], sees[bk] = true, true
				if r.hidden(f, bk) || r.hidden(bk, f) {
					c.Failf("neighbours: sectors %d and %d share line %d, but are hidden from each other (%v)", f, bk, i, args)
				}
			case m.sly(i):
				sly[m.front(i)] = true
				slyLines++
			}
		}
		hidden := 0
		for i := 0; i < n; i++ {
			if r.hidden(i, i) {
				c.Failf("self: sector %d is hidden from itself (%v)", i, args)
			}
			for j := 0; j < n; j++ {
				if r.hidden(i, j) != r.hidden(j, i) {
					c.Failf("symmetry: sector %d sees %d is %v, the other way round %v (%v)", i, j, !r.hidden(i, j), !r.hidden(j, i), args)
				}
				if r.hidden(i, j) {
					hidden++
				}
				if i == j {
					continue
				}
				if rs == 0 && sly[i] && r.hidden(i, j) {
					c.Failf("selfref: sector %d has lines with it on both sides, but is hidden from %d with -rs=0 (%v)", i, j, args)
				}
				if trans > 0 && !sees[i] && !sly[i] && !(sly[j] && rs < 3) && !r.hidden(i, j) {
					c.Failf("closed: sector %d has no two-sided line, but can be seen from %d (%v)", i, j, args)
				}
			}
		}
		if trans == 0 && hidden > 0 && !(rs == 2 && slyLines > 0) {
			c.Failf("zero: REJECT should be zero-filled when no two-sided line separates two sectors (%v)", args)
		}
		same := func(what string, q rejectLump) {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if r.hidden(i, j) != q.hidden(i, j) {
						c.Failf("differs: sector %d sees %d is %v with %v, but %v %s", i, j, !r.hidden(i, j), args, !q.hidden(i, j), what)
					}
				}
			}
		}
		switch k := c.Pick(3); {
		case k == 0: // what else is built does not matter
			no := genNodeOpts(c.D, 10)
			no.NoReject = false
			a := append(no.args(), "-bo=0", fmt.Sprintf("-bz=%d", c.Int(0, 3)))
			same("when nodes and blockmap are built as well", c.getReject(c.buildMap(m, append(a, args...)...)))
			c.Label("compared: with nodes")
		case k == 1 && (slyLines == 0 || rs == 3): // lines with one sector on both sides play no part
			m2 := m.clone()
			m2.Lines = m2.Lines[:0]
			for i := range m.Lines {
				if !m.sly(i) {
					m2.Lines = append(m2.Lines, m.Lines[i])
				}
			}
			a := append(append([]string{}, plain...), fmt.Sprintf("-rs=%d", c.Int(0, 3)))
			for _, s := range args {
				if s == "-rg-" {
					a = append(a, s)
				}
			}
			if len(m2.Lines) > 0 {
				same("without the lines that have one sector on both sides", c.getReject(c.buildMap(m2, a...)))
				c.Label("compared: without self-referencing lines")
			}
		case k == 2: // the place of the map does not matter
			x0, y0, x1, y1 := 1<<20, 1<<20, -1<<20, -1<<20
			for _, v := range m.Verts {
				x0, y0, x1, y1 = min(x0, v.X), min(y0, v.Y), max(x1, v.X), max(y1, v.Y)
			}
			m2 := m.clone()
			shift := func(lo, hi int) int {
				a, z := (-32768-lo)/128, (32767-hi)/128
				return c.Int(a, z) * 128
			}
			dx, dy := shift(x0, x1), shift(y0, y1)
			for i := range m2.Verts {
				m2.Verts[i].X += dx
				m2.Verts[i].Y += dy
			}
			a := append(append([]string{}, plain...), args...)
			same(fmt.Sprintf("when the map is moved by (%d,%d)", dx, dy), c.getReject(c.buildMap(m2, a...)))
			c.Label("compared: moved")
		}
		if hidden > 0 || trans == 0 {
			c.NonTrivial(fmt.Sprint(m.describe(), args, hidden))
			c.Sample("%s | %v | %d of %d pairs hidden", m.describe(), args, hidden, n*n)
		}
		c.Label(fmt.Sprintf("rs=%d", rs))
	},
})
