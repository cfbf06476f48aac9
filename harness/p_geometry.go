package main

import (
	"fmt"
	"math"
)

// C09: partitions, bounding boxes, convexity, point location.

type geoTol struct{ side, box, convex, point float64 }

func (b *BSP) tol() geoTol {
	if b.Fmt == "x" || b.Fmt == "z" {
		return geoTol{0.05, 1, 0.05, 1}
	}
	return geoTol{2.5, 1, 2.5, 4}
}

// rounding: how far rounding may have moved a seg off the line it lay on when
// it was put on one side of a partition: each split moves an end by up to 0.71.
func (b *BSP) rounding() func(s *BSeg) float64 {
	if b.tol().side < 1 {
		return func(*BSeg) float64 { return 0 }
	}
	n := map[lineSide]int{}
	for i := range b.Segs {
		n[lineSide{b.Segs[i].Line, b.Segs[i].Flip}]++
	}
	return func(s *BSeg) float64 { return 0.71 * float64(n[lineSide{s.Line, s.Flip}]-1) }
}

func (b *BSP) wrongSide(n *BNode, k int, v int) float64 {
	l := math.Hypot(float64(n.DX), float64(n.DY))
	d := (float64(n.DX)*(b.Y[v]-float64(n.Y)) - float64(n.DY)*(b.X[v]-float64(n.X))) / l
	// d > 0: left side
	if k == 0 {
		return d
	}
	return -d
}

// checkPartitions: what is below each child lies on its side of the partition
// line and in its bounding box.
func (b *BSP) checkPartitions() error {
	t := b.tol()
	rounding := b.rounding()
	for i := range b.Nodes {
		n := &b.Nodes[i]
		for k := 0; k < 2; k++ {
			x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
			worst, wseg := 0.0, -1
			b.below(n.Leaf[k], n.Child[k], func(j int) {
				s := &b.Segs[j]
				for _, v := range [2]int{s.V1, s.V2} {
					x0, x1 = math.Min(x0, b.X[v]), math.Max(x1, b.X[v])
					y0, y1 = math.Min(y0, b.Y[v]), math.Max(y1, b.Y[v])
					if d := b.wrongSide(n, k, v) - rounding(s); d > worst {
						worst, wseg = d, j
					}
				}
			})
			maxDev("side/"+b.Fmt, worst)
			if worst > t.side {
				s := &b.Segs[wseg]
				return fmt.Errorf("partition: node %d (%d,%d)+(%d,%d): seg %d (%g,%g)-(%g,%g) of linedef %d is below child %d but reaches %.2f units too far to the other side", i, n.X, n.Y, n.DX, n.DY, wseg, b.X[s.V1], b.Y[s.V1], b.X[s.V2], b.Y[s.V2], s.Line, k, worst)
			}
			bx := n.Box[k]
			// top bottom left right
			for q, d := range [4]float64{y1 - float64(bx[0]), float64(bx[1]) - y0, float64(bx[2]) - x0, x1 - float64(bx[3])} {
				maxDev("box-out/"+b.Fmt, d)
				maxDev("box-slack/"+b.Fmt, -d)
				if d > t.box || -d > t.box {
					return fmt.Errorf("box: node %d child %d: bounding box %v (top bottom left right), the segs below span y %g..%g x %g..%g (side %d off by %.2f)", i, k, bx, y0, y1, x0, x1, q, d)
				}
			}
		}
	}
	return nil
}

// checkConvex: no seg of a subsector lies behind another one of it.
func (b *BSP) checkConvex(m *Map) error {
	t := b.tol()
	rounding := b.rounding()
	for i := range b.First {
		for j := b.First[i]; j < b.First[i]+b.Count[i]; j++ {
			s := &b.Segs[j]
			dx, dy := b.X[s.V2]-b.X[s.V1], b.Y[s.V2]-b.Y[s.V1]
			l := math.Hypot(dx, dy)
			// directions of short pieces are imprecise
			slack := func(v int) float64 {
				e := 0.5
				if t.convex < 1 {
					e = 2.0 / 65536
				}
				return math.Hypot(b.X[v]-b.X[s.V1], b.Y[v]-b.Y[s.V1]) * e / l
			}
			for o := b.First[i]; o < b.First[i]+b.Count[i]; o++ {
				q := &b.Segs[o]
				// the direction of short pieces is not reliable once rounded: what
				// counts is whether both ends are behind
				for _, v := range [2]int{q.V1, q.V2} {
					d := (dx*(b.Y[v]-b.Y[s.V1]) - dy*(b.X[v]-b.X[s.V1])) / l
					d -= slack(v) + max(rounding(s), rounding(q))
					maxDev("convex/"+b.Fmt, d)
					if d > t.convex {
						return fmt.Errorf("convex: subsector %d: seg %d (%g,%g)-(%g,%g) of linedef %d is %.2f units behind seg %d (%g,%g)-(%g,%g) of linedef %d", i, o, b.X[q.V1], b.Y[q.V1], b.X[q.V2], b.Y[q.V2], q.Line, d, j, b.X[s.V1], b.Y[s.V1], b.X[s.V2], b.Y[s.V2], s.Line)
					}
				}
			}
		}
	}
	return nil
}

func (b *BSP) leafLen(ss int) float64 {
	t := 0.0
	for j := b.First[ss]; j < b.First[ss]+b.Count[ss]; j++ {
		t += b.segLen(&b.Segs[j])
	}
	return t
}

// clearance: the smallest of the lengths of lines and the distances between
// lines and vertices that are not theirs.
func (m *Map) clearance() float64 {
	r := math.Inf(1)
	for i := range m.Lines {
		if m.zeroLen(i) {
			continue
		}
		a, b, c, d := m.xy(i)
		r = math.Min(r, math.Hypot(float64(c-a), float64(d-b)))
		for j := range m.Lines {
			e, f, g, h := m.xy(j)
			for k := 0; k < 2; k++ {
				if !(e == a && f == b || e == c && f == d) {
					r = math.Min(r, m.lineDist(i, float64(e), float64(f)))
				}
				e, f = g, h
			}
		}
	}
	return r
}

func (m *Map) lineDist(i int, x, y float64) float64 {
	a, b, c, d := m.xy(i)
	x1, y1, x2, y2 := float64(a), float64(b), float64(c), float64(d)
	dx, dy := x2-x1, y2-y1
	l2 := dx*dx + dy*dy
	t := 0.0
	if l2 > 0 {
		t = math.Max(0, math.Min(1, ((x-x1)*dx+(y-y1)*dy)/l2))
	}
	return math.Hypot(x-x1-t*dx, y-y1-t*dy)
}

var _ = reg(&Prop{
	ID: "C09", Title: "Partition geometry and point location",
	Rule:  "a case counts when a point was located in a tree with at least one node; distinct by options, format, numbers of nodes and segs",
	Quick: 8000, Thorough: 150000,
	Run: func(c *C) {
		mo := mapOptsFor(c.D)
		mo.ZeroLen = true
		m := genMap(c.D, "MAP01", mo)
		o := genNodeOpts(c.D, 6)
		b := c.buildMap(m, o.args()...)
		bsp := b.decode(c)
		if bsp.Fmt == "empty" {
			c.Failf("nodes: nothing was built")
		}
		if err := bsp.checkStructure(b.Out); err != nil {
			c.Failf("structure: %v", err)
		}
		if err := bsp.checkPartitions(); err != nil {
			c.Failf("%v", err)
		}
		if err := bsp.checkConvex(b.Out); err != nil {
			c.Failf("%v", err)
		}
		// all segs of a subsector belong to one sector
		for i := range bsp.First {
			s0 := b.Out.segSector(&bsp.Segs[bsp.First[i]])
			for j := bsp.First[i]; j < bsp.First[i]+bsp.Count[i]; j++ {
				if s := b.Out.segSector(&bsp.Segs[j]); s != s0 {
					c.Failf("mixed: subsector %d holds segs of sectors %d and %d", i, s0, s)
				}
			}
		}
		// point location
		x0, y0, x1, y1 := m.bounds()
		r := c.sub()
		located, wanted := 0, 60
		t := bsp.tol()
		// whole units are too coarse for walls a few units apart
		detailed := t.convex >= 1 && m.clearance() < 8
		if detailed {
			c.Label("too detailed for point location in this format")
		}
		for k := 0; k < 300 && located < wanted && !detailed; k++ {
			x := float64(x0) + r.F()*float64(x1-x0)
			y := float64(y0) + r.F()*float64(y1-y0)
			if k%2 == 0 { // near a line
				i := r.Intn(len(m.Lines))
				a, b, cc, d := m.xy(i)
				f := r.F()
				x = float64(a) + f*float64(cc-a) + (r.F()-0.5)*20
				y = float64(b) + f*float64(d-b) + (r.F()-0.5)*20
			}
			near := false
			for i := range m.Lines {
				if m.lineDist(i, x, y) < t.point {
					near = true
					break
				}
			}
			if near {
				continue
			}
			sec, ok := m.pointSector(x, y)
			if !ok || sec < 0 {
				continue
			}
			// walls up to two units beyond a partition line count as touching it:
			// thin slivers along partition lines may miss walls
			ss, margin := bsp.locate(x, y)
			if margin < t.point || bsp.leafLen(ss) < 4*t.point {
				continue
			}
			located++
			got := b.Out.segSector(&bsp.Segs[bsp.First[ss]])
			if got != sec {
				c.Failf("location: point (%.2f,%.2f) is in sector %d, the tree leads to subsector %d of sector %d", x, y, sec, ss, got)
			}
		}
		c.Label("format " + bsp.Fmt)
		if located > 0 && len(bsp.Nodes) > 0 {
			c.NonTrivial(fmt.Sprint(o.args(), bsp.Fmt, len(bsp.Nodes), len(bsp.Segs)))
			c.Sample("%s | %v | %s: %d nodes, %d points located", m.describe(), o.args(), bsp.Fmt, len(bsp.Nodes), located)
		}
	},
})
