package main

import (
	"bytes"
	"fmt"
)

// C12: what rebuilding nodes may do to LINEDEFS and VERTEXES.
// C18: rebuilding what has been rebuilt changes nothing.

var _ = reg(&Prop{
	ID: "C12", Title: "Lines and vertices are only renumbered",
	Rule:  "a case counts when nodes were rebuilt and unused vertices were dropped or split vertices added; distinct by options and numbers of vertices before, dropped and added",
	Quick: 5000, Thorough: 80000,
	Run: func(c *C) {
		m := genNodeMap(c.D, true, c.P(40))
		if c.P(30) {
			m.shuffleVerts(c.sub(), true)
		}
		o := genNodeOpts(c.D, 8)
		o.NoReject = c.P(70)
		b := c.buildMap(m, o.args()...)
		bsp := b.decode(c)
		om := b.Out
		if len(om.Lines) != len(m.Lines) {
			c.Failf("lines: %d linedefs became %d", len(m.Lines), len(om.Lines))
		}
		used := make([]bool, len(m.Verts))
		for i := range m.Lines {
			used[m.Lines[i].V1], used[m.Lines[i].V2] = true, true
		}
		newIdx, n := make([]int, len(m.Verts)), 0
		for i, u := range used {
			newIdx[i] = -1
			if u {
				newIdx[i] = n
				n++
			}
		}
		for i := range m.Lines {
			p, q := m.Lines[i], om.Lines[i]
			a1, b1, a2, b2 := m.xy(i)
			p1, q1, p2, q2 := om.xy(i)
			if a1 != p1 || b1 != q1 || a2 != p2 || b2 != q2 {
				c.Failf("lines: linedef %d was (%d,%d)-(%d,%d), became (%d,%d)-(%d,%d)", i, a1, b1, a2, b2, p1, q1, p2, q2)
			}
			p.V1, p.V2 = newIdx[p.V1], newIdx[p.V2]
			if p != q {
				c.Failf("lines: linedef %d should be %+v, became %+v", i, p, q)
			}
		}
		if len(om.Verts) < n {
			c.Failf("vertices: %d are used, %d remain", n, len(om.Verts))
		}
		for i, v := range m.Verts {
			if k := newIdx[i]; k >= 0 && om.Verts[k] != v {
				c.Failf("vertices: vertex %d (%d,%d) should be vertex %d, which is (%d,%d)", i, v.X, v.Y, k, om.Verts[k].X, om.Verts[k].Y)
			}
		}
		added := len(om.Verts) - n
		switch bsp.Fmt {
		case "v", "d":
			inSegs := make([]bool, len(om.Verts))
			for j := range bsp.Segs {
				inSegs[bsp.Segs[j].V1], inSegs[bsp.Segs[j].V2] = true, true
			}
			for k := n; k < len(om.Verts); k++ {
				if !inSegs[k] {
					c.Failf("vertices: vertex %d was added, but no seg uses it", k)
				}
			}
		default:
			if added != 0 {
				c.Failf("vertices: %d vertices were added to VERTEXES with nodes in format %s", added, bsp.Fmt)
			}
			if bsp.Fmt != "empty" && bsp.OrigV != n {
				c.Failf("vertices: the header of nodes says %d vertices are taken from VERTEXES, there are %d", bsp.OrigV, n)
			}
			inSegs := make([]bool, len(bsp.X))
			for j := range bsp.Segs {
				inSegs[bsp.Segs[j].V1], inSegs[bsp.Segs[j].V2] = true, true
			}
			for k := n; k < len(bsp.X); k++ {
				if !inSegs[k] {
					c.Failf("vertices: vertex %d was added, but no seg uses it", k)
				}
			}
			added = bsp.NewV
		}
		// segs that reach the ends of their line use its vertices
		for j := range bsp.Segs {
			s := &bsp.Segs[j]
			l := &om.Lines[s.Line]
			v1, v2 := l.V1, l.V2
			if s.Flip == 1 {
				v1, v2 = v2, v1
			}
			x1, y1, x2, y2 := om.Verts[v1].X, om.Verts[v1].Y, om.Verts[v2].X, om.Verts[v2].Y
			if bsp.X[s.V1] == float64(x1) && bsp.Y[s.V1] == float64(y1) && s.V1 != v1 || bsp.X[s.V2] == float64(x2) && bsp.Y[s.V2] == float64(y2) && s.V2 != v2 {
				c.Failf("vertices: seg %d of linedef %d runs from vertex %d to %d, the line from %d to %d in the same places", j, s.Line, s.V1, s.V2, v1, v2)
			}
		}
		for _, n := range []string{"THINGS", "SIDEDEFS", "SECTORS", "BEHAVIOR"} {
			for _, l := range m.Lumps() {
				if l.Name == n && !bytes.Equal(l.Data, b.Lv.L[n]) {
					c.Failf("lumps: %s was changed", n)
				}
			}
		}
		dropped := len(m.Verts) - n
		if dropped > 0 {
			c.Label("unused vertices dropped")
		}
		if added > 0 {
			c.Label("split vertices added")
		}
		if dropped+added > 0 {
			c.NonTrivial(fmt.Sprint(o.args(), len(m.Verts), dropped, added))
			c.Sample("%s | %v | %d vertices dropped, %d added", m.describe(), o.args(), dropped, added)
		}
	},
})
