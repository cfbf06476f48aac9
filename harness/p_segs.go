package main

import (
	"fmt"
	"math"
)

// C10: what is stored with each seg besides the vertices.

func bam(deg float64) float64 { return deg * 65536 / 360 }

// segAngle: the angle the documentation asks for, in BAM (may exceed 16 bit).
func (m *Map) segAngle(s *BSeg, x1, y1, x2, y2 float64) (angle float64, effect bool) {
	l := &m.Lines[s.Line]
	angle = math.Atan2(y2-y1, x2-x1) * 32768 / math.Pi
	if m.Hexen {
		return
	}
	switch l.Action {
	case 1080:
		angle, effect = angle+bam(float64(l.Tag)), true
	case 1081:
		angle, effect = bam(float64(l.Tag)), true
	case 1082:
		angle, effect = angle+float64(l.Tag), true
	case 1083:
		angle, effect = float64(l.Tag), true
	}
	if l.Tag == 999 && l.Flags&mlTwoSided == 0 {
		angle, effect = angle+bam(float64(m.Sides[m.sideOf(s.Line, s.Flip)].XOff)), true
	}
	return
}

func circDiff(a, b float64) float64 {
	d := math.Mod(a-b, 65536)
	if d < 0 {
		d += 65536
	}
	return min(d, 65536-d)
}

var _ = reg(&Prop{
	ID: "C10", Title: "Seg angles, offsets and special effects",
	Rule:  "a case counts when the tree contains a split seg or a seg with an angle effect, and a format that stores angles; distinct by options, and numbers of segs, splits and effects",
	Quick: 6000, Thorough: 100000,
	Run: func(c *C) {
		m := genNodeMap(c.D, true, c.P(30))
		if !m.Hexen || c.P(30) {
			pct := pick(c.D, 0, 10, 50)
			for i := range m.Lines {
				if !c.P(pct) {
					continue
				}
				l := &m.Lines[i]
				if m.Hexen {
					l.Action = uint16(c.Pick(256)) // none of these effects exist there
					continue
				}
				tag := pick(c.D, 0, 1, 45, 90, 180, 270, 359, 360, 899)
				if c.P(40) {
					tag = c.Int(0, 65535)
				}
				switch k := c.Pick(6); k {
				case 0, 1, 2, 3:
					l.Action, l.Tag = uint16(1080+k), uint16(tag)
					if tag == 998 || c.P(10) {
						l.Tag = 999
					}
				default:
					l.Tag = 999
				}
				if l.Tag == 999 || c.P(20) {
					m.Sides[l.Front].XOff = int16(pick(c.D, 90, -90, 1, 359, 32767, -32768, c.Near(32767), c.Near(360)))
				}
			}
		}
		o := genNodeOpts(c.D, 6)
		o.C = pick(c.D, "", "v", "d", "V", "D")
		b := c.buildMap(m, o.args()...)
		bsp := b.decode(c)
		if !bsp.HasAO {
			c.Label("no format with angles")
			return
		}
		om := b.Out
		splits, effects := 0, 0
		for j := range bsp.Segs {
			s := &bsp.Segs[j]
			x1, y1, x2, y2 := bsp.X[s.V1], bsp.Y[s.V1], bsp.X[s.V2], bsp.Y[s.V2]
			lx1, ly1, lx2, ly2 := om.xy(s.Line)
			if s.Flip == 1 {
				lx1, ly1, lx2, ly2 = lx2, ly2, lx1, ly1
			}
			atStart, atEnd := x1 == float64(lx1) && y1 == float64(ly1), x2 == float64(lx2) && y2 == float64(ly2)
			want, eff := om.segAngle(s, x1, y1, x2, y2)
			if eff {
				effects++
			}
			if !atStart || !atEnd {
				splits++
			}
			// each of the terms is truncated separately
			if d := circDiff(want, float64(s.Angle)); d > 3.01 || !eff && d > 1.01 {
				c.Failf("angle: seg %d (%g,%g)-(%g,%g), side %d of linedef %d (action %d tag %d), has angle %d, expected %.1f", j, x1, y1, x2, y2, s.Flip, s.Line, om.Lines[s.Line].Action, om.Lines[s.Line].Tag, s.Angle, math.Mod(want+65536*400, 65536))
			}
			dist := math.Hypot(x1-float64(lx1), y1-float64(ly1))
			if d := circDiff(dist, float64(s.Off)); d > 1.01 || atStart && s.Off != 0 {
				c.Failf("offset: seg %d (%g,%g)-(%g,%g) starts %.2f units from the start of side %d of linedef %d (%d,%d)-(%d,%d), its offset is %d", j, x1, y1, x2, y2, dist, s.Flip, s.Line, lx1, ly1, lx2, ly2, s.Off)
			}
		}
		if splits > 0 {
			c.Label("with split lines")
		}
		if effects > 0 {
			c.Label("with angle effects")
		}
		c.Label("format " + bsp.Fmt)
		if splits+effects > 0 {
			c.NonTrivial(fmt.Sprint(o.args(), len(bsp.Segs), splits, effects))
			c.Sample("%s | %v | %d segs, %d parts of split lines, %d with angle effects", m.describe(), o.args(), len(bsp.Segs), splits, effects)
		}
	},
})
