package main

import "fmt"

func mapOptsFor(d *D) MapOpts {
	return MapOpts{Tri: 30, MaxCols: pick(d, 3, 5, 8), MaxRows: pick(d, 3, 5, 8), Hexen: 20, Islands: true}
}

// genNodeMap: a map for node building, of a size that builds in milliseconds.
func genNodeMap(d *D, specials, selfref bool) *Map {
	o := mapOptsFor(d)
	o.Specials, o.SelfRef, o.ZeroLen, o.Polyobj = specials, selfref, true, true
	return genMap(d, "MAP01", o)
}

var _ = reg(&Prop{
	ID: "C08", Title: "BSP tree structure and seg coverage",
	Rule:  "a case counts when the tool built a tree with at least one node; distinct by option set, node format and numbers of nodes, segs and splits",
	Quick: 10000, Thorough: 150000,
	Run: func(c *C) {
		var m *Map
		if c.P(8) {
			m = genSoup(c.D, "MAP01", pick(c.D, 2, 4, 12))
		} else {
			m = genNodeMap(c.D, true, c.P(50))
		}
		o := genNodeOpts(c.D, 8)
		if len(m.Lines) <= 12 && c.P(30) && o.M == 0 {
			o.M = c.Int(1, 3)
			if c.P(60) {
				o.Extra = append(o.Extra, fmt.Sprintf("--roots=%d", c.Int(1, 4)))
			}
		}
		b := c.buildMap(m, o.args()...)
		bsp := b.decode(c)
		if bsp.Fmt == "empty" {
			if len(rendered(b.Out)) > 0 {
				c.Failf("nodes: all three node lumps are empty for a map of %d lines", len(m.Lines))
			}
			c.Label("nothing to render")
			return
		}
		if err := bsp.checkStructure(b.Out); err != nil {
			c.Failf("structure: %v", err)
		}
		sp, err := bsp.checkCoverage(b.Out, rendered(b.Out))
		if err != nil {
			c.Failf("coverage: %v", err)
		}
		c.Label("format " + bsp.Fmt)
		if sp > 0 {
			c.Label("with split lines")
		}
		if len(bsp.Nodes) > 0 {
			c.NonTrivial(fmt.Sprint(o.args(), bsp.Fmt, len(bsp.Nodes), len(bsp.Segs), sp))
			c.Sample("%s | %v | %s: %d nodes %d subsectors %d segs, %d splits", m.describe(), o.args(), bsp.Fmt, len(bsp.Nodes), len(bsp.First), len(bsp.Segs), sp)
		}
	},
})
