package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
)

// C19: speed of scrolling walls (48, 1048): the number of dummy linedefs
// follows the tags through any history of edits and rebuilds, dummies are in
// no other lump, nothing else changes.

type scrollKey struct{ v1, v2, front int }

func keyOf(l *Line) scrollKey { return scrollKey{l.V1, l.V2, l.Front} }

// scrollModel: which lines are dummies, and how many each place shall have
// (-1: left open by the documentation); ok is false when the nearest wall of a
// remote scroller is not unique.
func scrollModel(m *Map) (dummy []bool, want map[scrollKey]int, ok bool) {
	dummy = make([]bool, len(m.Lines))
	want = map[scrollKey]int{}
	real := map[scrollKey]int{}    // first line with action 48
	power := map[scrollKey]int{}   // by remote scrollers
	other := map[scrollKey]bool{}  // the target has its own action
	remote := map[scrollKey]bool{} // is a target
	for i := range m.Lines {
		l := &m.Lines[i]
		if l.Action == 48 {
			if _, have := real[keyOf(l)]; !have {
				real[keyOf(l)] = i
			}
		}
		if l.Action == 1048 && l.Tag > 0 {
			best, tie := -1, false
			bd := math.MaxInt
			x, y, _, _ := m.xy(i)
			for j := range m.Lines {
				if j == i || m.Lines[j].Tag != l.Tag {
					continue
				}
				p, q, _, _ := m.xy(j)
				d := (p-x)*(p-x) + (q-y)*(q-y)
				if d < bd {
					best, bd, tie = j, d, false
				} else if d == bd {
					tie = true
				}
			}
			if tie {
				return nil, nil, false
			}
			if best >= 0 {
				k := keyOf(&m.Lines[best])
				power[k] += int(l.Tag % 100)
				remote[k] = true
				if m.Lines[best].Action != 48 {
					other[k] = true
				}
			}
		}
	}
	for i := range m.Lines {
		l := &m.Lines[i]
		k := keyOf(l)
		if l.Action != 48 || remote[k] && other[k] {
			continue
		}
		if real[k] == i {
			want[k] = max(1, int(l.Tag)) - 1
			if remote[k] {
				want[k] = -1
			}
		}
	}
	for k := range remote {
		if other[k] {
			want[k] = max(1, power[k])
		}
	}
	for i := range m.Lines {
		l := &m.Lines[i]
		if l.Action == 48 && (other[keyOf(l)] || real[keyOf(l)] != i) {
			dummy[i] = true
			if l.Tag != 0 && other[keyOf(l)] {
				want[keyOf(l)] = -1 // was no dummy before
			}
		}
	}
	return dummy, want, true
}

// sameLine compares everything of two lines but the tag.
func sameLine(a *Map, i int, b *Map, j int) bool {
	p, q := a.Lines[i], b.Lines[j]
	x1, y1, x2, y2 := a.xy(i)
	x3, y3, x4, y4 := b.xy(j)
	p.V1, p.V2, q.V1, q.V2, p.Tag, q.Tag = 0, 0, 0, 0, 0, 0
	return p == q && x1 == x3 && y1 == y3 && x2 == x4 && y2 == y4
}

func runScroll(c *C) {
	m := genMap(c.D, "MAP01", MapOpts{Tri: 30, MaxCols: 4, MaxRows: 3, NoFar: true, Islands: true})
	if m.Hexen || len(m.Lines) < 6 {
		c.Discard()
	}
	if c.P(20) { // a very wide map
		lo, _, hi, _ := m.bounds()
		if w := hi - lo; w > 0 {
			t := c.Int(30000, 62000)
			for i := range m.Verts {
				v := &m.Verts[i]
				if v.X >= lo && v.X <= hi {
					v.X = (v.X-lo)*t/w - t/2
				} else {
					v.X = 0
				}
			}
			c.Label("map is very wide")
		}
	}
	// lines that may be changed: alone in their place
	keys := map[scrollKey]int{}
	for i := range m.Lines {
		keys[keyOf(&m.Lines[i])]++
	}
	var free []int
	for i := range m.Lines {
		m.Lines[i].Tag, m.Lines[i].Action = 0, 0
		if l := &m.Lines[i]; keys[keyOf(l)] == 1 && l.Front >= 0 && !m.zeroLen(i) {
			free = append(free, i)
		}
	}
	shuffle(c.D, free)
	take := func() int {
		if len(free) == 0 {
			c.Discard()
		}
		i := free[0]
		free = free[1:]
		return i
	}
	speed := func() uint16 { return uint16(pick(c.D, 0, 1, 1, 2, 2, 3, 4, 7, 20, 60)) }
	for k := c.Int(0, 4); k > 0; k-- {
		i := take()
		m.Lines[i].Action, m.Lines[i].Tag = 48, speed()
	}
	gtag := func() uint16 { return uint16(pick(c.D, 100, 200, 300, 700, 1000, 1100, 2000)) + speed() }
	for k := c.Int(0, 3); k > 0; k-- {
		i, j := take(), take()
		g := gtag()
		m.Lines[i].Action, m.Lines[i].Tag = 1048, g
		m.Lines[j].Action, m.Lines[j].Tag = uint16(pick(c.D, 0, 0, 1, 11, 31)), g
		if c.P(20) {
			m.Lines[j].Action = 48
		}
		if c.P(30) { // another candidate
			m.Lines[take()].Tag = g
		}
		if c.P(20) { // another one
			i := take()
			m.Lines[i].Action, m.Lines[i].Tag = 1048, g
		}
	}

	bopts := []string{"-bo=" + pick(c.D, "0", "1", "2", "5,77")}
	bopts[0] += pick(c.D, "", "s", "a") + pick(c.D, "z=0", "z=0", "z=2", "")
	no := genNodeOpts(c.D, 5)
	no.NoBlock, no.NoReject = false, false
	opts := append(bopts, no.args()...)
	opts = append(opts, pick(c.D, "-rs=0", "-rs=1", "-rs=3"), "-d")

	edits := ""
	cur := m
	for step := c.Int(1, 4); step > 0; step-- {
		dummy, want, ok := scrollModel(cur)
		if !ok {
			c.Discard()
		}
		nd := 0
		for _, d := range dummy {
			if d {
				nd++
			}
		}
		mode := pick(c.D, "full", "full", "full", "full", "nodes", "blockmap", "reject")
		args := append([]string{}, opts...)
		full := mode == "full"
		if !full && mode != "nodes" {
			args = append(args, "-n-")
		}
		if !full && mode != "blockmap" {
			args = append(args, "-b-")
		}
		b := c.buildMap(cur, args...)
		om := b.Out
		what := fmt.Sprintf("%s build of %d lines (%d of them dummies), history: %s", mode, len(cur.Lines), nd, edits)

		// lines
		outDummy := make([]bool, len(om.Lines))
		if !full {
			if len(om.Lines) != len(cur.Lines) {
				c.Failf("lines: %d linedefs became %d: %s", len(cur.Lines), len(om.Lines), what)
			}
			for i := range cur.Lines {
				if !sameLine(cur, i, om, i) || cur.Lines[i].Tag != om.Lines[i].Tag {
					c.Failf("lines: linedef %d was %+v, became %+v: %s", i, cur.Lines[i], om.Lines[i], what)
				}
			}
			outDummy = dummy
		} else {
			// what remains of the old ones, in order
			j := 0
			have := map[scrollKey]int{}
			repr := map[scrollKey]int{}
			for i := range cur.Lines {
				k := keyOf(&cur.Lines[i])
				repr[k] = i
				if dummy[i] {
					// kept or removed
					w, known := want[k]
					if j < len(om.Lines) && sameLine(cur, i, om, j) && om.Lines[j].Tag == 0 && (!known || w < 0 || have[k] < w) {
						outDummy[j] = true
						have[k]++
						j++
					}
					continue
				}
				// dummies of the same place may have been taken for kept ones above
				if j >= len(om.Lines) || !sameLine(cur, i, om, j) || cur.Lines[i].Tag != om.Lines[j].Tag {
					g := "missing"
					if j < len(om.Lines) {
						g = fmt.Sprintf("%+v", om.Lines[j])
					}
					c.Failf("lines: linedef %d, %+v, should be linedef %d, which is %s: %s", i, cur.Lines[i], j, g, what)
				}
				j++
			}
			for ; j < len(om.Lines); j++ {
				l := &om.Lines[j]
				x1, y1, x2, y2 := om.xy(j)
				found := false
				for k := range want {
					p, q, r, s := cur.xy(repr[k])
					t := &cur.Lines[repr[k]]
					if p == x1 && q == y1 && r == x2 && s == y2 && t.Front == l.Front {
						found = true
						have[k]++
						if l.Action != 48 || l.Tag != 0 || l.Back != t.Back || l.Flags != 0 {
							c.Failf("dummy: added linedef %d is %+v: %s", j, *l, what)
						}
						break
					}
				}
				if !found {
					c.Failf("lines: added linedef %d, %+v, is no scroller's place: %s", j, *l, what)
				}
				outDummy[j] = true
			}
			for k, w := range want {
				if w >= 0 && have[k] != w {
					c.Failf("speed: linedef %d (action %d, tag %d) should have %d dummies, has %d: %s", repr[k], cur.Lines[repr[k]].Action, cur.Lines[repr[k]].Tag, w, have[k], what)
				}
			}
		}
		atEnd, od := true, 0
		for j := range outDummy {
			if outDummy[j] {
				od++
			} else if od > 0 {
				atEnd = false
			}
		}

		// dummies are in no other lump
		if full || mode == "blockmap" {
			bm, err := decodeBlockmap(b.Lv.L["BLOCKMAP"])
			if err != nil {
				c.Failf("blockmap: %v: %s", err, what)
			}
			skip := 1
			if strings.Contains(opts[0], "z=0") {
				skip = 0
			}
			seen := make([]bool, len(om.Lines))
			for i, l := range bm.Lists {
				for k, v := range l {
					if k < skip {
						continue
					}
					if v >= len(om.Lines) || outDummy[v] {
						c.Failf("blockmap: block %d has linedef %d, a dummy: %s", i, v, what)
					}
					seen[v] = true
				}
			}
			for j := range seen {
				if !seen[j] && !outDummy[j] {
					c.Failf("blockmap: linedef %d, %+v, is not there: %s", j, om.Lines[j], what)
				}
			}
		}
		if full || mode == "nodes" {
			bsp := b.decode(c)
			if bsp.Fmt != "empty" {
				sides := map[lineSide]bool{}
				for i := range bsp.Segs {
					s := &bsp.Segs[i]
					if outDummy[s.Line] {
						c.Failf("nodes: seg %d is part of linedef %d, a dummy: %s", i, s.Line, what)
					}
					sides[lineSide{s.Line, s.Flip}] = true
				}
				if !strings.Contains(strings.Join(opts, " "), "i=") {
					for ls := range rendered(om) {
						if !outDummy[ls.line] && !sides[ls] {
							c.Failf("nodes: linedef %d, %+v, has no seg on side %d: %s", ls.line, om.Lines[ls.line], ls.flip, what)
						}
					}
				}
			}
		}
		// the lumps are those of the map without scrollers
		bare := *cur
		bare.Lines = nil
		for j := range cur.Lines {
			if !dummy[j] {
				l := cur.Lines[j]
				if l.Action == 48 || l.Action == 1048 {
					l.Action = 0
				}
				if l.Tag < 900 {
					l.Tag = 0
				}
				bare.Lines = append(bare.Lines, l)
			}
		}
		in2, out2 := c.Write("bare.wad", (&Wad{Lumps: bare.Lumps()}).Bytes(nil)), c.Path("bare-out.wad")
		r2 := c.must(append(append([]string{}, args...), in2, "-o", out2)...)
		b2 := c.load(&bare, out2, r2)
		if full || mode == "reject" {
			if !bytes.Equal(b.Lv.L["REJECT"], b2.Lv.L["REJECT"]) {
				c.Failf("reject: it is another one than without dummies: %s: %s", bytesDiff(b.Lv.L["REJECT"], b2.Lv.L["REJECT"]), what)
			}
		}
		if atEnd && full {
			for _, n := range []string{"BLOCKMAP", "NODES", "SEGS", "SSECTORS", "VERTEXES"} {
				if n == "BLOCKMAP" && !strings.Contains(opts[0], "z=") {
					continue // any line may be the header of the lists
				}
				if !bytes.Equal(b.Lv.L[n], b2.Lv.L[n]) {
					c.Failf("lumps: %s is another one than without dummies: %s: %s", n, bytesDiff(b.Lv.L[n], b2.Lv.L[n]), what)
				}
			}
			c.Label("lumps compared with those of the map without dummies")
		}
		if od > 0 || nd > 0 {
			c.NonTrivial(fmt.Sprint(mode, opts, nd, od, len(om.Lines)))
			c.Sample("%s, then %d dummies", what, od)
			c.Label(mode + " build with dummies")
			if od < nd {
				c.Label("dummies removed")
			}
		}

		// edits
		next := *om
		next.Lines = append([]Line{}, om.Lines...)
		edits += mode[:1]
		for i := range next.Lines {
			l := &next.Lines[i]
			if l.Action == 48 && !outDummy[i] && c.P(60) {
				l.Tag = speed()
				edits += fmt.Sprintf(" tag%d=%d", i, l.Tag)
			}
			if l.Action == 1048 && c.P(40) {
				old := l.Tag
				if old == 0 {
					continue
				}
				g := gtag()
				for j := range next.Lines {
					if next.Lines[j].Tag == old {
						next.Lines[j].Tag = g
					}
				}
				edits += fmt.Sprintf(" tag%d=%d", old, g)
			}
		}
		if c.P(30) { // the editor puts lines elsewhere
			var o []Line
			for i := range next.Lines {
				if !outDummy[i] {
					o = append(o, next.Lines[i])
				}
			}
			for i := range next.Lines {
				if outDummy[i] {
					lo := 0
					for k := range o {
						if keyOf(&o[k]) == keyOf(&next.Lines[i]) && o[k].Action == 48 {
							lo = k + 1
							break
						}
					}
					k := c.Int(lo, len(o))
					o = append(o[:k:k], append([]Line{next.Lines[i]}, o[k:]...)...)
				}
			}
			next.Lines = o
			edits += " moved"
		}
		edits += "; "
		cur = &next
	}
}

var _ = reg(&Prop{
	ID: "C19", Title: "Scroller speed follows the tags",
	Rule:  "a case counts when there are dummies before or after a build; distinct by options, build and numbers of lines and dummies",
	Quick: 3000, Thorough: 50000,
	Run: runScroll,
})
