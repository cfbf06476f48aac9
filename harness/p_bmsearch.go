package main

import (
	"bytes"
	"fmt"
	"sort"
)

// C07: the search over blockmap offsets returns the best candidate.

// bmCand is what the search compares.
type bmCand struct {
	OX, OY, Words, MaxOff int
	ZeroDummy             bool
}

func (a bmCand) class() int {
	if a.MaxOff < 32768 {
		return 0
	} else if a.MaxOff < 65536 {
		return 1
	}
	return 2
}

// better: -1 when a is better than b, 1 when worse, 0 when as good; offsets not
// considered.
func (a bmCand) cmp(b bmCand, preferZero bool) int {
	if a.class() != b.class() {
		return sign(a.class() - b.class())
	}
	if a.Words != b.Words {
		return sign(a.Words - b.Words)
	}
	if preferZero && a.ZeroDummy != b.ZeroDummy {
		if a.ZeroDummy {
			return -1
		}
		return 1
	}
	return 0
}

func (a bmCand) before(b bmCand) bool { return a.OY < b.OY || a.OY == b.OY && a.OX < b.OX }

func sign(v int) int {
	if v < 0 {
		return -1
	} else if v > 0 {
		return 1
	}
	return 0
}

// axisBlockmap: model of the size of a blockmap without subset compression, for
// maps with lines along the axes only.
func axisBlockmap(m *Map, in []bool, ox, oy, z int) bmCand {
	x0, y0, x1, y1, _ := boundsOf(m, in)
	bx, by := x0-ox, y0-oy
	w, h := (x1-bx)>>7+1, (y1-by)>>7+1
	blocks := map[int][]byte{}
	longest, longestAt := 0, 0
	for i := range m.Lines {
		if !in[i] {
			continue
		}
		a, b, c, d := m.xy(i)
		for v := (min(b, d) - by) >> 7; v <= (max(b, d)-by)>>7; v++ {
			for u := (min(a, c) - bx) >> 7; u <= (max(a, c)-bx)>>7; u++ {
				blocks[v*w+u] = append(blocks[v*w+u], byte(i), byte(i>>8))
			}
		}
	}
	distinct := map[string]bool{}
	sum, head := 0, 1
	if z == 0 {
		head = 0
	}
	longestAt = -1
	for k, l := range blocks {
		if n := len(l) / 2; n > longest || n == longest && k < longestAt {
			longest, longestAt = n, k
		}
		if s := string(l); !distinct[s] {
			distinct[s] = true
			sum += len(l)/2 + 1 + head
		}
	}
	if len(blocks) < w*h {
		sum += 1 + head
	}
	words := 4 + w*h + sum
	ok := func(i int) bool { return in[i] && !m.longLine(i) }
	zero := true
	if z == 1 {
		last := 4 + w*h - 1
		if last < len(m.Lines) && ok(last) && !bytes.Equal(blocks[w*h-1], blocks[longestAt]) {
			words--
			zero = false
		} else if !ok(0) {
			for i := range m.Lines {
				if ok(i) {
					zero = i == 0
					break
				}
			}
		}
	}
	return bmCand{ox, oy, words, words - longest - 1 - head, zero}
}

// genAxisMap: lines along the axes only, few blocks.
func genAxisMap(d *D) *Map {
	m := genBundle(d, "MAP01", true)
	return m
}

// genLimitMap: lines along the axes, whose blockmap is about as large as one of
// the limits of the format.
func genLimitMap(d *D) *Map {
	b := &mapBuilder{m: &Map{Name: "MAP01"}, d: d, vid: map[V]int{}}
	m := b.m
	s := b.sector()
	limit, side := 32768, d.Int(130, 178)*128
	if d.P(40) {
		limit, side = 65536, d.Int(200, 252)*128
	}
	x0 := -side/2 + d.Near(500)
	y0 := -side/2 + d.Near(500)
	b.line(b.v(x0, y0), b.v(x0+64, y0), s, -1, false)
	b.line(b.v(x0+side+d.Int(0, 127), y0+side), b.v(x0+side, y0+side+d.Int(0, 127)), s, -1, false)
	m.Lines[1].V2 = b.v(m.Verts[m.Lines[1].V1].X, y0+side-d.Int(1, 100))
	target := limit + d.Near(pick(d, 300, 60, 10))
	if d.P(40) { // one long list at the end
		x, y := x0+side/2, y0+side/2
		for i := d.Int(1, 200); i > 0; i-- {
			b.line(b.v(x, y), b.v(x, y+10), s, -1, false)
		}
	}
	r := d.sub()
	in := func() []bool { return inBlockmap(m) }
	for step := 4096; ; {
		c := axisBlockmap(m, in(), 0, 0, 1)
		lack := target - c.MaxOff
		if lack <= 0 || len(m.Lines) > 12000 {
			break
		}
		step = max(1, lack/10)
		for i := 0; i < step; i++ {
			x, y := x0+r.Intn(side), y0+r.Intn(side)
			l := 10 + r.Intn(200)
			if r.Intn(2) == 0 {
				b.line(b.v(x, y), b.v(min(x+l, x0+side), y), s, -1, false)
			} else {
				b.line(b.v(x, y), b.v(x, min(y+l, y0+side)), s, -1, false)
			}
		}
	}
	m.Things = append(m.Things, Thing{Type: 1, Flags: 7})
	return m
}

func candOf(m *Map, in []bool, data []byte) (bmCand, *BMap, error) {
	bm, err := decodeBlockmap(data)
	if err != nil {
		return bmCand{}, nil, err
	}
	x0, y0, _, _, _ := boundsOf(m, in)
	c := bmCand{OX: x0 - bm.X, OY: y0 - bm.Y, Words: bm.Words, MaxOff: bm.MaxOff}
	c.ZeroDummy = len(bm.Lists[0]) > 0 && bm.Lists[0][0] == 0
	return c, bm, nil
}

// expectSearch checks the result of a search against all candidates, given in
// the order in which they are tried. got = nil: BLOCKMAP left empty.
func expectSearch(cands []bmCand, got *bmCand, e int, det, preferZero bool) error {
	good := func(c bmCand) bool { return e == 1 && c.class() == 0 || e == 2 && c.class() <= 1 }
	if e > 0 {
		var first *bmCand
		for i := range cands {
			if good(cands[i]) {
				first = &cands[i]
				break
			}
		}
		if first != nil {
			if got == nil {
				return fmt.Errorf("nothing was written although offset (%d,%d) gives a blockmap that is good enough", first.OX, first.OY)
			}
			if !good(*got) {
				return fmt.Errorf("the result at offset (%d,%d) is not within the limit, the one at (%d,%d) is", got.OX, got.OY, first.OX, first.OY)
			}
			if det && (got.OX != first.OX || got.OY != first.OY) {
				return fmt.Errorf("deterministic: the result is the one for offset (%d,%d), the first that is good enough is (%d,%d)", got.OX, got.OY, first.OX, first.OY)
			}
			return nil
		}
	}
	best := cands[0]
	for _, c := range cands[1:] {
		if c.cmp(best, preferZero) < 0 {
			best = c
		}
	}
	if got == nil {
		if best.class() < 2 {
			return fmt.Errorf("nothing was written although offset (%d,%d) gives a blockmap with offsets up to %d", best.OX, best.OY, best.MaxOff)
		}
		return nil
	}
	if best.class() == 2 {
		return fmt.Errorf("a blockmap was written although all candidates are too big")
	}
	if k := best.cmp(*got, preferZero); k != 0 {
		return fmt.Errorf("the result at offset (%d,%d) (%d words, largest offset %d, linedef 0 is dummy: %v) is not the best: offset (%d,%d) gives %d words, largest offset %d, linedef 0: %v", got.OX, got.OY, got.Words, got.MaxOff, got.ZeroDummy, best.OX, best.OY, best.Words, best.MaxOff, best.ZeroDummy)
	}
	if det && (got.OX != best.OX || got.OY != best.OY) {
		return fmt.Errorf("deterministic: the result is the one for offset (%d,%d), the first that is as good is (%d,%d)", got.OX, got.OY, best.OX, best.OY)
	}
	return nil
}

var _ = reg(&Prop{
	ID: "C07", Title: "Blockmap offset search finds the best candidate",
	Rule:  "a case counts when the candidates differ in size or in whether they fit the limits; distinct by options, mode, sizes of the first candidate and the result",
	Quick: 1000, Thorough: 40000,
	Run: func(c *C) {
		d := c.D
		o := genBmOpts(d)
		o.S, o.A = "", ""
		det := d.P(60)
		mode := d.Pick(8) // 0-2 model, 3-4 limit, 5 o=3 and o=4, 6-7 against single runs
		var m *Map
		var extra []string
		if det {
			extra = append(extra, "-d")
		}
		o.Off = pick(d, "", "2")
		switch {
		case mode == 3 || mode == 4:
			m = genLimitMap(d)
			c.Label("about as large as a limit")
		case mode == 5:
			m = genAxisMap(d)
			o.Off = pick(d, "3", "4")
			c.Label("all offsets o=" + o.Off)
		case mode < 3:
			m = genAxisMap(d)
			c.Label("36 offsets, model")
		default:
			if d.P(50) {
				m = genBundle(d, "MAP01", false)
			} else {
				m = genBmMap(d)
			}
			o.S = pick(d, "", "", "s")
			o.A = pick(d, "", "", "a")
			c.Label("36 offsets, against single runs")
		}
		b, data := c.runBlockmap(m, o.arg(), extra...)
		in := inBlockmap(b.Out)
		x0, y0, x1, y1, any := boundsOf(b.Out, in)
		if !any {
			c.Label("no line belongs in the blockmap")
			return
		}
		z := o.Z
		if z < 0 {
			z = 1
		}
		preferZero := z == 1 && in[0] && !m.longLine(0)
		var got *bmCand
		if len(data) > 0 {
			g, _, err := candOf(b.Out, in, data)
			if err != nil {
				c.Failf("decode: %v", err)
			}
			got = &g
		}
		// candidates
		n, step := 48, 8
		if mode == 5 {
			n, step = 128, 1
		}
		var cands, noExtra []bmCand
		for oy := 0; oy < n && y0-oy >= -32768; oy += step {
			for ox := 0; ox < n && x0-ox >= -32768; ox += step {
				var k bmCand
				if mode >= 6 {
					q := o
					q.Off, q.E, q.T = fmt.Sprintf("%d,%d", ox, oy), -1, 0
					_, dd := c.runBlockmap(m, q.arg())
					if len(dd) == 0 {
						k = bmCand{OX: ox, OY: oy, MaxOff: 1 << 20, Words: 1 << 20}
					} else {
						k, _, _ = candOf(b.Out, in, dd)
						if k.OX != ox || k.OY != oy {
							c.Failf("fixed: offset %d,%d was asked for, the grid is at %d,%d", ox, oy, k.OX, k.OY)
						}
						if got != nil && got.OX == ox && got.OY == oy && !bytes.Equal(data, dd) {
							c.Failf("differs: the result of the search is at offset %d,%d but not the blockmap that this offset gives by itself", ox, oy)
						}
					}
					// subset compression may change what the dummies are
					if o.S != "" || o.A != "" {
						k.ZeroDummy = true
					}
				} else {
					k = axisBlockmap(b.Out, in, ox, oy, z)
				}
				cands = append(cands, k)
				if (x1-x0+ox)>>7 == (x1-x0)>>7 || (y1-y0+oy)>>7 == (y1-y0)>>7 {
					noExtra = append(noExtra, k)
				}
			}
		}
		if got != nil && (o.S != "" || o.A != "") {
			got.ZeroDummy = true
			if det {
				preferZero = false
			}
		}
		if got != nil && mode < 6 {
			if w := axisBlockmap(b.Out, in, got.OX, got.OY, z); w != (bmCand{got.OX, got.OY, got.Words, got.MaxOff, w.ZeroDummy}) || z == 1 && w.ZeroDummy != got.ZeroDummy {
				c.Failf("model: at offset (%d,%d) the blockmap has %d words, largest offset %d, linedef 0 as dummy: %v; expected %d, %d, %v", got.OX, got.OY, got.Words, got.MaxOff, got.ZeroDummy, w.Words, w.MaxOff, w.ZeroDummy)
			}
		}
		compressed := o.S != "" || o.A != ""
		err := expectSearch(cands, got, o.E, det && !compressed, preferZero && !compressed)
		if err != nil && o.Off == "3" {
			err = expectSearch(noExtra, got, o.E, det, preferZero)
		}
		if err != nil {
			c.Failf("search: %v", err)
		}
		sz := map[[2]int]bool{}
		cl := map[int]bool{}
		for _, k := range cands {
			sz[[2]int{k.Words, k.MaxOff}] = true
			cl[k.class()] = true
		}
		if len(cl) > 1 {
			c.Label("candidates within and beyond a limit")
		}
		if len(sz) > 1 {
			s := 0
			if got != nil {
				s = got.Words
			}
			c.NonTrivial(fmt.Sprint(o.arg(), mode, cands[0].Words, s, det))
			ws := []int{}
			for k := range sz {
				ws = append(ws, k[0])
			}
			sort.Ints(ws)
			c.Sample("%s | %s det=%v | %d candidates of %d to %d words, result %d", m.describe(), o.arg(), det, len(cands), ws[0], ws[len(ws)-1], s)
		}
	},
})
