package main

import "fmt"

// Decoder and geometric reference of the BLOCKMAP lump.

type BMap struct {
	X, Y, W, H int
	Off        []int   // word offset of the list of each block
	Lists      [][]int // raw words of each list, terminator excluded
	MaxOff     int
	Words      int
}

func decodeBlockmap(b []byte) (*BMap, error) {
	if len(b)%2 != 0 || len(b) < 8 {
		return nil, fmt.Errorf("BLOCKMAP is %d bytes long", len(b))
	}
	m := &BMap{X: s16(b, 0), Y: s16(b, 2), W: u16(b, 4), H: u16(b, 6), Words: len(b) / 2}
	n := m.W * m.H
	if n == 0 || 4+n > m.Words {
		return nil, fmt.Errorf("BLOCKMAP of %d words cannot hold %dx%d blocks", m.Words, m.W, m.H)
	}
	for i := 0; i < n; i++ {
		o := u16(b, 8+2*i)
		// the lists follow the table; the first word of a list that has a
		// dummy entry may be shared with the last cell of the table
		if o < 4+n-1 {
			return nil, fmt.Errorf("block %d: offset %d points inside the header or the offset table (%d words)", i, o, 4+n)
		}
		var l []int
		p := o
		for {
			if p >= m.Words {
				return nil, fmt.Errorf("block %d: list at %d runs past the end of the lump (%d words)", i, o, m.Words)
			}
			v := u16(b, 2*p)
			if v == 0xFFFF && !(p == 4+n-1) {
				break
			}
			l = append(l, v)
			p++
		}
		m.Off = append(m.Off, o)
		m.Lists = append(m.Lists, l)
		m.MaxOff = max(m.MaxOff, o)
	}
	return m, nil
}

// segRect: does the closed segment intersect the closed rectangle; exact.
func segRect(x1, y1, x2, y2, l, b, r, t int) bool {
	if max(x1, x2) < l || min(x1, x2) > r || max(y1, y2) < b || min(y1, y2) > t {
		return false
	}
	dx, dy := x2-x1, y2-y1
	if dx == 0 || dy == 0 {
		return true
	}
	pos, neg := false, false
	for _, c := range [4][2]int{{l, b}, {l, t}, {r, b}, {r, t}} {
		s := dx*(c[1]-y1) - dy*(c[0]-x1)
		if s >= 0 {
			pos = true
		}
		if s <= 0 {
			neg = true
		}
	}
	return pos && neg
}

// inBlockmap: lines that belong in the blockmap (no culling).
func inBlockmap(m *Map) []bool {
	r := make([]bool, len(m.Lines))
	for i := range m.Lines {
		r[i] = m.Hexen || m.Lines[i].Tag != 999
	}
	return r
}

func boundsOf(m *Map, in []bool) (x0, y0, x1, y1 int, any bool) {
	x0, y0, x1, y1 = 1<<30, 1<<30, -(1 << 30), -(1 << 30)
	for i := range m.Lines {
		if in[i] {
			a, b, c, d := m.xy(i)
			x0, x1 = min(x0, a, c), max(x1, a, c)
			y0, y1 = min(y0, b, d), max(y1, b, d)
			any = true
		}
	}
	return
}

// checkGrid: the grid covers every line that belongs in it.
func (bm *BMap) checkGrid(m *Map, in []bool) error {
	x0, y0, x1, y1, any := boundsOf(m, in)
	if !any {
		return nil
	}
	if bm.X > x0 || bm.Y > y0 || x1 >= bm.X+128*bm.W || y1 >= bm.Y+128*bm.H {
		return fmt.Errorf("grid: %dx%d blocks from (%d,%d) do not cover lines that go from (%d,%d) to (%d,%d)", bm.W, bm.H, bm.X, bm.Y, x0, y0, x1, y1)
	}
	return nil
}

// checkLists compares every block with the geometry. skip = number of leading
// words the engine (or port) ignores; superset = extra lines are permitted.
func (bm *BMap) checkLists(m *Map, in []bool, skip int, superset bool) error {
	must := make([]map[int]bool, bm.W*bm.H) // line -> definitely inside
	for i := range must {
		must[i] = map[int]bool{}
	}
	for i := range m.Lines {
		if !in[i] {
			continue
		}
		x1, y1, x2, y2 := m.xy(i)
		cx0, cx1 := (min(x1, x2)-1-bm.X)>>7, (max(x1, x2)+1-bm.X)>>7
		cy0, cy1 := (min(y1, y2)-1-bm.Y)>>7, (max(y1, y2)+1-bm.Y)>>7
		for cy := max(0, cy0); cy <= min(bm.H-1, cy1); cy++ {
			for cx := max(0, cx0); cx <= min(bm.W-1, cx1); cx++ {
				l, b := bm.X+128*cx, bm.Y+128*cy
				if segRect(x1, y1, x2, y2, l, b, l+127, b+127) {
					must[cy*bm.W+cx][i] = true
				} else if segRect(x1, y1, x2, y2, l-1, b-1, l+128, b+128) {
					must[cy*bm.W+cx][i] = false // may be listed
				}
			}
		}
	}
	for k, raw := range bm.Lists {
		if len(raw) < skip {
			return fmt.Errorf("lists: block %d has no dummy entry at the start of its list", k)
		}
		if skip > 0 && raw[0] >= len(m.Lines) {
			return fmt.Errorf("lists: the list of block %d starts with linedef %d of %d", k, raw[0], len(m.Lines))
		}
		seen := map[int]bool{}
		for _, v := range raw[skip:] {
			if v >= len(m.Lines) {
				return fmt.Errorf("lists: block %d lists linedef %d of %d", k, v, len(m.Lines))
			}
			if seen[v] {
				return fmt.Errorf("lists: block %d lists linedef %d twice", k, v)
			}
			seen[v] = true
			if !in[v] {
				return fmt.Errorf("lists: block %d lists linedef %d, which is to be left out of the blockmap", k, v)
			}
			if _, ok := must[k][v]; !ok && !superset {
				x1, y1, x2, y2 := m.xy(v)
				return fmt.Errorf("lists: block %d at (%d,%d) lists linedef %d (%d,%d)-(%d,%d), which is not in it", k, bm.X+128*(k%bm.W), bm.Y+128*(k/bm.W), v, x1, y1, x2, y2)
			}
		}
		for v, sure := range must[k] {
			if sure && !seen[v] {
				x1, y1, x2, y2 := m.xy(v)
				return fmt.Errorf("lists: block %d at (%d,%d) does not list linedef %d (%d,%d)-(%d,%d), which passes through it", k, bm.X+128*(k%bm.W), bm.Y+128*(k/bm.W), v, x1, y1, x2, y2)
			}
		}
	}
	return nil
}
