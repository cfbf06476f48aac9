package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
)

// C06: what the BLOCKMAP lump looks like: header, dummy entries, merging,
// order, compression, conditional compression.

func (m *Map) longLine(i int) bool {
	x1, y1, x2, y2 := m.xy(i)
	dx, dy := math.Abs(float64(x2-x1)), math.Abs(float64(y2-y1))
	return dx >= 2000 || dy >= 2000 || math.Hypot(dx, dy) >= 2048
}

// offsetsOf: the values o= may stand for.
func (o bmOpts) offsets() (xs, ys []int) {
	switch o.Off {
	case "0":
		return []int{0}, []int{0}
	case "1":
		return []int{8}, []int{8}
	case "", "2":
		a := []int{0, 8, 16, 24, 32, 40}
		return a, a
	}
	var x, y int
	fmt.Sscanf(o.Off, "%d,%d", &x, &y)
	return []int{x}, []int{y}
}

func contains(a []int, v int) bool {
	for _, x := range a {
		if x == v {
			return true
		}
	}
	return false
}

// checkHeader: origin and size of the grid.
func (bm *BMap) checkHeader(m *Map, in []bool, o bmOpts) error {
	x0, y0, x1, y1, any := boundsOf(m, in)
	if !any {
		return nil
	}
	xs, ys := o.offsets()
	ox, oy := x0-bm.X, y0-bm.Y
	if len(xs) == 1 && (x0-xs[0] < -32768 || y0-ys[0] < -32768) {
		// the origin cannot be represented
		if ox != 0 || oy != 0 {
			return fmt.Errorf("header: offset (%d,%d) does not fit the map, (0,0) is expected in its place, not (%d,%d)", xs[0], ys[0], ox, oy)
		}
	} else if !contains(xs, ox) || !contains(ys, oy) {
		return fmt.Errorf("header: the grid starts at offset (%d,%d), not among those asked for (%v, %v)", ox, oy, xs, ys)
	}
	if w, h := (x1-bm.X)>>7+1, (y1-bm.Y)>>7+1; bm.W != w || bm.H != h {
		return fmt.Errorf("header: %dx%d blocks, the lines need %dx%d", bm.W, bm.H, w, h)
	}
	return nil
}

// checkDummy: the first word of every list.
func (bm *BMap) checkDummy(m *Map, in []bool, z int) error {
	if z == 0 {
		return nil // verified with the lists
	}
	d := bm.Lists[0][0]
	for k, l := range bm.Lists {
		if z == 2 && l[0] != 0 {
			return fmt.Errorf("dummy: list of block %d starts with %d although the dummy must be linedef 0", k, l[0])
		}
		if d != l[0] {
			d = -1
		}
	}
	return nil
}

// stored: distinct lists of the lump by word offset, ends included.
func (bm *BMap) stored() (at []int, list map[int][]int) {
	list = map[int][]int{}
	for k, o := range bm.Off {
		if _, ok := list[o]; !ok {
			list[o] = bm.Lists[k]
			at = append(at, o)
		}
	}
	sort.Ints(at)
	return
}

// checkStorage: identical lists are stored once, nothing is wasted, a largest
// list comes last.
func (bm *BMap) checkStorage(skip int, nested bool) error {
	at, list := bm.stored()
	table := 4 + bm.W*bm.H
	seen := map[string]int{}
	longest := 0
	for _, o := range at {
		key := fmt.Sprint(list[o][skip:])
		if p, ok := seen[key]; ok && !nested {
			return fmt.Errorf("merging: the lists at %d and %d hold the same lines %v", p, o, list[o][skip:])
		}
		seen[key] = o
		longest = max(longest, len(list[o])-skip)
	}
	end := table
	steal := at[0] == table-1
	for i, o := range at {
		e := o + len(list[o]) + 1
		if nested {
			if o > end {
				return fmt.Errorf("waste: words %d to %d belong to no list", end, o)
			}
			end = max(end, e)
			continue
		}
		if i == 0 && steal {
			end = e
			continue
		}
		if o != end {
			return fmt.Errorf("waste: a list ends at word %d, the next one starts at %d", end, o)
		}
		end = e
	}
	if end != bm.Words {
		return fmt.Errorf("waste: the lists end at word %d, the lump at %d", end, bm.Words)
	}
	if last := len(list[at[len(at)-1]]) - skip; !nested && last != longest {
		return fmt.Errorf("order: the last list has %d lines, the longest %d", last, longest)
	}
	return nil
}

// checkDummyChoice: with z=1 all lists, except those that are tails of others,
// start with the same dummy, which is chosen as documented.
func (bm *BMap) checkDummyChoice(m *Map, in []bool) error {
	at, list := bm.stored()
	d, end := -1, 0
	for _, o := range at {
		l := list[o]
		if o+len(l) < end {
			continue // the tail of another list
		}
		end = o + len(l) + 1
		if d >= 0 && l[0] != d {
			return fmt.Errorf("dummy: lists at words %d and %d start with different dummies %d and %d", at[0], o, d, l[0])
		}
		d = l[0]
	}
	if d >= len(m.Lines) {
		return fmt.Errorf("dummy: linedef %d of %d", d, len(m.Lines))
	}
	short := false
	for i := range m.Lines {
		if in[i] && !m.longLine(i) {
			short = true
		}
	}
	if short && (m.longLine(d) || !in[d]) {
		return fmt.Errorf("dummy: linedef %d, which is long or kept out of the blockmap, was chosen although there are others", d)
	}
	last := 4 + bm.W*bm.H - 1
	stolen := bm.Off[len(bm.Off)-1] == last
	if stolen && d != last {
		return fmt.Errorf("dummy: the last block's list starts in its own table cell %d but the dummy is %d", last, d)
	}
	if !stolen && d != 0 && in[0] && !m.longLine(0) {
		return fmt.Errorf("dummy: linedef %d although linedef 0 would do and no word is saved", d)
	}
	return nil
}

func subset(a, b []int) bool {
	if len(a) > len(b) {
		return false
	}
	in := map[int]bool{}
	for _, v := range b {
		in[v] = true
	}
	for _, v := range a {
		if !in[v] {
			return false
		}
	}
	return true
}

var _ = reg(&Prop{
	ID: "C06", Title: "BLOCKMAP layout and compression",
	Rule:  "a case counts when a blockmap of more than one block with at least two distinct lists was checked; distinct by options, grid size, words and number of lines",
	Quick: 5000, Thorough: 150000,
	Run: func(c *C) {
		var m *Map
		if c.D.P(35) {
			m = genBundle(c.D, "MAP01", false)
		} else if c.D.P(25) {
			m = genDense(c.D, "MAP01")
		} else {
			m = genBmMap(c.D)
		}
		o := genBmOpts(c.D)
		o.T, o.E = 0, -1
		if c.D.P(25) {
			o.E = pick(c.D, 1, 2)
		}
		if c.D.P(60) && len(o.S)+len(o.A) > 0 {
			// comparisons need a fixed offset
			o.Off = pick(c.D, "0", "1", "17,90")
		}
		fixed := o.Off != "" && o.Off != "2"
		b, data := c.runBlockmap(m, o.arg())
		in := inBlockmap(b.Out)
		if _, _, _, _, any := boundsOf(b.Out, in); !any {
			c.Label("no line belongs in the blockmap")
			return
		}
		if len(data) > 0 {
			bm, err := decodeBlockmap(data)
			if err != nil {
				c.Failf("decode: %v", err)
			}
			if err := bm.checkHeader(b.Out, in, o); err != nil {
				c.Failf("%v", err)
			}
			skip := o.skip()
			for k, l := range bm.Lists {
				if len(l) < skip {
					c.Failf("dummy: block %d has no dummy entry at the start of its list", k)
				}
			}
			if err := bm.checkDummy(b.Out, in, o.Z); err != nil && o.S == "" && o.A == "" {
				c.Failf("%v", err)
			}
			if o.S == "" { // s may also pick lists out of others
				if err := bm.checkStorage(skip, false); err != nil {
					c.Failf("%v", err)
				}
			} else if err := bm.checkStorage(skip, true); err != nil {
				c.Failf("%v", err)
			}
			if o.Z != 0 && o.Z != 2 {
				if err := bm.checkDummyChoice(b.Out, in); err != nil {
					c.Failf("%v", err)
				}
				if bm.Off[len(bm.Off)-1] == 4+bm.W*bm.H-1 {
					c.Label("word stolen")
					if o.S != "" {
						c.Label("word stolen, subset compression")
					}
				}
			}
			at, list := bm.stored()
			if o.A == "a" {
				for _, p := range at {
					for _, q := range at {
						if p != q && subset(list[p][skip:], list[q][skip:]) {
							c.Failf("aggressive: list %v is kept although %v contains it", list[p][skip:], list[q][skip:])
						}
					}
				}
			}
			if len(at) > 1 {
				c.NonTrivial(fmt.Sprint(o.arg(), bm.W, bm.H, bm.Words, len(m.Lines)))
				c.Sample("%s | %s | %dx%d blocks, %d lists, %d words", m.describe(), o.arg(), bm.W, bm.H, len(at), bm.Words)
			}
		}
		if !fixed || o.S == "" && o.A == "" {
			return
		}
		// compression never costs anything, and conditional compression is used
		// only where it is needed
		run := func(s, a string) ([]byte, *BMap) {
			q := o
			q.S, q.A, q.E = s, a, -1
			_, d := c.runBlockmap(m, q.arg())
			if len(d) == 0 {
				return d, nil
			}
			bm, err := decodeBlockmap(d)
			if err != nil {
				c.Failf("decode: %v", err)
			}
			return d, bm
		}
		plain, pb := run("", "")
		sub, sb := run("s", "")
		agg, ab := run("", "a")
		if pb != nil && (sb == nil || sb.Words > pb.Words+1) {
			c.Failf("size: subset compression makes %d words of %d", len(sub)/2, pb.Words)
		}
		if pb != nil && (ab == nil || ab.Words > pb.Words+1) {
			c.Failf("size: aggressive compression makes %d words of %d", len(agg)/2, pb.Words)
		}
		if sb != nil && ab != nil && ab.Words > sb.Words+1 { // a word can be saved if the list of the last block is no subset
			c.Failf("size: aggressive compression makes %d words, lossless one %d", ab.Words, sb.Words)
		}
		if pb != nil && sb != nil && sb.Words < pb.Words {
			c.Label("subset compression helps")
		}
		if o.S != "s?" && o.A != "a?" {
			return
		}
		limit := 32768
		if o.E == 2 {
			limit = 65536
		}
		fits := func(bm *BMap) bool { return bm != nil && bm.MaxOff < limit }
		levels := [][]byte{plain}
		bms := []*BMap{pb}
		if o.S == "s" {
			levels, bms = nil, nil
		}
		if o.S != "" {
			levels, bms = append(levels, sub), append(bms, sb)
		}
		if o.A == "a" {
			levels, bms = [][]byte{agg}, []*BMap{ab}
		} else if o.A == "a?" {
			levels, bms = append(levels, agg), append(bms, ab)
		}
		for i := range levels {
			if fits(bms[i]) || i == len(levels)-1 {
				if !bytes.Equal(data, levels[i]) {
					c.Failf("conditional: %s does not give the blockmap that level %d of its compressions gives (%d bytes, not %d)", o.arg(), i, len(data), len(levels[i]))
				}
				c.Labelf("conditional compression, level %d of %d", i, len(levels))
				break
			}
		}
	},
})
