package main

import "fmt"

type bmOpts struct {
	Off    string // value of o=, "" = default
	Z      int    // -1 default (1)
	S, A   string // "", "s", "s?" ...
	E      int    // -1 default
	T      int
	Extras []string
}

func (o bmOpts) arg() string {
	s := "-b"
	if o.Off != "" {
		s += "o=" + o.Off
	}
	s += o.S + o.A
	if o.Z >= 0 {
		s += fmt.Sprintf("z=%d", o.Z)
	}
	if o.E >= 0 {
		s += fmt.Sprintf("e=%d", o.E)
	}
	if o.T > 0 {
		s += fmt.Sprintf("t=%d", o.T)
	}
	return s
}

func (o bmOpts) skip() int {
	if o.Z == 0 {
		return 0
	}
	return 1
}

func genBmOpts(d *D) bmOpts {
	o := bmOpts{Z: pick(d, -1, 0, 1, 2), E: -1}
	switch d.Pick(4) {
	case 1:
		o.Off = fmt.Sprint(d.Int(0, 2))
	case 2, 3:
		o.Off = fmt.Sprintf("%d,%d", d.Int(0, 127), d.Int(0, 127))
	}
	o.S = pick(d, "", "", "s", "s?")
	o.A = pick(d, "", "", "", "a", "a?")
	if d.P(15) {
		o.E = d.Int(0, 2)
	}
	if d.P(30) {
		o.T = d.Int(1, 4)
	}
	return o
}

func genBmMap(d *D) *Map {
	if d.P(40) {
		m := genMap(d, "MAP01", MapOpts{Tri: 30, MaxCols: pick(d, 4, 8), MaxRows: pick(d, 4, 8), Hexen: 20, Specials: true, SelfRef: true, ZeroLen: true, Islands: true, Polyobj: true})
		return m
	}
	if d.P(20) {
		return genBundle(d, "MAP01", false)
	}
	if d.P(40) {
		return genDense(d, "MAP01")
	}
	return genSoup(d, "MAP01", pick(d, 12, 60, 200))
}

// runBlockmap rebuilds only the blockmap.
func (c *C) runBlockmap(m *Map, arg string, extra ...string) (*built, []byte) {
	b := c.buildMap(m, append([]string{arg, "-n-", "-r-"}, extra...)...)
	return b, b.Lv.L["BLOCKMAP"]
}

var _ = reg(&Prop{
	ID: "C05", Title: "BLOCKMAP lists exactly the lines in each block",
	Rule:  "a case counts when the tool wrote a non-empty blockmap of more than one block; distinct by options, grid size, words and number of lines",
	Quick: 5000, Thorough: 200000,
	Run: func(c *C) {
		m := genBmMap(c.D)
		o := genBmOpts(c.D)
		b, data := c.runBlockmap(m, o.arg())
		in := inBlockmap(b.Out)
		_, _, _, _, any := boundsOf(b.Out, in)
		if !any {
			c.Label("no line belongs in the blockmap")
			return
		}
		if len(data) == 0 {
			c.Label("too big")
			if err := bmMustBeTooBig(b.Out, in, o); err != nil {
				c.Failf("empty: %v", err)
			}
			return
		}
		bm, err := decodeBlockmap(data)
		if err != nil {
			c.Failf("decode: %v", err)
		}
		if err := bm.checkGrid(b.Out, in); err != nil {
			c.Failf("%v", err)
		}
		if err := bm.checkLists(b.Out, in, o.skip(), o.A != ""); err != nil {
			c.Failf("%v", err)
		}
		if o.A == "a" {
			c.Label("aggressive")
		} else if o.S == "s" {
			c.Label("subset")
		} else {
			c.Label("plain")
		}
		c.Labelf("z=%d", o.Z)
		if bm.MaxOff > 32767 {
			c.Label("beyond vanilla limit")
		}
		if bm.W*bm.H > 1 {
			c.NonTrivial(fmt.Sprint(o.arg(), bm.W, bm.H, bm.Words, len(m.Lines)))
			c.Sample("%s | %s | %dx%d blocks, %d words", m.describe(), o.arg(), bm.W, bm.H, bm.Words)
		}
	},
})

// bmMustBeTooBig: an empty BLOCKMAP is right only if no offset table could
// address the lists. A lower bound on what the lists need: distinct lists.
func bmMustBeTooBig(m *Map, in []bool, o bmOpts) error {
	x0, y0, x1, y1, _ := boundsOf(m, in)
	w, h := (x1-x0)>>7+2, (y1-y0)>>7+2
	total := 4 + w*h
	for i := range m.Lines {
		if !in[i] {
			continue
		}
		a, b, c, d := m.xy(i)
		dx, dy := a-c, b-d
		if dx < 0 {
			dx = -dx
		}
		if dy < 0 {
			dy = -dy
		}
		total += dx>>7 + dy>>7 + 3 // words this line can take at most
	}
	total += 2 * w * h // terminators and dummies, were every list distinct
	if total < 65000 {
		return fmt.Errorf("BLOCKMAP was left empty although a map of %d lines and %dx%d blocks needs at most %d words", len(m.Lines), w, h, total)
	}
	return nil
}
